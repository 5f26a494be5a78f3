from harness import *
from gens import *
import nsmb, ivsys, didv as dd
import copy, io
import matplotlib.pyplot as plt

CHECK = Check("P01", "Cases are calls of every public analysis entry point with random valid arguments; each is made twice on the same arguments and "
              "once on other copies of them (another memory layout, read-only); non-trivial = the call succeeded and array arguments were compared.",
              ["fill_negatives documents that it works on the array it is given; OptimumFilter, Noise, DIDV ... objects may keep references."])
qp = qetpy
U = qetpy.utils
C = qetpy.cut


def spec(rng, n):
    s = 1 + 5 * rng.rand(n // 2 + 1)
    full = np.concatenate([s, s[1:(n + 1) // 2][::-1]])
    return full


def pulse(n, k, tr=2.0, tf=12.0):
    t = np.arange(n) - k
    return np.where(t >= 0, np.exp(-t / tf) - np.exp(-t / tr), 0.0) / 0.6


def of_args(rng, batch=0):
    n = int(rng.randint(24, 64)) if rng.randint(12) else int(rng.choice([625, 1024, 4097]))
    tmpl = pulse(n, n // 2)
    shape = (batch, n) if batch else (n,)
    return dict(signal=3 * np.roll(tmpl, int(rng.randint(-3, 4))) + rng.standard_normal(shape), template=tmpl, psd=spec(rng, n), fs=1e3)


def e_ofamp(rng):
    a = of_args(rng)
    kw = dict(withdelay=bool(rng.randint(2)), coupling=str(rng.choice(["AC", "DC"])), lgcsigma=bool(rng.randint(2)), integralnorm=bool(rng.randint(2)),
              nconstrain=[None, 7][rng.randint(2)], lgcoutsidewindow=bool(rng.randint(2)))
    return a, lambda z: qp.ofamp(z["signal"], z["template"], z["psd"], z["fs"], **kw)


def e_ofpile(rng):
    a = of_args(rng)
    k = rng.randint(2)
    kw = dict(coupling=str(rng.choice(["AC", "DC"])), lgcoutsidewindow=bool(rng.randint(2)))
    if k:
        kw.update(a1=[1.5, 0.0][rng.randint(2)], t1=[0.003, 0.0][rng.randint(2)])
        kw.update(nconstrain1=[None, 9][rng.randint(2)], nconstrain2=[None, 9][rng.randint(2)])
        return a, lambda z: qp.ofamp_pileup(z["signal"], z["template"], z["psd"], z["fs"], **kw)
    return a, lambda z: qp.ofamp_pileup_stationary(z["signal"], z["template"], z["psd"], z["fs"], nconstrain=[None, 9][int(k)], **kw)


def e_chi(rng):
    b = int(rng.choice([0, 0, 3]))
    a = of_args(rng, b)
    a["amp"] = rng.standard_normal(b) if b else 2.0
    a["t0"] = rng.uniform(-.01, .01, b) * rng.randint(0, 2) if b else [0.002, 0.0][rng.randint(2)]
    cp = str(rng.choice(["AC", "DC"]))
    return a, lambda z: (qp.chi2lowfreq(z["signal"], z["template"], z["amp"], z["t0"], z["psd"], z["fs"], fcutoff=120.0, coupling=cp),
                         qp.chi2_nopulse(z["signal"], z["psd"], z["fs"], coupling=cp))


def e_of(rng):
    a = of_args(rng)
    a["other"] = rng.standard_normal(len(a["signal"]))
    cp = str(rng.choice(["AC", "DC"]))
    im = bool(rng.randint(2))
    seq = [int(k) for k in rng.randint(0, 9, 5)]
    nc = [None, 9][rng.randint(2)]
    opt = dict(lgcoutsidewindow=bool(rng.randint(2)), pulse_direction_constraint=int(rng.randint(-1, 2)))
    if nc and rng.randint(2):
        opt["windowcenter"] = int(rng.randint(-3, 4))
    two = {k: v for k, v in opt.items() if k != "pulse_direction_constraint"}
    def run(z):
        o = qp.OptimumFilter(z["signal"], z["template"], z["psd"], z["fs"], coupling=cp, integralnorm=im)
        out = []
        for k in seq:
            out.append([lambda: o.ofamp_nodelay(windowcenter=opt.get("windowcenter", 0)), lambda: o.ofamp_withdelay(nconstrain=nc, interpolate_t0=im, **opt), lambda: o.ofamp_pileup_iterative(1.0, 0.002, nconstrain=nc, interpolate_t0=im, **opt),
                        lambda: o.ofamp_pileup_stationary(nconstrain=nc, **two), lambda: o.ofamp_baseline(nconstrain=nc, interpolate_t0=im, **opt), lambda: o.chi2_nopulse(),
                        lambda: o.chi2_lowfreq(2.0, 0.001, fcutoff=100.0), lambda: (o.energy_resolution(), o.time_resolution(2.0)),
                        lambda: o.update_signal(z["other"])][k]())
        return out
    return a, run


def e_nonlin(rng):
    n = 200
    fs = 625e3
    npole = int(rng.choice([1, 2, 3, 4]))
    psd = spec(rng, n)
    o = qp.OFnonlin(psd, fs)
    if npole == 1:
        m = o.twopoletime(10.0, 20e-6, 80e-6, 100e-6)
    elif npole == 2:
        m = o.twopoletime(10.0, 20e-6, 80e-6, 100e-6)
    elif npole == 3:
        m = o.threepoletime(10.0, 3.0, 20e-6, 60e-6, 150e-6, 100e-6)
    else:
        m = o.fourpoletime(10.0, 3.0, 2.0, 20e-6, 60e-6, 150e-6, 250e-6, 100e-6)
    a = dict(pulse=m + 0.1 * rng.standard_normal(n), psd=psd)
    t = m / m.max()
    if rng.randint(2):
        a["template"] = t
    full = bool(rng.randint(2))
    kw = dict(errscale=float(rng.choice([1.0, 2.5])))
    if npole == 4 or rng.randint(2):
        g = {1: [9.0, 75e-6, 98e-6], 2: [9.0, 22e-6, 75e-6, 98e-6], 3: [9.0, 3.5, 22e-6, 55e-6, 160e-6, 98e-6],
             4: [9.0, 3.5, 2.2, 22e-6, 55e-6, 160e-6, 240e-6, 98e-6]}[npole]
        a["guess"] = np.array(g)
        if rng.randint(2):
            a["lo"], a["hi"] = np.array(g) / 10, np.array(g) * 10
        if npole == 2:
            kw["scale_amplitude"] = bool(rng.randint(2))
    plot = rng.randint(10) == 0
    def run(z):
        o = qp.OFnonlin(z["psd"], fs, template=z.get("template"))
        q = dict(kw)
        if "guess" in z:
            q["guess"] = z["guess"]
        if "lo" in z:
            q["bounds"] = (z["lo"], z["hi"])
        out = o.fit_falltimes(z["pulse"], npolefit=npole, lgcfullrtn=full, taurise=20e-6 if npole == 1 else None, lgcplot=plot and full, **q)
        if plot:
            plt.close("all")
        return out
    return a, run


def e_muontail(rng):
    n, fs = 150, 1e3
    a = dict(psd=spec(rng, n), signal=20 * np.exp(-np.arange(n) / fs / 0.03) + 0.1 * rng.standard_normal(n))
    full = bool(rng.randint(2))
    es = float(rng.choice([1.0, 0.5]))
    return a, lambda z: qp.MuonTailFit(z["psd"], fs).fitmuontail(z["signal"], lgcfullrtn=full, errscale=es)


def e_nsmb(rng):
    n = int(rng.randint(20, 40))
    nb = int(rng.randint(1, 4))
    bt = np.column_stack([np.ones(n), np.arange(n) / n, np.roll(pulse(n, n // 2), 5)][:nb])
    a = dict(s=pulse(n, n // 2), bt=bt, psd=spec(rng, n), y=rng.standard_normal(n) + 4 * pulse(n, n // 2 + 2), win=np.arange(-4, 5)[None, :], win2=np.arange(0, 3)[None, :],
             polb=rng.randint(-1, 2, nb).astype(float), pols=np.array([1.0]))
    fs = 1e3
    which = int(rng.randint(0, 3))
    pol = bool(rng.randint(2))
    extra = bool(rng.randint(2))
    def run(z):
        psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lf = qp.of_nsmb_setup(z["s"], z["bt"], z["psd"], fs)
        if which == 0:
            iP = qp.of_nsmb_getiP(P)
            return qp.of_nsmb(z["y"], phi, sbf.T, sbt, iP, psddnu.T, fs, [z["win"]] + ([z["win2"]] if extra else []), ns_, nb_, bitcomb, lfindex=5)
        if which == 1:
            kw = dict(bkgpolarityconstraint=z["polb"], sigpolarityconstraint=z["pols"]) if pol else {}
            return qp.of_nsmb_con(z["y"], phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, [z["win"]] + ([z["win2"]] if extra else []), ns_, nb_, bitcomb, lfindex=5, **kw)
        return qp.of_mb(z["y"], phi, sbf.T, sbt, iB, B, psddnu.T, fs, ns_, nb_, lfindex=5, bkgpolarityconstraint=z["polb"] if pol else None)
    return a, run


def e_nsmb_parts(rng):
    """the precomputed matrices are inputs of the later steps"""
    n = int(rng.randint(20, 40))
    bt = np.column_stack([np.ones(n), np.arange(n) / n])
    s = pulse(n, n // 2)
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lf = qp.of_nsmb_setup(s, bt, spec(rng, n), 1e3)
    a = dict(P=P, Pfs=Pfs, phi=phi, sbf=sbf, sbt=sbt, iB=iB, B=B, psddnu=psddnu, y=rng.standard_normal(n) + 4 * s, win=np.arange(-4, 5)[None, :],
             polb=np.array([1.0, -1.0]), pols=np.array([-1.0]), s=s, s2=s[:, None], bt=bt, mask=np.array([[1, 1, 1], [1, 0, 1], [0, 1, 1], [0, 0, 1]][rng.randint(4)]))
    which = int(rng.randint(0, 7))
    def run(z):
        if which == 0:
            return qp.of_nsmb_getiP(z["P"])
        if which == 1:
            return qp.of_nsmb_getPt(z["Pfs"], z["P"], bindelay=3, bitmask=z["mask"])
        if which == 2:
            return qp.of_nsmb_getPf(z["sbf"], z["psddnu"], ns_, nb_, n)
        if which == 3:
            return qp.of_nsmb_con(z["y"], z["phi"], z["Pfs"], z["P"], z["sbf"].T, z["sbt"], z["psddnu"].T, 1e3, [z["win"]], ns_, nb_, bitcomb, lfindex=5,
                                  bkgpolarityconstraint=z["polb"], sigpolarityconstraint=z["pols"])
        if which == 4:
            return qp.of_mb(z["y"], z["phi"], z["sbf"].T, z["sbt"], z["iB"], z["B"], z["psddnu"].T, 1e3, ns_, nb_, lfindex=5, bkgpolarityconstraint=z["polb"])
        if which == 5:
            return qp.of_nsmb_ffttemplate(z["s2"], z["bt"])
        return qp.maketemplate_ttlfit_nsmb(z["s"], 1e3, 200.0, lgcconstrainpolarity=True), qp.get_slope_dc_template_nsmb(n)
    return a, run


def iv_data(rng):
    nt, nch, n = 2, 2, 12
    ib = np.linspace(200e-6, 10e-6, n)[None, None] * np.ones((nt, nch, 1)) * (1 + 0.1 * rng.rand(nt, nch, 1))
    r0 = np.concatenate([np.full(4, 0.2), np.linspace(.15, .02, 4), np.zeros(4)])
    rsh, rp = 5e-3, 4e-3
    it = ib * rsh / (rsh + rp + r0)
    return ib, it + 1e-6, np.full(it.shape, 1e-8), rsh


def e_iv(rng):
    ib, it, err, rsh = iv_data(rng)
    a = dict(dites=it, dites_err=err, vb=ib * rsh, vb_err=np.full(it.shape, 1e-10), inds=np.arange(0, 4))
    a["rload"] = [np.full(it.shape[:2], 9e-3), 9e-3, np.full(it.shape, 9e-3), np.full(it.shape[:2], 9e-3)][rng.randint(4)]
    a["rload_err"] = a["rload"] * 0.1
    none = rng.randint(4) == 0
    def run(z):
        o = qp.IV(z["dites"], z["dites_err"], z["vb"], z["vb_err"], z["rload"], z["rload_err"], ["a", "b"], normalinds=None if none else z["inds"])
        o.calc_iv()
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rfit, o.rnorm]
    return a, run


def e_ibis(rng):
    ib, it, err, rsh = iv_data(rng)
    sc = bool(rng.randint(2))
    a = dict(dites=it, dites_err=err, ibias=ib, ibias_err=np.full(it.shape, 1e-10), ninds=np.arange(0, 4), scinds=np.arange(8, 12))
    off = bool(rng.randint(2)) and not sc
    if off:
        a.update(yoff=np.full(it.shape[:2] + (1,), 1e-6), yoff_err=np.full(it.shape[:2] + (1,), 1e-8))
        if rng.randint(2):
            a.update(xoff=np.full(it.shape[:2] + (1,), 1e-7), xoff_err=np.full(it.shape[:2] + (1,), 1e-9))
    if not sc and rng.randint(2):
        a.update(rp_guess=np.full([it.shape, it.shape[:2]][0], 4e-3), rp_err_guess=np.full(it.shape, 1e-4))
    def run(z):
        o = qp.IBIS(z["dites"], z["dites_err"], z["ibias"], z["ibias_err"], rsh, 1e-4, z["ninds"], chan_names=["a", "b"], fitsc=sc, scinds=z["scinds"] if sc else None,
                    **{k: z[k] for k in ("rp_guess", "rp_err_guess") if k in z})
        o.analyze(**{k: z[k] for k in ("yoff", "yoff_err", "xoff", "xoff_err") if k in z})
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rp, o.rnorm, o.ites]
    return a, run


def e_psd(rng):
    n = int(rng.randint(10, 60)) if rng.randint(10) else int(rng.choice([999, 1024, 32500]))
    d = int(rng.choice([1, 2, 3]))
    x = rng.standard_normal(((2,) * (d - 2) + (3,) if d > 1 else ()) + (n,))
    a = dict(x=x, psd=spec(rng, n))
    fo = bool(rng.randint(2))
    k = int(rng.randint(0, 4))
    def run(z):
        if k == 0:
            return qp.calc_psd(z["x"], fs=10.0, folded_over=fo)
        if k == 1:
            return qp.foldpsd(z["psd"], 10.0)
        if k == 2:
            return qp.smooth_psd(z["psd"])
        return qp.gen_noise(z["psd"], fs=10.0, ntraces=3)
    return a, run


def e_noise(rng):
    n = int(rng.randint(20, 60))
    nch = int(rng.randint(2, 4))
    a = dict(traces=rng.standard_normal((6, nch, n)) + 0.5 * rng.standard_normal((6, 1, n)) + 0.02 * np.arange(n), time=np.arange(n) / 10.0)
    names = [f"c{i}" for i in range(nch)]
    slope = bool(rng.randint(2))
    gain = float(rng.choice([1.0, 2.0]))
    def run(z):
        o = qp.Noise(z["traces"], 10.0, names, tracegain=gain, name="x", time=z["time"])
        if slope:
            o.remove_trace_slope()
        o.calculate_psd()
        o.calculate_corrcoeff()
        o.calculate_csd()
        o.calculate_uncorr_noise()
        return [o.freqs, o.psd, o.real_psd, o.imag_psd, o.corrcoeff, o.csd, o.real_csd, o.imag_csd, o.uncorrnoise, o.corrnoise]
    return a, run


def e_noise_save(rng):
    a, run0 = e_noise(rng)
    names = [f"c{i}" for i in range(a["traces"].shape[1])]
    gain, csd = float(rng.choice([1.0, 0.5])), bool(rng.randint(2))
    def run(z):
        with scratch() as d:
            o = qp.Noise(z["traces"], 10.0, names, name="x", tracegain=gain)
            o.calculate_psd()
            if csd:
                o.calculate_csd()
                o.calculate_uncorr_noise()
            o.save(d + "/")
            return [o.psd]
    return a, run


def e_outliers(rng):
    x = rng.standard_normal(int(rng.randint(20, 80)) if rng.randint(10) else int(rng.choice([1001, 5000])))
    x[:3] += 8
    y = rng.standard_normal(len(x)) + x
    a = dict(x=x, y=y)
    k = int(rng.randint(0, 8))
    ub = bool(rng.randint(2))
    a["xy"] = np.column_stack([x, y])
    a["rows"] = np.array([x, y])
    def run(z):
        if k == 0:
            return C.removeoutliers(z["x"])
        if k == 1:
            return C.iterstat(z["x"], cut=2, return_unbiased_estimates=ub)
        if k == 2:
            return C.itercov(z["x"], z["y"])
        if k == 4:
            return C.itercov(z["xy"] if ub else z["rows"].T)
        if k == 5:
            return C.itercov(z["x"], z["y"], threshold=6.0, maxiter=3)
        if k == 6:
            from qetpy.cut import _cut
            f = getattr(_cut, "symmetrizedist", None)
            return f(z["x"]) if f else 0
        if k == 7:
            return C.removeoutliers(z["x"], maxiter=3, skewtarget=0.2), C.iterstat(z["x"], cut=1.5, precision=10.0)
        return C.itercov(z["x"], z["y"], nsigma=2.0)
    return a, run


def e_cuts(rng):
    n, m = 60, 200
    t = rng.standard_normal((n, m))
    t[0] += np.linspace(0, 30, m)
    t[1] += 20 * pulse(m, 80)
    if rng.randint(2):
        t = t * -1
    a = dict(traces=t)
    k = int(rng.randint(0, 3))
    did = bool(rng.randint(2))
    al = str(rng.choice(["removeoutliers", "iterstat"]))
    if k == 2:
        a["traces"] = np.clip(t + 200 * np.exp(-np.abs(np.arange(m) - 100) / 50.0), None, 100)
    from qetpy.cut import _cut
    names = ["pileupcut", "slopecut", "baselinecut", "chi2cut"]
    w = int(rng.randint(0, 4))
    rm = bool(rng.randint(2))
    def run(z):
        if k == 0:
            return C.autocuts(z["traces"], fs=1e3, is_didv=did, sgfreq=20.0, symmetrizeflag=rm, outlieralgo=al)
        if k == 1:
            f = getattr(_cut, names[w], None)
            if f is None:
                return 0
            kw = dict(removemeans=rm) if w == 0 else dict(is_didv=did, sgfreq=20.0) if w in (1, 2) else {}
            return f(z["traces"], fs=1e3, outlieralgo=al, **kw)
        return C.get_muon_cut(z["traces"], nsatbins=5), C.get_muon_cut(z["traces"], thresh_pct=0.5, nsatbins=2.0)
    return a, run


def e_didv(rng):
    fs, sg, P = 625e3, 500.0, 1250
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1, beta=0.5, l=float(rng.choice([0.5, 8.0])), L=1e-7, tau0=2e-4)
    per = dd.response(None, P, P, 1e-6, p["rsh"], lambda f: 1 / dd.imp(p, 2, f), sg, 0.5)
    tr = np.tile(per, (10, 2)) + 0.01 * np.std(per) * rng.standard_normal((10, 2 * P))
    a = dict(traces=tr)
    k = int(rng.randint(0, 4))
    poles = int(rng.choice([1, 2]))
    half = bool(rng.randint(2))
    gain = float(rng.choice([1.0, 3.0]))
    tr = tr * gain
    opt = dict(tracegain=gain)
    if rng.randint(2):
        opt.update(dt0=float(rng.choice([-3e-6, 1e-6, 1.5e-5])))
    if rng.randint(3) == 0:
        opt.update(dutycycle=0.5)
    a = dict(traces=tr)
    if k == 1:
        pr = np.array([5e-3, 6e-3, 0.1, 0, 0, 0, 0, 0.0])
        a.update(priors=pr, cov=np.diag((0.1 * pr)**2))
    if k == 3:
        o = qp.DIDV(tr / gain, fs, sg, 1e-6, p["rsh"])
        o.processtraces()
        a = dict(tmean=np.array(o._tmean), mean=np.array(o._didvmean), std=np.array(o._didvstd))
    def run(z):
        if k == 1:
            o = qp.DIDVPriors(z["traces"], fs, sg, 1e-6, p["rsh"], add180phase=half, **opt)
            o.dofit(2, z["priors"], z["cov"])
            return [o.fitresult(2)["params"], o.fitresult(2)["cov"], o.fitresult(2)["cost"]]
        if k == 3:
            o = qp.didvinitfromdata(z["tmean"], z["mean"], z["std"], 0.0, 1e-9, fs, sg, 1e-6, p["rsh"], r0=0.1, rp=6e-3)
            o.dofit(poles)
        else:
            o = qp.DIDV(z["traces"], fs, sg, 1e-6, p["rsh"], r0=0.1, rp=6e-3, add180phase=half, autoresample=(k == 2), **opt)
            if half:
                o.processtraces()
            o.dofit(poles)
        r = o.fitresult(poles)
        return [r["params"], r["cov"], r["cost"], r["falltimes"]]
    return a, run


def e_didvmodel(rng):
    a = dict(f=np.sort(rng.uniform(-1e5, 1e5, 30)), t=np.arange(500) / 1e5, z=rng.standard_normal((5, 4)) + 1j * rng.standard_normal((5, 4)))
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1, beta=0.5, l=8.0, L=1e-7, tau0=2e-4)
    from qetpy.core.didv import compleximpedance, complexadmittance, squarewaveresponse, stdcomplex
    return a, lambda z: [compleximpedance(z["f"], **p), complexadmittance(z["f"], **p), squarewaveresponse(z["t"], 1e-6, 1e3, **p), stdcomplex(z["z"])]


def e_sim(rng):
    f = np.sort(rng.uniform(1, 1e5, 20))
    a = dict(f=f, S=1e-36 * (1 + rng.rand(20)), g=np.concatenate([f, -f])[rng.permutation(40)], S2=1e-36 * (1 + rng.rand(40)))
    def run(z):
        o = qp.sim.TESnoise(freqs=z["f"])
        return [o.s_itot(), o.s_ptot(z["f"]), o.s_itotnormal(z["f"]), o.s_itotsc(z["f"]), o.dIdP(z["f"]),
                qp.sim.energy_res_estimate(z["f"], 1e-5, z["S"], 0.5), qp.sim.energy_res_estimate(z["g"], 1e-5, z["S2"], 0.5)]
    return a, run


def e_utils(rng):
    n = int(rng.randint(30, 80)) if rng.randint(12) else int(rng.choice([1000, 1024, 4097]))
    x = rng.standard_normal(n)
    a = dict(x=x, xx=np.cumsum(rng.uniform(.1, 1, n)), y=5 - 0.05 * np.arange(n) + rng.standard_normal(n), tr=rng.standard_normal((4, n)), t=np.arange(n) / 1e3,
             cov=np.diag([1e-26, 1e-8, 1e-8]), big=np.tile(rng.standard_normal(80), 5), mono=np.sort(rng.standard_normal(n))[::-1].copy(), tri=rng.standard_normal((2, 2, n)),
             base=rng.uniform(0, 1e-6, 4)[:, None], i0=rng.uniform(0, 1e-6, 4)[:, None])
    k = int(rng.randint(0, 16))
    # values at which a shortcut would be right, but would hand out the caller's array
    frac = float(rng.choice([2.0, -3.0, 1.5, 0.0]))
    off = [0, 0.0, 1e-6][rng.randint(3)]
    rl = [0.0, 1e-2][rng.randint(2)]
    one = float(rng.choice([0.0, 1.0]))
    sg = int(rng.choice([100, 125, 625]))
    pre, post = [(10, None), (10, 25), (n, None), (5, n)][rng.randint(4)]
    fs = [None, 1e3][rng.randint(2)]
    tr = lambda z: z[["tr", "x", "tri"][k % 3]]
    def run(z):
        samp = dict(time=z["t"]) if fs is None else dict(fs=fs)
        return [lambda: U.make_decreasing(z["y"]), lambda: U.make_decreasing(z["y"], x=z["xx"]), lambda: U.calc_offset(z["tr"], fs=1e3, sgfreq=100.0, is_didv=True),
                lambda: U.lowpassfilter(tr(z), cut_off_freq=100, fs=1e3, order=2), lambda: U.powertrace_simple(tr(z), off, 1e-4, rl, 5e-3),
                lambda: U.energy_absorbed(tr(z), off, 1e-4, rl, 5e-3, indbasepre=pre, indbasepost=post, **samp), lambda: U.slope(z["xx"], z["y"]),
                lambda: U.shift(z["x"], frac), lambda: U.make_template(z["t"], 1e-3, 1e-2, offset=-0.0), lambda: U.estimate_g(1e-12, 0.05, 0.02, cov=z["cov"]),
                lambda: U.resample_data(z["big"], 625, sg), lambda: U.make_decreasing(z["mono"]), lambda: U.calc_offset(tr(z)),
                lambda: U.slope(z["t"], z["x"], removemeans=bool(one)), lambda: U.energy_absorbed(z["tr"], off, 1e-4, rl, 5e-3, baseline=z["base"], **samp),
                lambda: U.powertrace_simple(z["tr"], z["i0"], 1e-4, rl, 5e-3)][k]()
    return a, run


def e_align(rng):
    n = 400
    base = pulse(n, 150, 10.0, 40.0)
    a = dict(tr=np.array([np.roll(base, int(k)) for k in rng.randint(-20, 20, 4)]) + 0.01 * rng.standard_normal((4, n)))
    k = bool(rng.randint(2))
    return a, lambda z: U.align_traces(z["tr"], lgcjustshifts=k, n_cut=n, cut_off_freq=100.0, fs=1e3)


def e_muon(rng):
    n = 400
    i = np.full(n, 2e-6) - np.clip(4e-6 * pulse(n, 150, 3.0, 60.0), 0, 1.8e-6)
    a = dict(mu=i + 1e-10 * rng.standard_normal(n))
    k = bool(rng.randint(2))
    return a, lambda z: U.get_offset_from_muon(z["mu"], 1e-4, 0.2, 1e-2, 5e-3, nbaseline=100, lgcfullrtn=k)


ENTRIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("e_")}
# results that may differ by rounding between memory layouts, amplified by an iterative fit
LOOSE = {"nonlin", "muontail", "didv", "muon", "ibis", "iv", "align"}


def flat(v):
    """nested results as a list of arrays"""
    if isinstance(v, dict):
        return [a for k in sorted(v) for a in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [a for w in v for a in flat(w)]
    if v is None or isinstance(v, str):
        return []
    try:
        a = np.ma.filled(v, np.nan) if np.ma.isMaskedArray(v) else np.asarray(v)
    except Exception:
        return []
    return [np.array(a)] if a.dtype != object else [w for q in a.ravel() for w in flat(q)] if a.ndim else []


def flat_refs(v):
    """the same list, but of the arrays themselves where the results are arrays"""
    if isinstance(v, dict):
        return [a for k in sorted(v) for a in flat_refs(v[k])]
    if isinstance(v, (list, tuple)):
        return [a for w in v for a in flat_refs(w)]
    if isinstance(v, np.ndarray) and not np.ma.isMaskedArray(v) and v.dtype != object:
        return [v]
    return flat(v)


def relayout(v, how, rng):
    if not isinstance(v, np.ndarray):
        return copy.deepcopy(v)
    if how == "strided":
        w = np.empty(tuple(2 * s for s in v.shape), dtype=v.dtype)
        w[...] = 7
        w = w[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
    elif how == "fortran":
        w = np.asfortranarray(v.copy())
    elif how == "swapped" and v.ndim == 1:
        w = v[::-1].copy()[::-1]
    else:
        w = v.copy()
    w.flags.writeable = False
    return w


@CHECK.sub("entries", st.fixed_dictionaries(dict(entry=st.sampled_from(sorted(ENTRIES) + ["utils"] * 6), seed=SEED, how=st.sampled_from(["strided", "fortran", "swapped", "plain"]))),
           quick=4500)
def entries(c, x):
    rng = np.random.RandomState(x["seed"])
    args, run = ENTRIES[x["entry"]](rng)
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in args.items()}
    def compare(z, when):
        for k, v in keep.items():
            if isinstance(v, np.ndarray):
                c.ok(z[k].dtype == v.dtype and z[k].shape == v.shape and np.array_equal(z[k], v), f"{x['entry']}: argument '{k}' was modified {when}")
            else:
                c.ok(z[k] == v, f"{x['entry']}: argument '{k}' was modified {when}")
    np.random.seed(3)
    one = flat(run(args))
    compare(args, "by the call")
    np.random.seed(3)
    two = flat(run(args))
    compare(args, "by the second call")
    c.ok(len(one) == len(two) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") for a, b in zip(one, two)),
         f"{x['entry']}: the same call gave another result")
    np.random.seed(3)
    ro = {k: relayout(v, x["how"], rng) for k, v in args.items()}
    try:
        three = flat(run(ro))
    except ValueError as e:
        if "read-only" in str(e):
            c.fail(f"{x['entry']}: writes to its arguments ({e})")
        raise
    compare(ro, "in another layout")
    c.ok(len(one) == len(three) and all(a.shape == b.shape for a, b in zip(one, three)), f"{x['entry']}: shapes depend on the memory layout")
    if x["entry"] not in LOOSE:
        for a, b in zip(one, three):
            if a.size and a.dtype.kind in "fc":
                fin = np.abs(a[np.isfinite(a)])
                c.close(b, a, 1e-6, f"{x['entry']}: result with arguments in another memory layout ({x['how']})", scale=np.abs(a) + 1e-3 * (fin.max() if fin.size else 1))
            elif a.size:
                c.ok(np.array_equal(a, b), f"{x['entry']}: result with arguments in another memory layout ({x['how']})")
    c.nontrivial(len(one) > 0)
    c.label(x["entry"])


@CHECK.sub("fill", st.fixed_dictionaries(dict(n=st.integers(3, 40), seed=SEED)), quick=60)
def fill(c, x):
    """the documented exception fills the array it is given and returns it"""
    r = np.random.RandomState(x["seed"])
    a = r.uniform(-0.5, 1, x["n"])
    a[0] = a[-1] = 0.5
    out = U.fill_negatives(a)
    c.ok(np.all(c.arr(out) > 0) , "filled array")
    c.nontrivial()
