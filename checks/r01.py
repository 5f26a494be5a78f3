from harness import *
from gens import *
import p01
import didv as dd
import copy

CHECK = Check("R01", "Cases are calls of every public analysis entry point with one array, or all numbers and flags, given as another type of the same value "
              "(integers of several sizes, single precision, other byte order, numpy scalars, lists and tuples where array_like is documented); "
              "non-trivial = both calls returned numbers.",
              ["Values are chosen so that the other type holds them exactly.", "Sizes of integers are chosen such that the values themselves, not their squares, fit (int16 for traces only)."])
qp, U, C = qetpy, qetpy.utils, qetpy.cut
# raw traces may come as the 16 bit integers of a digitizer
RAW = {"signal", "traces", "tr", "tri", "pulse", "mu", "y", "other"}
FORMS = {"int64": np.int64, "int32": np.int32, "int16": np.int16, "uint16": np.uint16, "float32": np.float32, "bigendian": ">f8"}


def agree(c, x, one, two, tol, what):
    c.ok(len(one) == len(two) and all(a.shape == b.shape for a, b in zip(one, two)), f"{what}: another number or shape of results")
    for a, b in zip(one, two):
        if not a.size:
            continue
        if a.dtype.kind not in "fciu":
            c.ok(np.array_equal(a, b), what)
            continue
        fin = np.abs(a[np.isfinite(a)]).astype(float)
        sc = fin.max() if fin.size else 1.0
        if a.dtype.kind == "c" or b.dtype.kind == "c":
            a, b = a.astype(complex), b.astype(complex)
        else:
            a, b = a.astype(float), b.astype(float)
        c.close(b, a, tol, what, scale=sc)


class Used(dict):
    """arguments that remember which of them were read"""
    def __init__(self, *a):
        super().__init__(*a)
        self.read = []

    def __getitem__(self, k):
        self.read.append(k)
        return super().__getitem__(k)


# ---- consumers of raw traces with a gain, an offset or a period to work out
def a_didvgain(rng):
    fs, sg, P = 625e3, 500.0, 1250
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1, beta=0.5, l=float(rng.choice([0.5, 8.0])), L=1e-7, tau0=2e-4)
    per = dd.response(None, P, P, 1e-6, p["rsh"], lambda f: 1 / dd.imp(p, 2, f), sg, 0.5)
    tr = np.tile(per, (8, 2)) * 1e9 + 10 * rng.standard_normal((8, 2 * P))
    gain, k, half = float(rng.choice([1e9, 1.0, 2e9, 3.7])), int(rng.randint(3)), bool(rng.randint(2))
    def run(z):
        kw = dict(tracegain=gain, add180phase=half)
        o = qp.DIDVPriors(z["traces"], fs, sg, 1e-6, 5e-3, **kw) if k == 2 else qp.DIDV(z["traces"], fs, sg, 1e-6, 5e-3, r0=0.1, rp=6e-3, autoresample=k == 1, **kw)
        o.processtraces()
        return [o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err, o._time]
    return dict(traces=tr), run


def a_raw(rng):
    n = 4 * int(rng.randint(20, 50))
    a = dict(traces=rng.standard_normal((int(rng.randint(3, 9)), n)))
    if rng.randint(2):
        a["traces"] = np.stack([a["traces"], rng.standard_normal(a["traces"].shape)], axis=1)
    d, cp, order = bool(rng.randint(2)), int(rng.randint(8, 12)), int(rng.randint(1, 4))
    k = int(rng.randint(6))
    def run(z):
        t = z["traces"]
        one = t if t.ndim == 2 else t[:, 0]
        if k == 0:
            return [U.calc_offset(t, fs=1e3, sgfreq=4e3 / n, is_didv=d)]
        if k == 1:
            return [U.lowpassfilter(t, cut_off_freq=100, fs=1e3, order=order)]
        if k == 2:
            return [qp.calc_psd(one, fs=1e3, folded_over=d)]
        if k == 3:
            o = qp.Noise(t if t.ndim == 3 else t[:, None], 1e3, ["a"] * (t.shape[1] if t.ndim == 3 else 1), tracegain=3.0)
            o.calculate_psd()
            return [o.freqs, o.psd]
        if k == 4:
            return [U.energy_absorbed(one, 0.0, 1.0, 0.1, 0.02, fs=10.0, indbasepre=cp, indbasepost=n - 5 if d else None)]
        return [U.resample_data(one, 625, 100)]
    return a, run


ENTRIES = dict(p01.ENTRIES, didvgain=a_didvgain, raw=a_raw)
SHORT = {"int16", "uint16"}


def attempt(run, z):
    np.random.seed(3)
    try:
        with quiet():
            return p01.flat(run(z)), None
    except (Hang, Violation):
        raise
    except Exception as e:
        return None, e


@CHECK.sub("arrays", st.fixed_dictionaries(dict(entry=st.sampled_from(sorted(ENTRIES) + ["utils"] * 5 + ["raw"] * 4 + ["cuts", "of", "nsmb"]), seed=SEED, pick=st.integers(0, 30),
                                                form=st.sampled_from(["int64", "int64", "int32", "int16", "uint16", "float32", "bigendian"]))), quick=5200)
def arrays(c, x):
    rng = np.random.RandomState(x["seed"])
    args, run = ENTRIES[x["entry"]](rng)
    used = Used(args)
    if attempt(run, used)[1] is not None:
        return c.label("refused")
    names = sorted(k for k, v in args.items() if k in used.read and isinstance(v, np.ndarray) and v.dtype.kind in "fi")
    if x["form"] in SHORT:
        names = [k for k in names if k in RAW and x["entry"] != "utils"]     # (currents in Amps there)
    if not names:
        return c.label("no array of this kind")
    k = names[x["pick"] % len(names)]
    v = args[k]
    form = x["form"]
    if v.dtype.kind == "i":
        # indices stay integers
        w, f = v, {"float32": np.int16, "bigendian": ">i8"}.get(form, FORMS[form])
    elif "int" in form:
        m = np.max(np.abs(v)) or 1.0
        w, f = np.round(v / m * 1000) + (2000 if form == "uint16" else 0), FORMS[form]
    else:
        w, f = v.astype(np.float32).astype(float), FORMS[form]
    b, z = dict(args), dict(args)
    b[k], z[k] = w.copy(), w.astype(f)
    keep = z[k].copy()
    one, e1 = attempt(run, b)
    if e1 is not None:
        return c.label("refused with floats")         # (other values than the entry was made for)
    two, e2 = attempt(run, z)
    what = f"{x['entry']} with '{k}' as {np.dtype(f)}"
    if e2 is not None:
        raise Violation(f"{what}: {type(e2).__name__}: {e2}")
    c.ok(np.array_equal(z[k], keep) and z[k].dtype == keep.dtype, f"{what}: argument was modified")
    c.label(x["entry"])
    c.label(form)
    c.nontrivial(len(one) > 0)
    if f == np.float32 and x["entry"] in p01.LOOSE | {"cuts", "outliers"}:
        return c.label("shape only")                 # (rounding decides where an iteration stops)
    agree(c, x, one, two, 1e-3 if f == np.float32 else 1e-6 if x["entry"] in p01.LOOSE else 1e-9, what)


# ---- numbers: integral values, given as int, float, or numpy scalars
def n_of(rng):
    a = p01.of_args(rng)
    z = dict(fs=int(rng.choice([1, 7, 1000, 625000])), nc=int(rng.choice([3, 7, 9])), wc=int(rng.randint(-3, 4)), amp=2, t1=0, fc=int(rng.randint(1, 400)), flag=bool(rng.randint(2)), flag2=bool(rng.randint(2)),
             d=int(rng.choice([-1, 0, 1])))
    cp = str(rng.choice(["AC", "DC"]))
    def run(z):
        o = qp.OptimumFilter(a["signal"], a["template"], a["psd"], z["fs"], coupling=cp, integralnorm=z["flag"])
        return [o.ofamp_withdelay(nconstrain=z["nc"], lgcoutsidewindow=z["flag2"], pulse_direction_constraint=z["d"], windowcenter=z["wc"], interpolate_t0=z["flag"]),
                o.ofamp_pileup_iterative(z["amp"], z["t1"], nconstrain=z["nc"]), o.ofamp_pileup_stationary(nconstrain=z["nc"], lgcoutsidewindow=z["flag2"]), o.ofamp_baseline(nconstrain=z["nc"], windowcenter=z["wc"]),
                o.chi2_lowfreq(z["amp"], z["t1"], fcutoff=z["fc"]), o.time_resolution(z["amp"]),
                qp.ofamp(a["signal"], a["template"], a["psd"], z["fs"], withdelay=z["flag"], lgcsigma=z["flag2"], nconstrain=z["nc"], coupling=cp),
                qp.ofamp_pileup(a["signal"], a["template"], a["psd"], z["fs"], a1=z["amp"], t1=z["t1"], nconstrain2=z["nc"], coupling=cp),
                qp.chi2lowfreq(a["signal"], a["template"], z["amp"], z["t1"], a["psd"], z["fs"], fcutoff=z["fc"], coupling=cp)]
    return z, run


def n_nonlin(rng):
    n = 120
    psd = p01.spec(rng, n) * 1e-9
    z = dict(fs=int(rng.choice([1, 625000])), A=int(rng.randint(1, 9)), flag=bool(rng.randint(2)))
    tr, tf, t0 = 2.0 / z["fs"], 10.0 / z["fs"], 30.0 / z["fs"]
    y = qp.OFnonlin(psd, float(z["fs"])).twopoletime(float(z["A"]), tr, tf, t0) + 0.01 * rng.standard_normal(n)
    def run(z):
        o = qp.OFnonlin(psd, z["fs"])
        return [o.twopole(z["A"], tr, tf, t0), o.twopoletime(z["A"], tr, tf, t0), o.onepole(z["A"], tf, t0) if o.taurise else 0,
                o.threepoletime(z["A"], z["A"], tr, tf, 2 * tf, t0)]
    return z, run


def n_noise(rng):
    n = int(rng.randint(10, 40))
    t = rng.standard_normal((4, 2, n))
    psd = p01.spec(rng, n)
    z = dict(fs=int(rng.choice([1, 10, 625000])), gain=int(rng.choice([1, 4])), m=int(rng.randint(1, 5)), flag=bool(rng.randint(2)))
    def run(z):
        o = qp.Noise(t, z["fs"], ["a", "b"], tracegain=z["gain"], name="x")
        o.calculate_psd()
        o.calculate_csd()
        return [o.freqs, o.psd, o.csd, o.real_csd, qp.calc_psd(t[:, 0], fs=z["fs"], folded_over=z["flag"]), qp.foldpsd(psd, z["fs"]), qp.gen_noise(psd, fs=z["fs"], ntraces=z["m"])]
    return z, run


def n_cut(rng):
    x = rng.standard_normal(int(rng.randint(30, 80)))
    x[:3] += 8
    n, m = 40, 100
    t = rng.standard_normal((n, m))
    t[0] += np.linspace(0, 30, m)
    z = dict(cut=int(rng.choice([2, 3])), it=int(rng.choice([10, 15])), ns=int(rng.choice([2, 3])), flag=bool(rng.randint(2)), flag2=bool(rng.randint(2)), fs=1000, sg=int(rng.choice([20, 50])), sat=int(rng.choice([5, 600])))
    al = str(rng.choice(["removeoutliers", "iterstat"]))
    def run(z):
        return [C.iterstat(x, cut=z["cut"], precision=z["fs"], return_unbiased_estimates=z["flag"]), C.removeoutliers(x, maxiter=z["it"], skewtarget=z["cut"] * 0.01), C.itercov(x, x**2, nsigma=z["ns"], maxiter=z["it"]),
                C.autocuts(t, fs=z["fs"], is_didv=z["flag"], sgfreq=z["sg"], symmetrizeflag=z["flag2"], outlieralgo=al), C.get_muon_cut(t, thresh_pct=0.95, nsatbins=z["sat"])]
    return z, run


def n_didv(rng):
    P = int(rng.choice([50, 125]))
    z = dict(fs=625000, sg=625000 // P, amp=1, rsh=1, gain=int(rng.choice([1, 2])), r0=30, rp=2, flag=bool(rng.randint(2)), poles=int(rng.choice([1, 2])), fc=100000)
    p = dict(rsh=1.0, rp=2.0, r0=30.0, beta=0.5, l=0.5, L=1e-5, tau0=2e-4 * P / 1250)
    per = dd.response(None, P, P, 1.0, 1.0, lambda f: 1 / dd.imp(p, 2, f), z["sg"], 0.5)
    tr = np.tile(per, (8, 3)) + 0.01 * np.std(per) * rng.standard_normal((8, 3 * P))
    def run(z):
        o = qp.DIDV(tr, z["fs"], z["sg"], z["amp"], z["rsh"], tracegain=z["gain"], r0=z["r0"], rp=z["rp"], add180phase=z["flag"])
        o.processtraces()
        o.dofit(z["poles"], fcutoff=z["fc"])
        r = o.fitresult(z["poles"])
        return [o._tmean, o._didvmean, o._didvstd, o._freq, o._time, r["cost"], np.allclose(o._offset, o._offset)]
    return z, run


def n_model(rng):
    f = np.sort(rng.uniform(-1e3, 1e3, 9))
    z = dict(rsh=1, rp=2, r0=int(rng.randint(3, 9)), beta=int(rng.randint(0, 3)), l=int(rng.choice([0, 3, 8])), L=1, tau0=2, amp=int(rng.randint(1, 4)), sg=int(rng.choice([1, 5])))
    t = np.arange(40) / (20.0 * z["sg"])
    from qetpy.core.didv import compleximpedance, complexadmittance, squarewaveresponse
    def run(z):
        p = {k: z[k] for k in ("rsh", "rp", "r0", "beta", "l", "L", "tau0")}
        one = {k: z[k] for k in ("rsh", "rp", "L")}
        return [compleximpedance(f, **p), complexadmittance(f, **p), squarewaveresponse(t, z["amp"], z["sg"], **p), complexadmittance(f, **one), squarewaveresponse(t, z["amp"], z["sg"], **one)]
    return z, run


def n_sim(rng):
    f = np.sort(rng.uniform(1, 1e3, 5))
    z = dict(rload=2, r0=int(rng.randint(1, 9)), rshunt=1, beta=int(rng.randint(0, 3)), loopgain=int(rng.choice([2, 10])), inductance=1, tau0=3, G=int(rng.randint(1, 9)), qetbias=2, tc=4, tload=5, tbath=int(rng.choice([1, 2])),
             n=int(rng.choice([3, 4, 5])), lgcb=bool(rng.randint(2)), squiddc=1, squidpole=int(rng.choice([0, 7])), squidn=int(rng.choice([1, 2])))
    def run(z):
        o = qp.sim.TESnoise(freqs=f, **z)
        return [getattr(o, k)() for k in ("dIdV", "dIdP", "s_iload", "s_ites", "s_itfn", "s_isquid", "s_ptfn", "s_psquid", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc")] + \
            [qp.sim.energy_res_estimate(f, z["tau0"], np.ones(5), z["rload"])]
    return z, run


def n_utils(rng):
    n = int(rng.randint(40, 80))
    x = rng.standard_normal(n)
    tr = rng.standard_normal((3, n))
    t = np.arange(n)
    z = dict(k=int(rng.randint(-4, 5)), fill=int(rng.randint(0, 3)), fs=int(rng.choice([1000, 625000])), fc=int(rng.choice([50, 100])), order=int(rng.choice([1, 2])), off=int(rng.randint(0, 3)), bias=int(rng.randint(1, 9)),
             rl=int(rng.randint(1, 4)), rsh=1, pre=int(rng.randint(3, 12)), post=int(rng.randint(3, 12)), t0=int(rng.randint(0, 9)), tr=int(rng.randint(1, 3)), tf=int(rng.randint(4, 9)), p0=2, tc=5, tb=int(rng.randint(1, 4)),
             n=int(rng.choice([3, 5])), flag=bool(rng.randint(2)), ifs=625, sg=int(rng.choice([100, 125, 10])))
    big = np.tile(rng.standard_normal(125), 4)
    def run(z):
        return [U.shift(x, z["k"], fill_value=z["fill"]), U.lowpassfilter(tr, cut_off_freq=z["fc"], fs=z["fs"], order=z["order"]), U.powertrace_simple(tr, z["off"], z["bias"], z["rl"], z["rsh"]),
                U.energy_absorbed(tr, z["off"], z["bias"], z["rl"], z["rsh"], indbasepre=z["pre"], indbasepost=n - z["post"], fs=z["fs"]), U.energy_absorbed(tr, z["off"], z["bias"], z["rl"], z["rsh"], baseline=z["off"], fs=z["fs"]),
                U.make_template(t, z["tr"], z["tf"], offset=z["k"]), U.estimate_g(z["p0"], z["tc"], z["tb"], n=z["n"]), U.estimate_g(z["p0"], z["tc"], z["tb"], cov=np.eye(3), n=z["n"]), U.slope(t, x, removemeans=z["flag"]),
                U.resample_factors(z["ifs"], z["sg"]), U.resample_data(big, z["ifs"], z["sg"]), U.calc_offset(tr, fs=z["ifs"], sgfreq=z["sg"] * 4, is_didv=z["flag"]), U.align_traces(tr, lgcjustshifts=z["flag"], n_cut=20, cut_off_freq=z["fc"], fs=z["fs"])]
    return z, run


def n_nsmb(rng):
    n = int(rng.randint(20, 40))
    s = p01.pulse(n, n // 2)
    bt = np.column_stack([np.ones(n), np.arange(n) / n])
    psd = p01.spec(rng, n)
    y = rng.standard_normal(n) + 4 * s
    z = dict(fs=int(rng.choice([1, 1000, 625000])), lf=int(rng.randint(1, n)), d=int(rng.randint(-3, 4)), flag=bool(rng.randint(2)))
    def run(z):
        psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lf = qp.of_nsmb_setup(s, bt, psd, z["fs"])
        iP = qp.of_nsmb_getiP(P)
        win = [np.arange(-4, 5)[None, :]]
        return [phi, P, qp.of_nsmb(y, phi, sbf.T, sbt, iP, psddnu.T, z["fs"], win, ns_, nb_, bitcomb, lfindex=z["lf"]), qp.of_nsmb_con(y, phi, Pfs, P, sbf.T, sbt, psddnu.T, z["fs"], win, ns_, nb_, bitcomb, lfindex=z["lf"]),
                qp.of_mb(y, phi, sbf.T, sbt, iB, B, psddnu.T, z["fs"], ns_, nb_, lfindex=z["lf"]), qp.of_nsmb_getPt(Pfs, P, bindelay=z["d"], bitmask=np.ones(3, dtype=int))]
    return z, run


def n_iv(rng):
    nn, ns, nx = 4, 4, 4
    r0 = np.concatenate([np.full(nn, 8.0), np.linspace(7, 1, nx), np.zeros(ns)])
    ib = np.linspace(200, 10, nn + ns + nx)[None, None] * np.ones((2, 2, 1))
    z = dict(rsh=1, rp=int(rng.randint(1, 4)), err=int(rng.randint(0, 2)), flag=bool(rng.randint(2)))
    it = ib / (1 + z["rp"] + r0) + 3.0 + 0.001 * rng.standard_normal(ib.shape)
    de = np.full(ib.shape, 0.01)
    def run(z):
        o = qp.IV(it, de, ib, np.zeros(ib.shape), z["rsh"] + z["rp"], z["err"], ["a", "b"], normalinds=range(0, nn))
        o.calc_iv()
        q = qp.IBIS(it, de, ib, np.zeros(ib.shape), z["rsh"], z["err"], range(0, nn), chan_names=["a", "b"], rp_guess=z["rp"], rp_err_guess=z["err"], fitsc=z["flag"], scinds=range(nn + nx, nn + nx + ns) if z["flag"] else None)
        q.analyze()
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rnorm, o.rnorm_err, q.r0, q.r0_err, q.ptes, q.ptes_err, q.rp, q.rnorm]
    return z, run


NUM = {k[2:]: v for k, v in list(globals().items()) if k.startswith("n_")}
SCALAR = {"float": float, "np.int64": np.int64, "np.float64": np.float64}
# counts, orders and indices have to be integers
COUNT = {"nc", "wc", "m", "it", "sat", "order", "pre", "post", "lf", "d", "poles", "ifs"}


@CHECK.sub("numbers", st.fixed_dictionaries(dict(entry=st.sampled_from(sorted(NUM)), seed=SEED, form=st.sampled_from(sorted(SCALAR)))), quick=1800)
def numbers(c, x):
    """python and numpy scalars of the same value are the same"""
    z, run = NUM[x["entry"]](np.random.RandomState(x["seed"]))
    f = SCALAR[x["form"]]
    def conv(k, v):
        if isinstance(v, bool):
            return np.bool_(v) if x["form"] != "float" else v
        if k in COUNT or (x["entry"] == "utils" and k == "sg"):
            return np.int64(v) if x["form"] != "float" else v
        return f(v)
    w = {k: conv(k, v) for k, v in z.items()}
    one, e1 = attempt(run, {k: float(v) if not isinstance(v, bool) and k not in COUNT and not (x["entry"] == "utils" and k == "sg") else v for k, v in z.items()})
    two, e2 = attempt(run, z)
    three, e3 = attempt(run, w)
    for e, what in ((e1, "floats"), (e2, "integers"), (e3, x["form"])):
        if e is not None:
            raise Violation(f"{x['entry']} with {what}: {type(e).__name__}: {e}")
    tol = 1e-6 if x["entry"] in ("iv", "didv", "cut") else 1e-9
    agree(c, x, one, two, tol, f"{x['entry']}: numbers given as int")
    agree(c, x, one, three, tol, f"{x['entry']}: numbers given as {x['form']}")
    c.nontrivial()
    c.label(x["entry"])


# ---- sequences where array_like is documented
def q_psd(rng):
    a = rng.standard_normal((3, 12) if rng.randint(2) else 13)
    fo = bool(rng.randint(2))
    return dict(x=a), lambda z: qp.calc_psd(z["x"], fs=10.0, folded_over=fo)


def q_shift(rng):
    k = float(rng.choice([2.0, -3.0, 0.0, 1.5, -0.25]))
    return dict(x=rng.standard_normal(12)), lambda z: U.shift(z["x"], k)


def q_slope(rng):
    m = bool(rng.randint(2))
    return dict(x=np.arange(9.0), y=rng.standard_normal(9)), lambda z: U.slope(z["x"], z["y"], removemeans=m)


def q_resample(rng):
    return dict(x=rng.standard_normal(250)), lambda z: U.resample_data(z["x"], 625, int(rng.choice([100])))


def q_cov(rng):
    x = rng.standard_normal((40, 2))
    if rng.randint(2):
        return dict(x=x), lambda z: C.itercov(z["x"])
    return dict(x=x[:, 0], y=x[:, 1]), lambda z: C.itercov(z["x"], z["y"])


def q_std(rng):
    from qetpy.core.didv import stdcomplex
    return dict(x=rng.standard_normal((5, 3)) + 1j * rng.standard_normal((5, 3))), lambda z: stdcomplex(z["x"])


def q_iv(rng):
    ib, it, err, rsh = p01.iv_data(rng)
    which = bool(rng.randint(2))
    def run(z):
        if which:
            o = qp.IV(it, err, ib * rsh, np.full(it.shape, 1e-10), 9e-3, 1e-4, z["names"], normalinds=z["n"])
            o.calc_iv()
        else:
            o = qp.IBIS(it, err, ib, np.full(it.shape, 1e-10), rsh, 1e-4, z["n"], chan_names=z["names"], fitsc=True, scinds=z["s"])
            o.analyze()
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rfit, o.rnorm, o.rp if not which else 0.0]
    return dict(n=np.arange(0, 4), s=np.arange(8, 12), names=np.array(["a", "b"])), run


def q_bounds(rng):
    n, fs = 150, 625e3
    o = qp.OFnonlin(p01.spec(rng, n) * 1e-9, fs)
    y = o.twopoletime(5.0, 4 / fs, 20 / fs, 40 / fs) + 0.01 * rng.standard_normal(n)
    lo, hi = np.array([1.0, 1 / fs, 5 / fs, 30 / fs]), np.array([20.0, 9 / fs, 60 / fs, 50 / fs])
    g = np.array([6.0, 3 / fs, 15 / fs, 40 / fs])
    return dict(lo=lo, hi=hi, g=g), lambda z: o.fit_falltimes(y, npolefit=2, lgcfullrtn=True, bounds=(z["lo"], z["hi"]), guess=z["g"])


def q_names(rng):
    n = 20
    t = rng.standard_normal((3, 2, n))
    def run(z):
        o = qp.Noise(t, 10.0, list(z["names"]) if isinstance(z["names"], np.ndarray) else z["names"], name="x")
        o.calculate_psd()
        o.calculate_csd()
        return [o.psd, o.csd]
    return dict(names=np.array(["a", "b"])), run


SEQ = {k[2:]: v for k, v in list(globals().items()) if k.startswith("q_")}


@CHECK.sub("sequences", st.fixed_dictionaries(dict(entry=st.sampled_from(sorted(SEQ)), seed=SEED, form=st.sampled_from(["list", "list", "tuple"]), mask=st.integers(1, 7))), quick=1000)
def sequences(c, x):
    """lists and tuples where array_like is documented"""
    args, run = SEQ[x["entry"]](np.random.RandomState(x["seed"]))
    z = dict(args)
    for i, k in enumerate(sorted(args)):
        if (x["mask"] >> i) & 1:
            z[k] = args[k].tolist() if x["form"] == "list" or args[k].ndim > 1 else tuple(args[k].tolist())
    if x["entry"] == "iv" and x["form"] == "tuple":
        z.update({k: list(z[k]) for k in ("n", "s")})          # (a tuple indexes several axes)
    one, e1 = attempt(run, args)
    two, e2 = attempt(run, z)
    for e, what in ((e1, "arrays"), (e2, x["form"])):
        if e is not None:
            raise Violation(f"{x['entry']} with {what}: {type(e).__name__}: {e}")
    agree(c, x, one, two, 1e-9, f"{x['entry']} with {x['form']}")
    c.nontrivial(any(not isinstance(v, np.ndarray) for v in z.values()))
    c.label(x["entry"])
