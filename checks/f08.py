from harness import *
from gens import *
from qetpy import OFnonlin, MuonTailFit

CHECK = Check("F08", "Cases are pulse parameters (1-4 poles), PSDs, amplitude convention, error scale, guess offsets and noise; "
              "non-trivial = a fit that was run, or a model evaluated at a non-zero start time.")

NP = {1: 3, 2: 4, 3: 6, 4: 8}


@st.composite
def case(draw, npole=None, noisy=False, odd=True):
    x = dict(np=npole or draw(st.sampled_from([1, 2, 3, 4])))
    x["n"] = draw(st.integers(75, 220)) * 2 + (1 if odd else draw(st.integers(0, 1)))
    x["fs"] = draw(st.sampled_from([1.0, 1.0, 1.0, 625e3, 1.25e6, 1e5]))
    x["unit"] = draw(st.sampled_from([1.0, 1.0, 1e-6]))
    x["scale"] = draw(st.booleans())
    x["tr"] = draw(fl(1.0, 5.0))                      # bins
    x["r1"] = draw(fl(2.2, 5.0))                      # fall-time ratios
    x["r2"] = draw(fl(2.2, 4.0))
    x["r3"] = draw(fl(2.2, 4.0))
    x["A"] = draw(fl(0.3, 5.0))
    x["B"] = draw(fl(0.3, 3.0))
    x["C"] = draw(fl(0.3, 3.0))
    x["k"] = draw(st.integers(30, x["n"] // 3))
    x["kf"] = draw(st.sampled_from([0.0, 0.0, 0.5, 0.3]))
    x["psd"] = draw(st.sampled_from(["white", "pink", "lorentz"]))
    x["g"] = [draw(fl(-0.15, 0.15)) for _ in range(8)]
    x["es"] = draw(st.sampled_from([1, 1, 4, 100, 0.25]))
    x["noise"] = draw(logfl(1e-3, 0.05)) if noisy else 0.0
    x["seed"] = draw(SEED)
    x["mode"] = draw(st.sampled_from(["guess", "guess", "bounds"]))
    return x


def pars(x, bins=False):
    """parameters in the documented order"""
    dt = 1 / x["fs"]
    tr = x["tr"] * dt
    f1 = tr * x["r1"]
    f2 = f1 * x["r2"]
    f3 = f2 * x["r3"]
    t0 = (x["k"] + (0 if bins else x["kf"])) * dt
    A, B, C = (x[q] * x["unit"] for q in "ABC")
    return {1: (A, f1, t0), 2: (A, tr, f1, t0), 3: (A, B, tr, f1, f2, t0), 4: (A, B, C, tr, f1, f2, f3, t0)}[x["np"]], tr


def twonorm(tr, tf):
    tp = np.log(tf / tr) * tf * tr / (tf - tr)
    return abs(np.exp(-tp / tf) - np.exp(-tp / tr))


def terms(npole, p, tr, scale):
    """list of (amplitude, decay time) of the documented sum of exponentials"""
    if npole in (1, 2):
        if npole == 1:
            A, tf, t0 = p
        else:
            A, tr, tf, t0 = p
        s = 1.0
        if scale:
            s = np.sign(tf - tr) / twonorm(tr, tf)
        return [(A * s, tf), (-A * s, tr)], t0
    if npole == 3:
        A, B, tr, f1, f2, t0 = p
        return [(A, f1), (B, f2), (-(A + B), tr)], t0
    A, B, C, tr, f1, f2, f3, t0 = p
    return [(A, f1), (B, f2), (C, f3), (-(A + B + C), tr)], t0


def spectrum(npole, p, tr, scale, n, fs):
    """unitary-normalised spectrum fft(pulse)/sqrt(fs n) of the continuous pulse"""
    w = 2 * np.pi * fftfreq(n, 1 / fs)
    ts, t0 = terms(npole, p, tr, scale)
    return sum(a * tau / (1 + 1j * w * tau) for a, tau in ts) * np.exp(-1j * w * t0) * np.sqrt(fs / n)


def mkpsd(x):
    n = x["n"]
    f = np.abs(fftfreq(n)) * n
    p = {"white": np.ones(n), "pink": 1 / np.maximum(f, 0.5) + 0.1, "lorentz": 1 / (1 + (f / (n / 8))**2) + 0.02}[x["psd"]]
    return p * (0.01 * x["unit"])**2 / x["fs"]


def call_model(o, npole, p):
    return {1: o.onepole, 2: o.twopole, 3: o.threepole, 4: o.fourpole}[npole](*p)


@CHECK.sub("models", case(odd=False), quick=2000)
def models(c, x):
    n, fs = x["n"], x["fs"]
    psd = mkpsd(x)
    o = OFnonlin(psd, fs)
    p, tr = pars(x)
    o.taurise = tr
    o.scale_amplitude = x["scale"]
    c.nontrivial()
    want = spectrum(x["np"], p, tr, x["scale"], n, fs)
    c.close(call_model(o, x["np"], p), want, 1e-9, f"{x['np']}-pole spectrum")
    if x["np"] == 2:        # rise and fall time exchanged
        q = (p[0], p[2], p[1], p[3])
        c.close(o.twopole(*q), spectrum(2, q, None, x["scale"], n, fs), 1e-9, "2-pole spectrum, rise slower than fall")
    if x["np"] > 1:
        pb, tr = pars(x, bins=True)
        for qb in ([pb] if x["np"] > 2 else [pb, (pb[0], pb[2], pb[1], pb[3])]):
            ts, t0 = terms(x["np"], qb, tr, x["scale"])
            k = np.arange(n) - x["k"]
            want = np.where(k >= 0, sum(a * np.exp(-np.maximum(k, 0) / fs / tau) for a, tau in ts), 0.0)
            got = {2: o.twopoletime, 3: o.threepoletime, 4: o.fourpoletime}[x["np"]](*qb)
            c.close(got, want, 1e-9, f"{x['np']}-pole pulse in time")
            if x["scale"] and x["np"] == 2:
                c.ok(np.max(got) <= qb[0] * (1 + 1e-9), "pulse height exceeds the amplitude")
        c.label("time")


def fit(o, x, data, p, tr):
    kw = dict(npolefit=x["np"], errscale=x["es"], scale_amplitude=x["scale"])
    if x["np"] == 1:
        kw["taurise"] = tr
    g = [v * (1 + e) for v, e in zip(p, x["g"])]
    g[-1] = p[-1] + x["g"][len(p) - 1] * 5 / x["fs"]
    kw["guess"] = tuple(g)
    if x["mode"] == "bounds":
        lo = [v * 0.6 for v in p]
        hi = [v * 1.6 for v in p]
        lo[-1], hi[-1] = p[-1] - 3 / x["fs"], p[-1] + 3 / x["fs"]
        kw["bounds"] = (lo, hi)
    else:
        lo = [v / 100 if i < {1: 1, 2: 1, 3: 2, 4: 3}[x["np"]] else v / 10 for i, v in enumerate(g)]
        hi = [v * 100 if i < {1: 1, 2: 1, 3: 2, 4: 3}[x["np"]] else v * 10 for i, v in enumerate(g)]
        lo[-1], hi[-1] = g[-1] - 30 / x["fs"], g[-1] + 30 / x["fs"]
    return kw, np.array(lo), np.array(hi)


def worse(c, x, msg):
    """the fit stopped short of the optimum: recorded finding if the units make parameters much smaller than 1"""
    if x["fs"] != 1 or x["unit"] != 1:
        c.fail_known("nonlin-step", msg)
    else:
        c.fail(msg)


def judge_fit(c, x, data, res, tr, psd, lo, hi):
    n, fs = x["n"], x["fs"]
    v, err, cov, chi2, success = c.tup(res, 5, "fit")
    m = NP[x["np"]]
    v = c.arr(v, (m,), "fit parameters")
    cov = c.arr(cov, (m, m), "covariance", finite=False)
    err = c.arr(err, (m,), "errors", finite=False)
    c.ok(np.all(v >= lo - 1e-9 * np.abs(lo)) and np.all(v <= hi + 1e-9 * np.abs(hi)), f"parameters {v} outside bounds {lo} {hi}")
    w = x["es"] / psd
    w[0] = x["es"] * 1e-40
    D = fft(data) / np.sqrt(fs * n)
    model = lambda q: spectrum(x["np"], q, tr, x["scale"], n, fs)
    cost = lambda q: float(np.sum(w * np.abs(D - model(q))**2))
    total = float(np.sum(w * np.abs(D)**2))
    c0 = cost(v)
    c.close(c.num(chi2), c0 / (n - m), 1, "reported reduced chi2 vs residual of the returned parameters", scale=1e-8 * total / n)
    J = []
    for i in range(m):
        h = 1e-6 * (abs(v[i]) if i < m - 1 else 1 / fs * 10)
        a, b = v.copy(), v.copy()
        a[i] += h
        b[i] -= h
        d = (model(a) - model(b)) / (2 * h) * np.sqrt(w)
        J.append(np.concatenate([d.real, d.imag]))
    J = np.array(J).T
    H = J.T @ J
    sc = np.sqrt(np.diag(H))
    Hs = H / np.outer(sc, sc)
    interior = np.all((v > lo + 1e-6 * (hi - lo)) & (v < hi - 1e-6 * (hi - lo)))
    if np.linalg.cond(Hs) < 1e6 and interior:
        c.arr(err, what="errors")
        C = np.linalg.inv(Hs) / np.outer(sc, sc)
        c.close(cov * np.outer(sc, sc), C * np.outer(sc, sc), 2e-2, "covariance vs inverse curvature at the returned parameters")
        c.label("cov")
    c.close(err, np.sqrt(np.diag(cov)), 1e-9, "errors are the square roots of the covariance diagonal")
    if success and interior and np.linalg.cond(Hs) < 1e6:
        r = (D - model(v)) * np.sqrt(w)
        gr = J.T @ np.concatenate([r.real, r.imag])
        step = np.linalg.inv(Hs) @ (gr / sc) / sc
        pred = float(gr @ step)
        best = min(cost(np.clip(v + f * step, lo, hi)) for f in (1.0, 0.5, 0.1))
        if best < c0 - 1e-6 * c0 - 1e-3 * x["es"] - 1e-12 * total:
            worse(c, x, f"fit can be improved locally: chi2 {c0} -> {best}")
        else:
            c.label("optimal")
    # to first order, cost(v) <= c0 puts every parameter within this distance of a zero-residual truth
    slack = np.sqrt(c0 * np.abs(np.diag(np.linalg.pinv(Hs)))) / sc
    return v, err, c0, total, slack


@CHECK.sub("recover", case(), quick=240, thorough=6000, hang=200)
def recover(c, x):
    n, fs = x["n"], x["fs"]
    psd = mkpsd(x)
    p, tr = pars(x)
    data = np.real(ifft(spectrum(x["np"], p, tr, x["scale"], n, fs))) * np.sqrt(fs * n)
    o = OFnonlin(psd, fs)
    kw, lo, hi = fit(o, x, data, p, tr)
    res = o.fit_falltimes(data, lgcfullrtn=True, **kw)
    c.nontrivial()
    c.label(f"{x['np']} pole")
    v, err, c0, total, slack = judge_fit(c, x, data, res, tr, psd, lo, hi)
    c.ok(c0 <= 0.3 * total, f"noiseless pulse is not reproduced at all: residual chi2 {c0} of {total}")
    if c0 > 1e-6 * total:
        return worse(c, x, f"noiseless pulse is not reproduced: residual chi2 {c0} of {total}")
    if x["np"] <= 2:
        c.close(v / np.array(p), np.ones(len(p)), 1, "recovered parameters / true parameters", scale=1e-4 + 3 * np.max(np.abs(slack / p)))
    else:
        c.close(v[-1] * fs, p[-1] * fs, 1, "recovered start time (bins)", scale=1e-2 + 3 * slack[-1] * fs)
        # exchange of the fall-time components is not a different fit
        k = x["np"] - 1
        comp = lambda q: np.array(sorted(zip(q[k + 1:-1], q[:k]))).ravel()
        # recovery to precision is only guaranteed where the fit converged to a negligible residual
        if c0 <= 1e-12 * total:
            c.close(comp(v) / comp(p), np.ones(2 * k), 2e-2, "recovered components / true components")
            c.label("exact")


@CHECK.sub("noisy", case(noisy=True, odd=False), quick=240, thorough=6000, hang=200)
def noisy(c, x):
    n, fs = x["n"], x["fs"]
    psd = mkpsd(x)
    p, tr = pars(x)
    o = OFnonlin(psd, fs)
    data = np.real(ifft(spectrum(x["np"], p, tr, x["scale"], n, fs))) * np.sqrt(fs * n)
    data = data + x["noise"] * x["A"] * x["unit"] * np.random.RandomState(x["seed"]).standard_normal(n)
    kw, lo, hi = fit(o, x, data, p, tr)
    res = o.fit_falltimes(data, lgcfullrtn=True, **kw)
    c.nontrivial()
    v, err, c0, total, slack = judge_fit(c, x, data, res, tr, psd, lo, hi)
    true = float(np.sum((x["es"] / psd)[1:] * np.abs(fft(data) / np.sqrt(fs * n) - spectrum(x["np"], p, tr, x["scale"], n, fs))[1:]**2))
    c.ok(c0 <= true + 0.3 * total, "fit is nowhere near the true parameters")
    if x["np"] <= 2 and c0 > true * (1 + 1e-3) + 0.1 * x["es"]:
        worse(c, x, "fit is worse than the true parameters")
    if x["np"] <= 2:
        only = o.fit_falltimes(data, **kw)
        c.close(c.arr(only, v.shape) / v, np.ones(len(v)), 1e-6, "short and full return agree")
        kw2 = dict(kw, errscale=kw["errscale"] * 9)
        v2, e2, cov2, chi22, ok2 = o.fit_falltimes(data, lgcfullrtn=True, **kw2)
        c.close(c.num(chi22), 9 * c.num(res[3]), 1e-3, "chi2 scales with the error scale")
        c.close(c.arr(e2, err.shape), err / 3, 1e-2 * np.max(err / err) , "errors scale with the error scale", scale=err)


@st.composite
def reuse_case(draw):
    xs = [draw(case(noisy=True, odd=False)) for _ in range(draw(st.integers(2, 3)))]
    for y in xs[1:]:
        for k in ("n", "fs", "unit", "psd"):
            y[k] = xs[0][k]
        y["k"] = min(y["k"], y["n"] // 3)
    return dict(fits=xs)


@CHECK.sub("reuse", reuse_case(), quick=60, thorough=1500, hang=300)
def reuse(c, X):
    """one object, several fits with different poles, conventions and rise times: as good as new each time"""
    xs = X["fits"]
    psd = mkpsd(xs[0])
    o = OFnonlin(psd, xs[0]["fs"])
    c.nontrivial()
    for i, x in enumerate(xs):
        n, fs = x["n"], x["fs"]
        p, tr = pars(x)
        data = np.real(ifft(spectrum(x["np"], p, tr, x["scale"], n, fs))) * np.sqrt(fs * n)
        data = data + x["noise"] * x["A"] * x["unit"] * np.random.RandomState(x["seed"]).standard_normal(n)
        kw, lo, hi = fit(o, x, data, p, tr)
        got = c.tup(o.fit_falltimes(data, lgcfullrtn=True, **kw), 5)
        want = OFnonlin(psd, fs).fit_falltimes(data, lgcfullrtn=True, **kw)
        for nm, g, w in zip(("parameters", "errors", "covariance", "chi2", "success"), got, want):
            c.ok(np.array_equal(np.asarray(g), np.asarray(w), equal_nan=True),
                 f"fit {i} ({x['np']} pole) on a used object: {nm} {g} differs from {w} of a new object")


@CHECK.sub("default_guess", case(npole=2), quick=120, thorough=2000, hang=200)
def default_guess(c, x):
    """no guess given: pulses of the size the automatic guess is meant for"""
    n, fs = 801, 625e3
    x = dict(x, n=n, fs=fs, k=200 + x["k"] % 100)
    psd = mkpsd(x)
    tr = 8e-6 + 1e-6 * (x["tr"] - 1)
    tf = tr + 40e-6 * x["r1"]
    p = (x["A"] * x["unit"], tr, tf, x["k"] / fs)
    for npole, q in ((2, p), (1, (p[0], p[2], p[3]))):
        data = np.real(ifft(spectrum(2, p, None, x["scale"], n, fs))) * np.sqrt(fs * n)
        for tmpl in (None, data / np.max(data)):
            o = OFnonlin(psd, fs, template=tmpl)
            kw = dict(taurise=tr) if npole == 1 else {}
            v, err, cov, chi2, ok = c.tup(o.fit_falltimes(data, npolefit=npole, scale_amplitude=x["scale"], lgcfullrtn=True, **kw), 5)
            c.nontrivial()
            total = np.sum((np.abs(fft(data))**2 / fs / n / psd)[1:])
            if x["scale"]:
                c.close(c.arr(v, (len(q),)) / np.array(q), np.ones(len(q)), 1e-3, f"{npole}-pole parameters from the automatic guess, template {tmpl is not None}")


@CHECK.sub("default_guess_many", case(npole=4), quick=60, thorough=2000, hang=200)
def default_guess_many(c, x):
    """no guess given for 3 and 4 poles: pulses near the time constants the automatic guess starts from"""
    n, fs = 1201, 625e3
    np_ = 3 + x["seed"] % 2
    x = dict(x, n=n, fs=fs, np=np_, k=250 + x["k"] % 100)
    psd = mkpsd(x)
    g = x["g"]
    A = x["A"] * x["unit"]
    tr, f1, f2, f3 = 20e-6 * (1 + g[0]), 100e-6 * (1 + g[1]), 300e-6 * (1 + g[2]), 500e-6 * (1 + g[3])
    t0 = x["k"] / fs
    p = (A, A / 3 * (1 + g[4]), tr, f1, f2, t0) if np_ == 3 else (A, A / 3 * (1 + g[4]), A / 3 * (1 + g[5]), tr, f1, f2, f3, t0)
    data = np.real(ifft(spectrum(np_, p, None, x["scale"], n, fs))) * np.sqrt(fs * n)
    w = x["es"] / psd
    w[0] = 0
    D = fft(data) / np.sqrt(fs * n)
    total = float(np.sum(w * np.abs(D)**2))
    c.label(f"{np_} pole")
    for tmpl in (None, data / np.max(data)):
        o = OFnonlin(psd, fs, template=tmpl)
        v, err, cov, chi2, ok = c.tup(o.fit_falltimes(data, npolefit=np_, errscale=x["es"], scale_amplitude=x["scale"], lgcfullrtn=True), 5)
        v = c.arr(v, (len(p),), "parameters")
        c.nontrivial()
        c0 = float(np.sum(w * np.abs(D - spectrum(np_, v, None, x["scale"], n, fs))**2))
        c.close(c.num(chi2) * (n - len(p)), c0, 1, "reported chi2 vs residual of the returned parameters", scale=1e-8 * total)
        c.ok(c0 <= 2e-2 * total, f"{np_}-pole pulse is not reproduced from the automatic guess: residual chi2 {c0} of {total}, template {tmpl is not None}")
        c.close(v[-1] * fs, p[-1] * fs, 1, "start time (bins)", scale=10.0)
        c.close(err, np.sqrt(np.diag(cov)), 1e-9, "errors are the square roots of the covariance diagonal")


@CHECK.sub("invalid", case(), quick=60, thorough=500)
def invalid(c, x):
    psd = mkpsd(x)
    o = OFnonlin(psd, x["fs"])
    d = np.random.RandomState(x["seed"]).standard_normal(x["n"])
    p, tr = pars(x)
    c.nontrivial()
    c.raises(ValueError, lambda: o.fit_falltimes(d, npolefit=1, guess=(1, 2, 3)), "1-pole fit without rise time")
    for bad in (tuple(p)[:-1], tuple(p) + (1.0,)):
        c.raises(ValueError, lambda: o.fit_falltimes(d, npolefit=x["np"], guess=bad, taurise=tr), "guess of the wrong length")


@st.composite
def muon(draw):
    return dict(n=draw(st.integers(100, 600)), fs=draw(st.sampled_from([625.0, 1.0, 625e3])), A=draw(fl(0.2, 20)),
                tau=draw(fl(0.03, 0.2)), unit=draw(st.sampled_from([1.0, 1e-6])), es=draw(st.sampled_from([1, 10, 0.5])),
                noise=draw(st.sampled_from([0.0, 0.0, 1e-3, 0.02])), seed=draw(SEED), psd=draw(st.sampled_from(["white", "pink", "lorentz"])))


@CHECK.sub("muon", muon(), quick=300, thorough=6000)
def muontail(c, x):
    n, fs = x["n"], x["fs"]
    psd = mkpsd(x)
    m = MuonTailFit(psd, fs)
    A, tau = x["A"] * x["unit"], x["tau"] * n / fs
    w = 2 * np.pi * fftfreq(n, 1 / fs)
    model = lambda a, t: a * t / (1 + 1j * w * t) * np.sqrt(fs / n)
    c.close(m.muontailfcn(A, tau), model(A, tau), 1e-9, "muon tail spectrum")
    spec = model(A, tau)
    if n % 2 == 0:
        spec[n // 2] = spec[n // 2].real
    data = np.real(ifft(spec)) * np.sqrt(fs * n) + x["noise"] * x["A"] * x["unit"] * np.random.RandomState(x["seed"]).standard_normal(n)
    v, err, cov, chi2 = c.tup(m.fitmuontail(data, lgcfullrtn=True, errscale=x["es"]), 4)
    v, cov, err = c.arr(v, (2,)), c.arr(cov, (2, 2)), c.arr(err, (2,))
    c.nontrivial()
    D = fft(data) / np.sqrt(fs * n)
    wt = x["es"] / psd
    cost = lambda a, t: float(np.sum(wt * np.abs(D - model(a, t))**2))
    total = float(np.sum(wt * np.abs(D)**2))
    c.close(c.num(chi2), cost(*v), 1, "reported chi2 vs residual", scale=1e-9 * total)
    c.close(err, np.sqrt(np.diag(cov)), 1e-9, "errors vs covariance")
    ex = 0.0 if n % 2 else float(wt[n // 2] * abs(model(A, tau)[n // 2].imag)**2)
    if x["noise"] == 0:
        c.label("noiseless")
        c.ok(cost(*v) <= 1e-6 * total + 2 * ex, f"noiseless tail not reproduced: {cost(*v)} of {total}")
        c.close(v / np.array([A, tau]), np.ones(2), 1e-4 if n % 2 else 2e-2, "recovered amplitude and fall time / truth")
    else:
        c.ok(cost(*v) <= cost(A, tau) * (1 + 1e-6), "fit is worse than the truth")
    J = []
    for i in range(2):
        h = 1e-5 * v[i]
        a, b = v.copy(), v.copy()
        a[i] += h
        b[i] -= h
        d = (model(*a) - model(*b)) / (2 * h) * np.sqrt(wt)
        J.append(np.concatenate([d.real, d.imag]))
    J = np.array(J)
    C = np.linalg.inv(J @ J.T)
    s = np.sqrt(np.diag(C))
    c.close(cov / np.outer(s, s), C / np.outer(s, s), 1e-2, "covariance vs inverse curvature")
    m.fitmuontail(data[::-1].copy() + 1e-3 * x["A"] * x["unit"], errscale=2 * x["es"])       # the object can be used again
    only = m.fitmuontail(data, errscale=x["es"])
    c.close(c.arr(only, (2,)) / v, np.ones(2), 1e-8, "short return")
