from harness import *
from gens import *
from didv import *
import copy

CHECK = Check("D04", "Cases are noisy square-wave responses of random 1-, 2- and 3-pole TES circuits whose decay times are real, positive and "
              "short compared to half a period, with random delays, gains, offsets, half-period flags, priors and orders of fits; "
              "non-trivial = more than one pole.")

FSR = 625e3


@st.composite
def case(draw, poles=None, snr=(2.0, 6.0), cls="DIDV"):
    s = draw(small(poles=poles))
    x = dict(poles=s["poles"], p=s["p"], P=draw(st.sampled_from([1250, 2500, 5000, 500])), m=draw(st.integers(1, 2)),
             n=draw(st.integers(8, 24)), snr=draw(fl(*snr)), delay=draw(st.integers(-6, 6)), ddt=draw(fl(-1.0, 1.0)),
             add180=draw(st.booleans()), gain=draw(st.sampled_from([1.0, 1.0, 1e9])), off=draw(st.sampled_from([0.0, 1e-6])),
             amp=draw(st.sampled_from([5e-7, 1e-8, 1e-5])), extra=draw(st.sampled_from([0, 0, 7])), seed=draw(SEED), cls=cls)
    return x


def usable(x):
    """real positive decay times well below half a period, loop-gain branch visible in the response"""
    poles, p = x["poles"], x["p"]
    fs = FSR
    T = x["P"] / fs
    if poles == 1:
        return p["L"] / (p["rsh"] + p["rp"]) < 0.1 * T
    t = falls(to_fit(p, poles), poles)
    if np.any(np.abs(t.imag) > 1e-6 * np.abs(t)) or np.any(t.real <= 0) or np.max(t.real) > 0.1 * T:
        return False
    t = np.sort(t.real)
    if np.any(t[1:] < 1.5 * t[:-1]):
        return False
    z0 = float(imp(p, poles, 0.0).real)
    if p["tau0"] < 1.9e-5 or p.get("tau3", 1.0) < 4.9e-5:
        return False
    return (z0 > 0) == (p["l"] < 1)


def well_posed(x):
    """Where the starting values the code derives from the data are good enough (elsewhere a few per cent of
    the fits end in a wrong local minimum: recorded finding)."""
    poles, p = x["poles"], x["p"]
    if poles == 1:
        return True
    q = to_fit(p, poles)
    if p["r0"] < 0.029:
        return False
    if poles == 3:
        return abs(q["B"]) > 0.2 * q["A"] and p["gratio"] > 0.1 and (p["l"] < 1 or q["tau2"] * FSR < 0.12)
    return True


def neighbours_fail(x, bad, k=9, w=0.2):
    """Whether most fits to circuits close to this one are bad as well (the same options and delay, parameters within 20 %,
    other noise)."""
    r = np.random.RandomState(x["seed"])
    n = fails = 0
    for _ in range(20 * k):
        y = copy.deepcopy(x)
        for kk in y["p"]:
            y["p"][kk] *= np.exp(r.uniform(-w, w))
        y["seed"] = int(r.randint(1 << 30))
        y["ddt"] = float(np.clip(x["ddt"] + r.uniform(-0.1, 0.1), -1, 1))
        if not usable(y):
            continue
        n += 1
        fails += bool(bad(y))
        if n == k:
            break
    return 2 * fails >= n


def worse(c, x, bad, msg):
    """A fit worse than the parameters behind the data.  Now and then a nonlinear fit ends in a wrong minimum (recorded finding):
    a violation is one that the fits of nearby circuits share, where the starting values are good."""
    if well_posed(x) and neighbours_fail(x, bad):
        c.fail(msg)
    c.fail_known("didv-start", msg)


def data(x):
    fs = FSR
    sg = fs / x["P"]
    N = x["P"] * x["m"] + x["extra"]
    r = np.random.RandomState(x["seed"])
    per = response(x, x["P"], x["P"], x["amp"], x["p"]["rsh"], lambda f: 1 / imp(x["p"], x["poles"], f), sg, 0.5)
    clean = np.roll(per, x["delay"])[np.arange(N) % x["P"]]
    if x["add180"]:
        clean = np.roll(per, x["delay"] + x["P"] // 2)[np.arange(N) % x["P"]]
    rms = np.std(per)
    tr = clean + x["off"] + rms / 10.0**x["snr"] * r.standard_normal((x["n"], N))
    return fs, sg, tr * x["gain"], rms


def measured(x, tr, fs, sg):
    """mean and error of the dI/dV at the harmonics, from the raw traces"""
    P, m = x["P"], x["m"]
    N = P * m
    k = np.arange(1, (N - 1) // 2 + 1)
    k = k[(k % m == 0) & ((k // m) % 2 == 1) & (k != N // 2)]
    h = k // m
    ft = np.fft.fft(tr[:, :N] / x["gain"], axis=1)[:, k]
    dd = ft / (spectrum(h, P, x["amp"], x["p"]["rsh"], 0.5) * N)
    sd = (np.std(dd.real, axis=0) + 1j * np.std(dd.imag, axis=0)) / np.sqrt(len(tr))
    return h * sg, dd.mean(axis=0), sd


def resid(y, mean, sd):
    d = mean - y
    return np.concatenate([d.real / sd.real, d.imag / sd.imag])


def model(q, poles, f):
    return np.exp(-2j * np.pi * f * q["dt"]) / imp_fit(q, poles, f)


def fisher(fun, v, steps):
    J = np.array([(fun(v + s) - fun(v - s)) / (2 * s.max()) for s in np.diag(steps)])
    return J


def build(x, fs, sg, tr, **kw):
    p = x["p"]
    if x["cls"] == "DIDV":
        kw.setdefault("r0", p.get("r0", 0.3))
        kw.setdefault("rp", p["rp"])
    return getattr(qetpy, x["cls"])(tr, fs, sg, x["amp"], p["rsh"], tracegain=x["gain"], add180phase=x["add180"],
                                    dt0=(x["delay"] + x["ddt"]) / fs, **kw)


def truth(x, fs):
    return x["delay"] / fs + (x["P"] / 2 / fs if x["add180"] else 0)


def check_errors(c, cov, err, what=""):
    """(a badly conditioned information matrix may not invert to positive variances)"""
    dc = np.diag(cov)
    c.close(np.where(dc >= 0, err**2, dc), dc, 1e-9, f"{what}errors vs the diagonal of the covariance", scale=np.abs(dc))


def judge(c, x, res, f, mean, sd, fs, truthcost=True, what=""):
    """one ordinary fit result"""
    poles, p = x["fitpoles"] if "fitpoles" in x else x["poles"], x["p"]
    c.ok(isinstance(res, dict) and set(res["params"]) == set(FITKEYS[poles]), f"{what}parameters of the {poles}-pole fit")
    c.ok(set(res["errors"]) == set(FITKEYS[poles]), f"{what}errors of the {poles}-pole fit")
    q = {k: c.num(res["params"][k], k) for k in FITKEYS[poles]}
    v = np.array([q[k] for k in FITKEYS[poles]])
    r = resid(model(q, poles, f), mean, sd)
    # negative frequencies repeat the positive ones
    cost = np.sum(r**2)
    c.close(c.num(res["cost"], "cost"), cost, 1e-5, f"{what}cost is not half the sum of the squared residuals", scale=cost + 1e-6 * len(f))
    # derived quantities
    ss = res["smallsignalparams"]
    c.ok(set(ss) == set(KEYS[poles]) | {"dt"}, f"{what}small-signal parameters of the {poles}-pole fit: {sorted(ss)}")
    ss = {k: c.num(ss[k], k) for k in ss}
    c.close(ss["rsh"], p["rsh"], 1e-12, f"{what}shunt resistance")
    c.close(ss["dt"], q["dt"], 1e-12, f"{what}time offset of the small-signal parameters", scale=1e-12)
    if poles > 1:
        c.close(ss["r0"], x.get("r0", p.get("r0", 0.3)), 1e-12, f"{what}r0 is the supplied one")
        c.close(ss["rp"], x.get("rp", p["rp"]), 1e-12, f"{what}rp is the supplied one")
    z = imp_fit(q, poles, np.concatenate([[0.0], f]))
    amp = 1 + (abs(q["B"]) / abs(q["A"] + q["B"]) if poles > 1 else 0)
    c.close(imp(ss, poles, np.concatenate([[0.0], f])), z, 1e-8 * amp, f"{what}impedance of the small-signal parameters vs of the fit parameters", scale=np.abs(z) + abs(q["A"]))
    c.close(c.num(res["didv0"]) * z[0].real, 1.0, 1e-6 * amp, f"{what}zero-frequency admittance x impedance")
    want = falls(q, poles)
    got = c.arr(res["falltimes"], (poles,), "fall times", real=False)
    if want.size == poles and np.all(np.abs(want.imag) <= 1e-7 * np.abs(want)) and np.all(np.diff(np.sort(want.real)) > 1e-3 * np.abs(np.sort(want.real)[1:])):
        c.close(got, np.sort(want.real), 1e-6, f"{what}fall times vs the poles of the fitted response", scale=np.abs(np.sort(want.real)) + 1e-10 * np.abs(want).max())
    # covariance: inverse information at the returned parameters
    steps = np.maximum(1e-5 * np.abs(v), 1e-14)
    steps[-1] = 1e-5 / (2 * np.pi * f.max())
    def fun(w):
        return resid(model(dict(zip(FITKEYS[poles], w)), poles, f), mean, sd)
    J = fisher(fun, v, steps)
    s = np.sqrt(np.sum(J**2, axis=1))
    cov = c.arr(res["cov"], (len(v),) * 2, "covariance", finite=False)
    err = np.array([c.num(res["errors"][k], finite=False) for k in FITKEYS[poles]])
    check_errors(c, cov, err, what)
    if np.all(s > 0) and len(f) * 2 >= len(v):
        Jn = J / s[:, None]
        u = np.linalg.svd(Jn, compute_uv=False)
        if u[-1] > 3e-4 * u[0]:
            ref = np.linalg.inv(2 * Jn @ Jn.T) / np.outer(s, s)
            d = np.sqrt(np.diag(ref))
            c.close(cov, ref, 1.0, f"{what}covariance vs the inverse information", scale=0.02 * np.outer(d, d))
            c.label("covariance compared")
            return q, d
    return q, None


def true_cost(x, fs, f, mean, sd):
    t = to_fit(x["p"], x["poles"])
    t["dt"] = truth(x, fs)
    return t, np.sum(resid(model(t, x["poles"], f), mean, sd)**2)


def worse_than_truth(x):
    fs, sg, tr, rms = data(x)
    o = build(x, fs, sg, tr)
    o.dofit(x["poles"])
    ct = true_cost(x, fs, *measured(x, tr, fs, sg))[1]
    return o.fitresult(x["poles"])["cost"] > ct * (1 + 1e-6) + 0.05


@CHECK.sub("recover", case(), quick=800)
def recover(c, x):
    if not usable(x):
        c.label("not usable")
        return
    poles, p = x["poles"], x["p"]
    fs, sg, tr, rms = data(x)
    f, mean, sd = measured(x, tr, fs, sg)
    c.label(f"{poles} poles")
    c.nontrivial(poles > 1)
    o = build(x, fs, sg, tr)
    c.ok(o.fitresult(poles) == {}, "result of a fit that has not been run")
    o.dofit(poles)
    res = o.fitresult(poles)
    q, err = judge(c, x, res, f, mean, sd, fs)
    # at least as good as the truth
    t, ct = true_cost(x, fs, f, mean, sd)
    if res["cost"] > ct * (1 + 1e-6) + 0.05:
        msg = f"the fit (cost {res['cost']:.8g}) is worse than the parameters that made the data (cost {ct:.8g}): {res['params']} vs {t}"
        worse(c, x, worse_than_truth, msg)
        return
    # admittance recovered to the noise
    yt, y = model(t, poles, f), model(q, poles, f)
    tol = 30 * np.sqrt(np.median(np.abs(sd / yt)**2)) + 1e-6
    w = f <= max(f[0] * 1.01, 0.3 * f[-1])
    sel = np.abs(sd) < 3 * np.abs(yt)
    if len(f) >= 40:
        # error of the fitted curve: at most that of one point where the model is well measured
        z = np.abs(y - yt)[w & sel] / np.abs(sd)[w & sel]
        c.ok(z.size == 0 or np.median(z) < 5, f"fitted admittance is off by {np.median(z):.3g} standard deviations of one point")
    c.label("well posed" if well_posed(x) else "ill posed")
    if x["snr"] > 4 and poles < 3:
        for k in FITKEYS[poles]:
            sc = abs(t[k]) if k != "dt" else min(1 / fs, t["tau2"])
            if err is not None:
                i = FITKEYS[poles].index(k)
                if err[i] < 0.02 * sc:
                    c.ok(abs(q[k] - t[k]) < 0.3 * sc, f"parameter {k}: fitted {q[k]!r}, true {t[k]!r}, error {err[i]:.2g}")
                    c.label("recovered " + k)
        if poles == 2 and err is not None and all(err[i] < 1e-3 * abs(t[k]) for i, k in enumerate(FITKEYS[2][:3])):
            ss = res["smallsignalparams"]
            for k in ("beta", "l", "tau0"):
                # relative to the scale on which the fit parameters move it
                c.ok(abs(ss[k] - p[k]) < 0.1 * (abs(p[k]) + (1 if k == "beta" else 0)) * (1 + abs(1 - p["l"])), f"{k}: fitted {ss[k]!r}, true {p[k]!r}")
            c.label("recovered small-signal parameters")


@CHECK.sub("histories", case(), quick=240)
def histories(c, x):
    """results are stored per pole count; later fits, repeated fits and rebuilt objects do not change them"""
    if not usable(x):
        return
    fs, sg, tr, rms = data(x)
    f, mean, sd = measured(x, tr, fs, sg)
    x["r0"], x["rp"] = x["p"].get("r0", 0.2), x["p"]["rp"]
    r = np.random.RandomState(x["seed"] ^ 1)
    seq = [1 + int(k) for k in r.randint(0, max(2, x["poles"]), 4)]
    c.nontrivial(len(set(seq)) > 1)
    o = build(x, fs, sg, tr, r0=x["r0"])
    last = {}
    def same(a, b, what, tol=0.0):
        for k in ("params", "errors", "smallsignalparams"):
            for kk in a[k]:
                u, v = a[k][kk], b[k][kk]
                c.ok(u == v or (np.isnan(u) and np.isnan(v)) or abs(u - v) <= tol * abs(u), f"{what}: {k} {kk} {u!r} vs {v!r}")
        c.ok(abs(a["cost"] - b["cost"]) <= max(tol, 1e-12) * abs(a["cost"]), f"{what}: cost")
    if r.randint(2):
        o.processtraces()
    for i, k in enumerate(seq):
        o.dofit(k)
        for j in (1, 2, 3):
            res = o.fitresult(j)
            if j == k:
                if k in last and k < 3:
                    same(res, last[k], f"{k}-pole fit run again")
                if k <= x["poles"] and k < 3:
                    y = dict(x, fitpoles=k)
                    judge(c, y, res, f, mean, sd, fs, what=f"{k}-pole fit after {seq[:i]}: ")
                last[k] = copy.deepcopy(res)
            elif j in last:
                same(res, last[j], f"{j}-pole result after a {k}-pole fit")
            else:
                c.ok(res == {}, f"{j}-pole result exists although only {seq[:i + 1]} have been fitted")
    if 2 in last and x["poles"] == 2:
        fresh = build(x, fs, sg, tr, r0=x["r0"])
        fresh.dofit(2)
        same(fresh.fitresult(2), last[2], "2-pole fit of a fresh object")
        st_ = [a.copy() for a in (o._tmean, o._didvmean, o._didvstd)]
        q = qetpy.didvinitfromdata(*st_, o._offset, o._offset_err, fs, sg, x["amp"], x["p"]["rsh"], r0=x["r0"], rp=x["rp"],
                                   add180phase=x["add180"], dt0=(x["delay"] + x["ddt"]) / fs)
        q.dofit(2)
        c.label("from stored data")
        c.close(q.fitresult(2)["cost"], last[2]["cost"], 1e-5, "cost of the 2-pole fit from stored data")
        y1, y2 = (model(z["params"], 2, f) for z in (q.fitresult(2), last[2]))
        c.close(y1, y2, 1.0, "admittance of the 2-pole fit from stored data vs from the traces", scale=0.1 * np.abs(sd) + 1e-6 * np.abs(y2))
        for a, b in zip(st_, (o._tmean, o._didvmean, o._didvstd)):
            c.ok(np.array_equal(a, b), "fit from stored data modified them")


@CHECK.sub("cutoff", case(), quick=300)
def cutoff(c, x):
    """only frequencies below the cutoff enter the fit"""
    if not usable(x):
        return
    poles, p = x["poles"], x["p"]
    fs, sg, tr, rms = data(x)
    f, mean, sd = measured(x, tr, fs, sg)
    r = np.random.RandomState(x["seed"] ^ 3)
    k = 5 * poles + r.randint(0, len(f) - 5 * poles)
    fc = float(f[k] + (0.5 * r.rand() + 0.3) * (1 if r.randint(2) else -1) * 2 * f[0])
    m = f < fc
    c.nontrivial(poles > 1)
    c.label(f"{poles} poles")
    o = build(x, fs, sg, tr)
    o.dofit(poles, fcutoff=fc)
    res = o.fitresult(poles)
    judge(c, x, res, f[m], mean[m], sd[m], fs, what="with a cutoff: ")
    t = to_fit(p, poles)
    t["dt"] = truth(x, fs)
    if poles == 1:
        ct = np.sum(resid(model(t, 1, f[m]), mean[m], sd[m])**2)
        c.ok(res["cost"] <= ct * (1 + 1e-6) + 0.05, f"fit below the cutoff (cost {res['cost']}) is worse than the truth (cost {ct})")
    # a second fit with another cutoff does not remember the first
    o.dofit(poles)
    judge(c, x, o.fitresult(poles), f, mean, sd, fs, what="without a cutoff after one with: ")


def prior_of(x, poles, rel=0.1):
    """prior on the resistances, for any number of poles"""
    names = KEYS[poles] + ["dt"]
    pr, pc = np.zeros(len(names)), np.zeros((len(names),) * 2)
    for i, k in enumerate(names):
        if k in ("rsh", "rp", "r0"):
            pr[i] = x["p"].get(k, 0.2)
            pc[i, i] = (rel * pr[i])**2
    return pr, pc


@CHECK.sub("prior_histories", case(snr=(0.3, 1.7), cls="DIDVPriors"), quick=120)
def prior_histories(c, x):
    """fits with priors: several pole counts and cutoffs in any order on one object, each stored with its own priors"""
    if not usable(x):
        return
    if "beta" in x["p"]:
        x["p"]["beta"] += 0.1
    fs, sg, tr, rms = data(x)
    f, mean, sd = measured(x, tr, fs, sg)
    r = np.random.RandomState(x["seed"] ^ 9)
    seq = [1 + int(k) for k in r.randint(0, max(2, x["poles"]), 3)]
    o = build(x, fs, sg, tr)
    c.nontrivial(len(set(seq)) > 1)
    last = {}
    for i, k in enumerate(seq):
        pr, pc = prior_of(x, k, rel=r.choice([0.03, 0.1]))
        fc = np.inf
        if k == 1 or (k == x["poles"] and len(f) > 60):
            q = int(len(f) * r.uniform(0.5, 0.95))
            fc = float((f[q] + f[q - 1]) / 2) if r.randint(2) else np.inf
        m = f < fc
        if np.isinf(fc):
            o.dofit(k, pr, pc)
        else:
            o.dofit(k, pr, pc, fcutoff=fc)
        # (where a model with too few or too many poles ends up is not judged, only that the result belongs to it)
        judge_priors(c, dict(x, poles=k), o.fitresult(k), f[m], mean[m], sd[m], pr, pc, cov=k == x["poles"])
        last[k] = copy.deepcopy(o.fitresult(k))
        for j in (1, 2, 3):
            res = o.fitresult(j)
            if j in last:
                c.ok(res["params"] == last[j]["params"] and res["cost"] == last[j]["cost"] and np.array_equal(res["priors"], last[j]["priors"])
                     and np.array_equal(res["priorscov"], last[j]["priorscov"]), f"{j}-pole result after a {k}-pole fit")
            else:
                c.ok(res == {}, f"{j}-pole result exists although only {seq[:i + 1]} have been fitted")


def judge_priors(c, x, res, f, mean, sd, pr, pc, cov=True):
    poles, p = x["poles"], x["p"]
    names = KEYS[poles] + ["dt"]
    c.ok(set(res["params"]) == set(names) and set(res["errors"]) == set(names), "parameters of the fit with priors")
    q = {k: c.num(res["params"][k], k) for k in names}
    v = np.array([q[k] for k in names])
    c.ok(all(q[k] >= 0 for k in names[:-1]), f"negative parameters {q}")
    fun, W, total = prior_total(x, f, mean, sd, pr, pc)
    cost = total(v)
    c.close(c.num(res["cost"]), cost, 1e-5, "cost is not half the sum of the squared residuals and prior terms", scale=cost + 1e-5 * len(f))
    c.ok(np.array_equal(res["priors"], pr) and np.array_equal(res["priorscov"], pc), "stored priors")
    z0 = float(imp(q, poles, 0.0).real)
    c.close(c.num(res["didv0"]) * z0, 1.0, 1e-6, "zero-frequency admittance x impedance")
    want = falls(to_fit(q, poles), poles)
    if want.size == poles and np.all(np.abs(want.imag) <= 1e-7 * np.abs(want)) and np.all(np.diff(np.sort(want.real)) > 1e-3 * np.abs(np.sort(want.real)[1:])):
        c.close(c.arr(res["falltimes"], (poles,), real=False), np.sort(want.real), 1e-5, "fall times vs the poles of the fitted response",
                scale=np.abs(np.sort(want.real)) + 1e-9 * np.abs(want).max())
    judged = cov
    cov = c.arr(res["cov"], (len(v),) * 2, "covariance", finite=False)
    err = np.array([c.num(res["errors"][k], finite=False) for k in names])
    check_errors(c, cov, err)
    steps = np.maximum(1e-5 * np.abs(v), 1e-14)
    steps[-1] = 1e-5 / (2 * np.pi * f.max())
    J = fisher(fun, v, steps)
    M = 2 * J @ J.T + W
    d = np.sqrt(np.diag(M))
    u = np.linalg.eigvalsh(M / np.outer(d, d)) if np.all(d > 0) and np.all(np.isfinite(M)) else [0]
    if judged and poles < 3 and u[0] > 1e-7 and all(q[k] > 0 for k in names[:-1]):
        ref = np.linalg.inv(M / np.outer(d, d)) / np.outer(d, d)
        e = np.sqrt(np.diag(ref))
        c.label("covariance compared")
        c.close(cov, ref, 1.0, "covariance vs the inverse information (data and priors)", scale=0.05 * np.outer(e, e))
    return q, v, total


@st.composite
def prior_case(draw):
    x = draw(case(snr=(0.3, 1.7), cls="DIDVPriors"))
    if "beta" in x["p"]:
        x["p"]["beta"] += 0.1
    x["pull"] = [draw(fl(-1.0, 1.0)) for _ in range(10)]
    x["rel"] = draw(st.sampled_from([0.1, 0.1, 0.03]))
    x["more"] = draw(st.sampled_from(["none", "none", "L", "beta", "corr", "dt"]))
    return x


def prior_setup(x, fs):
    poles, p = x["poles"], x["p"]
    names = KEYS[poles] + ["dt"]
    tv = np.array([p[k] for k in KEYS[poles]] + [truth(x, fs)])
    K = len(names)
    pr, pc = np.zeros(K), np.zeros((K, K))
    for k in ("rsh", "rp", "r0"):
        if k in names:
            i = names.index(k)
            pr[i] = tv[i] * (1 + x["rel"] * x["pull"][i])
            pc[i, i] = (x["rel"] * tv[i])**2
    for k in ("L", "beta", "dt"):
        if x["more"] == k and k in names and (tv[names.index(k)] != 0):
            i = names.index(k)
            w = x["rel"] * abs(tv[i]) if k != "dt" else 0.3 / fs
            pr[i] = tv[i] + w * x["pull"][i]
            pc[i, i] = w**2
    if x["more"] == "corr":
        i, j = 0, 1
        pc[i, j] = pc[j, i] = 0.5 * np.sqrt(pc[i, i] * pc[j, j])
    return names, tv, pr, pc


def prior_total(x, f, mean, sd, pr, pc):
    """half the sum of the squared residuals and prior terms, as a function of the parameters"""
    names = KEYS[x["poles"]] + ["dt"]
    def fun(w):
        w = dict(zip(names, w))
        return resid(np.exp(-2j * np.pi * f * w["dt"]) / imp(w, x["poles"], f) * w["rsh"] / x["p"]["rsh"], mean, sd)
    s = np.sqrt(np.diag(pc))
    on = s > 0
    W = np.zeros_like(pc)
    W[np.ix_(on, on)] = np.linalg.inv(pc[np.ix_(on, on)] / np.outer(s[on], s[on])) / np.outer(s[on], s[on])
    return fun, W, lambda w: np.sum(fun(w)**2) + 0.5 * (w - pr) @ W @ (w - pr)


def worse_than_truth_priors(x):
    fs, sg, tr, rms = data(x)
    names, tv, pr, pc = prior_setup(x, fs)
    o = build(x, fs, sg, tr)
    o.dofit(x["poles"], pr, pc)
    return o.fitresult(x["poles"])["cost"] > prior_total(x, *measured(x, tr, fs, sg), pr, pc)[2](tv) + 3


@CHECK.sub("priors", prior_case(), quick=400)
def priors(c, x):
    if not usable(x):
        c.label("not usable")
        return
    poles, p = x["poles"], x["p"]
    fs, sg, tr, rms = data(x)
    f, mean, sd = measured(x, tr, fs, sg)
    names, tv, pr, pc = prior_setup(x, fs)
    pr0, pc0 = pr.copy(), pc.copy()
    c.label(f"{poles} poles")
    c.label("prior on " + x["more"])
    c.nontrivial(poles > 1)
    o = build(x, fs, sg, tr)
    c.ok(o.fitresult(poles) == {}, "result of a fit that has not been run")
    o.dofit(poles, pr, pc)
    c.ok(np.array_equal(pr, pr0) and np.array_equal(pc, pc0), "priors were modified")
    res = o.fitresult(poles)
    q, v, total = judge_priors(c, x, res, f, mean, sd, pr, pc)
    ct = total(tv)
    if res["cost"] > ct + 3:
        msg = f"the fit with priors (cost {res['cost']:.8g}) is worse than the parameters that made the data (cost {ct:.8g}): {q} vs {dict(zip(names, tv))}"
        worse(c, x, worse_than_truth_priors, msg)
        return
    # the resistances stay where priors and data put them
    if poles < 3:
        for k in ("rsh", "rp", "r0"):
            if k in names:
                i = names.index(k)
                c.ok(abs(v[i] - tv[i]) < 6 * np.sqrt(pc[i, i]), f"{k}: fitted {v[i]!r}, true {tv[i]!r}, prior {pr[i]!r} +- {np.sqrt(pc[i, i]):.2g}")
    y = np.exp(-2j * np.pi * f * q["dt"]) / imp(q, poles, f) * q["rsh"]
    yt = np.exp(-2j * np.pi * f * tv[-1]) / imp(p, poles, f) * p["rsh"]
    if len(f) >= 40:
        z = np.abs(y - yt) / np.abs(sd) / p["rsh"]
        c.ok(np.median(z) < 5, f"fitted response is off by {np.median(z):.3g} standard deviations of one point")


@CHECK.sub("invalid", case(poles=1), quick=40)
def invalid(c, x):
    if not usable(x):
        return
    fs, sg, tr, rms = data(x)
    o = build(x, fs, sg, tr)
    c.nontrivial()
    for k in (0, 4, -1):
        c.raises(ValueError, lambda: o.dofit(k), f"{k} poles")
    op = build(dict(x, cls="DIDVPriors"), fs, sg, tr)
    for k in (0, 4, -1):
        c.raises(ValueError, lambda: op.dofit(k, np.ones(4), np.eye(4)), f"{k} poles with priors")
    for j in (1, 2, 3):
        c.ok(o.fitresult(j) == {}, "result although no fit has been run")
