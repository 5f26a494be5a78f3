from harness import *
from gens import *
from ivsys import *
from qetpy import IV

CHECK = Check("I01", "Cases are random TES circuits (1-3 channels, 1-3 temperatures) with normal, transition and superconducting "
              "points, offsets, padding and load-resistance shapes; non-trivial = more than one data set or a non-scalar load resistance.")


@st.composite
def case(draw):
    x = draw(circuit())
    x["rload"] = draw(st.sampled_from(["scalar", "ch", "tch", "full"]))
    x["inds"] = draw(st.sampled_from(["range", "list", "array", "auto"]))
    x["noise"] = 0.0
    x["pol"] = draw(st.sampled_from([1.0, 1.0, -1.0]))   # direction of the bias
    return x


def rload_of(x, d):
    """load resistance values per data set, in the requested shape"""
    nt, nch, n = d["dites"].shape
    rl = d["rp"] + x["rsh"]
    if x["rload"] == "scalar":
        rl = np.full((nt, nch), rl[0, 0])
        arg = float(rl[0, 0])
    elif x["rload"] == "ch":
        rl = np.repeat(rl[:1], nt, axis=0)
        arg = rl[0].copy()
    elif x["rload"] == "tch":
        arg = rl.copy()
    else:
        arg = np.repeat(rl[:, :, None], n, axis=2)
    return rl, arg


def make(x, d, rl, pad=0):
    """data consistent with rload; returns constructor arguments"""
    nt, nch, n = d["dites"].shape
    vb = d["ib_true"] * x["rsh"] * x.get("pol", 1.0)
    ites = vb / (d["r0"] + rl[..., None])
    dites = ites + d["ioff"][..., None]
    verr = d["ibias_err"] * x["rsh"]
    shape = {3: (nt, nch, n), 2: (nch, n), 1: (n,)}[x["ndim"]]
    return ites, dites, vb, verr, shape


def padded(a, pad):
    return np.concatenate([a, np.full(a.shape[:-1] + (pad,), np.nan)], axis=-1) if pad else a


def run_iv(c, x, d, rl, arg, rlerr=None, pad=0):
    ites, dites, vb, verr, shape = make(x, d, rl)
    shp = shape[:-1] + (shape[-1] + pad,)
    if rlerr is None:
        rlerr = 0.1 * arg
    if pad and np.ndim(arg) == 3:
        arg = padded(arg, pad)
        rlerr = padded(rlerr, pad)
    nch = dites.shape[1]
    inds = {"range": range(0, x["nn"]), "list": list(range(0, x["nn"])), "array": np.arange(x["nn"]), "auto": None}[x["inds"]]
    iv = IV(padded(dites, pad).reshape(shp), padded(d["dites_err"], pad).reshape(shp), padded(vb, pad).reshape(shp),
            padded(verr, pad).reshape(shp), arg, rlerr, [f"c{i}" for i in range(nch)], normalinds=inds)
    iv.calc_iv()
    return iv, ites, dites, vb, verr


@CHECK.sub("recover", case(), quick=4500)
def recover(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    rl, arg = rload_of(x, d)
    if x["inds"] == "auto":
        # the automatic choice of the normal points looks for a break of the line
        d["dites_err"] = d["dites_err"] * 0 + 1e-6 * np.min(np.abs(d["ites"]))
    iv, ites, dites, vb, verr = run_iv(c, x, d, rl, arg, pad=x["pad"])
    c.nontrivial(nt * nch > 1 or x["rload"] != "scalar")
    c.label(x["rload"])
    c.label(x["inds"])
    P = n + x["pad"]
    sl = (Ellipsis, slice(0, n))
    tol = 1e-5
    c.close(c.arr(iv.ioff, (nt, nch)), d["ioff"], 1, "current offset", scale=1e-6 * np.max(np.abs(ites)))
    c.close(c.arr(iv.rnorm, (nt, nch)) / d["rn"], np.ones((nt, nch)), tol, "normal resistance / truth")
    c.close(c.arr(iv.rfit, (nt, nch)) / (d["rn"] + rl), np.ones((nt, nch)), tol, "total normal resistance / truth")
    c.close(c.arr(iv.ites, (nt, nch, P), finite=False)[sl] / ites, np.ones(ites.shape), tol, "TES current / truth")
    r0 = c.arr(iv.r0, (nt, nch, P), finite=False)[sl]
    c.close((r0 - d["r0"]) / (d["r0"] + rl[..., None]), np.zeros(r0.shape), 1, "TES resistance - truth", scale=tol)
    p = c.arr(iv.ptes, (nt, nch, P), finite=False)[sl]
    c.close((p - ites**2 * d["r0"]) / (ites * vb), np.zeros(r0.shape), 1, "TES power - truth", scale=2 * tol)
    c.close(c.arr(iv.vb, (nt, nch, P), finite=False)[sl], vb, 1e-12, "stored bias voltage")
    c.close(c.arr(np.broadcast_to(iv.rload, (nt, nch, P)), finite=False)[sl], np.repeat(rl[..., None], n, axis=2), 1e-12, "stored load resistance")
    for a in (iv.ites, iv.r0, iv.ptes):
        c.ok(np.all(np.isnan(a[..., n:])), "padding stays NaN")


@CHECK.sub("independent", case(), quick=1500)
def independent(c, x):
    """each (temperature, channel) data set gives what it gives alone; noisy data"""
    d = build(x)
    nt, nch, n = d["dites"].shape
    r = np.random.RandomState(x["seed"] ^ 77)
    rl, arg = rload_of(x, d)
    x["inds"] = "range" if x["inds"] == "auto" else x["inds"]
    noise = d["dites_err"] * r.standard_normal(d["dites"].shape)
    inds = list(range(x["nn"]))
    ites, dites, vb, verr, shape = make(x, d, rl)
    dites = dites + noise
    names = [f"c{i}" for i in range(nch)]
    iv = IV(dites.reshape(shape), d["dites_err"].reshape(shape), vb.reshape(shape), verr.reshape(shape), arg, 0.1 * np.asarray(arg) if np.ndim(arg) else 0.1 * arg, names, inds)
    iv.calc_iv()
    c.nontrivial(nt * nch > 1)
    for t in range(nt):
        for ch in range(nch):
            one = IV(dites[t, ch], d["dites_err"][t, ch], vb[t, ch], verr[t, ch], float(rl[t, ch]), 0.1 * float(rl[t, ch]), ["x"], inds)
            one.calc_iv()
            for k in ("ioff", "ioff_err", "rfit", "rfit_err", "rnorm", "rnorm_err", "ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err"):
                a, b = getattr(iv, k)[t, ch], getattr(one, k)[0, 0]
                c.close(a, b, 1e-9, f"{k} of data set {t},{ch} alone vs together")


@CHECK.sub("invalid", case(), quick=60)
def invalid(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    a = d["dites"]
    c.nontrivial()
    c.raises(ValueError, lambda: IV(a[None], a[None], a[None], a[None], 1e-3, 0.0, ["a"] * nch), "4-dimensional data")
    c.raises(ValueError, lambda: IV(a, a, a, a, 1e-3, 0.0, ["a"] * (nch + 1)), "wrong number of channel names")
    c.raises(ValueError, lambda: IV(a, a, a, a, np.ones((nt + 1, nch, n + 3)), np.ones((nt + 1, nch, n + 3)), ["a"] * nch), "load resistance of another shape")


@st.composite
def auto_case(draw):
    return dict(nt=draw(st.integers(1, 3)), nch=draw(st.integers(1, 3)), n=draw(st.integers(6, 24)), seed=draw(SEED),
                rel=draw(logfl(1e-5, 1e-2)), spread=draw(st.sampled_from([1.0, 3.0, 30.0, 300.0])),
                jump=draw(logfl(0.5, 1e4)), noise=draw(st.sampled_from([0.0, 1.0, 1.0, 2.0])), pad=draw(st.sampled_from([0, 0, 2])))


@CHECK.sub("autoselect", auto_case(), quick=1500)
def autoselect(c, x):
    """without normalinds, each data set is fitted over its own leading stretch that is a line within its own errors"""
    r = np.random.RandomState(x["seed"])
    nt, nch, n = x["nt"], x["nch"], x["n"]
    shape = (nt, nch, n)
    vb = np.cumsum(r.uniform(0.5, 1.5, shape), axis=-1)[..., ::-1] * 1e-6 * r.uniform(0.1, 2)
    rt = r.uniform(0.05, 0.9, (nt, nch, 1))
    ioff = r.uniform(-20, 20, (nt, nch, 1)) * 1e-6
    err = x["rel"] * np.max(vb / rt) * x["spread"]**r.uniform(-0.5, 0.5, shape)
    dites = vb / rt + ioff + x["noise"] * err * r.standard_normal(shape)
    nn = r.randint(4, n + 1, (nt, nch, 1))
    k = np.arange(n)
    dites = dites + np.where(k >= nn, x["jump"] * (k - nn + 1), 0) * err
    # the stated rule: extend the range until the reduced chi-square of the line exceeds 10
    lens, clear = np.zeros((nt, nch), int), True
    for t in range(nt):
        for ch in range(nch):
            lens[t, ch] = n
            for e in range(3, n + 1):
                a = (vb[t, ch, :e], dites[t, ch, :e], err[t, ch, :e])
                b, m, _ = line(*a)
                red = np.sum(((a[1] - b - m * a[0]) / a[2])**2) / (e - 2)
                clear = clear and abs(red / 10 - 1) > 1e-3
                if red > 10:
                    lens[t, ch] = e - 1
                    break
    if not clear or np.any(lens < 3):
        return
    c.nontrivial(nt * nch > 1 and np.any(lens < n))
    c.label("several-lengths" if len(set(lens.ravel())) > 1 else "one-length")
    P = lambda a: padded(a, x["pad"])
    iv = IV(P(dites), P(err), P(vb), P(np.zeros(shape)), 0.01, 0.0, [f"c{i}" for i in range(nch)])
    iv.calc_iv()
    for t in range(nt):
        for ch in range(nch):
            good = []
            # a curve that is straight to its end may or may not use its last point
            for L in ([n, n - 1] if lens[t, ch] == n else [lens[t, ch]]):
                b, m, cov = line(vb[t, ch, :L], dites[t, ch, :L], err[t, ch, :L])
                got = np.array([iv.ioff[t, ch], iv.rfit[t, ch], iv.ioff_err[t, ch], iv.rfit_err[t, ch]])
                want = np.array([b, 1 / m, cov[0, 0]**0.5, cov[1, 1]**0.5 / m**2])
                s = np.array([want[2], want[3], want[2], want[3]])
                good.append(np.all(np.abs(got - want) <= 1e-3 * s + 1e-6 * np.abs([np.max(dites[t, ch]), 1 / m, 0, 0])))
            c.ok(any(good), f"data set {t},{ch}: fit {got} is the line through its first {lens[t, ch]} points {want}")
