from harness import *
from gens import *
from ivsys import *
from qetpy import IBIS

CHECK = Check("I02", "Cases are random TES circuits with normal, transition and superconducting points, bias and current offsets, "
              "array shapes, and with or without the superconducting fit; non-trivial = a non-zero offset or more than one data set.")


@st.composite
def case(draw):
    x = draw(circuit())
    x["fitsc"] = draw(st.booleans())
    x["rpg"] = draw(st.sampled_from(["scalar", "ch", "tch", "full"]))
    x["given"] = draw(st.sampled_from(["", "", "y", "x", "xy"]))
    x["form"] = draw(st.sampled_from(["float", "array"]))
    x["inds"] = draw(st.sampled_from(["range", "list", "array"]))
    x["noise"] = draw(st.sampled_from([0.0, 1.0]))
    return x


def inds_of(x, lo, hi):
    return {"range": range(lo, hi), "list": list(range(lo, hi)), "array": np.arange(lo, hi)}[x["inds"]]


def rp_arg(x, d):
    nt, nch, n = d["dites"].shape
    rp = d["rp"].copy()
    if x["rpg"] == "scalar":
        rp[:] = rp[0, 0]
        return rp, float(rp[0, 0])
    if x["rpg"] == "ch":
        rp[:] = rp[:1]
        return rp, rp[0].copy()
    if x["rpg"] == "tch":
        return rp, rp.copy()
    return rp, np.repeat(rp[..., None], n, axis=2)


def make(x, d, noise=False):
    """-> IBIS object (not analyzed), true arrays"""
    nt, nch, n = d["dites"].shape
    rp, arg = rp_arg(x, d)
    boff = d["boff"] if x["fitsc"] else np.zeros_like(d["boff"])
    ites = d["ib_true"] * x["rsh"] / (d["r0"] + rp[..., None] + x["rsh"])
    dites = ites + d["ioff"][..., None]
    if noise:
        dites = dites + d["dites_err"] * np.random.RandomState(x["seed"] ^ 5).standard_normal(dites.shape)
    shape = {3: (nt, nch, n), 2: (nch, n), 1: (n,)}[x["ndim"]]
    kw = dict(dites=dites.reshape(shape), dites_err=d["dites_err"].reshape(shape), ibias=(d["ib_true"] + boff[..., None]).reshape(shape),
              ibias_err=d["ibias_err"].reshape(shape), rsh=x["rsh"], rsh_err=x["rsherr"] * x["rsh"], normalinds=inds_of(x, 0, x["nn"]),
              chan_names=[f"c{i}" for i in range(nch)], fitsc=x["fitsc"])
    if x["fitsc"]:
        kw["scinds"] = inds_of(x, n - x["ns"], n)
    else:
        kw.update(rp_guess=arg, rp_err_guess=0.03 * arg)
    return kw, dict(ites=ites, dites=dites, rp=rp, boff=boff, ib=d["ib_true"] + boff[..., None])


@CHECK.sub("recover", case(), quick=4500)
def recover(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    kw, z = make(x, d)
    ib = IBIS(**kw)
    off = {}
    for k, key, v in (("y", "yoff", d["ioff"]), ("x", "xoff", z["boff"])):
        if k in x["given"]:
            if x["form"] == "float" and nt * nch == 1:
                off[key], off[key + "_err"] = float(v[0, 0]), 1e-9
            else:
                off[key], off[key + "_err"] = v[..., None].copy(), np.full(v.shape + (1,), 1e-9)
    ib.analyze(**off)
    c.nontrivial(nt * nch > 1 or np.any(d["ioff"]))
    c.label("sc fit" if x["fitsc"] else "rp given " + x["rpg"])
    rp, ites = z["rp"], z["ites"]
    one = np.ones((nt, nch))
    isc = np.max(np.abs(ites))
    tol = 2e-5
    c.close((c.arr(ib.rp, (nt, nch)) - rp) / (rp + x["rsh"]), 0 * one, 1, "parasitic resistance - truth", scale=tol)
    c.close(c.arr(ib.rnorm, (nt, nch)) / d["rn"], one, tol, "normal resistance / truth")
    c.close(c.arr(ib.rfit, (nt, nch)) / (d["rn"] + rp + x["rsh"]), one, tol, "total resistance / truth")
    c.close(c.arr(ib.ioff, (nt, nch)), d["ioff"], 1, "current offset", scale=1e-6 * isc)
    c.close(c.arr(ib.ibias_off, (nt, nch)), z["boff"], 1, "bias offset", scale=1e-6 * np.max(np.abs(d["ib_true"])))
    c.close(c.arr(ib.ites, ites.shape) / ites, np.ones(ites.shape), 10 * tol, "TES current / truth")
    c.close(c.arr(ib.ibias_true, ites.shape) / d["ib_true"], np.ones(ites.shape), 10 * tol, "bias current / truth")
    c.close(c.arr(ib.vb, ites.shape) / (d["ib_true"] * x["rsh"]), np.ones(ites.shape), 10 * tol, "bias voltage / truth")
    tot = d["r0"] + rp[..., None] + x["rsh"]
    c.close((c.arr(ib.r0, ites.shape) - d["r0"]) / tot, np.zeros(ites.shape), 1, "TES resistance - truth", scale=20 * tol)
    c.close((c.arr(ib.ptes, ites.shape) - ites**2 * d["r0"]) / (ites**2 * tot), np.zeros(ites.shape), 1, "TES power - truth", scale=20 * tol)
    # the two branches as lines
    sn, bn = c.arr(ib.slope_n)[..., 0], c.arr(ib.int_n)[..., 0]
    c.close(sn * (d["rn"] + rp + x["rsh"]) / x["rsh"], one, tol, "slope of the normal branch")
    c.close(bn + sn * z["boff"], d["ioff"], 1, "normal line at the bias offset", scale=1e-6 * isc)
    if x["fitsc"]:
        ss = c.arr(ib.slope_sc)[..., 0]
        c.close(ss * (rp + x["rsh"]) / x["rsh"], one, tol, "slope of the superconducting branch")


@CHECK.sub("independent", case(), quick=1200)
def independent(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    kw, z = make(x, d, noise=True)
    ib = IBIS(**kw)
    ib.analyze()
    c.nontrivial(nt * nch > 1)
    full = {k: np.reshape(kw[k], (nt, nch, n)) for k in ("dites", "dites_err", "ibias", "ibias_err")}
    for t in range(nt):
        for ch in range(nch):
            k1 = dict(kw, chan_names=["x"], **{k: v[t, ch] for k, v in full.items()})
            if not x["fitsc"]:
                k1.update(rp_guess=float(z["rp"][t, ch]), rp_err_guess=0.03 * float(z["rp"][t, ch]))
            one = IBIS(**k1)
            one.analyze()
            for k in ("rp", "rp_err", "rnorm", "rnorm_err", "rfit", "rfit_err", "ioff", "ioff_err", "ibias_off", "ibias_off_err", "ites",
                      "ites_err", "ibias_true", "ibias_true_err", "r0", "r0_err", "ptes", "ptes_err", "vb", "vb_err"):
                c.close(getattr(ib, k)[t, ch], getattr(one, k)[0, 0], 1e-9, f"{k} of data set {t},{ch} alone vs together")
    # analysing again changes nothing
    before = {k: np.array(getattr(ib, k)) for k in ("rp", "rnorm", "r0", "r0_err", "ptes", "ptes_err", "ioff_err", "vb_err")}
    ib.analyze()
    for k, v in before.items():
        c.ok(np.array_equal(v, getattr(ib, k), equal_nan=True), f"{k} changed when analysed again")


@CHECK.sub("padding", st.tuples(case(), st.integers(1, 4)), quick=900)
def padding(c, xp):
    """shorter sweeps are padded with NaN: the points that are there give what they give without padding"""
    x, pad = xp
    x = dict(x, ndim=x["ndim"] if x["nt"] == 1 else 3)
    d = build(x)
    nt, nch, n = d["dites"].shape
    kw, z = make(x, d, noise=True)
    ib = IBIS(**kw)
    ib.analyze()
    def P(a):
        a = np.asarray(a)
        return np.concatenate([a, np.full(a.shape[:-1] + (pad,), np.nan)], axis=-1)
    k2 = dict(kw, **{k: P(kw[k]) for k in ("dites", "dites_err", "ibias", "ibias_err")})
    if not x["fitsc"] and x["rpg"] == "full":
        k2.update(rp_guess=np.repeat(z["rp"][..., None], n + pad, axis=2), rp_err_guess=0.03 * np.repeat(z["rp"][..., None], n + pad, axis=2))
    two = IBIS(**k2)
    two.analyze()
    c.nontrivial(nt * nch > 1)
    for k in ("rp", "rp_err", "rnorm", "rnorm_err", "rfit", "rfit_err", "ioff", "ioff_err", "ibias_off", "ibias_off_err"):
        c.close(c.arr(getattr(two, k), (nt, nch)), getattr(ib, k), 1e-9, f"{k} of padded data")
    for k in ("ites", "ites_err", "ibias_true", "ibias_true_err", "r0", "r0_err", "ptes", "ptes_err", "vb", "vb_err"):
        v = c.arr(getattr(two, k), (nt, nch, n + pad), k, finite=False)
        c.close(v[..., :n], getattr(ib, k), 1e-9, f"{k} of padded data")
        c.ok(np.all(np.isnan(v[..., n:])), f"{k} of the padding is not NaN")


@CHECK.sub("invalid", case(), quick=60)
def invalid(c, x):
    d = build(x)
    kw, z = make(x, d)
    c.nontrivial()
    c.raises(ValueError, lambda: IBIS(**dict(kw, fitsc=True, scinds=None)), "superconducting fit without indices")
    c.raises(ValueError, lambda: IBIS(**dict(kw, chan_names=["a"] * (d["dites"].shape[1] + 1))), "wrong number of channels")
    kw4 = {q: np.reshape(kw[q], (1,) + d["dites"].shape) for q in ("dites", "dites_err", "ibias", "ibias_err")}
    c.raises(ValueError, lambda: IBIS(**dict(kw, **kw4)), "4-dimensional data")
    if x["fitsc"]:
        bad = np.array(kw["dites"])
        bad[..., -1] = np.nan
        ib = IBIS(**dict(kw, dites=bad))
        c.raises(ValueError, ib.analyze, "NaN among the superconducting points")
    c.raises(ValueError, lambda: IBIS(**dict(kw, rp_guess=np.ones((7, 9)), rp_err_guess=np.ones((7, 9)))), "rp_guess of another shape")
