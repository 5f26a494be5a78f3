from harness import *
from gens import *
from qetpy import utils as qu

CHECK = Check("U03", "Cases are bias circuits, trace batches (one to four dimensions), baseline windows, sampling descriptions and covariances; "
              "non-trivial = a batch or a post-pulse baseline window, resp. a non-zero covariance.")
E_CHARGE = 1.602176634e-19


@st.composite
def circ(draw):
    return dict(ioff=draw(signed(fl(0, 50))), qb=draw(fl(1, 500)), rl=draw(logfl(1e-3, 0.1)), rsh=draw(logfl(1e-3, 0.05)), seed=draw(SEED))


def integral(y, dt):
    """trapezoidal rule, written out"""
    return np.sum((y[..., 1:] + y[..., :-1]) / 2 * dt, axis=-1)


@st.composite
def ecase(draw):
    x = draw(circ())
    n = draw(size(st.integers(5, 60), [300, 1250, 5000]))
    x.update(n=n, shape=draw(size(st.sampled_from([(), (1,), (4,), (2, 3), (3, 2, 2), (2, 1)]), [(60,), (300,), (40, 5)])), fs=draw(FS), how=draw(st.sampled_from(["fs", "time", "uneven", "both"])),
             base=draw(st.sampled_from(["pre", "pre+post", "given", "full", "given+pre"])), pre=draw(st.integers(1, n - 1)), post=draw(st.integers(1, n - 1)))
    return x


@CHECK.sub("power", circ(), quick=2400)
def power(c, x):
    r = np.random.RandomState(x["seed"])
    i = r.standard_normal((3, 7)) * 1e-5
    ioff, qb = x["ioff"] * 1e-6, x["qb"] * 1e-6
    p = c.arr(qu.powertrace_simple(i + ioff, ioff, qb, x["rl"], x["rsh"]), i.shape, "power")
    vb = qb * x["rsh"]
    c.nontrivial()
    c.close(p, i * vb - x["rl"] * i**2, 1e-9, "power", scale=np.max(np.abs(i)) * (vb + x["rl"] * np.max(np.abs(i)) + x["rl"] * abs(ioff)))
    # the same as from Ohm's law at the TES: R0 = Vb/I - Rl, P = I^2 R0
    c.close(p, i**2 * (vb / i - x["rl"]), 1e-6, "power from I^2 R0")


@CHECK.sub("energy", ecase(), quick=12000)
def energy(c, x):
    r = np.random.RandomState(x["seed"])
    n, shape = x["n"], tuple(x["shape"])
    ioff, qb = x["ioff"] * 1e-6, x["qb"] * 1e-6
    tr = r.standard_normal(shape + (n,)) * 1e-6 + ioff + 2e-5 * r.uniform(0.1, 1, shape + (1,))
    kw = {}
    if x["base"] == "given" or x["base"] == "given+pre":
        base = tr.mean(axis=-1, keepdims=True) + 1e-6 * r.standard_normal(shape + (1,))
        kw["baseline"] = base
        if x["base"] == "given+pre":
            kw["indbasepre"] = x["pre"]
    elif x["base"] == "full":
        base = tr + 1e-6 * r.standard_normal(tr.shape)
        kw["baseline"] = base
    else:
        kw["indbasepre"] = x["pre"]
        sel = list(range(x["pre"]))
        if x["base"] == "pre+post":
            kw["indbasepost"] = x["post"]
            sel += list(range(x["post"], n))
        base = tr[..., sel].mean(axis=-1, keepdims=True)
    t = np.cumsum(r.uniform(0.3, 2, n)) / x["fs"] if x["how"] == "uneven" else np.arange(n) / x["fs"] + 3.0 / x["fs"]
    if x["how"] in ("fs", "both"):
        kw["fs"] = x["fs"]
    if x["how"] in ("time", "uneven", "both"):
        kw["time"] = t
    dt = np.diff(t) if x["how"] == "uneven" else 1 / x["fs"]
    vb = qb * x["rsh"]
    P = lambda i: (i - ioff) * vb - x["rl"] * (i - ioff)**2
    want = integral(P(base) - P(tr), dt) / E_CHARGE
    scale = np.sum(np.abs(P(base)) + np.abs(P(tr)), axis=-1).max() / x["fs"] / E_CHARGE + 1e-300
    got = qu.energy_absorbed(tr, ioff, qb, x["rl"], x["rsh"], **kw)
    c.nontrivial(len(shape) > 0 or x["base"] == "pre+post")
    c.label(x["base"])
    c.close(got, want, 1e-7, "absorbed energy", scale=scale * (1 + abs(ioff) / 1e-5))
    if len(shape):
        one = tuple(0 for _ in shape)
        k1 = dict(kw)
        if "baseline" in k1:
            k1["baseline"] = k1["baseline"][one]
        c.close(qu.energy_absorbed(tr[one], ioff, qb, x["rl"], x["rsh"], **k1), np.asarray(got)[one], 1e-9, "one trace vs the batch", scale=scale)


@CHECK.sub("energy_invalid", ecase(), quick=400)
def energy_invalid(c, x):
    tr = np.ones((2, x["n"]))
    c.nontrivial()
    c.raises(ValueError, lambda: qu.energy_absorbed(tr, 0, 1, 1, 1, fs=1.0), "no baseline")
    c.raises(ValueError, lambda: qu.energy_absorbed(tr, 0, 1, 1, 1, indbasepre=2), "no sampling description")


@st.composite
def muon(draw):
    x = draw(circ())
    x.update(rn=draw(fl(0.05, 1.0)), r0=draw(fl(0.02, 0.6)), nb=draw(st.integers(5, 400)), default=draw(st.booleans()), n_plat=draw(st.integers(200, 400)),
             n_tail=draw(st.integers(1, 300)), rshdef=draw(st.booleans()))
    return x


@CHECK.sub("muon", muon(), quick=4000)
def muon_offset(c, x):
    """a pulse that drives the TES fully normal"""
    rsh = 5e-3 if x["rshdef"] else x["rsh"]
    qb, rl, rn = x["qb"] * 1e-6, x["rl"], x["rn"]
    r0 = x["r0"] * rn
    i0, inorm = qb * rsh / (rl + r0), qb * rsh / (rl + rn)
    # the current drops while the pulse is up; traces are stored with pulses upwards, so that the
    # saturated level is baseline + (i_normal - i0)
    base = x["ioff"] * 1e-6 + i0
    n_b = 6000 if x["default"] else x["nb"]
    tail = np.linspace(0, 0.9, x["n_tail"])
    sat = base + (inorm - i0)
    tr = np.concatenate([np.full(n_b, base), np.full(x["n_plat"], sat), sat + (base - sat) * tail])
    if sat <= base:
        # the helper looks for the maximum of the trace: make the plateau the maximum, as in a flipped readout
        base2 = base
        tr = 2 * base2 - tr
        want_i0 = inorm - (base2 - sat)
        sat = 2 * base2 - sat
        i0 = want_i0
    kw = {}
    if not x["default"]:
        kw["nbaseline"] = n_b
    if not x["rshdef"]:
        kw["rsh"] = rsh
    ioff = base - i0
    wr0 = inorm * (rn + rl) / i0 - rl
    scale = abs(base) + abs(i0) + abs(sat)
    if abs(i0) < 1e-3 * scale:
        return
    got = c.tup(qu.get_offset_from_muon(tr, qb, rn, rl, lgcfullrtn=True, **kw), 4)
    c.nontrivial()
    c.close(got[0], ioff, 1e-9, "offset", scale=scale)
    c.close(got[2], i0, 1e-9, "current", scale=scale)
    c.close(got[1], wr0, 1e-6, "resistance", scale=abs(wr0) + rl)
    c.close(got[3], i0 * rsh * qb - rl * i0**2, 1e-6, "bias power", scale=abs(i0 * rsh * qb) + rl * i0**2)
    c.close(qu.get_offset_from_muon(tr, qb, rn, rl, lgcfullrtn=False, **kw), ioff, 1e-9, "offset only", scale=scale)


@st.composite
def gcase(draw):
    return dict(p0=draw(logfl(1e-15, 1e-9)), tc=draw(fl(0.03, 0.3)), rb=draw(fl(0.0, 0.95)), n=draw(st.sampled_from([5, 5, 4, 3, 6, 4.5])), perr=draw(st.sampled_from([0.0, 0.01, 0.2])),
                cov=draw(st.booleans()), errs=[draw(fl(0, 0.1)) for _ in range(3)], rho=draw(st.lists(fl(-1, 1), min_size=9, max_size=9)))


@CHECK.sub("conductance", gcase(), quick=8000)
def conductance(c, x):
    p0, tc, n = x["p0"], x["tc"], x["n"]
    tb = x["rb"] * tc
    kw = {} if n == 5 else {"n": n}
    # P = K (Tc^n - Tb^n), G = dP/dTc
    G = lambda q: q[0] / (q[1]**n - q[2]**n) * n * q[1]**(n - 1)
    v = np.array([p0, tc, tb])
    if x["cov"]:
        e = np.array(x["errs"]) * np.array([p0, tc, tc])
        M = np.array(x["rho"]).reshape(3, 3) + 2 * np.eye(3)
        C = M @ M.T
        d = np.sqrt(np.diag(C))
        cov = C / d / d[:, None] * e * e[:, None]
        grad = np.array([G(v + 1j * h * np.eye(3)[k]).imag / h for k, h in enumerate(np.maximum(v, 1e-30) * 1e-30)])    # complex step
        want = np.sqrt(max(grad @ cov @ grad, 0))
        scale = np.sqrt(np.sum((grad * e)**2)) + 1e-12 * G(v)
        g, ge = c.tup(qu.estimate_g(p0, tc, tb, cov=cov, **kw), 2)
        c.nontrivial(np.any(e))
    else:
        want = abs(x["perr"] * p0 * G(v) / p0)
        scale = want + 1e-300
        g, ge = c.tup(qu.estimate_g(p0, tc, tb, p0_err=x["perr"] * p0, **kw), 2)
        c.nontrivial(x["perr"] > 0)
    c.close(float(g), G(v), 1e-9, "thermal conductance")
    if want > 1e-2 * scale:        # otherwise the correlated terms cancel
        c.close(float(ge), want, 2e-4, "error of the conductance", scale=scale)
