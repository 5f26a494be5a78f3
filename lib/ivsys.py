"""Synthetic biased-TES circuits for the IV and IbIs checks."""
import numpy as np
from gens import *


@st.composite
def circuit(draw, maxt=3, maxch=3):
    nt, nch = draw(size(st.integers(1, maxt), [6, 12])), draw(size(st.integers(1, maxch), [6, 10]))
    if draw(st.booleans()):
        nt = 1
    x = dict(nt=nt, nch=nch, ndim=draw(st.sampled_from([3, 3, 2, 1])))
    if x["ndim"] < 3:
        x["nt"] = 1
    if x["ndim"] == 1:
        x["nch"] = 1
    x["nn"], x["nx"], x["ns"] = draw(size(st.integers(3, 6), [20, 50])), draw(size(st.integers(2, 6), [20, 100])), draw(size(st.integers(3, 6), [20, 50]))
    x["rsh"] = draw(fl(1e-3, 20e-3))
    m = x["nt"] * x["nch"]
    x["rp"] = [draw(fl(0.2e-3, 20e-3)) for _ in range(m)]
    x["rn"] = [draw(fl(50e-3, 1.0)) for _ in range(m)]
    x["ioff"] = [draw(signed(fl(0, 20.0))) for _ in range(m)]     # uA
    x["boff"] = [draw(signed(fl(0, 10.0))) for _ in range(m)]     # uA
    x["step"] = draw(fl(10.0, 100.0))                             # uA
    x["seed"] = draw(SEED)
    x["derr"] = draw(logfl(1e-4, 1e-2))                           # relative scale of the errors
    x["berr"] = draw(st.sampled_from([0.0, 1e-3, 1e-2]))
    x["rsherr"] = draw(st.sampled_from([0.0, 0.01, 0.1]))
    x["pad"] = draw(st.integers(0, 2))
    x["desc"] = draw(st.booleans())
    return x


def build(x, decreasing=True):
    """-> dict of (nt, nch, npts) arrays; normal branch first, superconducting last"""
    r = np.random.RandomState(x["seed"])
    n = x["nn"] + x["nx"] + x["ns"]
    shape = (x["nt"], x["nch"], n)
    q = {k: np.array(x[k]).reshape(x["nt"], x["nch"], 1) for k in ("rp", "rn", "ioff", "boff")}
    ib = np.empty(shape)
    r0 = np.empty(shape)
    for t in range(x["nt"]):
        for c in range(x["nch"]):
            grid = np.cumsum(r.uniform(0.5, 1.5, n))[::-1] * x["step"] * 1e-6 + 5e-6
            ib[t, c] = grid
            frac = np.sort(r.uniform(0.02, 0.8, x["nx"]))[::-1]
            r0[t, c, :x["nn"]] = 1
            r0[t, c, x["nn"]:x["nn"] + x["nx"]] = frac
            r0[t, c, x["nn"] + x["nx"]:] = 0
    r0 = r0 * q["rn"]
    ites = ib * x["rsh"] / (r0 + q["rp"] + x["rsh"])
    d = dict(ib_true=ib, ibias=ib + q["boff"] * 1e-6, ites=ites, dites=ites + q["ioff"] * 1e-6, r0=r0, ptes=ites**2 * r0,
             rp=q["rp"][..., 0], rn=q["rn"][..., 0], ioff=q["ioff"][..., 0] * 1e-6, boff=q["boff"][..., 0] * 1e-6)
    d["dites_err"] = x["derr"] * np.max(np.abs(ites)) * r.uniform(0.5, 2, shape)
    d["ibias_err"] = x["berr"] * x["step"] * 1e-6 * r.uniform(0.5, 2, shape)
    return d


def line(xv, y, s):
    """closed-form weighted straight line -> intercept, slope, covariance"""
    w = 1 / s**2
    xm = np.sum(w * xv) / np.sum(w)
    sxx = np.sum(w * (xv - xm)**2)
    m = np.sum(w * (xv - xm) * y) / sxx
    b = np.sum(w * y) / np.sum(w) - m * xm
    vb = 1 / np.sum(w) + xm**2 / sxx
    return b, m, np.array([[vb, -xm / sxx], [-xm / sxx, 1 / sxx]])
