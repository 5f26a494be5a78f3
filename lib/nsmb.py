"""Generators and a time-domain/lstsq reference for the multi-background optimum filter."""
import numpy as np
from gens import *
import qetpy as qp


@st.composite
def system(draw, nmin=8, nmax=48, nbmax=4, big=(100, 128, 257, 500)):
    n = draw(size(st.integers(nmin, nmax), list(big)))
    x = dict(n=n, fs=draw(FS), unit=draw(st.sampled_from([1.0, 1e-6])))
    x["tkind"] = draw(st.sampled_from(["pulse", "pulse", "pulse", "random"]))
    x["tau_r"], x["tau_f"] = draw(fl(0.4, 3.0)), draw(fl(3.5, 20.0))
    x["tpos"], x["toff"] = draw(st.sampled_from(["mid", "mid", "zero", "any"])), draw(st.integers(0, n - 1))
    x["tseed"] = draw(SEED)
    x["psd"] = draw(st.sampled_from(["white", "pink", "rand", "lorentz", "line"]))
    x["pseed"], x["plev"] = draw(SEED), draw(st.sampled_from([1.0, 1e-2, 1e2]))
    nb = draw(st.integers(1, nbmax))
    x["bg"] = [dict(kind=draw(st.sampled_from(["dc", "slope", "pulse", "pulse", "random", "posrand"])),
                    pos=draw(st.integers(0, n - 3)), tr=draw(fl(0.4, 2.0)), tf=draw(fl(2.5, 12.0)), seed=draw(SEED)) for _ in range(nb)]
    x["a"] = draw(signed(fl(0.0, 20.0)))
    x["k"] = draw(st.integers(0, n - 1))
    x["b"] = [draw(signed(fl(0.0, 20.0))) for _ in range(nb)]
    x["sig"] = draw(st.sampled_from([0.0, 1.0, 1.0, 0.05, 3.0]))
    x["off"] = draw(st.sampled_from([0.0, 0.0, 4.0]))
    x["seed"] = draw(SEED)
    x["lf"] = draw(st.one_of(st.integers(1, n), st.just(500)))
    x["win"] = draw(st.sampled_from(["all", "all", "some", "range", "neg", "one"]))
    x["wa"], x["wb"] = draw(st.integers(0, n - 1)), draw(st.integers(1, n))
    x["wseed"] = draw(SEED)
    return x


def bgtemplates(x):
    n = x["n"]
    k = np.arange(n)
    cols = []
    for b in x["bg"]:
        if b["kind"] == "dc":
            v = np.ones(n)
        elif b["kind"] == "slope":
            v = k / n
        elif b["kind"] == "pulse":
            v = np.zeros(n)
            v[b["pos"]:] = (np.exp(-k / b["tf"]) - np.exp(-k / b["tr"]))[:n - b["pos"]]
        else:
            v = np.random.RandomState(b["seed"]).standard_normal(n)
            if b["kind"] == "posrand":
                v = np.abs(v) + b["tr"]
        cols.append(v / np.max(np.abs(v)))
    return np.array(cols).T


def window_of(x):
    n = x["n"]
    w = x["win"]
    if w == "all":
        idx = np.arange(n)
    elif w == "some":
        m = np.random.RandomState(x["wseed"]).rand(n) < 0.4
        m[x["wa"]] = True
        idx = np.flatnonzero(m)
    elif w == "range":
        idx = np.arange(x["wa"], min(n, x["wa"] + x["wb"]))
    elif w == "neg":
        idx = np.arange(x["wa"] - n, x["wa"] - n + x["wb"])
    else:
        idx = np.array([x["wa"]])
    return idx[None, :]


class Sys:
    def __init__(self, x):
        self.x = x
        n, fs = x["n"], x["fs"]
        self.n, self.fs = n, fs
        self.s, self.psd, self.bt = of_template(x), of_psd(x), bgtemplates(x)
        tr = dict(a=x["a"], k=x["k"], frac=0.0, a2=0.0, k2=0, off=x["off"], sig=x["sig"], seed=x["seed"])
        self.y = of_trace(x, self.s, self.psd, tr) + self.bt @ np.array(x["b"]) * x["unit"]
        p = self.psd.copy()
        p[0] = p[1]
        self.w = 1 / (p * fs / n) / n**2              # chi2 = sum w |fft|^2
        self.Y = fft(self.y)
        self.full = float(np.sum(self.w * np.abs(self.Y)**2))
        self.pol = None

    def setup(self, y=None, s=None, bt=None, psd=None):
        return qp.of_nsmb_setup(self.s if s is None else s, self.bt if bt is None else bt,
                                self.psd if psd is None else psd, self.fs)

    def design(self, d):
        """n x nsb time-domain templates for signal delay d (None: backgrounds only)"""
        if d is None:
            return self.bt
        return np.column_stack([np.roll(self.s, d), self.bt])

    def lsq(self, d, pol=None):
        """independent weighted least squares -> amplitudes, chi2, condition number"""
        A = fft(self.design(d), axis=0) * np.sqrt(self.w)[:, None]
        A = np.vstack([A.real, A.imag])
        b = self.Y * np.sqrt(self.w)
        b = np.concatenate([b.real, b.imag])
        sc = np.linalg.norm(A, axis=0)
        sc[sc == 0] = 1
        A = A / sc
        sv = np.linalg.svd(A, compute_uv=False)
        cond = sv[0] / max(sv[-1], 1e-300)
        if pol is None or not np.any(pol):
            v = np.linalg.lstsq(A, b, rcond=1e-10)[0]
        else:
            from scipy.optimize import lsq_linear
            nb2 = np.linalg.norm(b) or 1.0
            lo = np.where(np.asarray(pol) == 1, 0, -np.inf)
            hi = np.where(np.asarray(pol) == -1, 0, np.inf)
            v = lsq_linear(A, b / nb2, bounds=(lo, hi), method="bvls", tol=1e-15, max_iter=500).x * nb2
        return v / sc, float(np.sum((A @ v - b)**2)), cond

    def chi2(self, amps, d, kmax=None):
        r = np.abs(fft(self.y - self.design(d) @ np.asarray(amps)))**2 * self.w
        return float(np.sum(r if kmax is None else r[:kmax]))
