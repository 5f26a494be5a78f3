"""Generators (JSON-able cases) and builders shared by the checks."""
import numpy as np
from numpy.fft import fft, ifft, fftfreq
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def fl(lo, hi):
    """Floats in [lo, hi]; around 0, nothing between 0 and 1e-9 of the range (denormals have no relative accuracy)."""
    s = st.floats(lo, hi, allow_nan=False, allow_infinity=False)
    tiny = 1e-9 * max(abs(lo), abs(hi))
    return s.map(lambda v: v if abs(v) >= tiny else 0.0) if lo <= 0 <= hi else s


def logfl(lo, hi):
    return st.floats(np.log10(lo), np.log10(hi), allow_nan=False).map(lambda e: float(10.0**e))


def signed(s):
    return st.tuples(st.sampled_from([1.0, -1.0]), s).map(lambda t: t[0] * t[1])


FS = st.sampled_from([1.0, 625e3, 1e6, 1.25e6, 100.0, 12345.6, 48000, 3.0, 2.5e6])


@st.composite
def size(draw, small, big, one_in=40):
    """mostly a small size (where mistakes shrink to), now and then one of the sizes of real data"""
    if draw(st.integers(0, one_in - 1)) == one_in - 1:
        return draw(st.sampled_from(big))
    return draw(small)


BIGN = [130, 257, 512, 625, 1000, 1250, 2001, 4096, 6250]


@st.composite
def of_system(draw, nmin=4, nmax=96, traces=1, big=BIGN):
    """trace(s) + template + two-sided symmetric PSD."""
    n = draw(size(st.one_of(st.integers(nmin, 24), st.integers(nmin, nmax)) if nmin < 24 else st.integers(nmin, nmax), big))
    x = dict(n=n, fs=draw(FS), unit=draw(st.sampled_from([1.0, 1e-6, 1e-9])))
    x["tkind"] = draw(st.sampled_from(["pulse", "pulse", "pulse", "random", "square"]))
    x["tau_r"] = draw(fl(0.3, 4.0))
    x["tau_f"] = draw(fl(4.5, 40.0))
    x["tscale"] = draw(st.sampled_from([1.0, 1.0, 1.0, -1.0, 2.5]))
    x["tpos"] = draw(st.sampled_from(["mid", "zero", "any"]))
    x["toff"] = draw(st.integers(0, n - 1))
    x["tseed"] = draw(SEED)
    x["psd"] = draw(st.sampled_from(["white", "pink", "rand", "lorentz", "line"]))
    x["pseed"] = draw(SEED)
    x["plev"] = draw(st.sampled_from([1.0, 1e-2, 1e2]))
    x["tr"] = []
    for _ in range(traces):
        x["tr"].append(dict(a=draw(signed(fl(0.0, 20.0))), k=draw(st.integers(-n, n)),
                            frac=draw(st.sampled_from([0.0, 0.0, 0.5, 0.25])),
                            a2=draw(st.one_of(st.just(0.0), signed(fl(0.1, 10.0)))),
                            k2=draw(st.integers(-n, n)),
                            off=draw(st.sampled_from([0.0, 0.0, 5.0, -100.0])),
                            sig=draw(st.sampled_from([1.0, 1.0, 0.01, 0.1, 3.0])),
                            seed=draw(SEED)))
    return x


def tshift_exact(template, bins):
    """Circular (band-limited for fractional) shift."""
    n = len(template)
    if float(bins).is_integer():
        return np.roll(template, int(bins))
    return np.real(ifft(fft(template) * np.exp(-2j * np.pi * fftfreq(n) * bins)))


def of_template(x):
    n = x["n"]
    if x["tkind"] == "random":
        t = np.random.RandomState(x["tseed"]).standard_normal(n)
        t = t + 0.3
    elif x["tkind"] == "square":
        w = 1 + x["tseed"] % max(1, n // 2)
        t = np.zeros(n)
        t[:w] = 1.0
    else:
        k = np.arange(n)
        t = np.exp(-k / x["tau_f"]) - np.exp(-k / x["tau_r"])
    pos = {"mid": n // 2, "zero": 0, "any": x["toff"]}[x["tpos"]]
    if x["tkind"] == "pulse":
        out = np.zeros(n)
        out[pos:] = t[:n - pos]
        if out.max() <= 0:
            out = t
        t = out
    else:
        t = np.roll(t, pos)
    return t / np.max(np.abs(t)) * x.get("tscale", 1.0)


def of_psd(x):
    n, fs = x["n"], x["fs"]
    f = np.abs(fftfreq(n)) * n
    kind = x["psd"]
    if kind == "white":
        p = np.ones(n)
    elif kind == "pink":
        p = 1.0 / np.maximum(f, 0.5) + 0.05
    elif kind == "lorentz":
        p = 1.0 / (1 + (f / (1 + n / 10.0))**2) + 0.01
    elif kind == "line":
        p = np.ones(n)
        p[f == 1 + x["pseed"] % max(1, n // 2)] = 1e3
    else:
        r = np.random.RandomState(x["pseed"]).lognormal(0, 1.0, n // 2 + 1)
        p = r[np.round(f).astype(int)]
    return p * x["plev"] * x["unit"]**2 / fs


def of_noise(x, psd, seed):
    n, fs = x["n"], x["fs"]
    w = np.random.RandomState(seed).standard_normal(n)
    return np.real(ifft(fft(w) * np.sqrt(psd * fs)))


def of_trace(x, template, psd, tr):
    n = x["n"]
    s = tr["a"] * tshift_exact(template, tr["k"] + tr["frac"])
    if tr["a2"]:
        s = s + tr["a2"] * np.roll(template, tr["k2"])
    return (s + tr["off"]) * x["unit"] + tr["sig"] * of_noise(x, psd, tr["seed"])


def of_build(x):
    t = of_template(x)
    p = of_psd(x)
    sig = [of_trace(x, t, p, tr) for tr in x["tr"]]
    return t, p, sig


class Ref:
    """Independent weighted-least-squares reference, built from np.roll in the time domain
    and an explicit sum over frequencies."""
    def __init__(self, signal, template, psd, fs, coupling="AC", integralnorm=False):
        n = len(signal)
        self.n, self.fs, self.df = n, fs, fs / n
        self.freqs = fftfreq(n, d=1 / fs)
        w = self.df / np.array(psd, dtype=float)
        self.psd0 = float(psd[0])
        self.wfull = w.copy()
        if coupling == "AC":
            w[0] = 0.0
        self.w = w
        t = np.array(template, dtype=float)
        if integralnorm:
            t = t / (t.sum() / fs)
        self.t = t
        self.S0 = fft(t) / fs
        self.V = fft(np.asarray(signal, dtype=float)) / fs
        self.norm = float(np.sum(w * np.abs(self.S0)**2))
        self.chi0 = float(np.sum(w * np.abs(self.V)**2))

    def S(self, bins):
        return self.S0 * np.exp(-2j * np.pi * self.freqs * bins / self.fs)

    def chi2(self, *pairs, base=None, w=None):
        """chi2 of signal minus sum(amp*template shifted by time t)"""
        r = self.V.copy()
        for a, t0 in pairs:
            r = r - a * self.S0 * np.exp(-2j * np.pi * self.freqs * t0)
        if base is not None:
            r = r - fft(np.full(self.n, base)) / self.fs
        return float(np.sum((self.w if w is None else w) * np.abs(r)**2))

    def shifts(self):
        """n x n array of the template spectrum at bin delays -(n//2)..n-1-n//2"""
        return np.array([fft(np.roll(self.t, k)) / self.fs for k in range(-(self.n // 2), self.n - self.n // 2)])

    def scan(self):
        """amplitude, chi2 for every delay index (index n//2 = zero delay)"""
        if self.n > 1200:
            # the same sums over frequencies, all delays at once
            den = np.full(self.n, self.norm)
            num = np.roll(np.real(ifft(self.w * self.V * self.S0.conj())) * self.n, self.n // 2)
            return num / den, self.chi0 - num**2 / den
        S = self.shifts()
        den = np.sum(self.w * np.abs(S)**2, axis=1)
        a = np.real(S.conj() @ (self.w * self.V)) / den
        chi = np.sum(self.w * np.abs(self.V[None, :] - a[:, None] * S)**2, axis=1)
        return a, chi


def allowed_bins(n, nconstrain, outside, wc):
    """Documented delay window as a set of bins."""
    if nconstrain is None:
        return np.arange(n)
    nc = min(nconstrain, n)
    lo = n // 2 + wc - nc // 2
    inside = np.arange(n)
    m = (inside >= lo) & (inside < lo + nc)
    return np.flatnonzero(~m if outside else m)


@st.composite
def window(draw, n, centre=True):
    nc = draw(st.one_of(st.none(), st.integers(1, n + 3), st.sampled_from([1, 2, 3, n - 1, n, n + 10])))
    if nc is not None and nc < 1:
        nc = 1
    wc = 0
    if centre:
        lo, hi = -(n // 2), n - 1 - n // 2
        wc = draw(st.one_of(st.just(0), st.integers(lo, hi), st.sampled_from([lo, hi, -1, 1 if hi >= 1 else 0])))
    return dict(nconstrain=nc, outside=draw(st.booleans()), wc=wc)
