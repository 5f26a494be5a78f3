from harness import *
from gens import *
from didv import *
import copy

CHECK = Check("D03", "Cases are random sets of traces of several square-wave periods plus an incomplete one, with random sample rates, gains, "
              "offsets, duty cycles, half-period flags and NaN or exactly periodic traces; non-trivial = an incomplete period, several periods or NaN traces.")


@st.composite
def case(draw):
    x = dict(P=draw(st.one_of(st.integers(4, 40), st.sampled_from([25, 50, 100, 125, 250, 625, 1250, 3125]))), m=draw(size(st.integers(1, 12), [25, 40])),
             n=draw(size(st.integers(1, 8), [30, 130, 300])), fs=draw(st.sampled_from([625e3, 1.25e6, 1e5, 48000.0, 3.0, 1e6 / 3, 12345.0])),
             d=draw(st.sampled_from([0.5, 0.5, 0.5, 0.25, 0.7])), gain=draw(st.sampled_from([1.0, 1.0, 1e6, -3.0])),
             off=draw(st.sampled_from([0.0, 1e-6, -3e-3])), amp=draw(logfl(1e-8, 1e-5)), rsh=draw(logfl(1e-3, 0.1)),
             kind=draw(st.sampled_from(["noise", "noise", "int", "response"])), nan=draw(st.sampled_from([0, 0, 0, 1, 2])),
             add180=draw(st.booleans()), dt0=draw(st.sampled_from([0.0, 0.1, -0.5, 1.3])), cls=draw(st.sampled_from(["DIDV", "DIDVPriors"])),
             seed=draw(SEED))
    x["extra"] = draw(st.one_of(st.just(0), st.integers(0, x["P"] - 1)))
    s = draw(small())
    x["p"], x["poles"] = s["p"], s["poles"]
    x["dt0"] /= rate(x)[1]
    return x


def rate(x):
    """sample rate and frequency whose ratio is exactly the integer P"""
    sg = max(1, round(x["fs"] / x["P"] * 8)) / 8
    fs = sg * x["P"]
    return fs, sg


def traces(x, fs, sg):
    N = x["P"] * x["m"] + x["extra"]
    r = np.random.RandomState(x["seed"])
    if x["kind"] == "int":
        a = r.randint(-20, 21, (x["n"], N)).astype(float)
        a[0, :] = np.where(np.arange(N) % x["P"] < x["P"] // 2, -7.0, 7.0)     # exactly zero at many frequencies
        return a
    if x["kind"] == "response":
        per = response(x, x["P"], x["P"], x["amp"], x["rsh"], lambda f: 1 / imp(dict(x["p"], rsh=x["rsh"]), x["poles"], f), sg, x["d"])
        a = np.resize(per, (x["n"], N)) if N % x["P"] == 0 else np.array([per[np.arange(N) % x["P"]]] * x["n"])
        return (a + x["off"]) * x["gain"]
    return (r.standard_normal((x["n"], N)) * 1e-7 + x["off"]) * x["gain"]


def make(x, tr, fs, sg, cls=None):
    return getattr(qetpy, cls or x["cls"])(tr, fs, sg, x["amp"], x["rsh"], tracegain=x["gain"], dutycycle=x["d"],
                                           add180phase=x["add180"], dt0=x["dt0"])


STATE = ["_time", "_traces", "_flatinds", "_tmean", "_freq", "_zeroinds", "_didvstd", "_didvmean", "_offset", "_offset_err", "_ntraces", "_dt0"]


@CHECK.sub("process", case(), quick=2500)
def process(c, x):
    fs, sg = rate(x)
    if np.mod(fs, sg) != 0:
        c.label("ratio is not exact")
        return
    tr = traces(x, fs, sg)
    P, m = x["P"], x["m"]
    nan = [i for i in range(min(x["nan"], x["n"] - 1))]
    for i in nan:
        tr[-1 - i, (x["seed"] >> i) % (P * m)] = np.nan
    tr0 = tr.copy()
    c.label(x["kind"])
    c.nontrivial(x["extra"] or m > 1 or nan)
    o = make(x, tr, fs, sg)
    o.processtraces()
    keep = tr0[:x["n"] - len(nan), :P * m] / x["gain"]
    N = P * m
    c.ok(np.array_equal(tr, tr0, equal_nan=True), "raw traces were modified")
    c.close(c.arr(o._tmean, (N,), "mean trace"), keep.mean(axis=0), 1e-12, "mean of the kept traces, whole periods only", scale=np.max(np.abs(keep)))
    c.close(c.arr(o._traces, (len(keep), N), "kept traces"), keep, 1e-14, "kept traces")
    c.ok(int(o._ntraces) == len(keep), f"number of traces {o._ntraces}, expected {len(keep)}")
    c.close(c.num(o._offset), keep.mean(), 1e-10, "offset", scale=np.max(np.abs(keep)))
    c.close(c.num(o._offset_err), np.std(keep.mean(axis=1)) / np.sqrt(len(keep)), 1e-7, "error of the offset",
            scale=np.std(keep.mean(axis=1)) + 1e-9 * np.max(np.abs(keep)))
    c.close(c.arr(o._freq, (N,)), np.fft.fftfreq(N, 1 / fs), 1e-9, "frequencies")
    shift = x["dt0"] + (0.5 / sg if x["add180"] else 0)
    c.close(c.arr(o._time, (N,)), np.arange(N) / fs - shift, 1e-12, "times", scale=N / fs + abs(shift))
    # deconvolution at the harmonics of the square wave
    k = np.round(np.fft.fftfreq(N) * P).astype(int)
    harm = (np.arange(N) % m == 0) if N else None
    kk = np.where(np.arange(N) <= (N - 1) // 2, np.arange(N), np.arange(N) - N) / m     # harmonic number, may be fractional
    isharm = (kk == np.round(kk)) & (kk != 0)
    with np.errstate(all="ignore"):
        sf = np.where(isharm, spectrum(np.where(kk == 0, 1, kk), P, x["amp"], x["rsh"], x["d"]), 0) * N
    sig = isharm & (np.abs(sf) > 1e-9 * x["amp"] * x["rsh"] * N)
    sig[N // 2] = False       # purely real there (for odd lengths the highest bin is left out as well)
    zero = np.asarray(o._zeroinds)
    c.ok(zero.shape == (N,) and zero.dtype == bool, "flags of unused frequencies")
    sel = sig & ~zero
    # a frequency with a square-wave component and data is used
    ft = np.fft.fft(keep, axis=1)
    dd = ft / np.where(sf == 0, 1, sf)
    big = np.abs(dd.mean(axis=0)) < 1e15
    c.ok(np.all(sel[sig & big]), "harmonics of the square wave are left out")
    c.ok(np.all(zero[~sig]), "frequencies without signal are used")
    mag = np.abs(dd[:, sel]).max(axis=0) if sel.any() else np.zeros(0)
    rnd = 1e-13 * np.abs(ft).max() / np.abs(sf[sel]) if sel.any() else 0
    c.close(c.arr(o._didvmean, (N,), real=False)[sel], dd.mean(axis=0)[sel], 1.0, "mean dI/dV at the harmonics", scale=1e-9 * mag + rnd)
    std = (np.std(dd.real, axis=0) + 1j * np.std(dd.imag, axis=0)) / np.sqrt(len(keep))
    c.close(c.arr(o._didvstd, (N,), real=False)[sel], std[sel], 1.0, "spread of the dI/dV at the harmonics", scale=1e-9 * mag + rnd)
    c.ok(np.all(np.abs(o._didvstd[zero]) > 1e15), "unused frequencies have an (almost) infinite error")
    if x["kind"] == "response" and x["d"] == 0.5 and sel.any():
        f = np.fft.fftfreq(N, 1 / fs)[sel]
        y = 1 / imp(dict(x["p"], rsh=x["rsh"]), x["poles"], f)
        if np.all(np.isfinite(y)):
            c.label("noiseless response")
            c.close(o._didvmean[sel], y, 1.0, "admittance of a noiseless response", scale=1e-8 * np.abs(y) + rnd + 1e-9 * np.abs(y).max())
    # processing again changes nothing
    before = {a: copy.deepcopy(getattr(o, a)) for a in STATE if hasattr(o, a)}
    o.processtraces()
    for a, v in before.items():
        c.ok(np.array_equal(np.asarray(v), np.asarray(getattr(o, a))), f"processing twice changed {a}")


def judge_flat(c, x, fs, sg, fi):
    P, N = x["P"], x["P"] * x["m"]
    fi = np.asarray(fi)
    c.ok(fi.ndim == 1 and (fi.size == 0 or np.issubdtype(fi.dtype, np.integer)), "flat indices")
    c.ok(np.all((fi >= 0) & (fi < N)), "flat indices inside of the record")
    shift = x["dt0"] + (0.5 / sg if x["add180"] else 0)
    ph = (fi - int(shift * fs)) % P
    c.ok(np.all((ph >= 0.25 * P - 1) & (ph < 0.48 * P)), "flat points lie between 0.25 and 0.48 of a period after the time offset")
    n = sum(1 for i in range(N) if (P * 0.25 + 1 <= (i - int(shift * fs)) % P < 0.48 * P - 1) and 0 < i and 0 <= (i - int(shift * fs)) < N)
    c.ok(fi.size >= n, f"{fi.size} flat points, expected at least {n}")


@CHECK.sub("flat", case(), quick=1500)
def flat(c, x):
    """the flat parts used for the guess lie in the second half of the low part of each period, and inside of the record"""
    fs, sg = rate(x)
    if np.mod(fs, sg) != 0:
        return
    tr = traces(x, fs, sg)
    o = make(x, tr, fs, sg)
    o.processtraces()
    P, N = x["P"], x["P"] * x["m"]
    c.nontrivial(x["m"] > 1)
    judge_flat(c, x, fs, sg, o._flatinds)
    # the same from stored data
    if x["d"] == 0.5:
        q = qetpy.didvinitfromdata(o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err, fs, sg, x["amp"], x["rsh"],
                                   add180phase=x["add180"], dt0=x["dt0"])
        judge_flat(c, x, fs, sg, q._flatinds)
        c.close(q._time, o._time, 1e-12, "times of an object built from the stored data", scale=x["P"] * x["m"] / fs + abs(x["dt0"]) + 1 / sg)
        c.close(q._freq, o._freq, 1e-12, "frequencies of an object built from the stored data")


@CHECK.sub("ratio", st.fixed_dictionaries(dict(fs=st.integers(20, 4000), sg=st.integers(1, 60), n=st.integers(1, 3), N=st.integers(20, 400), seed=SEED)), quick=600)
def ratio(c, x):
    """sample rates that are not a multiple of the drive frequency are refused, or resampled on request"""
    fs, sg = float(x["fs"]), x["sg"]
    tr = np.random.RandomState(x["seed"]).standard_normal((x["n"], x["N"]))
    if x["fs"] < 8 * sg:
        return
    if x["fs"] % sg:
        c.nontrivial()
        for cls in (qetpy.DIDV, qetpy.DIDVPriors):
            c.raises(ValueError, lambda: cls(tr, fs, sg, 1e-6, 1e-3), f"{cls.__name__} with fs={fs}, sgfreq={sg}")
            o = cls(tr, x["fs"], sg, 1e-6, 1e-3, autoresample=True)
            up, down = qetpy.utils.resample_factors(x["fs"], sg)
            want, wfs = qetpy.utils.resample_data(tr, x["fs"], sg)
            c.close(o._fs, x["fs"] * up / down, 1e-12, "resampled rate")
            c.ok(abs(o._fs / sg - round(o._fs / sg)) < 1e-9, f"resampled rate {o._fs} is no multiple of {sg}")
            c.close(o._rawtraces, want, 1e-12, "resampled traces", scale=np.max(np.abs(want)))
            if o._rawtraces.shape[1] >= o._fs / sg:
                o.processtraces()
                c.ok(len(o._tmean) == int(o._rawtraces.shape[1] * sg // o._fs) * round(o._fs / sg), "whole periods of the resampled traces")
    else:
        for auto in (False, True):
            o = qetpy.DIDV(tr, fs, sg, 1e-6, 1e-3, autoresample=auto)
            c.ok(np.array_equal(o._rawtraces, tr) and o._fs == fs, "traces changed although no resampling is needed")
