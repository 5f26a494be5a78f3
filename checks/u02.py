from harness import *
from gens import *
from qetpy import utils as qu
from fractions import Fraction

CHECK = Check("U02", "Cases are integer pairs of sample rate and signal-generator frequency and data batches; non-trivial = the frequency does not divide the rate.")

PAIR = st.one_of(
    st.tuples(st.sampled_from([625000, 1250000, 1000000, 2500000, 48000, 1562500]), st.integers(1, 2000)),
    st.tuples(st.integers(1, 3_000_000), st.integers(1, 3000)),
    st.tuples(st.integers(1, 200), st.integers(1, 200)),
    st.tuples(st.integers(1, 60), st.integers(1, 60), st.integers(1, 60)).map(lambda t: (t[0] * t[2], t[1] * t[2])),
    st.tuples(st.integers(1, 2000), st.integers(1, 500)).map(lambda t: (t[0] * t[1], t[1])))


@CHECK.sub("factors", st.tuples(PAIR, st.booleans()), quick=24000)
def factors(c, x):
    (fs, sg), asfloat = x
    up, down = c.tup(qu.resample_factors(float(fs) if asfloat else fs, sg), 2)
    for v, w in ((up, "up"), (down, "down")):
        c.ok(isinstance(v, (int, np.integer)) and not isinstance(v, bool) and v > 0, f"{w} = {v!r}")
    need = fs % sg != 0
    c.nontrivial(need)
    c.ok((int(fs) * int(up)) % (int(down) * int(sg)) == 0, f"{fs} Hz * {up} / {down} is no integer multiple of {sg} Hz")
    if not need:
        c.ok((up, down) == (1, 1), f"{fs}/{sg} is an integer already, but factors {up}/{down}")
    else:
        c.ok(up != down, "trivial factors")
        f = Fraction(fs, sg)
        c.label("prime-power denominator" if len([p for p in range(2, f.denominator + 1) if f.denominator % p == 0 and all(p % q for q in range(2, p))]) == 1 and f.denominator < 3000 else "composite denominator")


@CHECK.sub("bad", st.tuples(st.integers(2, 10**6), st.integers(1, 1000), st.sampled_from([0.5, 0.1, 1e-6, 0.999])), quick=800)
def bad(c, x):
    fs, sg, d = x
    c.nontrivial()
    c.raises(ValueError, lambda: qu.resample_factors(fs + d, sg), f"fs={fs + d}")
    c.raises(ValueError, lambda: qu.resample_factors(fs, sg + d), f"sgfreq={sg + d}")
    c.raises(ValueError, lambda: qu.resample_data(np.zeros(50), fs + d, sg), f"resample_data with fs={fs + d}")


@st.composite
def data(draw):
    a, b = draw(st.integers(1, 30)), draw(st.integers(1, 30))
    k = draw(st.integers(1, 40))
    return dict(fs=a * k, sg=b * k, n=draw(size(st.integers(60, 400), [1250, 5000])), shape=draw(size(st.sampled_from([(), (3,), (2, 2)]), [(40,), (150,)])), axis=draw(st.sampled_from([None, -1, 0])),
                f=draw(fl(0.05, 0.8)), ph=draw(fl(0, 6.3)), off=draw(fl(-2, 2)))


@CHECK.sub("data", data(), quick=3200)
def resample(c, x):
    fs, sg, n = x["fs"], x["sg"], x["n"]
    x["shape"] = tuple(x["shape"])
    up, down = qu.resample_factors(fs, sg)
    half = 10 * max(up, down) / up                       # half length of the default filter, in input samples
    f = x["f"] * 0.5 * fs * min(1, up / down)            # below both Nyquist frequencies
    tone = lambda t: x["off"] * 0.1 + np.sin(2 * np.pi * f * t + x["ph"])
    base = tone(np.arange(n) / fs)
    reps = np.arange(1, 1 + int(np.prod(x["shape"], dtype=int)))
    a = (reps[:, None] * base).reshape(x["shape"] + (n,))
    kw = {}
    if x["axis"] is not None:
        kw["axis"] = x["axis"]
        if x["axis"] == 0:
            a = np.moveaxis(a, -1, 0)
    y, rfs = c.tup(qu.resample_data(a, fs, sg, **kw), 2)
    m = int(np.ceil(n * up / down))
    ax = 0 if x["axis"] == 0 else a.ndim - 1
    want = list(a.shape)
    want[ax] = m
    y = c.arr(y, want, "resampled data")
    c.close(float(rfs), fs * up / down, 1e-12, "resampled rate")
    c.ok(abs(rfs / sg - round(rfs / sg)) < 1e-9, f"resampled rate {rfs} for drive {sg}")
    c.nontrivial(fs % sg)
    if fs % sg == 0:
        c.close(y, a, 1e-12, "data without resampling")
        return
    y = np.moveaxis(y, ax, -1).reshape(len(reps), m)
    t = np.arange(m) / rfs
    e = (half + 2) / fs
    inner = (t > e) & (t < (n - 1) / fs - e)
    if inner.sum() > 5:
        c.label("content checked")
        c.close(y[:, inner], reps[:, None] * tone(t[inner]), 0.02, "content of the resampled tone")
