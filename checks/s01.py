from harness import *
from gens import *
import qetpy as qp
from numpy.fft import fft, fftfreq, rfftfreq

CHECK = Check("S01", "Cases are trace batches of one to four dimensions, even and odd lengths and sample rates; non-trivial = more than one trace or an odd length.")


@st.composite
def case(draw):
    return dict(n=draw(size(st.one_of(st.integers(2, 12), st.integers(2, 200)), [300, 500, 1001])), shape=draw(size(st.sampled_from([[], [1], [4], [7], [3, 2], [1, 3], [2, 3, 2]]), [[40], [130], [20, 6]])), fs=draw(FS), seed=draw(SEED),
                kind=draw(st.sampled_from(["noise", "noise", "int", "tone", "const", "big"])), unit=draw(st.sampled_from([1.0, 1e-6, 1e6])), a=draw(fl(-4, 4)), roll=draw(st.integers(0, 200)))


def traces(x):
    r = np.random.RandomState(x["seed"])
    sh = tuple(x["shape"]) + (x["n"],)
    if x["kind"] == "int":
        return r.randint(-2000, 2000, sh)
    if x["kind"] == "tone":
        return np.cos(2 * np.pi * r.randint(0, x["n"], sh[:-1] + (1,)) * np.arange(x["n"]) / x["n"] + r.uniform(0, 6, sh[:-1] + (1,))) * x["unit"]
    if x["kind"] == "const":
        return np.ones(sh) * r.standard_normal(sh[:-1] + (1,)) * x["unit"]
    return (r.standard_normal(sh) + (1e4 if x["kind"] == "big" else 0)) * x["unit"]


@CHECK.sub("psd", case(), quick=12000)
def psd(c, x):
    t = traces(x)
    n, fs = x["n"], x["fs"]
    c.nontrivial(t.ndim > 1 or n % 2)
    c.label("even" if n % 2 == 0 else "odd")
    f2, p2 = c.tup(qp.calc_psd(t, fs=fs, folded_over=False), 2)
    f1, p1 = c.tup(qp.calc_psd(t, fs=fs, folded_over=True), 2)
    out = t.shape[1:-1]
    p2 = c.arr(p2, out + (n,), "two-sided PSD")
    p1 = c.arr(p1, out + (n // 2 + 1,), "one-sided PSD")
    c.close(f2, fftfreq(n, 1 / fs), 1e-12, "two-sided frequencies")
    c.close(f1, rfftfreq(n, 1 / fs), 1e-12, "one-sided frequencies")
    tt = t.astype(float)
    ms = (tt**2).mean(axis=-1)
    if t.ndim > 1:
        ms = ms.mean(axis=0)
    sc = np.max(ms) + 1e-300
    c.close(p2.sum(axis=-1) * fs / n, ms, 1e-9, "integral of the two-sided PSD (mean power)", scale=sc)
    c.close(p1.sum(axis=-1) * fs / n, ms, 1e-9, "integral of the one-sided PSD (mean power)", scale=sc)
    # explicit definition
    k = np.arange(n)
    D = np.exp(-2j * np.pi * np.outer(k, k) / n)
    q = np.abs(tt @ D)**2 / (fs * n)
    if t.ndim > 1:
        q = q.mean(axis=0)
    s = np.max(q, axis=-1, keepdims=True) + 1e-300
    c.close((p2 - q) / s, np.zeros(q.shape), 1, "two-sided PSD", scale=1e-9)
    w = q[..., :n // 2 + 1].copy()
    w[..., 1:(n + 1) // 2] *= 2
    c.close((p1 - w) / s, np.zeros(w.shape), 1, "one-sided PSD", scale=2e-9)
    if t.ndim <= 2:
        f3, p3 = c.tup(qp.foldpsd(p2, fs), 2)
        c.close(f3, f1, 1e-12, "folded frequencies")
        c.close(c.arr(p3, (n // 2 + 1,)), p1, 1e-9, "folded two-sided PSD vs one-sided PSD", scale=np.max(p1) + 1e-300)


@CHECK.sub("relations", case(), quick=6000)
def relations(c, x):
    t = traces(x).astype(float)
    n, fs = x["n"], x["fs"]
    r = np.random.RandomState(x["seed"] ^ 5)
    c.nontrivial(t.ndim > 1 or n % 2)
    for folded in (True, False):
        P = lambda q, fs=fs: np.asarray(qp.calc_psd(q, fs=fs, folded_over=folded)[1])
        p = P(t)
        sc = np.max(np.abs(p)) + 1e-300
        w = f"folded={folded}: "
        c.close(P(x["a"] * t), x["a"]**2 * p, 1e-9, w + "scaled traces", scale=sc * (1 + x["a"]**2))
        c.close(P(np.roll(t, x["roll"], axis=-1)), p, 1e-9, w + "circular shift", scale=sc)
        c.close(P(t[..., ::-1].copy()), p, 1e-9, w + "time reversal", scale=sc)
        c.close(P(t, 2 * fs), p / 2, 1e-9, w + "sample rate", scale=sc)
        if t.ndim > 1:
            c.close(P(t[r.permutation(len(t))]), p, 1e-9, w + "order of traces", scale=sc)
            c.close(np.mean([P(u) for u in t], axis=0) if t.ndim == 2 else np.mean([[P(u[None] if u.ndim == 1 else u) for u in t.reshape(len(t), -1, n)[:, j]] for j in range(t[0].size // n)], axis=1).reshape(p.shape),
                    p, 1e-9, w + "average of single traces", scale=sc)
    d = qp.calc_psd(t)
    e = qp.calc_psd(t, fs=1.0, folded_over=True)
    c.close(d[1], e[1], 1e-12, "defaults", scale=np.max(e[1]) + 1e-300)


@CHECK.sub("smooth", st.builds(dict, n=st.integers(2, 80), seed=SEED, kind=st.sampled_from(["pink", "spikes", "rand", "white"])), quick=6000)
def smooth(c, x):
    """smoothing keeps the two-sided symmetry, is non-increasing in |f| and leaves running minima"""
    n = x["n"]
    r = np.random.RandomState(x["seed"])
    k = np.abs(np.round(fftfreq(n) * n)).astype(int)
    h = {"pink": 1 / (1.0 + np.arange(n)), "spikes": 1 / (1.0 + np.arange(n)) + 3 * (r.rand(n) < 0.2), "rand": r.uniform(0.1, 2, n), "white": np.ones(n)}[x["kind"]]
    p = h[k]
    out = c.arr(qp.smooth_psd(p), (n,), "smoothed PSD")
    c.nontrivial(x["kind"] in ("spikes", "rand"))
    one = out[:n // 2 + 1]
    c.close(out, one[k], 1e-12, "two-sided symmetry", scale=np.max(np.abs(one)))
    c.ok(np.all(np.diff(one) <= 1e-9 * np.max(np.abs(one))), f"smoothed PSD increases: {one}")
    g = h[:n // 2 + 1]
    rec = np.r_[True, g[1:] < np.minimum.accumulate(g)[:-1]]
    c.close(one[rec], g[rec], 1e-9, "PSD at its running minima")
