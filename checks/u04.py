from harness import *
from gens import *
from qetpy import utils as qu

CHECK = Check("U04", "Cases are sample rates, cutoffs, filter orders, tones, lags and waveforms; non-trivial = non-default sample rate or cutoff, resp. at least one non-zero lag.")
RATE = st.sampled_from([625e3, 1e6, 1.25e6, 1000.0, 48e3, 2.5e6, 3.0])


@st.composite
def fcase(draw):
    return dict(fs=draw(RATE), rel=draw(st.one_of(fl(0.02, 0.35), fl(0.35, 0.49))), order=draw(st.integers(1, 4)), seed=draw(SEED), a=draw(fl(-3, 3)), n=draw(st.integers(60, 400)), m=draw(st.integers(1, 3)), fr=draw(st.sampled_from([1.0, 1.0, 0.5, 0.25])), default=draw(st.integers(0, 7)) == 0)


@CHECK.sub("filter", fcase(), quick=4800)
def lowpass(c, x):
    fs, n = x["fs"], x["n"]
    fc = x["rel"] * fs
    kw = dict(cut_off_freq=fc, fs=fs, order=x["order"])
    if x["default"]:
        kw, fs, fc, x["order"] = {}, 625e3, 1e5, 1
    c.nontrivial(not x["default"])
    r = np.random.RandomState(x["seed"])
    u, v = r.standard_normal((2, x["m"], n))
    F = lambda q: c.arr(qu.lowpassfilter(q, **kw), q.shape, "filtered traces")
    fu, fv = F(u), F(v)
    sc = np.max(np.abs(fu)) + np.max(np.abs(fv)) + 1
    c.close(F(x["a"] * u + v), x["a"] * fu + fv, 1e-8, "linearity", scale=sc * 4)
    c.close(F(np.full((2, n), 3.25)), np.full((2, n), 3.25), 1e-7, "a constant")
    c.close(F(u[0]), fu[0], 1e-12, "one trace vs the batch", scale=sc)
    # tones far from the ends: real gain 1/(1+(tan ratio)^(2 order)), i.e. 1/2 at the cutoff, no phase
    L = int(60 / x["rel"] + 60 / (0.5 - x["rel"])) + 200 if not x["default"] else 600
    k = np.arange(L)
    f = fc * x["fr"]
    w = np.tan(np.pi * f / fs) / np.tan(np.pi * fc / fs)
    gain = 1 / (1 + w**(2 * x["order"]))
    ph = (x["seed"] % 628) / 100
    tone = np.cos(2 * np.pi * f / fs * k + ph)
    inner = slice(L // 3, 2 * L // 3)
    c.close(F(tone)[inner], (gain * tone)[inner], 2e-3, f"tone at {x['fr']} of the cutoff", scale=1.0)


@st.composite
def acase(draw):
    n = draw(st.integers(800, 2500))
    nt = draw(size(st.integers(1, 5), [20, 60]))
    wid = draw(fl(6, 40))
    lim = int(min(150, n * 0.1))
    return dict(fs=draw(RATE), n=n, wid=wid, lags=[draw(st.integers(-lim, lim)) for _ in range(nt)], amps=[draw(fl(0.5, 4)) for _ in range(nt)], offs=[draw(fl(-3, 3)) for _ in range(nt)],
                rel=draw(fl(0.02, 0.3)), shape=draw(st.sampled_from(["gauss", "pulse"])), default=draw(st.integers(0, 5)) == 0, ncut=draw(st.sampled_from(["all", "more", "default", "less"])), ints=draw(st.booleans()))


@CHECK.sub("align", acase(), quick=2400)
def align(c, x):
    n, nt = x["n"], len(x["lags"])
    k = np.arange(n)[None, :]
    pos = n * 0.45 + np.array(x["lags"])[:, None]
    if x["shape"] == "gauss":
        w = np.exp(-0.5 * ((k - np.floor(pos)) / x["wid"])**2)
    else:
        d = k - np.floor(pos)
        w = np.where(d >= 0, np.exp(-np.maximum(d, 0) / x["wid"]) - np.exp(-np.maximum(d, 0) / (x["wid"] / 5)), 0)
    tr = np.array(x["amps"])[:, None] * w + np.array(x["offs"])[:, None]
    if x["ints"]:
        tr = np.round(tr * 3000).astype(np.int64)
    kw = {}
    if not x["default"]:
        kw.update(fs=x["fs"], cut_off_freq=x["rel"] * x["fs"])
    if x["ncut"] != "default":
        kw["n_cut"] = {"all": n, "more": n + 100, "less": int(n * 0.9)}[x["ncut"]]
    sh, al = c.tup(qu.align_traces(tr, **kw), 2)
    sh = c.arr(sh, (nt,), "shifts")
    want = x["lags"][0] - np.array(x["lags"])
    c.nontrivial(np.any(want))
    # the filter's own tails at the ends of the window may move the maximum of a broad pulse by a bin
    c.ok(np.all(np.abs(sh - want) <= 1), f"shifts {sh}, lags {want}")
    c.ok(sh[0] == 0, "the first trace defines the origin")
    sh2 = c.arr(qu.align_traces(tr, lgcjustshifts=True, **kw), (nt,), "shifts only")
    c.ok(np.array_equal(sh, sh2), "shifts differ between the two return modes")
    c.ok(np.ma.isMaskedArray(al) and al.shape == tr.shape, "aligned traces are not a masked array of the input's shape")
    mask = np.ma.getmaskarray(al)
    for j in range(nt):
        s = int(sh[j])
        q = np.arange(n) - s
        ok = (q >= 0) & (q < n)
        inner = (q >= 1) & (q < n - 1)
        c.ok(np.all(mask[j][~ok]), f"trace {j}: bins shifted in are not masked")
        c.ok(not np.any(mask[j][inner]), f"trace {j}: valid bins are masked")
        c.close(np.asarray(al.data[j][inner], float), tr[j][q[inner]].astype(float), 1e-6, f"trace {j} shifted by {s}", scale=np.max(np.abs(tr)) + 1.0)


@CHECK.sub("cutoff", st.builds(dict, fs=RATE, l1=st.integers(-60, 60), l2=st.integers(100, 200), sign=st.sampled_from([1, -1]), low=fl(0.003, 0.006), high=fl(0.2, 0.4),
                               amp=fl(0.5, 3), which=st.booleans()), quick=1200)
def cutoff(c, x):
    """a slow pulse with one lag and a strong fast burst with another: the cutoff decides which of them is aligned"""
    n, k = 4000, np.arange(4000)
    l1, l2 = x["l1"], x["sign"] * x["l2"]

    def tr(a, b):
        return np.exp(-0.5 * ((k - 1500 - a) / 200)**2) + 8 * np.exp(-0.5 * ((k - 2700 - b) / 30)**2) * np.cos(2 * np.pi * 0.05 * (k - 2700 - b))
    data = np.array([tr(0, 0), x["amp"] * tr(l1, l2) + 0.3])
    rel = x["low"] if x["which"] else x["high"]
    c.label("slow part" if x["which"] else "fast part")
    c.nontrivial()
    sh = c.arr(qu.align_traces(data, lgcjustshifts=True, cut_off_freq=rel * x["fs"], fs=x["fs"]), (2,), "shifts")
    want = -(l1 if x["which"] else l2)
    c.ok(abs(sh[1] - want) <= (12 if x["which"] else 2), f"shift {sh[1]} for lags {l1} below and {l2} above a cutoff of {rel} fs")
