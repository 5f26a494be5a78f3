from harness import *
from gens import *
import qetpy as qp
from qetpy import cut as qc

CHECK = Check("C02", "Cases are trace sets with noise and planted pile-up, slopes, baselines and odd pulse shapes, dI/dV on or off, cut options and algorithms; "
              "non-trivial = at least one anomaly of the kind the enabled cut is made for.")
STAGES = ["pileup1", "slope", "baseline", "pileup2", "chi2"]


def only(*on):
    return {f"lgc{s}": s in on for s in STAGES}


@st.composite
def case(draw):
    return dict(nt=draw(size(st.integers(40, 90), [130, 300, 600, 1100])), n=draw(size(st.sampled_from([128, 200, 255, 256]), [600, 1250])), seed=draw(SEED), fs=draw(st.sampled_from([625e3, 1e6, 1.25e6])), didv=draw(st.booleans()), algo=draw(st.sampled_from(["removeoutliers", "iterstat"])),
                nbad=draw(st.integers(1, 3)), size=draw(fl(40, 400)), unit=draw(st.sampled_from([1.0, 2.0**-20, 2.0**10])), sub=draw(st.lists(st.sampled_from(STAGES), unique=True)), sym=draw(st.booleans()), nsig=[draw(st.sampled_from([2, 2.5, 3])) for _ in range(5)],
                per=draw(st.sampled_from([1, 2, 3, 4])), ints=draw(st.booleans()), default=draw(st.booleans()))


def base(x):
    """noise, plus a square-wave response for dI/dV"""
    r = np.random.RandomState(x["seed"])
    t = r.standard_normal((x["nt"], x["n"]))
    if x["didv"]:
        per = x["n"] / x["per"]
        ph = (np.arange(x["n"]) % per) / per
        t = t + np.where(ph < 0.5, 20.0, -20.0) + 15 * np.exp(-(ph % 0.5) * 40) * np.where(ph < 0.5, 1, -1)
    return t, r


def pulse(x, at):
    k = (np.arange(x["n"]) - at) / x["fs"]
    return np.where(k >= 0, (1 - np.exp(-np.maximum(k, 0) / 10e-6)) * np.exp(-np.maximum(k, 0) / 100e-6), 0)


def opts(x, **more):
    k = dict(fs=x["fs"], is_didv=x["didv"], sgfreq=x["fs"] / (x["n"] / x["per"]), outlieralgo=x["algo"])
    if not x["default"]:
        k.update({f"nsig{s}": v for s, v in zip(STAGES, x["nsig"])})
    k.update(more)
    return k


def mask_of(c, t, what, **k):
    np.random.seed(7)
    arg = t.copy()
    m = c.arr(qc.autocuts(arg, **k), (len(t),), what)
    c.ok(m.dtype == bool, f"{what}: not boolean")
    c.ok(np.array_equal(arg, t), f"{what}: the traces of the caller are modified")
    return m


@CHECK.sub("compose", case(), quick=600)
def compose(c, x):
    t, r = base(x)
    bad = r.choice(x["nt"], 6, replace=False)
    t[bad[0]] += 100 * pulse(x, 50)
    t[bad[1]] += 60 * pulse(x, 20)
    t[bad[2]] += np.linspace(0, 40, x["n"])
    t[bad[3]] -= np.linspace(0, 40, x["n"])
    t[bad[4]] += 25
    t[bad[5]] *= 1.5
    t = t * x["unit"]
    on = [s for s in STAGES if s in x["sub"]]
    k = opts(x, symmetrizeflag=x["sym"])
    full = mask_of(c, t, "combined cut", **k, **only(*on))
    idx = np.arange(len(t))
    c.nontrivial(on)
    for s in on:
        m = mask_of(c, t[idx], s, **k, **only(s))
        if s == "pileup2" and not x["didv"]:
            c.ok(m.all(), "the second pile-up cut acts although this is no dI/dV")
        idx = idx[m]
        if len(idx) < 8:
            return
    want = np.zeros(len(t), bool)
    want[idx] = True
    c.ok(np.array_equal(full, want), f"combined cut of {on} keeps {full.sum()}, its stages in sequence {want.sum()}")
    if not on:
        c.ok(full.all(), "traces are rejected although all cuts are off")
    c.ok(np.array_equal(mask_of(c, t, "again", **k, **only(*on)), full), "the same call gives another answer")
    c.ok(np.array_equal(mask_of(c, t * 2.0**5, "unit", **k, **only(*on)), full), "the answer depends on the unit")
    if not (x["sym"] and "slope" in on):
        # (all but the random symmetrization) order of the traces
        p = r.permutation(len(t))
        q = mask_of(c, t[p], "order", **k, **only(*on))
        c.ok(np.sum(q != full[p]) <= 1, "the answer depends on the order of the traces")
    d = qc.autocuts(t.copy(), fs=x["fs"])
    e = qc.autocuts(t.copy(), fs=x["fs"], is_didv=False, symmetrizeflag=False, outlieralgo="removeoutliers", **only(*STAGES), nsigpileup1=2, nsigslope=2, nsigbaseline=2, nsigpileup2=2, nsigchi2=3)
    c.ok(np.array_equal(d, e), "default options")


def judge(c, x, m, bad, what, keep):
    good = np.ones(len(m), bool)
    good[bad] = False
    c.ok(not np.any(m[bad]), f"{what}: gross anomalies pass ({int(m[bad].sum())} of {len(bad)})")
    keep = min(keep, 0.02) if x["algo"] == "removeoutliers" and keep < 0.5 else keep
    c.ok(m[good].mean() >= keep, f"{what}: only {m[good].mean():.2f} of the clean traces pass")


@CHECK.sub("statistic", case(), quick=600)
def statistic(c, x):
    """each stage removes the outliers, at its own number of deviations, of the quantity it is documented to look at"""
    t, r = base(x)
    n, fs = x["n"], x["fs"]
    t = t + r.standard_normal((x["nt"], 1)) * r.choice([0.3, 1.0, 3.0]) + np.outer(r.standard_normal(x["nt"]), np.linspace(-1, 1, n))
    for b in r.choice(x["nt"], x["nbad"], replace=False):
        t[b] = t[b] * r.uniform(1, 3) + r.uniform(0, 20) * pulse(x, r.randint(5, n - 5)) + r.uniform(-5, 5)
    t = t * x["unit"]
    per = n / x["per"]
    if x["didv"]:
        a = slice(int(per / 4), int(3 * per / 8)) if x["per"] > 1 else slice(int(per / 4), int(5 * per / 16))
        z = (slice(int((x["per"] - 1) * per + per / 4), int((x["per"] - 1) * per + 3 * per / 8)) if x["per"] > 1
             else slice(int(5 * per / 16), int(3 * per / 8)))
    else:
        a, z = slice(0, n // 10), slice(int(9 * n / 10), n)
    # matched filter in white noise without the mean, at the best (cyclic) delay of the pulse
    k = (np.arange(n) + 1 - round(n / 2)) / fs
    s = np.where(k >= 0, (1 - np.exp(-np.maximum(k, 0) / 10e-6)) * np.exp(-np.maximum(k, 0) / 100e-6), 0)
    s = s / s.max()
    s0 = s - s.mean()
    t0 = t - t.mean(axis=1, keepdims=True)
    allamp = np.fft.irfft(np.fft.rfft(t0, axis=1) * np.conj(np.fft.rfft(s0)), n=n, axis=1) / (s0 @ s0)
    amp = np.max(np.abs(allamp), axis=1)
    stat = dict(pileup1=np.abs(amp), pileup2=np.abs(amp), slope=t[:, z].mean(axis=1) - t[:, a].mean(axis=1),
                baseline=t[:, a].mean(axis=1), chi2=(t0**2).sum(axis=1) - amp**2 * (s0 @ s0))
    c.nontrivial(not x["default"])
    c.label(x["algo"])
    nsig = dict(zip(STAGES, [2, 2, 2, 2, 3] if x["default"] else [1.5, 2.0, 2.5, 3.0, 3.5]))
    perm = list(r.permutation(5))
    if not x["default"]:
        nsig = {q: nsig[STAGES[perm[i]]] for i, q in enumerate(STAGES)}
    kw = opts(dict(x, default=True))
    if not x["default"]:
        kw.update({f"nsig{q}": v for q, v in nsig.items()})
    for q in STAGES:
        m = mask_of(c, t, f"{q} cut", **kw, **only(q))
        if q == "pileup2" and not x["didv"]:
            continue
        v = stat[q]
        if x["algo"] == "removeoutliers" and q != "chi2":
            want, edge = qc.removeoutliers(v), np.zeros(len(v), bool)
        else:
            mean, std, want = qc.iterstat(v, cut=nsig[q], precision=10000.0)
            edge = np.abs(np.abs(v - mean) / std - nsig[q]) < 1e-3
        # borderline values and ties can go either way
        c.ok(np.sum((m != want) & ~edge) <= (0 if x["algo"] == "iterstat" or q == "chi2" else 1),
             f"{q} cut at {nsig[q]} deviations keeps {m.sum()}, the outlier removal of its quantity {want.sum()}; {np.flatnonzero(m != want)}")


@CHECK.sub("pileup", case(), quick=600)
def pileup(c, x):
    t, r = base(x)
    bad = r.choice(x["nt"], x["nbad"], replace=False)
    for b in bad:
        t[b] += x["size"] * (10 if x["didv"] else 1) * pulse(x, r.randint(5, int(0.7 * x["n"]))) * (1 if x["didv"] else r.choice([-1, 1]))
    c.nontrivial()
    c.label(x["algo"])
    st_ = "pileup2" if x["didv"] else "pileup1"
    m = mask_of(c, t, "pile-up cut", **opts(x), **only(st_))
    if x["didv"]:
        # the square wave itself dominates the filter amplitude: only the positive pulses stand out
        c.ok(not np.any(m[bad]), f"gross pile-up passes ({int(m[bad].sum())} of {len(bad)})")
        q = mask_of(c, t + 64.0 * r.randint(-9, 10, (x["nt"], 1)), "pile-up cut", **opts(x), **only(st_))
        c.ok(np.sum(q != m) <= 1, "the baseline decides on the second pile-up cut")
    else:
        judge(c, x, m, bad, "pile-up cut", 0.15)


@CHECK.sub("slope", case(), quick=600)
def slope(c, x):
    t, r = base(x)
    bad = r.choice(x["nt"], x["nbad"], replace=False)
    for b in bad:
        sg = 1 if x["algo"] == "removeoutliers" else r.choice([-1, 1])
        t[b] += x["size"] * sg * np.linspace(0, 1, x["n"]) * (4 if x["per"] == 1 else 1)
    c.nontrivial()
    c.label(x["algo"])
    judge(c, x, mask_of(c, t, "slope cut", **opts(x), **only("slope")), bad, "slope cut", 0.15)


@CHECK.sub("baseline", case(), quick=600)
def baseline(c, x):
    t, r = base(x)
    bad = r.choice(x["nt"], x["nbad"], replace=False)
    for b in bad:
        t[b] += x["size"] * (1 if x["algo"] == "removeoutliers" else r.choice([-1, 1]))
    c.nontrivial()
    judge(c, x, mask_of(c, t, "baseline cut", **opts(x), **only("baseline")), bad, "baseline cut", 0.15)
    # a slope or late pulse that leaves the beginning alone is not the baseline cut's business
    t2, _ = base(x)
    m0 = mask_of(c, t2, "baseline cut", **opts(x), **only("baseline"))
    t2[:, int(0.45 * x["n"]):] += 1e3 * r.standard_normal((x["nt"], 1)) if not x["didv"] else 0
    c.ok(np.array_equal(mask_of(c, t2, "baseline cut", **opts(x), **only("baseline")), m0), "the baseline cut looks at the end of the trace")


@CHECK.sub("chi2", case(), quick=600)
def chi2(c, x):
    t, r = base(dict(x, didv=False))
    bad = r.choice(x["nt"], x["nbad"], replace=False)
    for b in bad:
        t[b] = t[b] * (3 + x["size"] / 20)
    c.nontrivial()
    judge(c, x, mask_of(c, t, "chi-square cut", **opts(x, is_didv=False), **only("chi2")), bad, "chi-square cut", 0.5)
    # pulses of the template's shape have a good chi-square
    n = x["n"]
    tr = round(n / 2)
    t3, _ = base(dict(x, didv=False))
    g = pulse(x, tr - 1)
    t3 += np.outer(r.uniform(0, 200, x["nt"]), g / g.max())
    m = mask_of(c, t3, "chi-square cut", **opts(x, is_didv=False), **only("chi2"))
    c.ok(m.mean() > 0.45, f"template-shaped pulses are rejected by the chi-square cut ({m.mean():.2f} pass)")


@CHECK.sub("symmetrize", case(), quick=600)
def symmetrize(c, x):
    """most traces sloped one way: the survivors of the symmetrized slope cut are centred on zero"""
    r = np.random.RandomState(x["seed"])
    nt = 400
    sg = 1 if x["nbad"] % 2 else -1
    s = (20 + 20 * r.standard_normal(nt)) * sg
    t = 0.3 * r.standard_normal((nt, x["n"])) + s[:, None] * np.linspace(-0.5, 0.5, x["n"])
    m = mask_of(c, t, "symmetrized slope cut", **opts(x, is_didv=False, symmetrizeflag=True, outlieralgo="iterstat"), **only("slope"))
    plain = mask_of(c, t, "slope cut", **opts(x, is_didv=False, symmetrizeflag=False, outlieralgo="iterstat"), **only("slope"))
    c.nontrivial()
    c.label("positive" if sg > 0 else "negative")
    c.ok(m.sum() > 20, f"only {m.sum()} traces left")
    a, b = abs(s[m].mean()), abs(s[plain].mean())
    c.ok(a < 0.35 * b, f"mean slope of the survivors {s[m].mean():.2f}, without symmetrization {s[plain].mean():.2f}")


def symm(c, slopes):
    t = np.zeros((len(slopes), 20))
    t[:, 12:] = slopes[:, None]
    keep = c.arr(qc.autocuts(t, symmetrizeflag=True, outlieralgo="iterstat", nsigslope=1000.0, **only("slope")), (len(t),), "kept traces")
    c.ok(keep.dtype == bool, "not boolean")
    return keep


@CHECK.sub("symmetrizedist", st.fixed_dictionaries(dict(seed=SEED, n=size(st.integers(3, 150), [400, 1100, 5000]), mean=st.sampled_from([0.0, 0.5, 1.0, 2.0, 6.0]), kind=st.sampled_from(["normal", "exp", "uniform"]), unit=st.sampled_from([1.0, 2.0**-30, 2.0**20]))), quick=3000)
def symmetrizedist(c, x):
    """slope cut with the outlier removal out of the way: points are only taken from the side most values are on, until no more are left there than on the other"""
    r = np.random.RandomState(x["seed"])
    n = x["n"]
    v = {"normal": lambda: r.standard_normal(n) + x["mean"], "exp": lambda: r.exponential(1 + x["mean"], n) - 0.7, "uniform": lambda: r.uniform(-1, 1 + x["mean"], n)}[x["kind"]]() * x["unit"]
    out = {}
    for sg in (1, -1):
        np.random.seed(x["seed"] % 1000)
        arg = sg * v
        keep = symm(c, arg)
        side = 1 if qc.iterstat(arg, cut=2, precision=10000.0)[0] > 0 else -1
        w = arg * side  # most values are positive
        u = np.max(-w)
        if u <= 0:
            c.label("one-sided: left alone")
            c.ok(keep.all(), "values are dropped although there is nothing to balance them with")
            continue
        few = n < 4
        c.ok(keep[w <= 0].all(), "a value of the smaller side is dropped")
        if few:
            continue
        c.nontrivial(not keep.all())
        width = 2 * u / max(int(np.sqrt(n)), 1)
        far = w > u * (1 + 1e-9)
        c.ok(not np.any(keep & far), "a value further out than any on the other side is kept")
        a, b = np.sum(keep & (w > width)), np.sum(w < -width * 0.2)
        c.ok(a <= b + 1, f"{a} values kept on the larger side, {b} on the other")
        # no more than necessary: where the other side has more, nothing is taken
        k = np.sort(-w[w < 0])
        c.ok(np.all(keep[(w > 0) & (w < 0.3 * width)]), "values around zero are dropped")
        # what is balanced already stays
        v2 = np.concatenate([arg, -arg])
        np.random.seed(1)
        c.ok(np.sum(~symm(c, v2)) <= 0.12 * len(v2) + 2, "a symmetric distribution is thinned out")


@CHECK.sub("invalid", case(), quick=40)
def invalid(c, x):
    t, r = base(x)
    c.nontrivial()
    for s in ("pileup1", "slope", "baseline") + (("pileup2",) if x["didv"] else ()):
        c.raises(ValueError, lambda: qc.autocuts(t, **opts(x, outlieralgo="nonsense"), **only(s)), f"unknown algorithm in the {s} cut")


@st.composite
def mcase(draw):
    return dict(n=draw(size(st.integers(700, 2500), [8192, 32500])), rep=draw(size(st.just(1), [20, 150])), nsat=draw(st.sampled_from([None, 600, 300, 50, 10.0])), pct=draw(st.sampled_from([None, 0.95, 0.8, 0.5])), seed=draw(SEED),
                ev=draw(st.lists(st.tuples(st.integers(0, 600), st.integers(0, 1500), fl(1, 50)), min_size=1, max_size=8)),
                # the bin looked at is around the end of the trace, or the end of the pulse
                near=draw(st.lists(st.tuples(st.integers(-2, 2), st.integers(0, 1500), fl(1, 50)), max_size=3)),
                tight=draw(st.lists(st.tuples(st.integers(0, 600), st.integers(-1, 1), fl(1, 50)), max_size=3)))


@CHECK.sub("muon", mcase(), quick=1600)
def muon(c, x):
    """saturated (flat-topped) pulses that stay up for at least nsatbins"""
    n = x["n"]
    ns = int(x["nsat"] or 600)
    x = dict(x, ev=(x["ev"] + [(n - ns + d, l, a) for d, l, a in x.get("near", [])] + [(at, ns + d, a) for at, d, a in x.get("tight", [])]) * x.get("rep", 1))
    t = np.zeros((len(x["ev"]), n))
    pct = x["pct"] or 0.95
    k = np.arange(n)
    for j, (at, length, a) in enumerate(x["ev"]):
        end = at + length
        t[j] = np.where(k < at, 0, np.where(k <= end, a * (1 - 1e-4 * (k - at)), 0.3 * a * np.exp(-(k - end) / 100.0)))
    kw = {}
    if x["nsat"]:
        kw["nsatbins"] = x["nsat"]
    if x["pct"]:
        kw["thresh_pct"] = x["pct"]
    m = c.arr(qc.get_muon_cut(t, **kw), (len(t),), "muon cut")
    c.ok(m.dtype == bool, "not boolean")
    want = [at + ns < n and length >= ns and 1 - 1e-4 * ns >= pct for at, length, a in x["ev"]]
    c.nontrivial(any(want))
    for j in range(len(t)):
        if abs(1 - 1e-4 * ns - pct) > 1e-9:
            c.ok(bool(m[j]) == want[j], f"pulse up for {x['ev'][j][1]} bins from {x['ev'][j][0]} of {n}: {m[j]} (needs {ns} above {pct})")
    c.ok(np.array_equal(qc.get_muon_cut(t * 4, **kw), m), "unit")
