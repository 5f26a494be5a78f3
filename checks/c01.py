from harness import *
from gens import *
import qetpy as qp
from qetpy import cut as qc
from scipy import stats

CHECK = Check("C01", "Cases are data sets (normal with outliers, heavy tails, exponential, integers with ties, constant, bimodal), cut sizes and precisions, one to four dimensions; "
              "non-trivial = at least one point is rejected.")


@st.composite
def data(draw, nmin=3, nmax=200):
    return dict(n=draw(size(st.one_of(st.integers(nmin, 20), st.integers(nmin, nmax)), [300, 600, 1100, 5000])), seed=draw(SEED), kind=draw(st.sampled_from(["normal", "outlier", "cauchy", "exp", "int", "bimodal", "uniform", "const", "skewed"])),
                loc=draw(st.sampled_from([0.0, 1.0, -50.0, 1e3])), unit=draw(st.sampled_from([1.0, 1e-6, 1e-20, 1e5])), cut=draw(st.one_of(st.sampled_from([1, 2, 2.5, 3]), fl(0.8, 4))),
                precision=draw(st.sampled_from([None, 1e4, 1e3, 100.0, 1e6])), shift=draw(st.integers(-100, 100)), pw=draw(st.integers(-3, 3)))


def sample(x, n=None):
    r = np.random.RandomState(x["seed"])
    n = n or x["n"]
    k = x["kind"]
    if k == "const":
        return np.full(n, x["loc"])
    if k == "int":
        return r.randint(0, 8, n) + np.round(x["loc"])
    d = {"normal": lambda: r.standard_normal(n), "outlier": lambda: r.standard_normal(n) + 50 * (r.rand(n) < 0.1) * r.standard_normal(n), "cauchy": lambda: r.standard_cauchy(n), "exp": lambda: r.exponential(1, n),
         "bimodal": lambda: r.standard_normal(n) + 10 * (r.rand(n) < 0.3), "uniform": lambda: r.rand(n), "skewed": lambda: np.exp(r.standard_normal(n))}[k]()
    return (d + x["loc"]) * x["unit"]


def kw(x):
    k = dict(cut=x["cut"])
    if x["precision"]:
        k["precision"] = x["precision"]
    return k


@CHECK.sub("iterstat", data(nmin=1), quick=6000, hang=30)
def iterstat(c, x):
    d = sample(x)
    n = len(d)
    out = c.tup(qc.iterstat(d, **kw(x)), 3)
    m, s = c.num(out[0], "mean"), c.num(out[1], "std")
    mask = c.arr(out[2], (n,), "mask")
    c.ok(mask.dtype == bool, f"mask of type {mask.dtype}")
    c.nontrivial(not mask.all())
    c.label("rejected" if not mask.all() else "all kept")
    c.ok(mask.any(), "everything is rejected")
    sc = np.max(np.abs(d)) + 1e-300
    c.close(m, d[mask].mean(), 1e-12, "mean of the kept points", scale=sc)
    c.close(s, d[mask].std(), 1e-9, "deviation of the kept points", scale=s + 1e-6 * sc)
    dist = np.abs(d - m)
    eps = np.std(d) / (x["precision"] or 1000.0) * (1 + x["cut"]) * (1 + 1e-9) + 1e-9 * (s + 1e-6 * sc)
    degenerate = mask.all() and np.sum(np.abs(d - d.mean()) < x["cut"] * d.std()) <= n - 1
    if not degenerate:
        if s > 1e-9 * sc:
            c.ok(np.all(dist[mask] < x["cut"] * s + eps), f"a kept point lies {dist[mask].max() / s} deviations from the mean, cut {x['cut']}")
        c.ok(np.all(dist[~mask] >= x["cut"] * s - eps), f"a rejected point lies within {x['cut']} deviations")
    else:
        c.label("fallback: nothing cut")
        # nothing is cut only when the iteration runs down to a single point
        mm, ss = d.mean(), d.std()
        for _ in range(200):
            k = np.abs(d - mm) < x["cut"] * ss * (1 + 1e-12) + 1e-14 * sc
            if k.sum() <= 1:
                break
            k = np.abs(d - mm) < x["cut"] * ss * (1 - 1e-12) - 1e-14 * sc
            if k.sum() <= 1:
                break
            mm, ss = d[k].mean(), d[k].std()
        c.ok(k.sum() <= 1, "outliers are kept although the iteration converges")


@CHECK.sub("iterstat_relations", data(), quick=3000, hang=30)
def iterstat_relations(c, x):
    d = sample(x)
    m, s, k = qc.iterstat(d, **kw(x))
    c.nontrivial(not k.all())
    f = 2.0**x["pw"]
    m2, s2, k2 = qc.iterstat(d * f, **kw(x))
    c.ok(np.array_equal(k, k2), "mask changes with the unit of the data")
    c.close((m2, s2), (m * f, s * f), 1e-12, "statistics of scaled data", scale=np.max(np.abs(d)) * f + 1e-300)
    m3, s3, k3 = qc.iterstat(-d, **kw(x))
    c.ok(np.array_equal(k, k3), "mask changes with the sign of the data")
    c.close((m3, s3), (-m, s), 1e-12, "statistics of negated data", scale=np.max(np.abs(d)) + 1e-300)
    if x["kind"] == "int":
        d = d.astype(float)
        f4 = qc.iterstat(d.astype(int), **kw(x))
        c.ok(np.array_equal(f4[2], k), "mask of integer data")
    else:
        p = np.random.RandomState(x["seed"] ^ 1).permutation(len(d))
        # summation order changes rounding only: judge away from the boundary
        q = qc.iterstat(d[p], **kw(x))
        if np.min(np.abs(np.abs(d - m) - x["cut"] * s)) > 1e-9 * (s + 1e-6 * np.max(np.abs(d))) and x["kind"] != "const":
            if np.array_equal(q[2], k[p]):
                c.label("order-independent")
            else:
                # an intermediate step may have been at a boundary: repeat it exactly
                mm, ss, tie = d.mean(), d.std(), False
                for _ in range(100):
                    g = np.abs(np.abs(d - mm) - x["cut"] * ss)
                    tie = tie or np.min(g) < 1e-9 * (ss + 1e-6 * np.max(np.abs(d)))
                    kk = np.abs(d - mm) < x["cut"] * ss
                    if kk.sum() <= 1:
                        break
                    mm, ss = d[kk].mean(), d[kk].std()
                c.ok(tie, "mask depends on the order of the data")


def truncated(c, d, cut):
    """-> is the estimate the maximum-likelihood one? (mean equation, variance equation, known wrong mean equation)"""
    m, s, k = qc.iterstat(d, cut=cut)
    mu, sd, k2 = c.tup(qc.iterstat(d, cut=cut, return_unbiased_estimates=True), 3)
    c.ok(np.array_equal(k, k2), "masks differ")
    mu, sd = c.num(mu), c.num(sd)
    y = d[k]
    y = y[np.abs(y - m) <= cut * s]
    with np.errstate(all="ignore"):
        tn = stats.truncnorm((m - cut * s - mu) / sd, (m + cut * s - mu) / sd)
        t1, t2 = tn.mean(), tn.var()
    near = lambda a, b, tol: bool(abs(a - b) <= tol)
    return mu, sd, near(mu + sd * t1, y.mean(), 1e-5 * s), near(sd**2 * t2, y.var(), 1e-5 * s**2), near(mu + t1 / sd, y.mean(), 1e-5 * s * (1 + 1 / sd**2)), k


@CHECK.sub("unbiased", st.builds(dict, seed=SEED, mu=fl(-50, 50), sd=st.one_of(st.just(1.0), logfl(0.01, 100)), cut=st.sampled_from([2.2, 2.5, 3.0]), n=st.integers(800, 3000)), quick=80)
def unbiased(c, x):
    r = np.random.RandomState(x["seed"])
    z = r.standard_normal(x["n"])
    msg = "iterstat's unbiased estimates are not those of the truncated normal that matches the kept points"
    # standard normal data
    mu, sd, a, b, w, k = truncated(c, z, x["cut"])
    c.nontrivial(not k.all())
    c.ok(b, msg + " (variance)")
    c.ok(a or w, msg + " (mean)")
    c.close(mu, 0.0, 10 / np.sqrt(x["n"]), "mean", scale=1.0)
    c.close(sd, 1.0, 15 / np.sqrt(x["n"]), "standard deviation of the parent")
    if not a:
        c.fail_known("truncated-mean", msg)
    # another location and scale; the recorded finding makes it depend on the unit
    if x["sd"] != 1.0:
        mu2, sd2, a, b, w, _ = truncated(c, x["mu"] + x["sd"] * z, x["cut"])
        if not (a and b):
            c.fail_known("truncated-mean", msg + f" for a deviation of {x['sd']}")
    else:
        mu2, sd2, a, b, w, _ = truncated(c, x["mu"] + z, x["cut"])
        c.close((mu2 - x["mu"], sd2), (mu, sd), 1e-4, "estimates of shifted data", scale=1.0)


@st.composite
def covcase(draw):
    nd = draw(st.integers(2, 4))
    return dict(nd=nd, n=draw(size(st.integers(12 * nd, 200), [300, 600, 1100, 5000])), seed=draw(SEED), out=draw(st.sampled_from([0.0, 0.05, 0.15])), heavy=draw(st.booleans()), rho=draw(fl(-0.9, 0.9)), nsigma=draw(st.sampled_from([None, 2.75, 2.0, 4.0])),
                thr=draw(st.sampled_from([None, None, 3.0, 2.5, 5.0])), maxiter=draw(st.sampled_from([None, 60, 60])), form=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1e-8, 1e6])))


@CHECK.sub("itercov", covcase(), quick=2500, hang=30)
def itercov(c, x):
    r = np.random.RandomState(x["seed"])
    nd, n = x["nd"], x["n"]
    z = r.standard_normal((n, nd))
    z[:, 1] = x["rho"] * z[:, 0] + np.sqrt(1 - x["rho"]**2) * z[:, 1]
    z = z + (r.rand(n) < x["out"])[:, None] * 30 * r.standard_normal((n, nd))
    if x["heavy"]:
        z = z * np.exp(0.5 * r.standard_normal((n, 1)))
    sc = x["scale"] * (10.0**r.uniform(-2, 2, nd) if x["heavy"] else r.uniform(0.5, 2, nd))
    d = (z + r.uniform(-5, 5, nd)) * sc
    k = {}
    if x["nsigma"]:
        k["nsigma"] = x["nsigma"]
    if x["thr"]:
        k["threshold"] = x["thr"]
    if x["maxiter"]:
        k["maxiter"] = x["maxiter"]
    args = (d,) if x["form"] else tuple(d.T)
    m, C, mask = c.tup(qc.itercov(*args, **k), 3)
    m, C, mask = c.arr(m, (nd,), "mean"), c.arr(C, (nd, nd), "covariance"), c.arr(mask, (n,), "mask")
    c.ok(mask.dtype == bool, "mask is not boolean")
    c.nontrivial(not mask.all())
    y = d[mask]
    s = np.sqrt(np.diag(C))
    c.close((m - y.mean(axis=0)) / s, np.zeros(nd), 1, "mean of the kept points", scale=1e-9)
    want = (y - y.mean(axis=0)).T @ (y - y.mean(axis=0)) / (len(y) - 1)
    c.close((C - want) / np.outer(s, s), np.zeros((nd, nd)), 1, "covariance of the kept points", scale=1e-9)
    if x["maxiter"]:
        u = d - m
        chi2 = np.sum(u * np.linalg.solve(C, u.T).T, axis=1)
        lim = nd + (x["nsigma"] or 2.75) * np.sqrt(2 * nd)
        thr = x["thr"] or max(3.0, stats.chi2.ppf(0.95**(1 / nd), 1)**0.5)
        w = np.max(np.abs(u) / s, axis=1)
        # converged up to the allowed fractional error (of the full data's spread)
        s0 = np.sqrt(np.diag(np.cov(d.T)))
        slack = 1e-3 * np.max(s0 / s) * 4 + 1e-3 * np.max(np.sum(s0**2) / np.outer(s, s)) * 4 * nd
        c.label("converged" if slack < 0.1 else "loosely converged")
        if slack < 0.1:
            inside = (chi2 < lim * (1 - slack)) & (w < thr * (1 - slack))
            outside = (chi2 > lim * (1 + slack)) | (w > thr * (1 + slack))
            c.ok(np.all(mask[inside]), "a point well inside the limits is rejected")
            c.ok(not np.any(mask[outside]), f"a point well outside the limits is kept: chi2 {chi2[mask].max():.3f} (limit {lim:.3f}), {w[mask].max():.3f} sigma (limit {thr})")
    # both ways of passing the data, and unit changes
    m2, C2, k2 = qc.itercov(*(tuple(d.T) if x["form"] else (d,)), **k)
    c.ok(np.array_equal(k2, mask), "mask depends on how the data is passed")
    c.close(m2, m, 1e-12, "mean depends on how the data is passed")
    m3, C3, k3 = qc.itercov(d * 4.0, **k)
    c.ok(np.array_equal(k3, mask), "mask depends on the unit")
    c.close(C3, C * 16, 1e-9, "covariance in another unit")
    if x["out"] and n > 60 and not x["heavy"] and x["thr"] is None and x["nsigma"] is None and x["out"] < 0.1:
        far = np.max(np.abs(z), axis=1) > 60
        c.ok(not np.any(mask & far), "gross outliers are kept")


@CHECK.sub("itercov_invalid", st.integers(5, 30), quick=30)
def itercov_invalid(c, n):
    r = np.random.RandomState(n)
    c.nontrivial()
    c.raises(ValueError, lambda: qc.itercov(r.rand(n)), "one-dimensional data")
    c.raises(ValueError, lambda: qc.itercov(r.rand(n), r.rand(n + 1)), "ragged data")
    c.raises(ValueError, lambda: qc.itercov(r.rand(n, 1)), "a single column")
    c.raises(ValueError, lambda: qc.itercov(1.0, 2.0), "numbers instead of data")
    # nothing, or a single event, can pass: the plain statistics, nothing cut, and a warning
    nd = 2 + n % 3
    d = r.standard_normal((n, nd)) * r.uniform(0.1, 10, nd)
    for kw in (dict(threshold=1e-9), dict(nsigma=-np.sqrt(nd / 2.0) * (1 - 1e-9))):
        for args in ((d,), tuple(d.T)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                m, C, mask = c.tup(qc.itercov(*args, **kw), 3)
            c.ok(w, "no warning although no event passes")
            c.ok(c.arr(mask, (n,), "mask").all(), "events are cut although the iteration does not converge")
            c.close(c.arr(m, (nd,), "mean"), d.mean(axis=0), 1e-12, "mean of all events", scale=1.0)
            c.close(c.arr(C, (nd, nd), "covariance"), np.cov(d.T), 1e-12, "covariance of all events", scale=100.0)


@CHECK.sub("removeoutliers", data(), quick=4000)
def removeoutliers(c, x):
    d = sample(x)
    n = len(d)
    target = [0.05, 0.05, 0.2, 0.0][x["seed"] % 4]
    k = {} if target == 0.05 else dict(skewtarget=target)
    mi = [None, 200, 200, 1, 2, 3, 6][x["seed"] % 7]
    if mi:
        k["maxiter"] = mi
    keep = c.arr(qc.removeoutliers(d, **k), (n,), "kept points")
    c.ok(keep.dtype == bool, "not boolean")
    c.nontrivial(not keep.all())
    sk = lambda v: np.mean((v - v.mean())**3) / np.mean((v - v.mean())**2)**1.5 if len(v) and np.ptp(v) > 1e-12 * np.max(np.abs(v)) else np.nan
    ties = len(np.unique(d)) < n
    if not ties:
        c.ok(keep.any(), "everything is rejected")
    if keep.any():
        lo, hi = d[keep].min(), d[keep].max()
        c.ok(np.array_equal(keep, (d >= lo) & (d <= hi)), "kept values are not a contiguous range")
        s = sk(d[keep])
        if mi and mi >= 200 and not np.isnan(s):
            if s > target + 1e-6:
                c.label("no further point to remove")
                med = np.median(d[keep])
                dist = min(abs(d.min() - med), abs(d.max() - med))
                c.ok(np.all(np.abs(d[keep] - med) < dist * (1 + 1e-9)), f"skewness {s} above {target} although asymmetric points are left")
    # the steps, one by one: everything as far from the median as the nearer of the two extremes, or farther, goes
    steps, clear = [np.ones(n, bool)], x["kind"] != "const" and not ties
    while clear:
        now = steps[-1]
        v = sk(d[now]) if now.sum() > 2 else np.nan
        if np.isnan(v) or abs(v - target) < 1e-9:
            clear = False
            break
        if v <= target or len(steps) > 3 * n + 30:
            break
        dev = np.abs(d - np.median(d[now]))
        e = min(dev[np.argmin(d)], dev[np.argmax(d)])
        ext = np.zeros(n, bool)
        ext[[np.argmin(d), np.argmax(d)]] = True
        if np.any(now & ~ext & (np.abs(dev - e) < 1e-9 * (e + np.max(np.abs(d))))):
            clear = False
            break
        nxt = now & (dev < e) & ~(ext & (dev <= e * (1 + 1e-9)))
        steps.append(nxt)
        if np.array_equal(nxt, now):
            break
    if clear:
        lim = mi or 20
        last = len(steps) - 1
        may = [last] if last <= lim else [lim, min(lim + 1, last)]
        c.ok(any(np.array_equal(keep, steps[j]) for j in may), f"{keep.sum()} of {n} kept, expected {[int(steps[j].sum()) for j in may]} after {may} of {last} steps (at most {lim})")
        c.label("limit reached" if last > lim else "followed")
    s0 = sk(d)
    if not np.isnan(s0):
        if s0 < target - 1e-6:
            c.ok(keep.all(), f"points are removed although the skewness {s0} is below {target}")
        if s0 > target + 1e-6:
            c.label("skewed")
            c.ok(not keep.all(), f"nothing is removed although the skewness is {s0}")
            c.ok(not keep[np.argmax(d)], "the largest value of a skewed set is kept")
    if x["kind"] != "const":
        f = 2.0**x["pw"]
        c.ok(np.array_equal(qc.removeoutliers(d * f, **k), keep), "outcome depends on the unit")
        if x["kind"] != "int":
            p = np.random.RandomState(x["seed"] ^ 1).permutation(n)
            q = qc.removeoutliers(d[p], **k)
            if not np.array_equal(q, keep[p]):
                # a skewness at the target within rounding may go either way
                c.ok(np.isnan(sk(d[keep])) or any(abs(sk(v) - target) < 1e-9 for v in (d[keep], d[p][q]) if len(v)), "outcome depends on the order")
