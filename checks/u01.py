from harness import *
import math
from fractions import Fraction
from gens import *
from qetpy import utils as qu

CHECK = Check("U01", "Cases are arrays (floats, integers, ties, zeros, negatives, one element), shifts (whole, fractional, beyond the ends), "
              "pulse time constants, trace batches and signal-generator frequencies; non-trivial = the call changes something "
              "(non-zero shift, an increasing step, a non-positive value, more than one period).",
              ["fractional shifts are claimed for one-dimensional arrays"])

VALS = st.one_of(fl(-100, 100), st.integers(-5, 5).map(float), st.just(0.0))


@st.composite
def shiftcase(draw):
    rep = draw(size(st.just(1), [30, 100, 400]))
    n = draw(st.integers(1, 40))
    kind = draw(st.sampled_from(["float", "float", "int", "list", "intlist"]))
    el = st.integers(-1000, 1000) if "int" in kind else VALS
    num = draw(st.one_of(st.integers(-n - 3, n + 3), fl(-n - 2.0, n + 2.0), st.integers(-2 * n, 2 * n).map(lambda k: k / 2), st.integers(-n, n).map(float)))
    return dict(a=draw(st.lists(el, min_size=n, max_size=n)) * rep, kind=kind, num=num, fill=draw(st.sampled_from([None, 0, 1.0, -3.0, 7])))


@CHECK.sub("shift", shiftcase(), quick=8000)
def shift(c, x):
    a = np.array(x["a"], dtype=float)
    n = len(a)
    arg = list(x["a"]) if "list" in x["kind"] else np.array(x["a"], dtype=int if x["kind"] == "int" else float)
    kw = {} if x["fill"] is None else {"fill_value": x["fill"]}
    fill = 0.0 if x["fill"] is None else float(x["fill"])
    num = float(x["num"])
    out = c.arr(qu.shift(arg, x["num"], **kw), (n,), "shifted array")
    c.nontrivial(num != 0)
    p = np.arange(n) - num
    if num.is_integer():
        c.label("whole")
        q = p.astype(int)
        want = np.where((q >= 0) & (q < n), a[np.clip(q, 0, n - 1)], fill)
        c.ok(np.array_equal(np.asarray(out, float), want), f"shift by {num}: {out} instead of {want}")
    else:
        c.label("fractional")
        if abs(num - round(num)) < 1e-9:
            return              # whether the end bins still count is rounding
        want = np.interp(p, np.arange(n), a)
        want[(p < 0) | (p > n - 1)] = fill
        c.close(np.asarray(out, float), want, 1e-9, f"shift by {num}", scale=np.max(np.abs(a)) + abs(fill) + 1e-300)


@CHECK.sub("template", st.builds(dict, n=st.integers(8, 600), dt=st.sampled_from([1.0, 1.6e-6, 1e-6, 0.01, 0.8e-6]), tr=logfl(0.1, 50), ratio=logfl(1.02, 100),
                                 off=st.one_of(st.integers(-300, 300), st.integers(-20, 20), st.integers(-40, 40).map(lambda k: k / 4)), default=st.booleans()), quick=6000)
def template(c, x):
    n, dt = x["n"], x["dt"]
    off = 0 if x["default"] else x["off"]
    start = n // 2 + off
    if not 0 <= start <= n - 3:
        start = n // 2 if start > n - 3 else 0
        off = start - n // 2
    t = np.arange(n) * dt
    tr, tf = x["tr"] * dt, x["tr"] * dt * x["ratio"]
    out = c.arr(qu.make_template(t, tr, tf) if x["default"] and off == 0 else qu.make_template(t, tr, tf, offset=off), (n,), "template")
    c.nontrivial(off != 0)
    c.ok(abs(out.max() - 1) < 1e-12, f"maximum {out.max()}")
    k = np.arange(n) - start
    f = lambda u: np.where(u >= 0, np.exp(-np.maximum(u, 0) * dt / tf) - np.exp(-np.maximum(u, 0) * dt / tr), 0)
    lo = np.floor(k)
    want = f(lo) * (1 - (k - lo)) + f(lo + 1) * (k - lo)
    if not float(start).is_integer():
        want[k < 0] = 0.0
    c.ok(np.all(out[k < 0] == 0), "non-zero before the start of the pulse")
    c.close(out, want / want.max(), 1e-9, "template shape", scale=1.0)


@st.composite
def offcase(draw):
    x = dict(nt=draw(size(st.integers(1, 6), [60, 300, 1100])), nch=draw(st.sampled_from([0, 0, 1, 3])), seed=draw(SEED), didv=draw(st.sampled_from([True, True, False])))
    x["fs"] = draw(st.sampled_from([1.0, 625e3, 1e6, 1.25e6, 1000, 48000, 333.0, 0.1, 3.0, 1.5625e6]))
    how = draw(st.sampled_from(["div", "div", "any", "freq"]))
    if how == "div":                              # a whole number of bins per period
        pb = draw(st.integers(1, 60))
        x["n"] = pb * draw(st.integers(1, 12)) + draw(st.integers(0, pb - 1)) * draw(st.integers(0, 1))
        x["sg"] = x["fs"] / pb
    elif how == "any":
        pb = draw(fl(1.0, 60.0))
        x["n"] = int(np.ceil(pb * draw(fl(1.0, 8.0))))
        x["sg"] = x["fs"] / pb
    else:
        x["fs"] = draw(st.sampled_from([625e3, 1e6, 1.25e6, 48000]))
        x["sg"] = draw(st.sampled_from([x["fs"] / 10, x["fs"] / 25, x["fs"] / 100, 3e4, 7e4, 1e5, 12345.0]))
        x["n"] = int(np.ceil(x["fs"] / x["sg"])) * draw(st.integers(1, 20))
    return x


def whole_periods(n, fs, sg):
    """acceptable numbers of kept samples: those of the largest whole number of periods, in exact
    arithmetic; both neighbours where a rate that cannot be written exactly leaves it undecided"""
    F = Fraction
    out = set()
    for e in (0, F(1, 10**9), -F(1, 10**9)):
        nper = n * F(sg) / F(fs)
        if nper.denominator == 1 and e:
            continue
        k = math.floor(nper + e)
        for e2 in (0, F(1, 10**7), -F(1, 10**7)):
            m = k * F(fs) / F(sg)
            if m.denominator == 1 and e2:
                continue
            out.add(math.floor(m + e2))
    return k, {min(m, n) for m in out if m > 0}


@CHECK.sub("offset", offcase(), quick=6000)
def offset(c, x):
    r = np.random.RandomState(x["seed"])
    shape = (x["nt"],) + ((x["nch"],) if x["nch"] else ()) + (x["n"],)
    a = r.standard_normal(shape) + 5 * r.standard_normal(shape[:-1])[..., None]
    a[..., -1] += 50
    a[..., 0] -= 30
    o, s = c.tup(qu.calc_offset(a, fs=x["fs"], sgfreq=x["sg"], is_didv=x["didv"]), 2)
    ms = {x["n"]}
    if x["didv"]:
        if x["n"] * x["sg"] / x["fs"] < 1 + 1e-9 and x["n"] * Fraction(x["sg"]) != Fraction(x["fs"]):
            return                                   # no definite full period
        k, ms = whole_periods(x["n"], x["fs"], x["sg"])
        c.nontrivial(k > 1)
        c.label("all samples" if x["n"] in ms else "truncated")
        c.label(f"{len(ms)} candidates")
    for m in sorted(ms):
        av = a[..., :m].mean(axis=-1)
        try:
            c.close(o, av.mean(axis=0), 1e-9, f"offset (whole periods: {sorted(ms)} of {x['n']} samples)", scale=10.0)
        except Violation:
            if m == max(ms):
                raise
            continue
        c.close(s, av.std(axis=0) / np.sqrt(x["nt"]), 1e-9, "error of the offset", scale=10.0)
        break


@st.composite
def decr(draw):
    n = draw(st.integers(1, 40))
    y = draw(st.lists(draw(st.sampled_from([VALS, fl(0.01, 100), st.integers(0, 4).map(float), logfl(1e-12, 1)])), min_size=n, max_size=n))
    x = draw(st.sampled_from([None, "uneven"]))
    if draw(st.integers(0, 5)) == 0:
        y = sorted(y, reverse=True)
    rep = draw(size(st.just(1), [30, 100]))
    y, n = [v - 3 * k for k in range(rep) for v in y], n * rep
    return dict(y=y, x=None if x is None else draw(st.lists(fl(0.1, 5), min_size=n // rep, max_size=n // rep)) * rep)


@CHECK.sub("decreasing", decr(), quick=8000)
def decreasing(c, x):
    y = np.array(x["y"])
    n = len(y)
    xs = None if x["x"] is None else np.cumsum(x["x"])
    out = c.arr(qu.make_decreasing(y) if xs is None else qu.make_decreasing(y, x=xs), (n,), "monotone curve")
    xs = np.arange(n) if xs is None else xs
    s = np.max(np.abs(y)) + 1e-300
    run = np.minimum.accumulate(y)
    rec = np.r_[True, y[1:] < run[:-1]]
    c.nontrivial(not rec.all())
    c.label(f"{min(rec.sum(), 3)} record minima")
    c.close(out[rec], y[rec], 1e-9, "value at a running minimum", scale=s)
    tail = np.diff(xs[np.flatnonzero(rec)[-2:]])     # extrapolation multiplies rounding errors
    amp = 1 + (xs[-1] - xs[0]) / (tail[0] if len(tail) else np.inf)
    c.ok(np.all(np.diff(out) <= 1e-12 * s * amp), f"increasing output {out} for {y}")
    last = np.flatnonzero(rec)[-1]
    want = np.interp(xs[:last + 1], xs[rec], y[rec])
    c.close(out[:last + 1], want, 1e-9, "interpolation between running minima", scale=s)
    c.close(qu.make_decreasing(out.copy(), **({} if x["x"] is None else {"x": xs})), out, 1e-9, "a decreasing curve is changed", scale=np.max(np.abs(out)) * amp + s) if np.all(np.diff(out) < 0) else None


@CHECK.sub("fill", st.builds(lambda a, k: a * k, st.lists(VALS, min_size=1, max_size=40), size(st.just(1), [30, 400])), quick=6000)
def fill(c, x):
    y = np.array(x)
    good = y > 0
    arg = y.copy()
    out = c.arr(qu.fill_negatives(arg), y.shape, "filled array")
    c.nontrivial(good.any() and not good.all())
    c.ok(np.array_equal(out[good], y[good]), f"positive values changed: {y} -> {out}")
    if good.any():
        k = np.arange(len(y))
        c.close(out, np.interp(k, k[good], y[good]), 1e-12, "interpolated values")
        c.ok(np.all(out > 0), f"still non-positive: {out}")
    c.ok(np.array_equal(arg, out), "documented in-place result differs from the returned one")


@CHECK.sub("slope", st.builds(dict, n=size(st.integers(2, 60), [300, 1100, 5000]), seed=SEED, m=signed(logfl(1e-9, 1e6)), b=signed(logfl(1e-9, 1e3)), x0=st.sampled_from([0.0, 0.0, -3.0, 40.0, 1e4]),
                              dx=st.sampled_from([1.0, 1.6e-6, 0.01, 1e-3]), noise=st.sampled_from([0.0, 1.0]), even=st.booleans()), quick=6000)
def slope(c, x):
    r = np.random.RandomState(x["seed"])
    n = x["n"]
    xs = np.arange(n) * x["dx"] if x["even"] else np.cumsum(r.uniform(0.2, 2, n)) * x["dx"]
    u = xs - xs.mean()
    y = x["m"] * u + x["b"] + x["noise"] * r.standard_normal(n) * abs(x["m"]) * np.ptp(u)
    w = y - y.mean()
    want = np.sum(u * w) / np.sum(u**2)
    c.nontrivial(n > 2)
    # what cancels in float arithmetic: the centring of x and of y
    tol = 1e-12 * n * (1 + abs(x["x0"]) / np.std(u)) * (np.std(w) + abs(x["b"])) / np.std(u) + 1e-12 * n * np.std(w) / np.std(u) * abs(x["x0"]) / np.std(u)
    c.close(qu.slope(xs + x["x0"], y), want, 1, "slope", scale=tol + 1e-300)
    c.close(qu.slope(u, y, removemeans=False), want, 1, "slope of centred data", scale=tol + 1e-300)
