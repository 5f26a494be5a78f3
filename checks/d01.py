from harness import *
from gens import *
from didv import *
from qetpy.core.didv._base_didv import _BaseDIDV

CHECK = Check("D01", "Cases are random physical 1-, 2- and 3-pole parameter sets and frequency grids; non-trivial = more than one pole or "
              "negative frequencies in the grid.")


@st.composite
def case(draw):
    x = draw(small())
    x["f"] = draw(st.lists(st.one_of(fl(-1e6, 1e6), logfl(1e-2, 1e7), st.just(0.0)), min_size=1, max_size=6))
    x["f"] = x["f"] * draw(size(st.just(1), [60, 400, 3000]))
    x["scalar"] = draw(st.booleans())
    x["extra"] = draw(st.booleans())
    x["dt"] = draw(fl(-1e-4, 1e-4))
    return x


@CHECK.sub("impedance", case(), quick=9000)
def impedance(c, x):
    p, poles = x["p"], x["poles"]
    c.label(poles)
    c.nontrivial(poles > 1 or min(x["f"]) < 0)
    f = x["f"][0] if x["scalar"] else np.array(x["f"])
    kw = dict(p)
    if x["extra"]:
        kw.update(dt=1e-6, foo="bar")
    want = imp(p, poles, f)
    # scale: the terms cancel for loop gains near 1
    q = to_fit(p, poles)
    tol = abs(q["A"]) + np.abs(want)
    if poles > 1:
        s = 2j * np.pi * np.asarray(f, dtype=float)
        d = 1 + s * q["tau1"] - (q["C"] / (1 + s * q["tau3"]) if poles == 3 else 0)
        if np.any(np.abs(d) < 1e-6):
            c.label("singular")
            return
        tol = tol + np.abs(q["B"] / d) * (1 + (1 + abs(q.get("C", 0))) / np.abs(d))
    tol = 1e-11 * tol
    z = c.arr(qetpy.compleximpedance(f, **kw), np.shape(f), "impedance", real=False)
    y = c.arr(qetpy.complexadmittance(f, **kw), np.shape(f), "admittance", real=False)
    c.close(z, want, 1.0, "impedance", scale=tol)
    c.close(y * want, np.ones(np.shape(f), dtype=complex), 1.0, "admittance x documented impedance", scale=tol / np.abs(want))
    c.close(y * z, np.ones(np.shape(f), dtype=complex), 1e-12, "admittance x impedance")
    zn = qetpy.compleximpedance(-np.asarray(f) if not x["scalar"] else -f, **kw)
    c.close(zn, np.conj(z), 1e-12, "impedance at negative frequencies is the conjugate")


@CHECK.sub("models", case(), quick=600)
def models(c, x):
    """incomplete parameter sets fall back to the documented smaller model or are refused"""
    p, poles = x["p"], x["poles"]
    f = np.array(x["f"])
    c.nontrivial(poles > 1)
    for k in KEYS[poles]:
        q = {a: b for a, b in p.items() if a != k}
        left = max([n for n in (1, 2, 3) if all(a in q for a in KEYS[n])], default=0)
        if left == 0:
            for fn in (qetpy.compleximpedance, qetpy.complexadmittance):
                c.raises(ValueError, lambda: fn(f, **q), f"{poles}-pole parameters without {k}")
            c.raises(ValueError, lambda: qetpy.squarewaveresponse(np.arange(10) / 100.0, 1.0, 10, **q), f"square wave response without {k}")
        else:
            c.close(qetpy.compleximpedance(f, **q), imp(q, left, f), 1e-9, f"{poles}-pole parameters without {k}",
                    scale=np.abs(imp(q, left, f)) + p["r0"] * 1e3)


@CHECK.sub("convert", case(), quick=9000)
def convert(c, x):
    """small-signal -> fit parameters -> small-signal"""
    p, poles = x["p"], x["poles"]
    c.label(poles)
    c.nontrivial(poles > 1)
    fr, to = getattr(_BaseDIDV, "_convertfromtesvalues", None), getattr(_BaseDIDV, "_converttotesvalues", None)
    if fr is None or to is None:
        c.label("no conversion helpers")
        return
    v = np.array([p[k] for k in KEYS[poles]] + [x["dt"]])
    v0 = v.copy()
    q = c.arr(fr(v), (len(FITKEYS[poles]),), "fit parameters")
    want = to_fit(p, poles)
    want["dt"] = x["dt"]
    for k, g in zip(FITKEYS[poles], q):
        c.close(g, want[k], 1e-9, f"fit parameter {k}", scale=abs(want[k]) + (p["rsh"] if k in "AB" else 0))
    q0 = q.copy()
    b = c.arr(to(q, p["rsh"], p.get("r0", 1.0), p["rp"]), (len(v),), "small-signal parameters")
    # B/(A+B+r0-rload) amplifies rounding for large and small loop gains
    amp = 1.0 if poles == 1 else 1 + abs(1 - p["l"]) * (1 + p["rsh"] / p["r0"]) + 1 / abs(1 - p["l"])
    for k, g, w in zip(KEYS[poles] + ["dt"], b, v):
        c.close(g, w, 1e-11 * amp, f"{k} after conversion to fit parameters and back", scale=abs(w) + (p["rsh"] + p.get("r0", 0) if k in ("rp", "beta") else 0))
    c.ok(np.array_equal(q, q0) and np.array_equal(v, v0), "conversion modified its input")


@CHECK.sub("falltimes", case(), quick=9000)
def falltimes(c, x):
    p, poles = x["p"], x["poles"]
    ff = getattr(_BaseDIDV, "_findpolefalltimes", None)
    if ff is None:
        c.label("no fall time helper")
        return
    q = to_fit(p, poles)
    q["dt"] = x["dt"]
    want = falls(q, poles)
    t = c.arr(ff(np.array([q[k] for k in FITKEYS[poles]])), (poles,), "fall times", real=False)
    cpx = np.any(np.abs(want.imag) > 1e-5 * np.abs(want))
    c.label(f"{poles} {'complex' if cpx else 'real'}")
    c.nontrivial(poles > 1)
    # nearly double roots are only defined to the square root of the precision
    gap = min([abs(a - b) / max(abs(a), abs(b)) for i, a in enumerate(want) for b in want[:i]] + [1.0])
    tol = 1e-7 / max(gap, 1e-3)
    if gap < 1e-3:
        return
    for w in want:
        k = np.argmin(np.abs(t - w))
        c.ok(abs(t[k] - w) <= tol * abs(w) + 1e-13 * np.max(np.abs(want)), f"decay time {w!r} is missing from the reported {t!r}")
    if not cpx:
        c.ok(not np.iscomplexobj(t), "complex fall times of an overdamped response")
        c.ok(np.all(np.diff(t) >= 0), "fall times are sorted")
    # every reported time is a pole of the admittance: the impedance vanishes at s = -1/t
    s = -1 / t.astype(complex)
    A = q["A"] * (1 + s * q["tau2"])
    if poles > 1:
        d = 1 + s * q["tau1"] - (q["C"] / (1 + s * q["tau3"]) if poles == 3 else 0)
        sc = np.abs(q["A"]) * (1 + np.abs(s * q["tau2"])) + np.abs(q["B"] / d)
        c.ok(np.all(np.abs(A + q["B"] / d) <= 1e-5 * sc / max(gap, 1e-3) + 0), f"impedance {A + q['B'] / d} does not vanish at the reported decay times {t}")


@CHECK.sub("std", st.fixed_dictionaries(dict(seed=SEED, n=st.integers(1, 12), m=st.integers(1, 6), off=st.sampled_from([0.0, 10.0]))), quick=900)
def std(c, x):
    r = np.random.RandomState(x["seed"])
    a = r.standard_normal((x["n"], x["m"])) + x["off"] + 1j * (r.standard_normal((x["n"], x["m"])) * 3 - x["off"])
    c.nontrivial(x["n"] > 1)
    for ax in (0, 1):
        re, im = a.real, a.imag
        want = np.sqrt(np.mean((re - re.mean(axis=ax, keepdims=True))**2, axis=ax)) + 1j * np.sqrt(np.mean((im - im.mean(axis=ax, keepdims=True))**2, axis=ax))
        c.close(qetpy.stdcomplex(a, axis=ax), want, 1e-9, f"complex standard deviation along axis {ax}", scale=1 + x["off"])
    c.close(qetpy.stdcomplex(a), qetpy.stdcomplex(a, axis=0), 1e-15, "default axis", scale=1.0)
