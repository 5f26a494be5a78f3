from harness import *
from gens import *
import qetpy as qp

CHECK = Check("N03", "Cases are trace lengths, pulse templates, sample and TTL rates, polarity flags and notch sizes; "
              "non-trivial = at least one TTL pulse, or a slope/flat pair.")


@CHECK.sub("slope_dc", st.builds(dict, n=st.integers(2, 5000)), quick=9000)
def slope_dc(c, x):
    n = x["n"]
    t, sh = c.tup(qp.get_slope_dc_template_nsmb(n), 2)
    c.nontrivial()
    t = c.arr(t, (n, 2), "templates")
    c.close(t[:, 1], np.ones(n), 1e-12, "flat template")
    c.close(t[:, 0], np.arange(n) / n, 1e-12, "slope template")
    c.ok(np.shape(sh) == (2,) and np.all(np.isnan(sh)), "shifts are undefined for slope and flat backgrounds")


@st.composite
def ttl(draw):
    n = draw(st.integers(20, 800))
    fs = draw(st.sampled_from([1.0, 625e3, 1e6, 1.25e6, 3.0]))
    m = draw(st.integers(0, min(8, n // 8)))
    # period in bins: anything that gives m whole periods in the trace
    per = n / (m + draw(st.sampled_from([0.0, 0.0, 0.3, 0.77, 0.999]))) if m else n * draw(fl(1.01, 3))
    if draw(st.booleans()):
        per = max(6.0, float(np.floor(per)))
    return dict(n=n, fs=fs, per=per, notch=draw(st.integers(0, max(0, min(10, int(per / 2) - 2)))), pol=draw(st.booleans()), pos=draw(st.booleans()),
                kind=draw(st.sampled_from(["float", "float", "int", "int16", "bool", "f4"])), tau=draw(fl(1, 20)), tpos=draw(st.integers(0, n - 2)))


@CHECK.sub("ttl", ttl(), quick=9000)
def ttl_templates(c, x):
    n, fs, per = x["n"], x["fs"], x["per"]
    k = np.arange(n)
    tmpl = np.where(k >= x["tpos"], (k - x["tpos"] + 1.0) * np.exp(-np.maximum(k - x["tpos"], 0) / x["tau"]), 0)
    tmpl = tmpl / tmpl.max()
    if x["kind"] == "f4":
        tmpl = tmpl.astype("f4")
    elif x["kind"] != "float":
        tmpl = np.rint(tmpl * 5).astype(dict(int="i8", int16="i2", bool="?")[x["kind"]])
    rate = fs / per
    m = int(np.floor(n / per + 1e-9))
    exact = abs(n / per - round(n / per)) < 1e-9
    t, sh, pol, win = c.tup(qp.maketemplate_ttlfit_nsmb(tmpl, fs, rate, lgcconstrainpolarity=x["pol"],
                                                        lgcpositivepolarity=x["pos"], notch_window_size=x["notch"]), 4)
    t = c.arr(t, what="templates")
    c.ok(t.ndim == 2 and t.shape[0] == n, f"template shape {t.shape}")
    got = t.shape[1] - 2
    c.ok(got == m or (exact and got in (m, m - 1)), f"{got} TTL pulses for {n / per} periods")
    if exact and got == m:
        c.label("exact multiple")
    m = got
    c.nontrivial(m)
    sh = c.arr(sh, (m + 2,), "shifts")
    ok = np.abs(sh[:m] - per * np.arange(m)) <= 0.5 + 1e-6
    c.ok(np.all(ok) and np.all(sh[:m] == np.round(sh[:m])), f"pulse shifts {sh[:m]} vs spacing {per}")
    c.ok(np.all(sh[m:] == 0), "shifts of slope and flat backgrounds")
    c.close(t[:, -1], np.ones(n), 1e-12, "flat template")
    c.close(t[:, -2], k / n, 1e-12, "slope template")
    if m:
        b0 = -m * per / 2
        first = t[:, 0]
        c.ok(any(np.array_equal(first, np.roll(tmpl, int(q))) for q in (np.floor(b0 + 1e-6), np.ceil(b0 + 1e-6), np.round(b0))),
             "first template is the pulse moved back by half of the train")
        for i in range(1, m):
            s = int(sh[i])
            want = np.concatenate([np.zeros(s), first[:n - s]])
            c.close(t[:, i], want, 1e-12, f"template {i} is the first one delayed by {s} bins")
    pol = c.arr(pol, (m + 2,), "polarity")
    want = np.zeros(m + 2)
    if x["pol"]:
        want[:m] = 1 if x["pos"] else -1
    c.ok(np.array_equal(pol, want), f"polarity {pol} vs {want}")
    c.ok(isinstance(win, list) and len(win) == 1, "one search window")
    w = c.arr(win[0], what="window")
    excl = {int(s + q) % n for s in sh[:m] for q in range(-x["notch"], x["notch"] + 1)}
    c.ok(w.shape == (1, n - len(excl)) and np.array_equal(w[0], np.array(sorted(set(range(n)) - excl))),
         f"search window excludes {sorted(set(range(n)) - set(w.ravel().tolist()))[:12]}, expected {sorted(excl)[:12]}")


@st.composite
def stacks(draw):
    return dict(n=draw(st.integers(2, 200)), ns=draw(st.integers(1, 3)), nb=draw(st.integers(1, 4)), seed=draw(SEED))


@CHECK.sub("transform", stacks(), quick=3000)
def transform(c, x):
    r = np.random.RandomState(x["seed"])
    s, b = r.standard_normal((x["n"], x["ns"])), r.standard_normal((x["n"], x["nb"]))
    f, t = c.tup(qp.of_nsmb_ffttemplate(s, b), 2)
    c.nontrivial()
    n, m = x["n"], x["ns"] + x["nb"]
    c.ok(np.array_equal(c.arr(t, (n, m)), np.hstack([s, b])), "templates in time")
    c.close(np.real(ifft(c.arr(f, (n, m), real=False) * n, axis=0)), t, 1e-12, "inverse transform of the frequency templates")
    w = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    c.close(f, w @ t / n, 1e-9, "explicit Fourier sum")
