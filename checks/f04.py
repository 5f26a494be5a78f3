from harness import *
from gens import *
from qetpy import OptimumFilter

CHECK = Check("F04", "Cases are call histories (1-14 steps of fits, chi2s, resolutions, signal replacements and writes to "
              "the caller's own arrays) on one object, each step compared with a fresh object; non-trivial = at least "
              "one signal replacement followed by a call that was already made before it.")


@st.composite
def op(draw, n):
    kind = draw(st.sampled_from(["nodelay", "withdelay", "withdelay", "iter", "stat", "base", "nopulse", "low", "eres",
                                 "tres"]))
    o = dict(op=kind)
    if kind in ("withdelay", "iter", "stat", "base"):
        o["win"] = draw(window(n))
        o["dir"] = draw(st.sampled_from([0, 0, 1, -1]))
        o["interp"] = draw(st.booleans())
    if kind == "nodelay":
        o["wc"] = draw(st.one_of(st.just(0), st.integers(-(n // 2), n - 1 - n // 2)))
    if kind in ("iter", "low", "tres"):
        o["a"] = draw(signed(fl(0.5, 10.0)))
        o["t"] = draw(st.integers(-(n // 2), n - 1 - n // 2)) + draw(st.sampled_from([0.0, 0.3]))
    if kind == "low":
        o["fc"] = draw(st.one_of(fl(0.0, 0.6), st.just(1.0)))
    return o


@st.composite
def case(draw):
    x = draw(of_system(nmin=6, nmax=64, traces=4))
    for tr in x["tr"]:
        tr["sig"] = max(tr["sig"], 0.1)
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["intn"] = draw(st.sampled_from([False, False, True])) if x["tkind"] != "random" else False
    calls = draw(st.lists(op(x["n"]), min_size=1, max_size=4))
    step = st.one_of(st.integers(0, len(calls) - 1).map(lambda k: calls[k]), st.integers(0, len(calls) - 1).map(lambda k: calls[k]),
                     st.integers(0, 3).map(lambda k: dict(op="update", sig=k)), st.just(dict(op="scribble")))
    x["ops"] = draw(st.lists(step, min_size=3, max_size=16))
    return x


def call(of, o, x):
    k = o["op"]
    u, fs = x["unit"], x["fs"]
    if k in ("withdelay", "base", "iter"):
        w = o["win"]
        kw = dict(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"], windowcenter=w["wc"],
                  pulse_direction_constraint=o["dir"], interpolate_t0=o["interp"])
        if k == "withdelay":
            return of.ofamp_withdelay(**kw)
        if k == "base":
            return of.ofamp_baseline(**kw)
        return of.ofamp_pileup_iterative(o["a"] * u, o["t"] / fs, **kw)
    if k == "stat":
        w = o["win"]
        return of.ofamp_pileup_stationary(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"],
                                          windowcenter=w["wc"])
    if k == "nodelay":
        return of.ofamp_nodelay(windowcenter=o["wc"])
    if k == "nopulse":
        return (of.chi2_nopulse(),)
    if k == "low":
        return (of.chi2_lowfreq(o["a"] * u, o["t"] / fs, fcutoff=o["fc"] * fs),)
    if k == "eres":
        return (of.energy_resolution(),)
    if k == "tres":
        return (of.time_resolution(o["a"] * u),)


@CHECK.sub("history", case(), quick=5000, hang=120)
def history(c, x):
    t, p, sigs = of_build(x)
    r = Ref(sigs[0], t, p, x["fs"], x["coupling"], x["intn"])
    if not (r.norm > 1e-10 * np.sum(r.wfull * np.abs(r.S0)**2)):
        return c.label("unusable")
    S = r.shifts()
    mine = [np.array(v) for v in (sigs[0], t, p)]
    of = OptimumFilter(mine[0], mine[1], mine[2], x["fs"], coupling=x["coupling"], integralnorm=x["intn"])
    cur = 0
    called, updated, log = set(), False, []
    for o in x["ops"]:
        log.append(o["op"])
        if o["op"] == "update":
            cur = o["sig"]
            mine[0] = np.array(sigs[cur])
            of.update_signal(mine[0])
            updated = bool(called)
            continue
        if o["op"] == "scribble":
            for m in mine:
                m[:] = -7.0 * np.max(np.abs(m)) - 1.0
            c.label("scribble")
            continue
        got = c.tup(call(of, o, x), len(call(of, o, x)))
        fresh = OptimumFilter(sigs[cur], t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"])
        want = call(fresh, o, x)
        rr = Ref(sigs[cur], t, p, x["fs"], "DC", x["intn"])
        a = abs(o.get("a", 0)) * x["unit"]
        csc = rr.chi0 + 2 * a**2 * rr.norm
        asc = np.sqrt(csc / r.norm) + a
        names = {2: ("amp", "chi2"), 3: ("amp", "t0", "chi2"), 4: ("amp", "amp", "t0", "chi2"), 1: ("val",)}[len(want)]
        for nm, g, w_ in zip(names, got, want):
            scale = {"amp": 1e-6 * asc, "chi2": 1e-8 * csc, "t0": 1e-4 / x["fs"], "val": 1e-8 * abs(float(w_))}[nm]
            c.close(c.num(g, finite=False), float(w_), 1, f"{nm} of step {len(log)} {o['op']} after {log[:-1]}",
                    scale=scale)
        if updated and o["op"] in called:
            c.nontrivial()
            c.label("re-call after update")
        called.add(o["op"])
