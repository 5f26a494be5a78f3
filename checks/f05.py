from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter, ofamp, ofamp_pileup, ofamp_pileup_stationary, chi2lowfreq, chi2_nopulse

CHECK = Check("F05", "Cases are batches of 1-5 traces with a template/PSD/coupling/window; non-trivial = more than one "
              "trace, or a window that excludes bins, or an off-grid first pulse.")


@st.composite
def case(draw):
    k = draw(st.integers(1, 5))
    x = draw(of_system(nmin=5, nmax=64, traces=k))
    for tr in x["tr"]:
        tr["sig"] = max(tr["sig"], 0.1)
    x["coupling"] = draw(st.sampled_from(["AC", "DC", "none"]))
    x["intn"] = draw(st.sampled_from([False, True])) if x["tkind"] != "random" else False
    x["win"] = draw(window(x["n"], centre=False))
    x["nc1"] = draw(st.one_of(st.none(), st.integers(1, x["n"])))
    x["withdelay"] = draw(st.booleans())
    x["a1"] = draw(signed(fl(0.1, 9)))
    x["t1"] = draw(st.integers(-(x["n"] // 2), x["n"] - 1 - x["n"] // 2)) + draw(st.sampled_from([0.0, 0.0, 0.4]))
    x["fc"] = draw(st.one_of(fl(0, 0.6), st.just(1.0)))
    x["amps"] = draw(st.lists(signed(fl(0, 9)), min_size=k, max_size=k))
    x["ts"] = draw(st.lists(fl(-20, 20), min_size=k, max_size=k))
    x["lead"] = draw(st.booleans())
    x["more"] = draw(size(st.sampled_from([0, 0, 0, 12, 40]), [130, 300, 600, 1100] if x["n"] < 100 else [12]))     # further traces, made from the first ones
    return x


def tol_of(r, a=0.0):
    csc = r.chi0 + 2 * a**2 * r.norm
    return 1e-8 * csc + floors(r), 1e-6 * (np.sqrt((csc + 1e-3 * floors(r)) / r.norm) + abs(a))


def agree(c, r, got, want, ta, tc, fs, what):
    """(pulse 1, a2, t2, chi2) of both interfaces are the same answer; where two delays fit equally
    well either may be returned, with its own amplitude."""
    p1, a, t, chi = got[0], *(c.num(v, what) for v in got[1:])
    q1, wa, wt, wchi = want[0], *(float(v) for v in want[1:])
    c.close(chi, wchi, 1, what + ": chi2", scale=tc)
    if abs(t - wt) * fs > 1e-6:
        for pp, aa, tt in ((p1, a, t), (q1, wa, wt)):
            c.close(r.chi2(pp, (aa, tt)), wchi, 1, f"{what}: times {t} and {wt} differ, chi2 at {tt}", scale=10 * tc)
        c.label("tie")
    else:
        c.close(a, wa, 1, what + ": a2", scale=ta)


@CHECK.sub("object", case(), quick=4000)
def objects(c, x):
    t, p, sigs = of_build(x)
    fs, w, s = x["fs"], x["win"], sigs[0]
    r = Ref(s, t, p, fs, x["coupling"])
    if not usable(r):
        return c.label("unusable")
    S = r.shifts()
    corr = np.real(S @ (r.w * S[x["n"] // 2].conj())) / r.norm
    corr[x["n"] // 2] = 0
    for intn in {False, x["intn"]}:
        r = Ref(s, t, p, fs, x["coupling"], intn)
        of = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=intn)
        tc, ta = tol_of(r)
        if x["withdelay"]:
            want = of.ofamp_withdelay(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"])
        else:
            a_, c_ = of.ofamp_nodelay()
            want = (a_, 0.0, c_)
        got = c.tup(ofamp(s, t, p, fs, withdelay=x["withdelay"], coupling=x["coupling"], lgcsigma=True,
                          nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"], integralnorm=intn), 4)
        for nm, g, v, sc in zip(("amp", "t0", "chi2", "sigma"), got, tuple(want) + (of.energy_resolution(),),
                                (ta, 1e-6 / fs, tc, 1e-9 * r.norm**-0.5)):
            c.close(c.num(g), float(v), 1, f"ofamp {nm} vs object (integralnorm={intn})", scale=sc)
    r = Ref(s, t, p, fs, x["coupling"])
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    a1, t1 = x["a1"] * x["unit"], x["t1"] / fs
    tc, ta = tol_of(r, a1)
    c.nontrivial(w["nconstrain"] is not None or x["t1"] % 1)
    got = ofamp_pileup(s, t, p, fs, a1=a1, t1=t1, coupling=x["coupling"], nconstrain2=w["nconstrain"],
                       lgcoutsidewindow=w["outside"])
    want = of.ofamp_pileup_iterative(a1, t1, nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"])
    agree(c, r, ((a1, t1), *c.tup(got, 5)[2:]), ((a1, t1), *want), ta, tc, fs, "ofamp_pileup vs object")
    # first pulse found by itself
    got = c.tup(ofamp_pileup(s, t, p, fs, coupling=x["coupling"], nconstrain1=x["nc1"], nconstrain2=w["nconstrain"],
                             lgcoutsidewindow=w["outside"]), 5)
    f = of.ofamp_withdelay(nconstrain=x["nc1"])
    want = tuple(f[:2]) + tuple(of.ofamp_pileup_iterative(f[0], f[1], nconstrain=w["nconstrain"],
                                                          lgcoutsidewindow=w["outside"]))
    tc, ta = tol_of(r, float(f[0]))
    for nm, g, v, sc in zip(("a1", "t1"), got, want, (ta, 1e-6 / fs)):
        c.close(c.num(g), float(v), 1, f"ofamp_pileup (search) {nm} vs object", scale=sc)
    agree(c, r, ((want[0], want[1]), *got[2:]), ((want[0], want[1]), *want[2:]), ta, tc, fs, "ofamp_pileup (search) vs object")
    if np.max(np.abs(corr)) < 0.9999:
        got = c.tup(ofamp_pileup_stationary(s, t, p, fs, coupling=x["coupling"], nconstrain=w["nconstrain"],
                                            lgcoutsidewindow=w["outside"]), 4)
        want = of.ofamp_pileup_stationary(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"])
        cond = 1e-2 / (1 - np.max(np.abs(corr))) + 1
        if abs(float(got[2]) - float(want[2])) * fs < 1e-6:
            c.close(c.num(got[0]), float(want[0]), 1, "ofamp_pileup_stationary a1 vs object", scale=ta * cond)
        agree(c, r, ((c.num(got[0]), 0.0), *got[1:]), ((float(want[0]), 0.0), *want[1:]), ta * cond, tc * cond, fs,
              "ofamp_pileup_stationary vs object")
    c.close(c.num(chi2_nopulse(s, p, fs, coupling=x["coupling"])), float(of.chi2_nopulse()), 1, "chi2_nopulse vs object",
            scale=1e-9 * r.chi0 + floors(r))
    c.close(c.num(chi2lowfreq(s, t, a1, t1, p, fs, fcutoff=x["fc"] * fs, coupling=x["coupling"])),
            float(of.chi2_lowfreq(a1, t1, fcutoff=x["fc"] * fs)), 1, "chi2lowfreq vs object",
            scale=1e-9 * (r.chi0 + a1**2 * r.norm) + floors(r))


@CHECK.sub("batch", case(), quick=4000)
def batch(c, x):
    t, p, sigs = of_build(x)
    fs, w, n = x["fs"], x["win"], x["n"]
    for k in range(x.get("more", 0)):
        sigs.append(np.roll(sigs[k % len(x["tr"])], 3 * k + 1) * (1 - 2 * (k % 3 == 1)) * (1 + 0.1 * k))
    B = np.array(sigs)
    m = len(sigs)
    refs = [Ref(s, t, p, fs, x["coupling"], x["intn"]) for s in sigs]
    if not usable(refs[0]):
        return c.label("unusable")
    c.nontrivial(m > 1)
    c.label(f"{m if m < 6 else '>5'} traces")
    kw = dict(withdelay=x["withdelay"], coupling=x["coupling"], integralnorm=x["intn"], nconstrain=w["nconstrain"],
              lgcoutsidewindow=w["outside"], lgcsigma=True)
    got = c.tup(ofamp(B, t, p, fs, **kw), 4)
    for k, (s, r) in enumerate(zip(sigs, refs)):
        one = ofamp(s, t, p, fs, **kw)
        tc, ta = tol_of(r)
        for nm, g, v, sc in zip(("amp", "t0", "chi2"), got, one, (ta, 1e-6 / fs, tc)):
            g = c.arr(g, (m,) if m > 1 else (), f"batched {nm}")
            c.close(g[k] if m > 1 else g, float(v), 1, f"ofamp batched {nm} of trace {k}", scale=sc)
        c.close(c.num(got[3]), float(one[3]), 1e-9, "sigma")
    g = c.arr(chi2_nopulse(B, p, fs, coupling=x["coupling"]), (m,), "chi2_nopulse batch")
    for k, r in enumerate(refs):
        c.close(g[k], float(chi2_nopulse(sigs[k], p, fs, coupling=x["coupling"])), 1, f"chi2_nopulse trace {k}",
                scale=1e-9 * r.chi0 + floors(r))
    if x["lead"]:
        B3 = np.array([sigs, sigs[::-1]])
        g3 = c.arr(chi2_nopulse(B3, p, fs, coupling=x["coupling"]), (2, m), "chi2_nopulse 3-d batch")
        c.close(g3[0], g, 1e-9, "3-d batch"), c.close(g3[1], g[::-1], 1e-9, "3-d batch")
    A = np.resize(x["amps"], m) * np.linspace(1, 2, m) * x["unit"]
    T = np.resize(x["ts"], m) * np.linspace(1, 0.5, m) / fs
    g = chi2lowfreq(B, t, A, T, p, fs, fcutoff=x["fc"] * fs, coupling=x["coupling"])
    g = c.arr(g, (m,) if m > 1 else (), "chi2lowfreq batch")
    for k, r in enumerate(refs):
        r1 = Ref(sigs[k], t, p, fs, x["coupling"])
        c.close(g[k] if m > 1 else g, float(chi2lowfreq(sigs[k], t, A[k], T[k], p, fs, fcutoff=x["fc"] * fs,
                                                       coupling=x["coupling"])), 1, f"chi2lowfreq trace {k}",
                scale=1e-9 * (r1.chi0 + A[k]**2 * r1.norm) + floors(r1))
