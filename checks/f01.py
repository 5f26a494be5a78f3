from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter, ofamp, ofamp_pileup, chi2lowfreq

CHECK = Check("F01", "Cases are (trace, template, PSD, sample rate, coupling, normalisation, window, direction, "
              "interpolation) drawn by composite generators; non-trivial = the window or direction constraint "
              "excludes at least one bin, or the optimum is not the unshifted bin.")

@st.composite
def case(draw, interp=False):
    x = draw(of_system())
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["intn"] = draw(st.sampled_from([False, False, True])) if x["tkind"] != "random" else False
    x["win"] = draw(window(x["n"]))
    x["dir"] = draw(st.sampled_from([0, 0, 1, -1]))
    x["interp"] = interp
    x["wc2"] = draw(st.integers(-(x["n"] // 2), x["n"] - 1 - x["n"] // 2))
    return x


def judge(c, x, r, res, what, interp=False, dirc=0):
    a, chi = r.scan()
    w = x["win"]
    allowed = allowed_bins(x["n"], w["nconstrain"], w["outside"], w["wc"])
    epsa = 1e-9 * (np.max(np.abs(a)) + 1e-300) + 1e-7 * np.sqrt(floors(r) / r.norm)
    judge_scan(c, x["n"], x["fs"], a, chi, allowed, res, what, TOL * r.chi0 + floors(r), epsa,
               dirc=dirc, interp=interp, empty=(0.0, 0.0, r.chi0))


@CHECK.sub("withdelay", case(), quick=8000)
def withdelay(c, x):
    t, p, (s,) = of_build(x)
    r = Ref(s, t, p, x["fs"], x["coupling"], x["intn"])
    if not usable(r):
        return c.label("unusable")
    w = x["win"]
    of = OptimumFilter(s, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"])
    res = of.ofamp_withdelay(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"],
                             pulse_direction_constraint=x["dir"], windowcenter=w["wc"])
    c.label("outside" if w["outside"] else "inside")
    judge(c, x, r, res, "withdelay", dirc=x["dir"])
    if w["wc"] == 0 and x["dir"] == 0:
        res = ofamp(s, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"],
                    nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"])
        judge(c, x, r, res, "ofamp")
        c.label("function")


@CHECK.sub("interp", case(interp=True), quick=8000)
def interp(c, x):
    t, p, (s,) = of_build(x)
    r = Ref(s, t, p, x["fs"], x["coupling"], x["intn"])
    if not usable(r):
        return c.label("unusable")
    w = x["win"]
    of = OptimumFilter(s, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"])
    res = of.ofamp_withdelay(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"],
                             pulse_direction_constraint=x["dir"], windowcenter=w["wc"], interpolate_t0=True)
    judge(c, x, r, res, "withdelay(interpolated)", interp=True, dirc=x["dir"])


@CHECK.sub("nodelay", case(), quick=4000)
def nodelay(c, x):
    t, p, (s,) = of_build(x)
    r = Ref(s, t, p, x["fs"], x["coupling"], x["intn"])
    if not usable(r):
        return c.label("unusable")
    n = x["n"]
    a, chi = r.scan()
    of = OptimumFilter(s, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"])
    ascale = np.max(np.abs(a))
    eps = 1e-7 * np.sqrt(floors(r) / r.norm)
    for wc in (0, x["wc2"]):
        # a shift of half the sampling of an even-length record is ambiguous in the highest bin only up to sign of
        # an imaginary part; whole-bin shifts are exact
        amp, chi2 = c.tup(of.ofamp_nodelay(windowcenter=wc), 2)
        c.close(c.num(amp), a[n // 2 + wc], 1, f"nodelay amplitude at {wc}", scale=TOL * ascale + eps)
        c.close(c.num(chi2), chi[n // 2 + wc], 1, f"nodelay chi2 at {wc}", scale=TOL * r.chi0 + floors(r))
        c.nontrivial(wc != 0)
    amp, t0, chi2 = c.tup(ofamp(s, t, p, x["fs"], withdelay=False, coupling=x["coupling"], integralnorm=x["intn"]), 3)
    c.close(c.num(amp), a[n // 2], 1, "ofamp(withdelay=False) amplitude", scale=TOL * ascale + eps)
    c.close(c.num(t0), 0.0, 1, "ofamp(withdelay=False) time", scale=0.0)
    c.close(c.num(chi2), chi[n // 2], 1, "ofamp(withdelay=False) chi2", scale=TOL * r.chi0 + floors(r))


@CHECK.sub("invalid", case(), quick=400, thorough=1000)
def invalid(c, x):
    t, p, (s,) = of_build(x)
    n = x["n"]
    of = OptimumFilter(s, t, p, x["fs"])
    c.nontrivial()
    lo, hi = -(n // 2), n - 1 - n // 2
    for wc in (lo - 1, hi + 1, lo - 7, hi + n):
        for nc in (None, 3):
            for f in (of.ofamp_withdelay, of.ofamp_baseline):
                c.raises(ValueError, lambda: f(nconstrain=nc, windowcenter=wc), f"{f.__name__} windowcenter={wc}")
            c.raises(ValueError, lambda: of.ofamp_pileup_iterative(1.0, 0.0, nconstrain=nc, windowcenter=wc),
                     f"pileup_iterative windowcenter={wc}")
            c.raises(ValueError, lambda: of.ofamp_pileup_stationary(nconstrain=nc, windowcenter=wc),
                     f"pileup_stationary windowcenter={wc}")
    for nc in (0, -1, -n):
        for f in (of.ofamp_withdelay, of.ofamp_baseline, of.ofamp_pileup_stationary):
            c.raises(ValueError, lambda: f(nconstrain=nc), f"{f.__name__} nconstrain={nc}")
        c.raises(ValueError, lambda: ofamp(s, t, p, x["fs"], nconstrain=nc), f"ofamp nconstrain={nc}")
    for d in (2, -2, 3, 0.5):
        for f in (of.ofamp_withdelay, of.ofamp_baseline):
            c.raises(ValueError, lambda: f(pulse_direction_constraint=d), f"{f.__name__} direction {d}")
        c.raises(ValueError, lambda: of.ofamp_pileup_iterative(1.0, 0.0, pulse_direction_constraint=d),
                 f"pileup_iterative direction {d}")
    for bad in (p[:-1], np.append(p, p[-1])):
        c.raises(ValueError, lambda: ofamp(s, t, bad, x["fs"]), "ofamp with wrong PSD length")
        c.raises(ValueError, lambda: ofamp_pileup(s, t, bad, x["fs"], a1=1.0, t1=0.0), "ofamp_pileup with wrong PSD length")
        c.raises(ValueError, lambda: chi2lowfreq(s, t, 1.0, 0.0, bad, x["fs"]), "chi2lowfreq with wrong PSD length")
