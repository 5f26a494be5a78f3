from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter, ofamp_pileup, ofamp_pileup_stationary, ofamp

CHECK = Check("F02", "Cases are two-pulse traces with a given first pulse (on/off the sample grid), windows, "
              "direction constraints; non-trivial = window/direction excludes bins, the first pulse is off the "
              "grid, or the second pulse is not at the unshifted time.")


@st.composite
def case(draw, interp=False):
    x = draw(of_system())
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["intn"] = draw(st.sampled_from([False, False, True])) if x["tkind"] != "random" else False
    x["win"] = draw(window(x["n"]))
    x["dir"] = draw(st.sampled_from([0, 0, 1, -1]))
    n = x["n"]
    x["a1"] = draw(signed(fl(0.0, 15.0)))
    x["t1b"] = draw(st.integers(-(n // 2), n - 1 - n // 2))
    x["t1f"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.5, 0.3, -0.25, 0.999]))
    x["t1how"] = draw(st.sampled_from(["div", "mul", "given"]))
    x["given"] = draw(st.booleans())
    x["nc1"] = draw(st.one_of(st.none(), st.integers(1, n)))
    return x


def t1_of(x):
    b = x["t1b"] + x["t1f"]
    return b / x["fs"] if x["t1how"] != "mul" else b * (1 / x["fs"])


def second(r, a1, t1):
    """reference a2, chi2 for every delay of the second pulse"""
    R = r.V - a1 * r.S0 * np.exp(-2j * np.pi * r.freqs * t1)
    S = r.shifts()
    a = np.real(S.conj() @ (r.w * R)) / r.norm
    chi = np.sum(r.w * np.abs(R[None, :] - a[:, None] * S)**2, axis=1)
    return a, chi, float(np.sum(r.w * np.abs(R)**2))


def tols(r, a1, chiR, a):
    pw = r.chi0 + a1**2 * r.norm + chiR
    fl_ = floors(r) + 1e-9 * pw
    return TOL * pw + fl_, 1e-8 * (np.max(np.abs(a)) + abs(a1) + 1e-300) + 1e-7 * np.sqrt(fl_ / r.norm)


def iterative(c, x, interp):
    t, p, (s,) = of_build(x)
    r = Ref(s, t, p, x["fs"], x["coupling"], x["intn"])
    if not usable(r):
        return c.label("unusable")
    n, fs, w = x["n"], x["fs"], x["win"]
    a1 = x["a1"] * x["unit"] * (t.sum() / fs if x["intn"] else 1)
    t1 = t1_of(x)
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=x["intn"])
    res = of.ofamp_pileup_iterative(a1, t1, nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"],
                                    pulse_direction_constraint=x["dir"], windowcenter=w["wc"],
                                    interpolate_t0=interp)
    a, chi, chiR = second(r, a1, t1)
    tolc, epsa = tols(r, a1, chiR, a)
    c.nontrivial(x["t1f"] != 0)
    c.label("offgrid" if x["t1f"] else "ongrid")
    judge_scan(c, n, fs, a, chi, allowed_bins(n, w["nconstrain"], w["outside"], w["wc"]), res,
               "pileup_iterative", tolc, epsa, dirc=x["dir"], interp=interp, empty=(0.0, 0.0, chiR))


@CHECK.sub("iterative", case(), quick=2000)
def iterative_grid(c, x):
    iterative(c, x, False)


@CHECK.sub("iterative_interp", case(), quick=1500)
def iterative_interp(c, x):
    iterative(c, x, True)


@CHECK.sub("function", case(), quick=1500)
def function(c, x):
    t, p, (s,) = of_build(x)
    r = Ref(s, t, p, x["fs"], x["coupling"])
    if not usable(r):
        return c.label("unusable")
    n, fs, w = x["n"], x["fs"], x["win"]
    kw = dict(a1=x["a1"] * x["unit"], t1=t1_of(x)) if x["given"] else dict(nconstrain1=x["nc1"])
    res = ofamp_pileup(s, t, p, fs, coupling=x["coupling"], nconstrain2=w["nconstrain"],
                       lgcoutsidewindow=w["outside"], **kw)
    a1, t1, a2, t2, chi2 = c.tup(res, 5)
    if x["given"]:
        c.close(c.num(a1), kw["a1"], 0, "first amplitude echoed")
        c.close(c.num(t1), kw["t1"], 0, "first time echoed")
        c.nontrivial(x["t1f"] != 0)
        c.label("given")
    else:
        b, ch = r.scan()
        e = 1e-9 * np.max(np.abs(b)) + 1e-7 * np.sqrt(floors(r) / r.norm)
        judge_scan(c, n, fs, b, ch, allowed_bins(n, x["nc1"], False, 0), (a1, t1, ch[int(round(t1 * fs)) + n // 2]),
                   "first pulse", TOL * r.chi0 + floors(r), e)
        c.label("searched")
    a, chi, chiR = second(r, float(a1), float(t1))
    tolc, epsa = tols(r, float(a1), chiR, a)
    judge_scan(c, n, fs, a, chi, allowed_bins(n, w["nconstrain"], w["outside"], 0), (a2, t2, chi2),
               "ofamp_pileup", tolc, epsa, empty=(0.0, 0.0, chiR))


@CHECK.sub("stationary", case(), quick=1500)
def stationary(c, x):
    t, p, (s,) = of_build(x)
    n, fs, w = x["n"], x["fs"], x["win"]
    for which in ("object", "function"):
        intn = x["intn"] and which == "object"
        r = Ref(s, t, p, fs, x["coupling"], intn)
        if not usable(r):
            return c.label("unusable")
        S = r.shifts()
        z = n // 2
        corr = np.real(S @ (r.w * S[z].conj())) / r.norm
        corr[z] = 0
        if np.max(np.abs(corr)) > 1 - 1e-5:
            return c.label("degenerate")
        wc = w["wc"] if which == "object" else 0
        allowed = allowed_bins(n, w["nconstrain"], w["outside"], wc)
        if which == "object":
            res = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=intn).ofamp_pileup_stationary(
                nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"], windowcenter=wc)
        else:
            res = ofamp_pileup_stationary(s, t, p, fs, coupling=x["coupling"],
                                          nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"])
        a1, a2, t2, chi2 = (c.num(v, which) for v in c.tup(res, 4))
        # joint least squares at every allowed bin
        b = np.real(S.conj() @ (r.w * r.V))
        single = b[z] / r.norm
        sol1 = (b[z] - corr * b) / (1 - corr**2) / r.norm
        sol2 = (b - corr * b[z]) / (1 - corr**2) / r.norm
        chi = np.array([np.sum(r.w * np.abs(r.V - u * S[z] - v * q)**2) for u, v, q in zip(sol1, sol2, S)])
        chi[z] = np.sum(r.w * np.abs(r.V - single * S[z])**2)
        cond = 1 / (1 - np.max(np.abs(corr)))
        tolc = (TOL * r.chi0 + floors(r)) * (1 + 1e-3 * cond)
        asc = np.max(np.abs(sol1)) + np.max(np.abs(sol2))
        epsa = (1e-8 * asc + 1e-7 * np.sqrt(floors(r) / r.norm)) * (1 + 1e-2 * cond)
        if len(allowed) == 0:
            c.label("empty")
            c.close(a1, single, 1, "amplitude with no allowed second bin", scale=epsa)
            c.close(a2, 0.0, 1, "second amplitude with no allowed bin", scale=0.0)
            c.close(chi2, chi[z], 1, "chi2 with no allowed second bin", scale=tolc)
            continue
        k = int(round(t2 * fs)) + z
        c.ok(abs(t2 * fs + z - k) < 1e-6 and k in allowed, f"{which}: second time {t2} (bin {k}) not allowed")
        c.ok(chi[k] <= np.min(chi[allowed]) + tolc, f"{which}: bin {k} chi2 {chi[k]} is not the allowed minimum "
             f"{np.min(chi[allowed])}")
        c.close(chi2, chi[k], 1, f"{which}: chi2 at bin {k}", scale=tolc)
        if k == z:
            c.label("coincident")
            c.close(a1 + a2, single, 1, f"{which}: total amplitude of coincident pulses", scale=epsa)
        else:
            c.close(a1, sol1[k], 1, f"{which}: first amplitude", scale=epsa)
            c.close(a2, sol2[k], 1, f"{which}: second amplitude", scale=epsa)
        c.nontrivial(len(allowed) < n or k != z)
