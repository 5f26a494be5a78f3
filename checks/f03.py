from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter

CHECK = Check("F03", "Cases are (trace, template, PSD, coupling, window, direction, added constant); non-trivial = a "
              "non-zero baseline is present or added, or the window/direction excludes bins.")


@st.composite
def case(draw, interp=False):
    x = draw(of_system(nmin=5))
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["intn"] = draw(st.sampled_from([False, False, True])) if x["tkind"] != "random" else False
    x["win"] = draw(st.one_of(st.just(dict(nconstrain=None, outside=False, wc=0)), window(x["n"])))
    x["dir"] = draw(st.sampled_from([0, 0, 1, -1]))
    x["interp"] = interp
    x["base"] = draw(st.one_of(signed(fl(0.0, 50.0)), signed(logfl(0.01, 1e3))))
    x["dcfac"] = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    return x


def setup(c, x):
    t, p, (s,) = of_build(x)
    p = p.copy()
    p[0] *= x["dcfac"]
    r = Ref(s, t, p, x["fs"], "DC", x["intn"])
    S = r.shifts()
    D = fft(np.ones(x["n"])) / x["fs"]
    w = r.w
    nd = np.sum(w * np.abs(D)**2)
    sd = np.real(S @ (w * D.conj()))
    ss = r.norm
    det = ss * nd - sd**2
    if not np.all(det > 1e-6 * ss * nd):
        c.label("degenerate")
        return None
    bs_ = np.real(S.conj() @ (w * r.V))
    bd = np.real(np.sum(w * D.conj() * r.V))
    a = (bs_ * nd - sd * bd) / det
    b = (ss * bd - sd * bs_) / det
    chi = np.sum(w * np.abs(r.V[None, :] - a[:, None] * S - b[:, None] * D)**2, axis=1)
    return t, p, s, r, S, D, a, b, chi


def run(of, x, **kw):
    w = x["win"]
    return of.ofamp_baseline(nconstrain=w["nconstrain"], lgcoutsidewindow=w["outside"],
                             pulse_direction_constraint=x["dir"], windowcenter=w["wc"],
                             interpolate_t0=x["interp"], **kw)


def joint(c, x):
    q = setup(c, x)
    if q is None:
        return
    t, p, s, r, S, D, a, b, chi = q
    n, fs, w = x["n"], x["fs"], r.w
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=x["intn"])
    res = run(of, x)
    tolc = TOL * r.chi0 + floors(r)
    order = np.argsort(chi)
    best = order[0]
    ties = [k for k in order if chi[k] <= chi[best] + tolc]
    bspread = np.ptp(b[ties])
    if len(ties) > 1 and bspread > 1e-9 * np.max(np.abs(b)):
        return c.label("tie")
    R = r.V - b[best] * D
    a2 = np.real(S.conj() @ (w * R)) / r.norm
    chi2 = np.sum(w * np.abs(R[None, :] - a2[:, None] * S)**2, axis=1)
    chiR = float(np.sum(w * np.abs(R)**2))
    # rounding grows with how much larger the baseline is than the rest
    cond = 1 / (1 - np.max(np.real(S @ (w * D.conj()))**2) / (r.norm * np.sum(w * np.abs(D)**2)))
    tolc *= 1 + 0.1 * cond
    epsa = 1e-8 * (np.max(np.abs(a2)) + 1e-300) + 1e-6 * np.sqrt(tolc / r.norm)
    win = x["win"]
    allowed = allowed_bins(n, win["nconstrain"], win["outside"], win["wc"])
    c.nontrivial(abs(b[best]) > 1e-3 * x["unit"])
    unconstrained = win["nconstrain"] is None and x["dir"] == 0
    judge_scan(c, n, fs, a2, chi2, allowed, res, "baseline", tolc, epsa, dirc=x["dir"], interp=x["interp"],
               empty=(0.0, 0.0, chiR))
    if unconstrained and not x["interp"]:
        c.label("unconstrained")
        c.close(c.num(res[0]), a[best], 1, "joint amplitude", scale=epsa * 10 + 1e-6 * abs(a[best]))
        c.close(c.num(res[2]), chi[best], 1, "joint chi2", scale=tolc)


@CHECK.sub("joint", case(), quick=2500)
def joint_grid(c, x):
    joint(c, x)


@CHECK.sub("joint_interp", case(interp=True), quick=1500)
def joint_interp(c, x):
    joint(c, x)


@CHECK.sub("blind", st.one_of(case(), case(interp=True)), quick=2500)
def blind(c, x):
    """adding a constant changes nothing"""
    q = setup(c, x)
    if q is None:
        return
    t, p, s, r, S, D, a, b, chi = q
    order = np.sort(chi)
    s2 = s + x["base"] * x["unit"]
    r2 = Ref(s2, t, p, x["fs"], "DC", x["intn"])
    tolc = 10 * (TOL * max(r.chi0, r2.chi0) + max(floors(r), floors(r2)))
    if len(order) > 1 and order[1] - order[0] <= tolc:
        return c.label("tie")
    one = run(OptimumFilter(s, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"]), x)
    two = run(OptimumFilter(s2, t, p, x["fs"], coupling=x["coupling"], integralnorm=x["intn"]), x)
    one = [c.num(v) for v in c.tup(one, 3)]
    two = [c.num(v) for v in c.tup(two, 3)]
    c.nontrivial(x["base"] != 0)
    c.label("interp" if x["interp"] else "grid")
    c.close(two[2], one[2], 1, "chi2 after adding a constant", scale=tolc)
    if abs(one[1] - two[1]) * x["fs"] > 1e-3:
        # a different bin can only win a tie
        k = [int(round(v[1] * x["fs"])) + x["n"] // 2 for v in (one, two)]
        c.ok(abs(one[2] - two[2]) <= tolc and x["dir"] != 0 or x["win"]["nconstrain"] is not None or x["interp"],
             f"time moved from bin {k[0]} to {k[1]} after adding a constant")
        c.label("moved")
        return
    sc = np.max(np.abs(a)) + 1e-300
    c.close(two[0], one[0], 1, "amplitude after adding a constant",
            scale=1e-5 * sc + 1e-3 * np.sqrt(tolc / r.norm))
