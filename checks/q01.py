from harness import *
from gens import *
import p01, figs, didv as dd, ivsys
from p01 import spec, pulse
import matplotlib.pyplot as plt

CHECK = Check("Q01", "Cases are calls of every public entry point (functions, constructors, methods, plots) in which each optional argument is left out, given its documented "
              "default or another value, by keyword or by position; every form must give the same numbers, figures, files or refusal as the call that spells out "
              "all arguments by keyword; non-trivial = the call succeeded and at least one option was left out.",
              ["The table of names, order and defaults in this file is taken from the documentation and the signatures of the pinned commit."])
qp, U, C, S = qetpy, qetpy.utils, qetpy.cut, qetpy.sim
from qetpy.cut import _cut
COUP = ["DC", "AC"]
TF = [True, False]


class E:
    """one entry point: what it is called with"""
    def __init__(self, fn, req, opts, need=(), named=False):
        self.fn, self.req, self.opts, self.need, self.named = fn, req, opts, need, named
        # need: options whose default the entry refuses, which are therefore always given; named: options by keyword only


def digest(s, d):
    """figures and files of a call"""
    out = []
    for f in s.figs:
        for ax in f.axes:
            out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(), ax.get_xlim(), ax.get_ylim(),
                        [list(q) for q in figs.curves(ax)], figs.segments(ax)])
            leg = ax.get_legend()
            out.append([t.get_text() for t in leg.get_texts()] if leg else [])
    files = sorted(os.path.relpath(os.path.join(r, q), d) for r, _, fs in os.walk(d) for q in fs)
    return [out, [os.path.relpath(p, os.path.realpath(d)) for _, p in s.saved], files]


def value(v):
    """comparable form of a result"""
    if isinstance(v, dict):
        return {k: value(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [value(w) for w in v]
    if isinstance(v, plt.Figure) or type(v).__module__.startswith(("matplotlib", "qetpy")):
        return "obj"
    if np.ma.isMaskedArray(v):
        return np.ma.filled(v, np.nan)
    return v


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object:
            return a.shape == b.shape and all(eq(p, q) for p, q in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")
    if isinstance(a, (float, np.floating, complex)) and isinstance(b, (float, np.floating, complex)):
        return a == b or (a != a and b != b)
    return a is b or bool(np.all(a == b))


def outcome(fn, args, kw):
    np.random.seed(5)
    with scratch() as d:
        try:
            with quiet(), figs.watch() as s:
                v = value(fn(*args, **kw))
                return [v, digest(s, d)], None
        except (Hang, Violation):
            raise
        except Exception as e:
            return None, e
        finally:
            if plt.get_fignums():
                plt.close("all")


def judge(c, x, e):
    rng = np.random.RandomState(x["seed"] + 1)
    full, how = {}, {}
    for name, default, *alts in e.opts:
        if name in e.need:
            m = 2
        else:
            m = [0, 0, 1, 2][rng.randint(4)] if alts else [0, 1][rng.randint(2)]
        how[name] = m
        full[name] = alts[rng.randint(len(alts))] if m == 2 else default
    out = [k for k, m in how.items() if m == 0]
    ref, err = outcome(e.fn, (), dict(e.req, **full))
    kw = {k: v for k, v in full.items() if k not in out}
    pos = tuple(v for _, v in e.req)
    k = 0 if e.named else int(rng.randint(0, len(e.opts) + 1))
    first = [n for n, *_ in e.opts][:k]
    forms = {f"without {', '.join(out) or 'nothing'}, required arguments by position": (pos, kw)}
    if x["which"]:
        forms = {f"without {', '.join(out) or 'nothing'}, required arguments by keyword": ((), dict(e.req, **kw)),
                 f"with {', '.join(first) or 'the required arguments'} by position": (pos + tuple(full[n] for n in first), {n: v for n, v in kw.items() if n not in first})}
    for what, (a, b) in forms.items():
        got, e2 = outcome(e.fn, a, b)
        w = f"{x['entry']} called {what}"
        if err is None and e2 is not None:
            raise Violation(f"{w}: {type(e2).__name__}: {e2}; with everything spelled out it works")
        if err is not None:
            if type(err) is not type(e2):
                raise Violation(f"{w}: {'accepted' if e2 is None else type(e2).__name__}; with everything spelled out: {type(err).__name__}: {err}")
            continue
        c.ok(eq(ref[0], got[0]), f"{w}: another result than with everything spelled out ({ {n: v for n, v in full.items()} })")
        c.ok(eq(ref[1], got[1]), f"{w}: other figures or files than with everything spelled out")
    c.nontrivial(err is None and bool(out))
    c.label(x["entry"])
    if err is not None:
        c.label("refused " + x["entry"])


# ------------------------------------------------------------------ optimum filters
def of_args(rng):
    n = int(rng.randint(24, 60))
    t = pulse(n, n // 2)
    y = 4 * np.roll(t, int(rng.randint(-6, 7))) - 3 * np.roll(t, int(rng.randint(-11, 12))) + rng.standard_normal(n)
    return y, t, spec(rng, n), 1e5


CON = [("nconstrain", None, 7, 3), ("lgcoutsidewindow", False, True), ("pulse_direction_constraint", 0, 1, -1), ("windowcenter", 0, 4, -5), ("interpolate_t0", False, True)]
CONT = [CON[0], ("lgcoutsidewindow", True, False)] + CON[2:]


def a_of(rng):
    y, t, p, fs = of_args(rng)
    def f(*a, **k):
        o = qp.OptimumFilter(*a, **k)
        return o.ofamp_withdelay(), o.ofamp_nodelay(), o.ofamp_baseline(), o.energy_resolution(), o.chi2_nopulse()
    return E(f, [("signal", y), ("template", t), ("psd", p), ("fs", fs)], [("coupling", "AC", "DC"), ("integralnorm", False, True)])


def a_of_methods(rng):
    y, t, p, fs = of_args(rng)
    cp = COUP[rng.randint(2)]
    name, req, opts = [("chi2_lowfreq", [("amp", 2.0), ("t0", 2e-5)], [("fcutoff", 10000, 3000.0, 2e4)]), ("ofamp_nodelay", [], [("windowcenter", 0, 3, -3)]),
                       ("ofamp_withdelay", [], CON), ("ofamp_withdelay", [], CON), ("ofamp_baseline", [], CON), ("ofamp_baseline", [], CON),
                       ("ofamp_pileup_iterative", [("a1", 3.0), ("t1", 3e-5)], CONT), ("ofamp_pileup_iterative", [("a1", 3.0), ("t1", 3e-5)], CONT),
                       ("ofamp_pileup_stationary", [], [CONT[0], CONT[1], CONT[3]]), ("ofamp_pileup_stationary", [], [CONT[0], CONT[1], CONT[3]])][rng.randint(10)]
    return E(lambda *a, **k: getattr(qp.OptimumFilter(y, t, p, fs, coupling=cp), name)(*a, **k), req, opts)


def a_ofamp(rng):
    y, t, p, fs = of_args(rng)
    req = [("signal", y), ("template", t), ("inputpsd", p), ("fs", fs)]
    k = rng.randint(3)
    if k == 0:
        return E(qp.ofamp, req, [("withdelay", True, False), ("coupling", "AC", "DC"), ("lgcsigma", False, True), ("nconstrain", None, 5), ("lgcoutsidewindow", False, True), ("integralnorm", False, True)])
    if k == 1:
        return E(qp.ofamp_pileup, req, [("a1", None, 3.0), ("t1", None, 3e-5), ("coupling", "AC", "DC"), ("nconstrain1", None, 7), ("nconstrain2", None, 7), ("lgcoutsidewindow", True, False)])
    return E(qp.ofamp_pileup_stationary, req, [("coupling", "AC", "DC"), ("nconstrain", None, 7), ("lgcoutsidewindow", True, False)])


def a_chi(rng):
    y, t, p, fs = of_args(rng)
    if rng.randint(2):
        return E(qp.chi2lowfreq, [("signal", y), ("template", t), ("amp", 2.0), ("t0", 1e-5), ("inputpsd", p), ("fs", fs)], [("fcutoff", 10000, 3000, 3e4), ("coupling", "AC", "DC")])
    return E(qp.chi2_nopulse, [("signal", y), ("inputpsd", p), ("fs", fs)], [("coupling", "AC", "DC")])


# ------------------------------------------------------------------ pulse fits
def a_nonlin(rng):
    n, fs = 200, 625e3
    psd = spec(rng, n)
    m = qp.OFnonlin(psd, fs).twopoletime(10.0, 20e-6, 80e-6, 100e-6)
    y = m + 0.1 * rng.standard_normal(n)
    t = m / m.max()
    if rng.randint(4) == 0:
        return E(lambda *a, **k: qp.OFnonlin(*a, **k).fit_falltimes(y, npolefit=2, lgcfullrtn=True), [("psd", psd), ("fs", fs)], [("template", None, t)])
    g2 = (9.0, 18e-6, 85e-6, 101e-6)
    two = rng.randint(2)
    opts = [("npolefit", 1, 2), ("errscale", 1, 2.0), ("guess", None, g2 if two else (9.0, 85e-6, 101e-6)), ("bounds", None), ("taurise", None, 20e-6),
            ("scale_amplitude", True, False), ("lgcfullrtn", False, True), ("lgcplot", False, True)]
    if two:
        need = ("npolefit",)
    else:
        opts[0] = ("npolefit", 1)
        need = ("taurise",)
    return E(lambda *a, **k: qp.OFnonlin(psd, fs, template=t).fit_falltimes(*a, **k), [("pulse", y)], opts, need=need)


def a_muontail(rng):
    n, fs = 150, 1e3
    psd, y = spec(rng, n), 20 * np.exp(-np.arange(n) / 1e3 / 0.03) + 0.1 * rng.standard_normal(n)
    return E(lambda *a, **k: qp.MuonTailFit(psd, fs).fitmuontail(*a, **k), [("signal", y)], [("lgcfullrtn", False, True), ("errscale", 1, 2.0)])


def a_nsmb(rng):
    n = int(rng.randint(20, 40))
    nb = 2
    fs = 625e3                              # (the plots filter at 30 kHz)
    s = pulse(n, n // 2)
    bt = np.column_stack([np.ones(n), np.roll(s, 5)])
    y = rng.standard_normal(n) + 4 * np.roll(s, 2) - 2 * bt[:, 1]
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns, nb, bitcomb, lf = qp.of_nsmb_setup(s, bt, spec(rng, n), fs)
    win = [np.arange(-4, 5)[None, :]]
    lfi = ("lfindex", 500, 3, 5)
    sh = ("background_templates_shifts", None)
    plots = [("lgcplot", False, True), ("lgcsaveplots", False)]
    pols = [("bkgpolarityconstraint", None, np.array([1.0, 0.0]), np.array([0.0, -1.0])), ("sigpolarityconstraint", None, np.array([1.0]), np.array([-1.0]))]
    k = rng.randint(5)
    head = [("pulset", y), ("phi", phi)]
    tail = [("psddnu", psddnu.T), ("fs", fs)]
    if k == 0:
        return E(qp.of_nsmb, head + [("sbtemplatef", sbf.T), ("sbtemplate", sbt), ("iPt", qp.of_nsmb_getiP(P))] + tail + [("indwindow_nsmb", win), ("ns", ns), ("nb", nb), ("bitcomb", bitcomb)], [lfi, sh] + plots)
    if k == 1:
        return E(qp.of_nsmb_con, head + [("Pfs", Pfs), ("P", P), ("sbtemplatef", sbf.T), ("sbtemplate", sbt)] + tail + [("indwindow_nsmb", win), ("ns", ns), ("nb", nb), ("bitcomb", bitcomb)], [lfi, sh] + pols + plots)
    if k == 2:
        return E(qp.of_mb, head + [("sbtemplatef", sbf.T), ("sbtemplate", sbt), ("iB", iB), ("B", B)] + tail + [("ns", ns), ("nb", nb)], [lfi, sh, pols[0], ("sigpolarityconstraint", None)] + plots)
    if k == 3:
        return E(qp.of_nsmb_getPt, [("Pfs", Pfs), ("P", P)], [("combind", 2**20), ("bindelay", 0, 3), ("bitcomb", None), ("bitmask", None, np.array([1, 0, 1]), np.array([0, 1, 1]))], need=("bitmask",))
    return E(qp.maketemplate_ttlfit_nsmb, [("template", s), ("fs", 1e3), ("ttlrate", 200.0)],
             [("lgcconstrainpolarity", False, True), ("lgcpositivepolarity", True, False), ("notch_window_size", 0, 1)])


# ------------------------------------------------------------------ IV, IbIs
def a_iv(rng):
    ib, it, err, rsh = p01.iv_data(rng)
    ve = np.full(it.shape, 1e-10)
    if rng.randint(2):
        def f(*a, **k):
            o = qp.IV(*a, **k)
            o.calc_iv()
            return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rnorm, o.rnorm_err, o.ioff, list(o.chan_names)]
        return E(f, [("dites", it), ("dites_err", err), ("vb", ib * rsh), ("vb_err", ve), ("rload", 9e-3), ("rload_err", 1e-4), ("chan_names", ["a", "b"])], [("normalinds", None, range(0, 4), range(1, 4))])
    def g(*a, **k):
        o = qp.IBIS(*a, **k)
        o.analyze()
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rnorm, o.rnorm_err, o.rp, o.rp_err]
    sc = rng.randint(2)
    opts = [("rp_guess", 5e-3, 4e-3), ("rp_err_guess", 0, 1e-4), ("chan_names", "", ["a", "b"]), ("fitsc", False, True), ("scinds", None, range(8, 12))]
    if not sc:
        opts[3:] = [("fitsc", False), ("scinds", None)]
    return E(g, [("dites", it), ("dites_err", err), ("ibias", ib), ("ibias_err", ve), ("rsh", rsh), ("rsh_err", 1e-4), ("normalinds", range(0, 4))], opts,
             need=("chan_names", "fitsc", "scinds") if sc else ("chan_names",))


def a_ibis_analyze(rng):
    ib, it, err, rsh = p01.iv_data(rng)
    ve = np.full(it.shape, 1e-10)
    sh = it.shape[:2] + (1,)
    def g(*a, **k):
        o = qp.IBIS(it, err, ib, ve, rsh, 1e-4, range(0, 4), rp_guess=4e-3, rp_err_guess=1e-4, chan_names=["a", "b"])
        o.analyze(*a, **k)
        return [o.r0, o.r0_err, o.ptes, o.ptes_err, o.rnorm, o.rnorm_err, o.rp, o.rp_err]
    opts = [("yoff", None, np.full(sh, 1e-6)), ("yoff_err", None, np.full(sh, 1e-8)), ("xoff", None, np.full(sh, 1e-6)), ("xoff_err", None, np.full(sh, 1e-8))]
    k = rng.randint(4)
    need = [(), ("yoff", "yoff_err"), ("xoff", "xoff_err"), ("yoff", "yoff_err", "xoff", "xoff_err")][k]
    return E(g, [], [o if o[0] in need else o[:2] for o in opts], need=need)


def a_ivplots(rng):
    ib, it, err, rsh = p01.iv_data(rng)
    ve = np.full(it.shape, 1e-10)
    name = ["plot_iv", "plot_rv", "plot_pv", "plot_all_curves"][rng.randint(4)]
    which = rng.randint(3)
    def obj():
        if which == 1:
            o = qp.IBIS(it, err, ib, ve, rsh, 1e-4, range(0, 4), rp_guess=4e-3, chan_names=["a", "b"])
            o.analyze()
        else:
            o = qp.IV(it, err, ib * rsh, ve, 9e-3, 1e-4, ["a", "b"], normalinds=range(0, 4))
            o.calc_iv()
        return o
    sel = lambda: ("all", 0, 1, [1, 0], [1])
    opts = [("temps",) + sel(), ("chans",) + sel()] + ([("showfit", True, False)] if name in ("plot_iv", "plot_all_curves") else []) + \
        [("lgcsave", False, True), ("savepath", ""), ("savename", "", "x")]
    if which == 2:
        return E(getattr(qp.plotting, name), [("IVobject", obj())], opts)
    return E(lambda *a, **k: getattr(obj(), name)(*a, **k), [], opts)


# ------------------------------------------------------------------ noise
def a_psd(rng):
    n = int(rng.randint(10, 40))
    if rng.randint(2):
        return E(qp.calc_psd, [("x", rng.standard_normal((3, n)))], [("fs", 1.0, 10.0, 625e3), ("folded_over", True, False)])
    return E(qp.gen_noise, [("psd", spec(rng, n))], [("fs", 1.0, 10.0), ("ntraces", 1, 3)])


def noise_obj(rng, calc=True, **k):
    n = int(rng.randint(20, 40))
    t = rng.standard_normal((8, 3, n)) + 0.5 * rng.standard_normal((8, 1, n))
    o = qp.Noise(t, 10.0, ["a", "b", "c"], name="nm", **k)
    if calc:
        o.calculate_psd(); o.calculate_corrcoeff(); o.calculate_csd(); o.calculate_uncorr_noise()
    return o


def a_noise(rng):
    n = int(rng.randint(20, 40))
    t = rng.standard_normal((6, 2, n)) + 0.05 * np.arange(n)
    def f(*a, **k):
        o = qp.Noise(*a, **k)
        o.remove_trace_slope(); o.calculate_psd(); o.calculate_csd()
        return [o.psd, o.csd, o.time, o.name, o.tracegain, o.freqs]
    return E(f, [("traces", t), ("fs", 10.0), ("channames", ["a", "b"])], [("tracegain", 1.0, 2.0, 1e6), ("name", None, "q"), ("time", None, np.arange(n) / 10.0 + 5)])


def a_noiseplots(rng):
    o = noise_obj(rng)
    sv = [("lgcsave", False, True), ("savepath", None, "")]
    name, opts = [("plot_psd", [("lgcoverlay", True, False)]), ("plot_reim_psd", []), ("plot_corrcoeff", [("lgcsmooth", True, False), ("nwindow", 7, 5, 3)]),
                  ("plot_csd", [("whichcsd", ["01"], ["02"], ["01", "12"]), ("lgcreal", True, False)]),
                  ("plot_csd", [("whichcsd", ["01"], ["02"], ["01", "12"]), ("lgcreal", True, False)]),
                  ("plot_decorrelatednoise", [("lgcoverlay", False, True), ("lgcdata", True, False), ("lgcuncorrnoise", True, False), ("lgccorrelated", False, True), ("lgcsum", False, True)]),
                  ("compare", [("lgcdecorrelatednoise", False, True)])][rng.randint(7)]
    need = ()
    if rng.randint(3) == 0:
        need = ("lgcsave", "savepath")
        sv = [("lgcsave", False, True), ("savepath", None, "")]
    else:
        sv = [("lgcsave", False), ("savepath", None)]
    if name == "compare":
        return E(qp.plotting.compare_noise, [("arr", [o, noise_obj(rng)]), ("channels", ["a", "b"])], opts + sv, need=need)
    if rng.randint(2):
        return E(getattr(qp.plotting, name), [("noise", o)], opts + sv, need=need)
    return E(lambda *a, **k: getattr(o, name)(*a, **k), [], opts + sv, need=need)


# ------------------------------------------------------------------ cuts
def cut_traces(rng):
    n, m = 40, 200
    t = rng.standard_normal((n, m))
    t[0] += np.linspace(0, 30, m)
    t[1] += 20 * pulse(m, 80)
    t[2] += 5
    return t * [1, -1][rng.randint(2)]


AL = [("outlieralgo", "removeoutliers", "iterstat")]
NS = ("nsig", 2, 1.5, 3)


def a_cuts(rng):
    # long enough that the default rates describe them
    m = [200, 12500][rng.randint(4) == 0]
    t = cut_traces(rng)
    if m != 200:
        t = np.repeat(t[:12], m // 200 + 1, axis=1)[:, :m] + 0.1 * rng.standard_normal((12, m))
    did = [("is_didv", False, True)]
    fs = ("fs", 625e3, 1e3, 2e4)
    sg = ("sgfreq", 100.0, 20.0, 250.0)
    al = ("outlieralgo", "removeoutliers", "iterstat")
    k = rng.randint(5)
    if k == 0:
        return E(_cut.pileupcut, [("traces", t)], [fs, al, NS, ("removemeans", False, True)])
    if k == 1:
        return E(_cut.slopecut, [("traces", t)], [fs, al, NS, did[0], ("symmetrizeflag", False, True), sg])
    if k == 2:
        return E(_cut.baselinecut, [("traces", t)], [fs, al, NS, did[0], sg])
    if k == 3:
        return E(_cut.chi2cut, [("traces", t)], [fs, ("outlieralgo", "iterstat", "removeoutliers"), NS])
    lg = [(f"lgc{q}", True, False) for q in ("pileup1", "slope", "baseline", "pileup2", "chi2")]
    ns = [(f"nsig{q}", 2, 1.5, 3) for q in ("pileup1", "slope", "baseline", "pileup2")] + [("nsigchi2", 3, 2)]
    return E(C.autocuts, [("traces", t)], [fs, did[0], ("sgfreq", 200.0, 20.0, 250.0), ("symmetrizeflag", False, True), al] + lg + ns)


def a_outliers(rng):
    x = rng.standard_normal(60) + (rng.rand(60) < .2) * rng.exponential(6, 60)
    k = rng.randint(4)
    if k == 0:
        return E(C.removeoutliers, [("x", x)], [("maxiter", 20, 3, 1), ("skewtarget", 0.05, 0.5, 0.01)])
    if k == 1:
        return E(C.iterstat, [("data", x)], [("cut", 3, 2, 1.5), ("precision", 1000.0, 5.0), ("return_unbiased_estimates", False, True)])
    if k == 2:
        y = x + rng.standard_normal(60)
        return E(lambda **kw: C.itercov(x, y, **kw), [], [("nsigma", 2.75, 2.0, 1.5), ("threshold", None, 1.5, 4.0), ("maxiter", 15, 2), ("frac_err", 1e-3, 0.5)], named=True)
    n = 800
    p = np.clip(np.exp(-(np.arange(n) - 100) / [600., 100.0, 300.][rng.randint(3)]) * [2.0, 1.02, 30][rng.randint(3)] * (np.arange(n) >= 100), 0, 1)
    tr = np.vstack([p * q for q in (1, 2, 3)] + [0.1 * rng.standard_normal(n)])
    return E(C.get_muon_cut, [("traces", tr)], [("thresh_pct", 0.95, 0.5, 0.999), ("nsatbins", 600, 50, 200)])


# ------------------------------------------------------------------ dI/dV
def didv_traces(rng, dt=1e-5):
    fs, sg, P = 625e3, 500.0, 1250
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1, beta=0.5, l=float(rng.choice([0.5, 8.0])), L=1e-7, tau0=2e-4)
    per = dd.response(None, P, P, 1e-6, p["rsh"], lambda f: 1 / dd.imp(p, 2, f), sg, 0.5)
    tr = np.tile(per, (8, 2)) + 0.01 * np.std(per) * rng.standard_normal((8, 2 * P))
    return tr, fs, sg, p


CTOR = [("tracegain", 1.0, 2.0, 1e3), ("r0", 0.3, 0.1), ("rp", 5e-3, 6e-3), ("dutycycle", 0.5, 0.4), ("add180phase", False, True), ("dt0", 1e-5, 0.0, 3e-5), ("autoresample", False, True)]


def res(o, k):
    r = o.fitresult(k)
    return [r["params"], r["cov"], r["cost"], r["falltimes"], r["smallsignalparams"] if "smallsignalparams" in r else 0]


def a_didv(rng):
    tr, fs, sg, p = didv_traces(rng)
    raw = [("rawtraces", tr), ("fs", fs), ("sgfreq", sg), ("sgamp", 1e-6), ("rsh", 5e-3)]
    pr = np.array([5e-3, 6e-3, 0.1, 0, 0, 0, 0, 0.0])
    cov = np.diag((0.1 * pr)**2)
    k = rng.randint(5)
    def proc(o):
        o.processtraces()
        return [o._time, o._traces, o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err, o._freq, o._flatinds]
    def full(*a, **kw):
        o = qp.DIDV(*a, **kw)
        out = proc(o)
        o.dofit(1 if rng0 else 2)
        return out + res(o, 1 if rng0 else 2)
    rng0 = rng.randint(2)
    if k == 0:
        return E(full, raw, CTOR)
    if k == 1:
        def pri(*a, **kw):
            o = qp.DIDVPriors(*a, **kw)
            out = proc(o)
            o.dofit(2, pr, cov)
            return out + res(o, 2)
        return E(pri, raw, [q for q in CTOR if q[0] not in ("r0", "rp")])
    half = bool(rng.randint(2))
    if k == 2:
        def fit(*a, **kw):
            o = qp.DIDV(tr, fs, sg, 1e-6, 5e-3, r0=0.1, rp=6e-3, add180phase=half)
            o.dofit(*a, **kw)
            return res(o, 2)
        return E(fit, [("poles", 2)], [("fcutoff", np.inf, 2e4, 1e5)])
    if k == 3:
        def fit(*a, **kw):
            o = qp.DIDVPriors(tr, fs, sg, 1e-6, 5e-3, add180phase=half)
            o.dofit(*a, **kw)
            return res(o, 2)
        return E(fit, [("poles", 2), ("priors", pr), ("priorscov", cov)], [("fcutoff", np.inf, 2e4, 1e5)])
    o = qp.DIDV(tr, fs, sg, 1e-6, 5e-3)
    o.processtraces()
    def ini(*a, **kw):
        q = qp.didvinitfromdata(*a, **kw)
        q.dofit(2)
        return res(q, 2) + [q._r0, q._rp]
    return E(ini, [("tmean", o._tmean), ("didvmean", o._didvmean), ("didvstd", o._didvstd), ("offset", 1e-7), ("offset_err", 1e-9), ("fs", fs), ("sgfreq", sg), ("sgamp", 1e-6), ("rsh", 5e-3)],
             [("r0", 0.3, 0.1), ("rp", 5e-3, 6e-3), ("add180phase", False, True), ("dt0", 1e-5, 0.0, 3e-5)])


_FIT = {}


def fitted(pri, l):
    """(drawing does not change the object: see G01)"""
    if (pri, l) not in _FIT:
        rng = np.random.RandomState(l)
        tr, fs, sg, p = didv_traces(rng)
        with quiet():
            if pri:
                pr = np.array([5e-3, 6e-3, 0.1, 0, 0, 0, 0, 0.0])
                o = qp.DIDVPriors(tr, fs, sg, 1e-6, 5e-3)
                o.dofit(2, pr, np.diag((0.1 * pr)**2))
            else:
                o = qp.DIDV(tr, fs, sg, 1e-6, 5e-3, r0=0.1, rp=6e-3)
                o.dofit(1)
                o.dofit(2)
        _FIT[pri, l] = o
    return _FIT[pri, l]


def a_didvplots(rng):
    o = fitted(int(rng.randint(2)), int(rng.randint(3)))
    names = ["full_trace", "single_period_of_trace", "zoomed_in_trace", "didv_flipped", "re_im_didv", "abs_phase_didv", "re_vs_im_dvdi"]
    k = names[rng.randint(len(names))]
    opts = [("poles", "all", 2, [2])] + ([("zoomfactor", 0.1, 0.3)] if k == "zoomed_in_trace" else []) + [("saveplot", False, True), ("savepath", ""), ("savename", "", "x")]
    return E(lambda *a, **kw: getattr(o, "plot_" + k)(*a, **kw), [], opts)


def a_didvmodel(rng):
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1, beta=0.5, l=8.0, L=1e-7, tau0=2e-4)
    if rng.randint(2):
        from qetpy.core.didv import squarewaveresponse
        t = np.arange(300) / 1e5
        return E(lambda *a, **k: squarewaveresponse(*a, **k, **p), [("t", t), ("sgamp", 1e-6), ("sgfreq", 1e3)], [("dutycycle", 0.5, 0.3, 0.8)])
    from qetpy.core.didv import stdcomplex
    return E(stdcomplex, [("x", rng.standard_normal((4, 4)) + 1j * rng.standard_normal((4, 4)))], [("axis", 0, 1)])


# ------------------------------------------------------------------ simulation
def a_sim(rng):
    f = np.sort(rng.uniform(1, 1e5, 8))
    o0 = S.TESnoise(freqs=f)
    if rng.randint(3) == 0:
        name = [k for k in ("dIdV", "dIdP", "s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn", "s_itfn", "s_isquid", "s_psquid", "s_itot", "s_ptot", "dIdVnormal",
                            "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal", "dIdVsc", "s_iloadsc", "s_itotsc")][rng.randint(22)]
        def m(*a, **k):
            if not a and k.get("freqs", 0) is None:
                k = dict(k, freqs=f)          # documented: the frequencies of the object
            return getattr(o0, name)(*a, **k)
        return E(m, [], [("freqs", None, f[:3] * 1.5)])
    def t(*a, **k):
        o = S.TESnoise(*a, **k)
        return [getattr(o, q)(f) for q in ("dIdV", "dIdP", "s_iload", "s_ites", "s_itfn", "s_isquid", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc")]
    D = dict(rload=.012, r0=.15, rshunt=.005, beta=1.0, loopgain=10.0, inductance=4e-7, tau0=5e-4, G=5e-10, qetbias=160e-6, tc=.04, tload=.9, tbath=.02, n=5.0)
    return E(t, [], [("freqs", None, f)] + [(k, v, v * 1.5) for k, v in D.items()] + [("lgcb", True, False), ("squiddc", 2.5e-12, 4e-12), ("squidpole", 0.0, 100.0), ("squidn", 1.0, 0.5)])


def a_simload(rng):
    o = fitted(int(rng.randint(2)), int(rng.randint(3)))
    f = np.sort(rng.uniform(1, 1e5, 8))
    def t(*a, **k):
        q = S.loadfromdidv(*a, **k)
        return [getattr(q, m)(f) for m in ("dIdV", "dIdP", "s_iload", "s_ites", "s_itfn", "s_isquid", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc")]
    D = dict(G=5e-10, qetbias=160e-6, tc=.04, tload=.9, tbath=.02)
    return E(t, [("DIDVobj", o)], [(k, v, v * 1.5) for k, v in D.items()] + [("squiddc", 2.5e-12, 4e-12), ("squidpole", 0.0, 100.0), ("squidn", 1.0, 0.5), ("rnormal", None, 0.3), ("noisetype", "transition")])


def a_simplot(rng):
    f = np.sort(rng.uniform(1, 1e5, 20))
    o = S.TESnoise(freqs=f)
    ty = ["current", "power"][rng.randint(2)]
    return E(qp.plotting.plot_noise_sim, [("f", f), ("psd", o.s_itot(f) * 1.1), ("noise_sim", o), ("istype", ty), ("qetbias", 1e-4)],
             [("lgcsave", False, True), ("figsavepath", ""), ("xlims", None, (10.0, 1e4)), ("ylims", None, (1e-13, 1e-9))])


# ------------------------------------------------------------------ helpers
def a_utils(rng):
    n = int(rng.randint(30, 60))
    x = rng.standard_normal(n)
    t = np.arange(n) / 1e3
    tr = rng.standard_normal((4, n))
    k = rng.randint(12)
    if k == 0:
        return E(U.shift, [("arr", x), ("num", float(rng.choice([3.0, -2.0, 1.5])))], [("fill_value", 0, 7.0)])
    if k == 1:
        return E(U.make_template, [("t", t), ("tau_r", 1e-3), ("tau_f", 1e-2)], [("offset", 0, 3, -4)])
    if k == 2:
        return E(U.make_decreasing, [("y", 5 - .05 * np.arange(n) + x)], [("x", None, np.cumsum(rng.uniform(.1, 1, n)))])
    if k == 3:
        return E(U.calc_offset, [("x", rng.standard_normal((4, 470)) + np.linspace(0, 3, 470))], [("fs", 1.0, 1e4), ("sgfreq", 100.0, 250.0), ("is_didv", False, True)])
    if k == 4:
        return E(U.slope, [("x", t + 1), ("y", x + 1)], [("removemeans", True, False)])
    if k == 5:
        return E(U.lowpassfilter, [("traces", tr)], [("cut_off_freq", 100000, 5e4), ("fs", 625e3, 4e5), ("order", 1, 2, 3)])
    if k == 6:
        m = [600, 9000][rng.randint(2)]
        b = pulse(m, 150, 20.0, 60.0) + np.linspace(0, 0.5, m)
        y = np.array([np.roll(b, int(q)) for q in rng.randint(-20, 20, 3)]) + 0.01 * rng.standard_normal((3, m))
        if m == 9000:
            y[1:, 5000:] = y[1:, 8999:4999:-1]
        return E(U.align_traces, [("traces", y)], [("lgcjustshifts", False, True), ("n_cut", 5000, 400), ("cut_off_freq", 5000.0, 5e4), ("fs", 625e3, 2e5)])
    if k == 7:
        m = [400, 7000][rng.randint(2)]
        i = 2e-6 - np.clip(4e-6 * pulse(m, m - 300, 3.0, 60.0), 0, 1.8e-6) + 1e-8 * rng.standard_normal(m) + np.linspace(0, 1e-7, m)
        return E(U.get_offset_from_muon, [("avemuon", -i), ("qetbias", 1e-4), ("rn", .2), ("rload", 1e-2)], [("rsh", 5e-3, 6e-3), ("nbaseline", 6000, 100), ("lgcfullrtn", True, False)])
    if k == 8:
        opts = [("fs", None, 1e3), ("baseline", None, rng.uniform(0, 1e-6, (4, 1))), ("time", None, t * 1.5), ("indbasepre", None, 9), ("indbasepost", None, 20)]
        need = [["fs"], ["time"]][rng.randint(2)] + [["baseline"], ["indbasepre"]][rng.randint(2)]
        return E(U.energy_absorbed, [("trace", tr * 1e-6), ("ioffset", 1e-7), ("qetbias", 1e-4), ("rload", 1e-2), ("rsh", 5e-3)], opts, need=need)
    if k == 9:
        return E(U.estimate_g, [("p0", 1e-12), ("tc", .05), ("tbath", .02)], [("p0_err", 0, 1e-14), ("cov", None, np.diag([1e-26, 1e-8, 1e-8])), ("n", 5, 4, 3)])
    if k == 10:
        return E(U.powertrace_simple, [("trace", tr * 1e-6), ("ioffset", 1e-7), ("qetbias", 1e-4), ("rload", 1e-2), ("rsh", 5e-3)], [])
    return E(U.resample_data, [("x", np.tile(x, 20)), ("fs", 625), ("sgfreq", 100)], [])


ENT = {k[2:]: v for k, v in list(globals().items()) if k.startswith("a_")}


def case(names, **k):
    return st.fixed_dictionaries(dict(entry=st.sampled_from(names), seed=SEED, which=st.booleans()))


PLOT = ["ivplots", "noiseplots", "didvplots", "simplot"]
SLOW = ["didv", "nonlin"]
FAST = sorted(set(ENT) - set(PLOT) - set(SLOW))


@CHECK.sub("calls", case(FAST + ["utils"] * 4 + ["of_methods"] * 3 + ["cuts"] * 3 + ["ofamp", "nsmb", "sim", "simload", "outliers"] * 2), quick=3500)
def calls(c, x):
    judge(c, x, ENT[x["entry"]](np.random.RandomState(x["seed"])))


@CHECK.sub("fits", case(["didv", "didv", "nonlin"]), quick=220)
def fits(c, x):
    judge(c, x, ENT[x["entry"]](np.random.RandomState(x["seed"])))


@CHECK.sub("plots", case(PLOT), quick=400)
def plots(c, x):
    judge(c, x, ENT[x["entry"]](np.random.RandomState(x["seed"])))


if __name__ == "__main__":
    CHECK.main()
