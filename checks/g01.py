from harness import *
from gens import *
import figs
from figs import has, lacks, curves, segments, watch, state, unchanged, same
from ivsys import circuit, build as ivbuild
import didv as dv
import i01, i02, m01, f08, d04, nsmb
import qetpy as qp
import qetpy.plotting as qpl
import re

CHECK = Check("G01", "Cases are objects holding generated data (noise spectra of 1-4 channels, IV and IbIs sweeps, simulated noise, dI/dV fits, pulse fits), "
              "a plotting call with generated options, and whether it is saved; non-trivial = a subset of the channels, poles or temperatures, "
              "a saved figure, or an optional component.",
              ["matplotlib draws the data of the artists it is given (the artists are inspected, the pixels are not)"])

NAMES = st.sampled_from(["n", "my noise", "a b c", "T 40.5 mK"])


def one(c, s, what, n=1):
    c.ok(len(s.figs) == n, f"{what}: {len(s.figs)} figures, expected {n}")
    return s.figs[0].axes[0] if n else None


def saved(c, s, d, names, save, what):
    """exactly the named files are written, each by the figure that was drawn"""
    got = sorted(os.listdir(d))
    want = sorted(names) if save else []
    c.ok(got == want, f"{what}: files {got}, expected {want}")
    for n in want:
        c.ok(os.path.getsize(os.path.join(d, n)) > 100, f"{what}: {n} is not an image")
        c.ok(len(s.at(os.path.join(d, n))) == 1, f"{what}: {n} is not one of the figures")


def saving(x, key, **kw):
    """nothing is saved unless it is asked for: half of the calls without saving leave the option out"""
    if x["save"] or x["seed"] % 2:
        kw[key] = x["save"]
    return kw


@st.composite
def noise_case(draw):
    return dict(nch=draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])), nt=draw(st.integers(4, 9)), n=draw(st.integers(12, 40)), fs=draw(FS), seed=draw(SEED),
                unit=draw(st.sampled_from([1.0, 1e-9])), name=draw(NAMES), save=draw(st.booleans()), over=draw(st.booleans()),
                smooth=draw(st.booleans()), nwin=draw(st.sampled_from([5, 7, 9])), real=draw(st.booleans()),
                which=draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=2)),
                flags=[draw(st.booleans()) for _ in range(4)], kind=draw(st.sampled_from(["psd", "reim", "corr", "csd", "decorr", "decorr"])), bad=draw(st.sampled_from([False] * 5 + [True])),
                via=draw(st.sampled_from(["method", "method", "function"])))


def noise_obj(x, name=None, names=None, seed=0, calc=True):
    r = np.random.RandomState((x["seed"] + seed) % 2**31)
    t = np.cumsum(r.standard_normal((x["nt"], x["nch"], x["n"])), axis=-1) * x["unit"]
    t += r.standard_normal((x["nt"], 1, x["n"])) * x["unit"]
    o = qp.Noise(t, x["fs"], names or [f"P{chr(65 + j)}S1" for j in range(x["nch"])], name=name or x["name"])
    if calc:
        o.calculate_psd()
        if x["nch"] > 1:
            o.calculate_corrcoeff()
            o.calculate_csd()
            # (stand-ins for the result of the decorrelation, which S03 covers)
            o.uncorrnoise = o.psd * r.uniform(0.1, 0.9, o.psd.shape)
            o.corrnoise = o.psd - o.uncorrnoise
    return o


def panel(s, title):
    a = [ax for f in s.figs for ax in f.axes if ax.get_title() == title]
    return a


@CHECK.sub("noise", noise_case(), quick=220)
def noise(c, x):
    kind = x["kind"]
    if x["nch"] == 1 and kind not in ("psd", "reim"):
        kind = "psd"
    o = noise_obj(x)
    ch = o.channames
    f = np.array(o.freqs)[1:]
    sq = lambda a: np.sqrt(np.asarray(a))[..., 1:]
    c.nontrivial(x["save"] or x["nch"] > 1)
    c.label(kind)
    before = state(o)
    fn = lambda m: (lambda *a, **k: getattr(qpl, m)(o, *a, **k)) if x["via"] == "function" else getattr(o, m)
    base = x["name"].replace(" ", "_")
    with scratch() as d, watch() as s:
        kw = saving(x, "lgcsave", savepath=d + ("/missing/" if x.get("bad") else "/"))
        if kind == "psd":
            fn("plot_psd")(lgcoverlay=x["over"], **kw)
            files = [base + ("_PSD_overlay.png" if x["over"] else "_PSD_subplot.png")]
        elif kind == "reim":
            fn("plot_reim_psd")(**kw)
            files = [base + "_ReIm_PSD.png"]
        elif kind == "corr":
            fn("plot_corrcoeff")(lgcsmooth=x["smooth"], nwindow=x["nwin"], **kw)
            files = [base + "_corrcoeff.png"]
        elif kind == "csd":
            which = [(a % x["nch"], b % x["nch"]) for a, b in x["which"]]
            fn("plot_csd")(whichcsd=[f"{a}{b}" for a, b in which], lgcreal=x["real"], **kw)
            files = [base + f"_csd{i}.png" for i in range(len(which))]
        else:
            a, b, g, h = x["flags"]
            if not (a or b or g or h):
                a = True
            fn("plot_decorrelatednoise")(lgcoverlay=x["over"], lgcdata=a, lgcuncorrnoise=b, lgccorrelated=g, lgcsum=h, **kw)
            files = [base + ("_deCorrNoise_overlay.png" if x["over"] else "_deCorrNoise_subplot.png")]
        saved(c, s, d, files, x["save"] and not x.get("bad"), kind)
    unchanged(c, o, before, kind)
    if kind == "csd":
        one(c, s, kind, len(which))
        for fig, (a, b) in zip(s.figs, which):
            ax = fig.axes[0]
            c.ok(f"{ch[a]}-{ch[b]}" in ax.get_title() and ("Re" if x["real"] else "Im") in ax.get_title(), f"title {ax.get_title()!r} of the CSD plot")
            has(c, ax, None, f, (o.real_csd if x["real"] else o.imag_csd)[a, b, 1:], "CSD")
        return
    ax = one(c, s, kind)
    if kind == "corr":
        cc = o.corrcoeff
        want = {}
        for i in range(x["nch"]):
            for j in range(i):
                y = cc[i, j, 1:]
                if x["smooth"]:
                    y = scipy.signal.savgol_filter(y, x["nwin"], 3, mode="nearest")
                want[f"{ch[i]} - {ch[j]}"] = y
        c.ok(sorted(q[0] for q in curves(ax)) == sorted(want), f"pairs drawn: {[q[0] for q in curves(ax)]}")
        for k, y in want.items():
            has(c, ax, k, f, y, "correlation")
        return
    comp = {"psd": {None: o.psd}, "reim": {"real": o.real_psd, "imag": o.imag_psd}}.get(kind)
    if kind == "decorr":
        comp = {k: v for k, v, on in [("Data", np.array([o.real_csd[i, i] for i in range(x["nch"])]), a), ("Uncorrelated Noise", o.uncorrnoise, b),
                                      ("Correlated Noise", o.corrnoise, g), ("Total Noise", o.uncorrnoise + o.corrnoise, h)] if on}
    if x["over"] and kind != "reim":
        y = o.psd if kind == "psd" else o.uncorrnoise
        c.ok(sorted(q[0] for q in curves(ax)) == sorted(ch), f"channels drawn: {[q[0] for q in curves(ax)]}")
        for i, n in enumerate(ch):
            has(c, ax, n, f, sq(y[i]), f"{kind} overlay")
        c.ok(ax.get_xscale() == "log" and ax.get_yscale() == "log", "axes are not logarithmic")
        return
    for i, n in enumerate(ch):
        p = panel(s, n)
        c.ok(len(p) == 1, f"{len(p)} panels of channel {n}")
        cv = curves(p[0])
        c.ok(len(cv) == len(comp), f"{len(cv)} curves for {n}, expected {sorted(map(str, comp))}")
        for k, v in comp.items():
            has(c, p[0], k, f, sq(v[i]), f"{kind} panel of {n}")


@CHECK.sub("noise_empty", noise_case(), quick=60)
def noise_empty(c, x):
    """Before the calculation there is nothing to draw: no figure, no file, no crash."""
    o = noise_obj(x, calc=False)
    before = state(o)
    c.nontrivial()
    for m, kw in [("plot_psd", dict(lgcoverlay=x["over"])), ("plot_reim_psd", {}), ("plot_corrcoeff", {}), ("plot_csd", dict(lgcreal=x["real"])),
                  ("plot_decorrelatednoise", dict(lgcoverlay=x["over"]))]:
        with scratch() as d, watch() as s:
            r = getattr(o, m)(**saving(x, "lgcsave", savepath=d + "/"), **kw)
            c.ok(r is None and not s.figs and not os.listdir(d), f"{m} drew something before anything was calculated")
    unchanged(c, o, before, "plots of an empty object")
    if x["nch"] > 1:
        o.calculate_psd()
        o.calculate_csd()
        for w in ([f"0{x['nch']}"], [f"{x['nch']}0"], [1]):
            with scratch() as d, watch() as s:
                o.plot_csd(whichcsd=w, lgcsave=True, savepath=d + "/")
                c.ok(not s.figs and not os.listdir(d), f"plot_csd drew something for the pair {w} of {x['nch']} channels")


@CHECK.sub("compare", noise_case(), quick=80)
def compare(c, x):
    """compare_noise: one figure per channel with one curve per object that has it"""
    objs = []
    for i in range(2 + x["nt"] % 2):
        y = dict(x, nch=max(2, (x["nch"] + i) % 4), n=x["n"] + i)
        off = (x["seed"] >> i) % 2
        objs.append(noise_obj(y, name=f"set {i}", names=[f"C{j + off}" for j in range(y["nch"])], seed=i))
    if x["flags"][0]:
        objs[0].uncorrnoise = None
    chans = [f"C{j}" for j in range(x["nch"])] + (["nope"] if x["flags"][1] else [])
    if x["flags"][2]:
        chans = np.array(chans)
    have = [ch for ch in chans if any(ch in o.channames for o in objs)]
    before = [state(o) for o in objs]
    c.nontrivial()
    with scratch() as d, watch() as s:
        qpl.compare_noise(objs, chans, lgcdecorrelatednoise=x["real"], **saving(x, "lgcsave", savepath=d + ("/missing/" if x.get("bad") else "/")))
        saved(c, s, d, [f"{h}_PSD_comparison.png" for h in have], x["save"] and not x.get("bad"), "compare_noise")
    for o, b in zip(objs, before):
        unchanged(c, o, b, "compare_noise")
    one(c, s, "compare_noise", len(have))
    for ch in have:
        ax = panel(s, ch)
        c.ok(len(ax) == 1, f"{len(ax)} figures of channel {ch}")
        want = {}
        for o in objs:
            if ch in o.channames:
                i = o.channames.index(ch)
                if not x["real"]:
                    want[o.name] = (o.freqs[1:], np.sqrt(o.psd[i, 1:]))
                elif o.uncorrnoise is not None:
                    want[o.name + " Decorrelated Noise"] = (o.freqs[1:], np.sqrt(o.uncorrnoise[i, 1:]))
        c.ok(sorted(q[0] for q in curves(ax[0])) == sorted(want), f"curves of {ch}: {[q[0] for q in curves(ax[0])]}")
        for k, (f, y) in want.items():
            has(c, ax[0], k, f, y, f"comparison of {ch}")


SIM = {"current": {"TES Johnson Noise": "s_ites", "Load Noise": "s_iload", "TFN Noise": "s_itfn", "Total Noise": "s_itot", "Squid+Electronics Noise": "s_isquid"},
       "power": {"TES Johnson Noise": "s_ptes", "Load Noise": "s_pload", "TFN Noise": "s_ptfn", "Total Noise": "s_ptot", "Squid+Electronics Noise": "s_psquid"},
       "sc": {"Load Noise": "s_iloadsc", "Total Noise": "s_itotsc", "Squid+Electronics Noise": "s_isquid"},
       "normal": {"TES Johnson Noise": "s_itesnormal", "Load Noise": "s_iloadnormal", "Total Noise": "s_itotnormal", "Squid+Electronics Noise": "s_isquid"}}
SIMFILE = {"current": "current_qetbias", "power": "power_noise_qetbias", "sc": "SC_noise_qetbias", "normal": "normal_noise_qetbias"}


@CHECK.sub("sim", st.fixed_dictionaries(dict(p=m01.params(), n=st.integers(6, 40), fs=FS, seed=SEED, save=st.booleans(), lims=st.booleans(),
                                             bias=logfl(1e-6, 1e-3), kinds=st.lists(st.sampled_from(list(SIM)), min_size=1, max_size=3))), quick=130)
def sim(c, x):
    p = m01.clean(x["p"])
    r = np.random.RandomState(x["seed"])
    f = np.fft.rfftfreq(x["n"], 1 / x["fs"])
    psd = r.uniform(0.5, 2, f.shape) * 1e-22
    grid = np.array([1.0, 10.0, 100.0])
    o = qp.sim.TESnoise(freqs=grid, **p)
    ref = m01.reference(p, f[1:])
    before = state(o)
    c.nontrivial(x["save"] or len(x["kinds"]) > 1)
    f0, psd0 = f.copy(), psd.copy()
    lim = dict(xlims=(0.5, 2e5), ylims=(1e-15, 1e-8)) if x["lims"] else {}
    for kind in x["kinds"]:
        c.label(kind)
        with scratch() as d, watch() as s:
            out = qpl.plot_noise_sim(f, psd, o, kind, x["bias"], **saving(x, "lgcsave", figsavepath=d + "/"), **lim)
            saved(c, s, d, [f"{SIMFILE[kind]}{x['bias']*1e6:.3f}muA.png"], x["save"], kind)
        ax = one(c, s, kind)
        if not x["save"]:
            c.tup(out, 2, "plot_noise_sim")
            c.ok(out[0] is s.figs[0] and out[1] is ax, "figure and axes returned")
        if x["lims"]:
            c.ok(np.allclose(ax.get_xlim(), (0.5, 2e5)) and np.allclose(ax.get_ylim(), (1e-15, 1e-8)), "limits of the axes")
        c.ok(len(curves(ax)) == len(SIM[kind]) + 1, f"{len(curves(ax))} curves")
        l = p["loopgain"]
        for lab, k in SIM[kind].items():
            has(c, ax, lab, f[1:], np.sqrt(ref[k]), f"{kind} noise", tol=1e-9 * (1 + l + 1 / abs(1 - l)))
        raw = np.sqrt(psd[1:])
        if kind == "power":
            raw = raw / np.abs(ref["dIdP"])
        has(c, ax, "Raw Data", f[1:], raw, f"{kind} noise", tol=1e-9 * (1 + l + 1 / abs(1 - l)))
    c.ok(np.array_equal(f, f0) and np.array_equal(psd, psd0), "frequencies or spectrum were modified")
    unchanged(c, o, before, "plot_noise_sim")


@st.composite
def iv_case(draw):
    x = draw(i02.case())
    x["rload"], x["cls"] = "scalar", draw(st.sampled_from(["IV", "IBIS"]))
    if draw(st.booleans()) and x["nt"] * x["nch"] <= 3:
        x["nt"], x["nch"], x["ndim"] = draw(st.integers(1, 3)), draw(st.integers(1, 3)), 3
        for k in ("rp", "rn", "ioff", "boff"):
            x[k] = (x[k] * 9)[:x["nt"] * x["nch"]]
    x["inds"] = "range"
    nt, nch = x["nt"], x["nch"]
    def pick(n):
        return draw(st.one_of(st.just("all"), st.integers(0, n - 1), st.permutations(list(range(n))).map(list), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    x["temps"], x["chans"] = pick(nt), pick(nch)
    if draw(st.booleans()):
        x["temps"], x["chans"] = list(range(nt))[::-1], list(range(nch))[::-1]
    x["arr"] = draw(st.booleans())
    x["showfit"], x["save"] = draw(st.booleans()), draw(st.booleans())
    x["sname"] = draw(st.sampled_from(["", "run1", "a.b"]))
    x["neg"] = draw(st.booleans())
    x["what"] = draw(st.sampled_from(["iv", "rv", "pv", "all"]))
    return x


IVQ = {"iv": ("ites", 1e6, "\\mu A"), "rv": ("r0", 1e3, "m \\Omega"), "pv": ("ptes", 1e12, "pW")}


def bars(c, segs, X, Y, E, axis, what):
    """error bars of length E along an axis, around the points"""
    P = np.stack([X, Y], -1)
    D = np.zeros_like(P)
    D[:, axis] = E
    ok = np.isfinite(E) & np.isfinite(X) & np.isfinite(Y)
    want = np.stack([P - D, P + D], 1)[ok]
    sc = [1e-9 * max(np.max(np.abs(want[..., i]), initial=0), 1e-300) for i in (0, 1)]
    def eq(g):
        g = g[np.all(np.isfinite(g), axis=(1, 2))]
        return g.shape == want.shape and all(np.all(np.abs(np.sort(g[..., i], axis=1) - np.sort(want[..., i], axis=1)) <= sc[i]) for i in (0, 1))
    c.ok(any(eq(g) for g in segs), f"{what}: no error bars of the stored errors of {'xy'[axis]}")


@CHECK.sub("iv", iv_case(), quick=260)
def iv(c, x):
    d = ivbuild(x)
    nt, nch, n = d["dites"].shape
    if x["cls"] == "IV":
        rl, arg = i01.rload_of(x, d)
        o = i01.run_iv(c, dict(x, berr=x["berr"], pol=-1.0 if x["neg"] else 1.0), d, rl, arg, pad=x["pad"])[0]
    else:
        kw, _ = i02.make(x, d)
        if x["neg"]:
            kw["dites"], kw["ibias"] = -kw["dites"], -kw["ibias"]
        kw.update({q: i01.padded(kw[q], x["pad"]) for q in ("dites", "dites_err", "ibias", "ibias_err", "rp_guess", "rp_err_guess") if q in kw and (q[0] != "r" or np.ndim(kw[q]) == 3)})
        o = qp.IBIS(**kw)
        o.analyze()
    pick = lambda v, m: list(range(m)) if v == "all" else ([v] if np.isscalar(v) else list(v))
    arg = lambda v: np.array(v) if x["arr"] and isinstance(v, list) else v
    T, C = pick(x["temps"], nt), pick(x["chans"], nch)
    c.nontrivial(x["save"] or len(T) < nt or len(C) < nch)
    c.label(x["cls"] + " " + x["what"])
    if T != sorted(T) or C != sorted(C):
        c.label("another order")
    before = state(o)
    kinds = ["iv", "rv", "pv"] if x["what"] == "all" else [x["what"]]
    with scratch() as dd, watch() as s:
        kw = dict(temps=arg(x["temps"]), chans=arg(x["chans"]), **saving(x, "lgcsave", savepath=dd + "/"), savename=x["sname"])
        if x["what"] in ("iv", "all"):
            kw["showfit"] = x["showfit"]
        out = getattr(o, "plot_all_curves" if x["what"] == "all" else f"plot_{x['what']}")(**kw)
        saved(c, s, dd, [f"{k}_curve_{x['sname']}.png" for k in kinds], x["save"], x["what"])
    unchanged(c, o, before, x["what"])
    one(c, s, x["what"], len(kinds))
    if not x["save"] and x["what"] != "all":
        c.tup(out, 2, "plot")
        c.ok(out[0] is s.figs[0] and out[1] is s.figs[0].axes[0], "figure and axes returned")
    for fig, k in zip(s.figs, kinds):
        q, sc, unit = IVQ[k]
        ax = fig.axes[0]
        c.ok(unit in ax.get_ylabel() and "\\mu V" in ax.get_xlabel(), f"axis labels {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
        vals, errs = np.asarray(getattr(o, q)), np.asarray(getattr(o, q + "_err"))
        vb, vberr = np.asarray(o.vb), np.asarray(o.vb_err)
        labs, sets, lines = [], [], []
        segs = segments(ax)
        for t in T:
            for h in C:
                lab = f"Temp {t}, Channel c{h}" if nt > 1 else f"Channel c{h}"
                labs.append(lab)
                X, Y, E = vb[t, h] * 1e6, vals[t, h] * sc, errs[t, h] * sc
                sets.append((X, Y))
                has(c, ax, lab, X, Y, f"{k} curve")
                bars(c, segs, X, Y, E, 1, f"{k} curve of {lab}")
                if x["cls"] == "IBIS":
                    bars(c, segs, X, Y, vberr[t, h] * 1e6, 0, f"{k} curve of {lab}")
                if k == "iv":
                    big = X[np.nanargmax(np.abs(X))]
                    R = np.asarray(o.rfit)[t, h]
                    def isfit(g, X=X, R=R, big=big):
                        _, a, b = g
                        if not (len(a) >= 2 and np.all(np.isfinite(a)) and np.allclose(b * R, a, rtol=1e-9, atol=1e-9 * abs(big))):
                            return False
                        return abs((a.min() if big < 0 else a.max()) - (np.nanmin(X) if big < 0 else np.nanmax(X))) <= 1e-3 * abs(big) and abs(a.max() if big < 0 else a.min()) <= 1e-9 * abs(big)
                    lines.append(isfit)
                    found = any(isfit(g) for g in curves(ax))
                    if x["showfit"]:
                        c.ok(found, f"no line of slope 1/rfit for {lab}")
        for g in curves(ax):
            c.ok(len(g[1]) == 0 or any(same(g[1], g[2], X, Y) for X, Y in sets) or (x["showfit"] and any(q(g) for q in lines)),
                 f"{k}: a curve of {len(g[1])} points ({g[0]!r}) is neither the data of a selected channel nor its fit")
        drawn = {g[0] for g in curves(ax) if not g[0].startswith("_")}
        c.ok(drawn == set(labs), f"{k}: curves {sorted(drawn)}, expected {sorted(set(labs))}")
        nl = sum(1 for g in curves(ax) if not g[0].startswith("_"))
        c.ok(nl == len(T) * len(C), f"{nl} labelled curves")
        if k == "iv" and not x["showfit"]:
            c.ok(all(len(g[1]) in (n + x["pad"], 0) for g in curves(ax)), "a fit is drawn although it was not asked for")
    leg = [t.get_text() for t in s.figs[0].axes[0].get_legend().get_texts()]
    c.ok(sorted(leg) == sorted(labs), f"legend {leg}")
    # the curves come in the order asked for
    for fig in s.figs:
        names = [g[0] for g in curves(fig.axes[0]) if not g[0].startswith("_")]
        pairs = [(T[0] if nt == 1 else int(q.split(",")[0].split()[1]), int(q.split("Channel c")[1])) for q in names]
        for sel, i in ((T, 0), (C, 1)):
            for o_ in {q[1 - i] for q in pairs}:
                got = [q[i] for q in pairs if q[1 - i] == o_]
                c.ok(got == list(sel), f"curves drawn in the order {names}, asked for {list(sel)}")



@CHECK.sub("nonlin", f08.case(odd=False), quick=120)
def nonlin(c, x):
    """the diagnostic plot of a pulse fit shows the trace, the spectrum, the noise and the model at the given parameters"""
    n, fs = x["n"], x["fs"]
    psd = f08.mkpsd(x)
    p, tr = f08.pars(x, bins=True)
    r = np.random.RandomState(x["seed"])
    ts, t0 = f08.terms(x["np"], p, tr, x["scale"])
    k = np.arange(n) - x["k"]
    clean = np.where(k >= 0, sum(a * np.exp(-np.maximum(k, 0) / fs / tau) for a, tau in ts), 0.0)
    pulse = clean + 0.02 * x["unit"] * r.standard_normal(n)
    o = qp.OFnonlin(psd, fs)
    kw, _, _ = f08.fit(o, dict(x, mode="guess"), pulse, p, tr)
    p0 = pulse.copy()
    c.nontrivial()
    c.label(f"{x['np']} poles")
    with watch() as s:
        v, err, cov, chi2, _ = o.fit_falltimes(pulse, lgcfullrtn=True, lgcplot=True, **kw)
    c.ok(np.array_equal(pulse, p0), "pulse was modified")
    c.ok(len(s.figs) == 1 and len(s.figs[0].axes) == 4, "one figure of four panels")
    v = np.asarray(v, float)
    ax = s.figs[0].axes
    f = np.fft.fftfreq(n, 1 / fs)
    m = f > 0
    spec = np.fft.fft(pulse) / np.sqrt(fs * n)
    fr = [a for a in ax if "Frequency" in a.get_xlabel()]
    c.ok(len(fr) == 1, "one panel over frequency")
    has(c, fr[0], "Pulse", f[m], np.abs(spec[m]), "spectrum of the pulse")
    has(c, fr[0], "$\\sqrt{PSD}$", f[m], np.asarray(o.error)[m], "noise")
    has(c, fr[0], "Fit", f[m], np.abs(f08.spectrum(x["np"], v, tr, x["scale"], n, fs))[m], "spectrum of the fit", tol=1e-8)
    tm = [a for a in ax if "Time" in a.get_xlabel()]
    c.ok(len(tm) == 2 and all("ms" in a.get_xlabel() for a in tm), "two panels over time in ms")
    full = max(tm, key=lambda a: max(len(g[1]) for g in curves(a)))
    zoom = [a for a in tm if a is not full][0]
    t = np.arange(n) / fs * 1e3
    cv = {g[0]: g for g in curves(full)}
    c.ok({"Pulse", "Time Domain"} <= set(cv), f"curves over time: {sorted(cv)}")
    for key, y in (("Pulse", pulse),):
        _, a, b = cv[key]
        c.close(a, t, 1e-9, "times in ms")
        c.ok(np.all(np.isfinite(b)), "the trace is drawn as NaN")
        c.close(b - b.mean(), y - y.mean(), 1e-9, "trace (without its baseline)", scale=np.max(np.abs(y)))
    model = {1: o.twopoletime, 2: o.twopoletime, 3: o.threepoletime, 4: o.fourpoletime}[x["np"]](*((v[0], tr, v[1], v[2]) if x["np"] == 1 else v))
    has(c, full, "Time Domain", t, model, "fit over time")
    # the zoomed panel is a part of the full one, around the start of the pulse
    if 0 <= v[-1] * fs < n - 3:
        c.ok(any(q[0] == "Pulse" and len(q[1]) and q[1].min() <= (v[-1] + 1.01 / fs) * 1e3 for q in curves(zoom)), "the zoomed panel leaves out the start of the pulse")
    for g in curves(zoom):
        G = cv[g[0]]
        if len(g[1]):
            i = int(round((g[1][0] - t[0]) / (t[1] - t[0])))
            c.ok(same(g[1], g[2], G[1][i:i + len(g[1])], G[2][i:i + len(g[1])]), f"zoomed {g[0]} is not a part of the full one")
    # legend: values and errors in the units named
    txt = [q.get_text() for a in s.figs[0].axes for l in a.findobj(matplotlib.legend.Legend) for q in l.get_texts()]
    vals = [q for q in txt if "+\\-" in q]
    c.ok(len(set(vals)) == len(v), f"{len(set(vals))} parameters in the legend, expected {len(v)}")
    order = {1: ["A", "f", "t0"], 2: ["A", "r", "f", "t0"], 3: ["A", "B", "r", "f1", "f2", "t0"], 4: ["A", "B", "C", "r", "f1", "f2", "f3", "t0"]}[x["np"]]
    for q in set(vals):
        k = re.match(r"(A|B|C|τ, f\d|τ\$_[fr]\$|\$t_0\$): \(([-+0-9.einfa]+) \+\\- ([-+0-9.einfa]+)\) \[(.*)\]", q)
        c.ok(k is not None, f"legend entry {q!r}")
        name = {"$t_0$": "t0", "τ$_f$": "f", "τ$_r$": "r"}.get(k.group(1), k.group(1).replace("τ, ", ""))
        sc = 1e3 if k.group(4) == "ms" else 1e6
        if name == "r" and x["np"] == 1:
            want, we = tr, 0.0
        else:
            i = order.index(name)
            want, we = v[i], float(np.asarray(err)[i])
        for got, w in ((k.group(2), want), (k.group(3), we)):
            if np.isfinite(w):
                c.ok(abs(float(got) - w * sc) <= 0.50001e-4 + 1e-9 * abs(w * sc), f"legend entry {q!r}, value {w * sc}")


@CHECK.sub("nonlin_baseline", st.builds(lambda x, n, k, off: dict(x, n=n, k=k, off=off), f08.case(odd=False), st.integers(2500, 3200), st.integers(1500, 1800), signed(fl(0.5, 5.0))), quick=24)
def nonlin_baseline(c, x):
    """a trace with a long pre-pulse part is drawn relative to its baseline, on top of the fit"""
    n, fs = x["n"], x["fs"]
    p, tr = f08.pars(x, bins=True)
    ts, t0 = f08.terms(x["np"], p, tr, x["scale"])
    k = np.arange(n) - x["k"]
    clean = np.where(k >= 0, sum(a * np.exp(-np.maximum(k, 0) / fs / tau) for a, tau in ts), 0.0)
    h = float(np.max(np.abs(clean)))
    pulse = clean + 1e-3 * h * np.random.RandomState(x["seed"]).standard_normal(n) + x["off"] * h
    o = qp.OFnonlin(f08.mkpsd(x), fs)
    kw, _, _ = f08.fit(o, dict(x, mode="guess"), pulse, p, tr)
    with watch() as s:
        v, err, cov, chi2, _ = o.fit_falltimes(pulse, lgcfullrtn=True, lgcplot=True, **kw)
    v = np.asarray(v, float)
    if abs(v[-1] * fs - x["k"]) > 3:
        return c.label("fit elsewhere")
    c.nontrivial()
    full = max((a for a in s.figs[0].axes if "Time" in a.get_xlabel()), key=lambda a: max(len(g[1]) for g in curves(a)))
    y = [g for g in curves(full) if g[0] == "Pulse"][0][2]
    pre = slice(0, x["k"] - 10)
    c.close(float(np.mean(np.asarray(y)[pre])), 0.0, 1, "baseline of the drawn trace", scale=5e-4 * h)
    c.close(np.asarray(y) - np.mean(np.asarray(y)[pre]), pulse - pulse[pre].mean(), 1e-9, "drawn trace", scale=h * 10)


@CHECK.sub("nonlin_early", st.builds(lambda x, n, k, off: dict(x, n=n, k=k, off=off), f08.case(odd=False), st.integers(10200, 12000), st.integers(100, 950), signed(fl(0.5, 5.0))), quick=8)
def nonlin_early(c, x):
    """a long trace whose pulse comes too early for a baseline before it: the end of the trace is the baseline that is subtracted"""
    n, fs = x["n"], x["fs"]
    p, tr = f08.pars(x, bins=True)
    ts, t0 = f08.terms(x["np"], p, tr, x["scale"])
    k = np.arange(n) - x["k"]
    clean = np.where(k >= 0, sum(a * np.exp(-np.maximum(k, 0) / fs / tau) for a, tau in ts), 0.0)
    h = float(np.max(np.abs(clean)))
    pulse = clean + 1e-3 * h * np.random.RandomState(x["seed"]).standard_normal(n) + x["off"] * h
    o = qp.OFnonlin(f08.mkpsd(x), fs)
    kw, _, _ = f08.fit(o, dict(x, mode="guess"), pulse, p, tr)
    with watch() as s:
        v, err, cov, chi2, _ = o.fit_falltimes(pulse, lgcfullrtn=True, lgcplot=True, **kw)
    v = np.asarray(v, float)
    if abs(v[-1] * fs - x["k"]) > 3:
        return c.label("fit elsewhere")
    c.nontrivial()
    full = max((a for a in s.figs[0].axes if "Time" in a.get_xlabel()), key=lambda a: max(len(g[1]) for g in curves(a)))
    y = np.asarray([g for g in curves(full) if g[0] == "Pulse"][0][2])
    tail = slice(x["k"] + 9500, n)
    if len(y[tail]) < 50 or abs(clean[tail]).max() > 1e-4 * h:
        return c.label("long pulse")
    c.close(float(np.mean(y[tail])), 0.0, 1, "baseline of the drawn trace", scale=5e-4 * h)
    c.close(y - np.mean(y[tail]), pulse - pulse[tail].mean(), 1e-9, "drawn trace", scale=h * 10)


@CHECK.sub("nsmb", nsmb.system(nmin=12, nbmax=2), quick=200)
def multi(c, x):
    """the diagnostic plot of the multi-background fit shows data, fit and components of the returned amplitudes"""
    x = dict(x, fs=625e3)
    x["bg"] = [dict(b, kind={"dc": "pulse", "slope": "random"}.get(b["kind"], b["kind"])) for b in x["bg"]]
    x["bg"] = x["bg"] + [dict(x["bg"][0], kind="slope"), dict(x["bg"][0], kind="dc")]
    x["b"] = x["b"] + [1.0, -2.0]
    z = nsmb.Sys(x)
    n, fs = z.n, z.fs
    nb = len(x["bg"])
    if max(z.lsq(d)[2] for d in range(n)) > 1e6:
        return c.label("degenerate")
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = z.setup()
    idx = np.arange(n)[None, :]
    shifts = np.array([b["pos"] for b in x["bg"]])
    save = 3 if x["lf"] % 2 else False
    y0 = z.y.copy()
    c.nontrivial()
    with scratch() as d, watch() as s:
        how = ["con", "free", "none"][x["seed"] % 3]
        pk = dict(lfindex=x["lf"], background_templates_shifts=shifts, lgcplot=True, lgcsaveplots=save)
        if how == "con":
            res = qp.of_nsmb_con(z.y, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, [idx], ns_, nb_, bitcomb, **pk)
        elif how == "free":
            iP = qp.of_nsmb_getiP(P)
            res = qp.of_nsmb(z.y, phi, sbf.T, sbt, iP, psddnu.T, fs, [idx], ns_, nb_, bitcomb, **pk)
        else:
            r_ = qp.of_mb(z.y, phi, sbf.T, sbt, iB, B, psddnu.T, fs, ns_, nb_, **pk)
            res = (np.concatenate([[0.0], c.arr(r_[0], (nb,))]), 0.0, r_[1])
        c.label(how)
        c.ok(os.listdir(d) == ([("bcFit" if how == "none" else "scFit") + "3.png"] if save else []), f"files {os.listdir(d)}")
    c.ok(np.array_equal(y0, z.y), "trace was modified")
    amps, dl, chi2 = c.arr(res[0], (nb + 1,)), c.num(res[1]), c.num(res[2])
    ax = one(c, s, "of_nsmb")
    k = int(round(dl * fs))
    comp = [np.roll(z.s, k) * amps[0]] + [z.bt[:, j] * amps[1 + j] for j in range(nb)]
    tot = sum(comp)
    sc = max(np.max(np.abs(q)) for q in comp + [z.y])
    b = np.arange(n)
    cv = curves(ax)
    lab = {q[0]: q for q in cv if not q[0].startswith("_")}
    raw = lab.get("Data")
    c.ok(raw is not None and same(raw[1], raw[2], b, z.y), "data")
    fits = [q for l, q in lab.items() if l.startswith("Total Fit")]
    c.ok(len(fits) == 1, f"curves {sorted(lab)}")
    c.close(fits[0][2], tot, 1e-6, "total fit", scale=sc)
    m = re.search(r"=([-+0-9.einfa]+)$", fits[0][0])
    c.ok(m is not None, f"label {fits[0][0]!r}")
    direct = float(z.chi2(amps, k))
    c.ok(abs(float(m.group(1)) - direct) <= 0.051 + 1e-6 * z.full, f"chi2 {m.group(1)} in the legend, {direct} from the amplitudes")
    base = comp[-1] + comp[-2]
    if "Signal Fit" in lab:
        c.close(lab["Signal Fit"][2], comp[0] + base, 1e-6, "signal (with slope and offset)", scale=sc)
    else:
        c.ok(abs(amps[0]) < 2e-20, "the signal is not drawn")
    bgs = [q for q in cv if len(q[1]) == n and q is not raw and not q[0].startswith(("Total", "Signal", "Data"))]
    for j in range(nb - 2):
        c.ok(any(np.allclose(q[2], comp[1 + j] + base, rtol=0, atol=1e-6 * sc) for q in bgs), f"background {j} is not drawn")
    xs = sorted(float(q[1][0]) for q in cv if len(q[1]) == 2)
    c.ok(xs == sorted(map(float, shifts)), f"start times {xs}, expected {sorted(shifts)}")


@CHECK.sub("plotnsmb", st.tuples(nsmb.system(nmin=12, nbmax=3), st.fixed_dictionaries(dict(lp=st.sampled_from([None, None, 10e3, 50e3]), xlim=st.sampled_from([None, [2, 9], [0, 5.5]]), save=st.sampled_from([False, 1, 7]),
    pre=st.sampled_from([None, "fit", "a b"]), shifts=st.booleans(), zero=st.booleans(), fs=st.sampled_from([625e3, 1e6])))), quick=80)
def plotnsmb(c, xo):
    """the plot called directly, with its own options"""
    x, o = xo
    x = dict(x, fs=o["fs"])
    x["bg"] = x["bg"] + [dict(x["bg"][0], kind="slope"), dict(x["bg"][0], kind="dc")]
    x["b"] = x["b"] + [1.0, -2.0]
    z = nsmb.Sys(x)
    n, fs, nb = z.n, z.fs, len(x["bg"])
    if n < 20 and o["lp"]:
        o["lp"] = None
    psddnu, phi, Pfs, P, sbf, sbt = z.setup()[:6]
    r = np.random.RandomState(x["seed"])
    k = r.randint(-n, n)
    amps = r.standard_normal(nb + 1) * x["unit"]
    if o["zero"]:
        amps[0] = 0.0
    pk = dict(lpFiltFreq=o["lp"], xlim=o["xlim"], background_templates_shifts=np.arange(nb) + 0.5 if o["shifts"] else None)
    if o["save"]:
        pk["lgcsaveplots"] = o["save"]
    if o["pre"]:
        pk["figPrefix"] = o["pre"]
    c.nontrivial(o["xlim"] or o["save"] or o["lp"])
    args = [z.y[None, :].copy(), fs, k / fs, amps[:, None].copy(), sbf.T.copy(), 1, nb, n, psddnu.T.copy()]
    with scratch() as d, watch() as s:
        if r.rand() < 0.7:
            os.mkdir("sub")
            pk["savepath"], out = d + "/sub/", d + "/sub"
        else:
            out = d
        keep = [np.array(a, copy=True) for a in args]
        qpl.plotnsmb(*args, **pk)
        names = [f"{o['pre'] or 'testFit'}{o['save']}.png"] if o["save"] else []
        got = sorted(q for q in os.listdir(out) if q != "sub")
        c.ok(got == names and (out == d or os.listdir(d) == ["sub"]), f"files {got}, expected {names}")
    c.ok(all(np.array_equal(a, b) for a, b in zip(args, keep)), "an argument was modified")
    ax = one(c, s, "plotnsmb")
    b = np.arange(n)
    comp = [np.roll(z.s, k) * amps[0]] + [z.bt[:, j] * amps[1 + j] for j in range(nb)]
    sc = max(np.max(np.abs(q)) for q in comp + [z.y])
    cv = curves(ax)
    lab = {q[0]: q for q in cv if not q[0].startswith("_")}
    want = {"Data"} | ({"Data (LP filtered)"} if o["lp"] else set()) | ({"Bckg. Start Times"} if o["shifts"] else set()) | {"Background Fit"} | (set() if o["zero"] else {"Signal Fit"})
    c.ok({q for q in lab if not q.startswith("Total Fit")} == want, f"curves {sorted(lab)}, expected {sorted(want)}")
    has(c, ax, "Data", b, z.y, "data")
    if o["lp"]:
        c.close(lab["Data (LP filtered)"][2], qp.utils.lowpassfilter(z.y, o["lp"], fs), 1e-6, "filtered data", scale=sc)
    tot = [q for l, q in lab.items() if l.startswith("Total Fit")]
    c.ok(len(tot) == 1, "total fit")
    c.close(tot[0][2], sum(comp), 1e-6, "total fit", scale=sc)
    if not o["zero"]:
        c.close(lab["Signal Fit"][2], comp[0] + comp[-1] + comp[-2], 1e-6, "signal (with slope and offset)", scale=sc)
    bgs = [q for q in cv if len(q[1]) == n and q[0] != "Data" and not q[0].startswith(("Total", "Signal", "Data"))]
    for j in range(nb - 2):
        c.ok(any(np.allclose(q[2], comp[1 + j] + comp[-1] + comp[-2], rtol=0, atol=1e-6 * sc) for q in bgs), f"background {j} is not drawn")
    c.ok(len(bgs) == nb - 2, f"{len(bgs)} backgrounds drawn")
    xs = sorted(float(q[1][0]) for q in cv if len(q[1]) == 2)
    c.ok(xs == ([j + 0.5 for j in range(nb)] if o["shifts"] else []), f"start times {xs}")
    if o["xlim"]:
        c.close(ax.get_xlim(), o["xlim"], 1e-9, "range of the plot", scale=n)


DP = ["plot_full_trace", "plot_single_period_of_trace", "plot_zoomed_in_trace", "plot_didv_flipped", "plot_re_im_didv", "plot_abs_phase_didv", "plot_re_vs_im_dvdi"]
DFILES = {"plot_full_trace": ["full_trace_"], "plot_single_period_of_trace": ["trace_one_period_"], "plot_zoomed_in_trace": ["zoomed_in_trace_"],
          "plot_didv_flipped": ["flipped_trace_"], "plot_re_im_didv": ["didv_real_", "didv_imag_"], "plot_abs_phase_didv": ["didv_abs_", "didv_phase_"],
          "plot_re_vs_im_dvdi": ["dvdi_real_vs_imag_"]}


@st.composite
def didv_case(draw):
    x = draw(d04.case(snr=(2.0, 4.0)))
    x["P"] = draw(st.sampled_from([500, 1250]))
    x["fits"] = draw(st.lists(st.sampled_from([1, 2, 3]), min_size=0, max_size=2, unique=True))
    x["sel"] = draw(st.one_of(st.just("all"), st.sampled_from([1, 2, 3]), st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=3, unique=True)))
    x["arr"] = draw(st.booleans())
    x["src"] = draw(st.sampled_from(["traces", "traces", "data", "priors"]))
    x["calls"] = draw(st.lists(st.sampled_from(DP), min_size=2, max_size=4, unique=True))
    x["save"], x["sname"] = draw(st.booleans()), draw(st.sampled_from(["", "r1"]))
    x["zoom"] = draw(fl(0.02, 0.9))
    return x


COL = {1: "1-Pole Fit", 2: "2-Pole Fit", 3: "3-Pole Fit"}


@CHECK.sub("didv", didv_case(), quick=160)
def didv(c, x):
    fs, sg, tr, rms = d04.data(x)
    P, N = x["P"], x["P"] * x["m"]
    x = dict(x, cls="DIDVPriors" if x["src"] == "priors" else "DIDV")
    o = d04.build(x, fs, sg, tr)
    o.processtraces()
    keep = tr[:, :N] / x["gain"]
    mean, off = keep.mean(axis=0), keep.mean()
    if x["src"] == "data":
        q = qp.didvinitfromdata(o._tmean, o._didvmean, o._didvstd, o._offset, o._offset_err, fs, sg, x["amp"], x["p"]["rsh"],
                                r0=x["p"].get("r0", 0.3), rp=x["p"]["rp"], add180phase=x["add180"], dt0=(x["delay"] + x["ddt"]) / fs)
        o = q
    res = {}
    for k in x["fits"]:
        with quiet():
            if x["src"] == "priors":
                pr, pc = d04.prior_of(x, k)
                o.dofit(k, pr, pc)
            else:
                o.dofit(k)
        res[k] = o.fitresult(k)
    sel = [1, 2, 3] if x["sel"] == "all" else ([x["sel"]] if np.isscalar(x["sel"]) else x["sel"])
    arg = np.array(x["sel"]) if x["arr"] and isinstance(x["sel"], list) else x["sel"]
    want = [k for k in sel if res.get(k)]
    c.nontrivial(len(want) > 0)
    c.label(x["src"])
    before = state(o)
    # where the code takes the trace to start, from its options
    T = np.arange(N) / fs - ((x["delay"] + x["ddt"]) / fs + (0.5 / sg if x["add180"] else 0))
    f = np.fft.fftfreq(N, 1 / fs)
    dm, ds = np.array(o._didvmean), np.array(o._didvstd)      # (D03 covers these)
    best = min(((res[k]["cost"], res[k]["params"]["dt"]) for k in res if res[k]), default=(0, 0.0))[1]
    ph = np.exp(2j * np.pi * best * f)
    good = (np.abs(dm / ds) > 2) & (f > 0)
    def fitpar(k):
        r = res[k]
        q = r["smallsignalparams"] if "smallsignalparams" in r else r["params"]
        return dv.to_fit(q, k) if "r0" in q or "rsh" in q else q
    def admit(k, ff):
        return 1 / dv.imp_fit(fitpar(k), k, ff)
    for call in x["calls"]:
        c.label(call)
        kw = saving(x, "saveplot", poles=arg, savename=x["sname"])
        if call == "plot_zoomed_in_trace":
            kw["zoomfactor"] = x["zoom"]
        with scratch() as d, watch() as s:
            getattr(o, call)(savepath=d + "/", **kw)
            saved(c, s, d, [q + x["sname"] + ".png" for q in DFILES[call]], x["save"], call)
        one(c, s, call, len(DFILES[call]))
        for i, fig in enumerate(s.figs):
            ax = fig.axes[0]
            for k in (1, 2, 3):
                if k not in want:
                    lacks(c, ax, COL[k], call)
            if i == 0 and call in DP[:4]:
                has(c, ax, "Mean", T * 1e6, (mean - off) * 1e6, call, tol=1e-8)
                for k in want:
                    g = [q for q in curves(ax) if q[0] == COL[k]]
                    c.ok(len(g) == 1, f"{call}: {len(g)} curves of the {k}-pole fit")
                    dt = res[k]["params"]["dt"]
                    c.close(g[0][1], (T + dt) * 1e6, 1e-9, f"{call}: times of the {k}-pole fit", scale=np.max(np.abs(T)) * 1e6 + abs(dt) * 1e6)
                    judge_wave(c, x, g[0][2] * 1e-6, T, k, fitpar(k), sg, f"{call}: {k}-pole fit", res[k].get("smallsignalparams", res[k]["params"]).get("rsh"))
                lim = np.array(ax.get_xlim())
                if call == "plot_full_trace":
                    c.close(lim, np.array([T[0], T[-1]]) * 1e6, 1e-9, "limits of the full trace", scale=1e6 * np.max(np.abs(T)))
                elif call == "plot_single_period_of_trace":
                    c.close(lim, np.array([T[0], T[0] + 1 / sg]) * 1e6, 1e-9, "limits of a single period", scale=1e6 * np.max(np.abs(T)) + 1e6 / sg)
                elif call == "plot_zoomed_in_trace":
                    w = np.array([T[0] + best + (0.5 - x["zoom"] / 2) / sg, T[0] + best + (0.5 + x["zoom"] / 2) / sg]) * 1e6
                    c.close(lim, w, 1e-9, "limits of the zoomed trace", scale=1e6 * np.max(np.abs(T)) + 1e6 / sg)
                else:
                    has(c, ax, "Flipped Data", (T - 0.5 / sg) * 1e6, -(mean - off) * 1e6, call, tol=1e-8)
            elif call == "plot_re_vs_im_dvdi":
                zz = 1 / (dm * ph)
                has(c, ax, "Mean", zz.real[good], zz.imag[good], call, tol=1e-8)
                for k in want:
                    v = 1 / admit(k, f[f > 0])
                    has(c, ax, COL[k], v.real, v.imag, call, tol=1e-7)
            else:
                fn = [np.real, np.imag] if call == "plot_re_im_didv" else [np.abs, np.angle]
                near = fn[i] is np.angle                          # (branch cut)
                if near and np.any(np.abs(np.abs(np.angle((dm * ph)[good])) - np.pi) < 1e-6):
                    continue
                has(c, ax, "Mean", f[good], fn[i](dm * ph)[good], call, tol=1e-8)
                for k in want:
                    y = admit(k, f[f > 0])
                    if near and np.any(np.abs(np.abs(np.angle(y)) - np.pi) < 1e-6):
                        continue
                    has(c, ax, COL[k], f[f > 0], fn[i](y), call, tol=1e-7)
                up = fn[i]((dm + ds) * ph)[good]
                has(c, ax, "1-$\\sigma$ Bounds", f[good], up, call, tol=1e-8)
                c.ok(any(same(q[1], q[2], f[good], fn[i]((dm - ds) * ph)[good], 1e-8) for q in curves(ax)), f"{call}: lower bound")
                c.ok(ax.get_xscale() == "log", "frequencies are not on a logarithmic axis")
    unchanged(c, o, before, "plots of the dI/dV")


def judge_wave(c, x, y, T, k, q, sg, what, rsh=None):
    """y is the periodic response of the circuit to the square wave: it is periodic, and its harmonics
    are those of the square wave times the admittance"""
    P = x["P"]
    c.ok(np.all(np.isfinite(y)) and y.shape == T.shape, f"{what}: values")
    t = np.atleast_1d(dv.falls(q, k)).astype(complex)
    if np.any(np.abs(t.imag) > 1e-9 * np.abs(t)) or np.any(t.real <= 2 / d04.FSR) or np.max(t.real) > 0.3 / sg:
        return c.label("aliased or unstable fit: shape not judged")
    per = y[:P]
    F = np.fft.fft(per) / P
    h = np.arange(1, 8, 2)
    got = F[h]                   # (the delay of the fit is in the times it is drawn at)
    want = dv.spectrum(h, P, x["amp"], x["p"]["rsh"], 0.5) / dv.imp_fit(q, k, h * sg)
    if rsh is not None and np.all(np.abs(got - want * rsh / x["p"]["rsh"]) <= 1e-6 * np.abs(want)):
        return      # the response of the fitted circuit, with its own shunt resistance
    c.close(got, want, 1.0, f"{what}: first harmonics", scale=1e-6 * np.abs(want))
