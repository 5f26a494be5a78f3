from harness import *
from gens import *
import p01
import didv as dd
import os, pickle, copy

CHECK = Check("H01", "Cases are 2-5 analyses (objects driven step by step, and calls of every entry point) on different data of the same or different shapes, "
              "run once after the other and once interleaved, each order in a process of its own; non-trivial = at least two analyses of the same kind, "
              "at least one of them with several steps.",
              ["The global numpy generator is seeded before every step: random results are compared for equal random numbers."])
qp, U, C = qetpy, qetpy.utils, qetpy.cut


# ---- analyses in steps: generators that hand out a result per step
def s_of(rng, n):
    t = p01.pulse(n, n // 2)
    psd = p01.spec(rng, n)
    sig = [3 * np.roll(t, int(rng.randint(-3, 4))) + rng.standard_normal(n) for _ in range(3)]
    cp = str(rng.choice(["AC", "DC"]))
    nc = [None, 9][rng.randint(2)]
    seq = [int(k) for k in rng.randint(0, 9, 7)]
    o = qp.OptimumFilter(sig[0].copy(), t.copy(), psd.copy(), 1e3, coupling=cp, integralnorm=bool(rng.randint(2)))
    yield [o.ofamp_nodelay()]
    for i, k in enumerate(seq):
        yield [lambda: o.ofamp_nodelay(), lambda: o.ofamp_withdelay(nconstrain=nc, interpolate_t0=True), lambda: o.ofamp_pileup_iterative(1.0, 0.002, nconstrain=nc),
               lambda: o.ofamp_pileup_stationary(nconstrain=nc), lambda: o.ofamp_baseline(nconstrain=nc), lambda: o.chi2_nopulse(),
               lambda: o.chi2_lowfreq(2.0, 0.001, fcutoff=100.0), lambda: (o.energy_resolution(), o.time_resolution(2.0)),
               lambda: o.update_signal(sig[i % 3].copy())][k]()


def s_nonlin(rng, n):
    n, fs = n + 80, 625e3
    psd = p01.spec(rng, n) * 1e-3 / fs
    o = qp.OFnonlin(psd, fs)
    for _ in range(2):
        k = int(rng.choice([1, 2, 2]))
        tr, tf, t0 = 3.2e-6 * rng.uniform(.8, 1.2), 16e-6 * rng.uniform(.8, 1.2), 40 / fs
        y = qp.OFnonlin(psd, fs).twopoletime(rng.uniform(5, 10), tr, tf, t0) + 0.01 * rng.standard_normal(n)
        yield o.fit_falltimes(y, npolefit=k, lgcfullrtn=True, taurise=tr if k == 1 else None, guess=(8.0, tf, t0) if k == 1 else (8.0, tr, tf, t0))
        yield [o.twopole(2.0, tr, tf, t0) if k == 2 else o.onepole(2.0, tf, t0)]


def s_muon(rng, n):
    n, fs = n + 60, 1e3
    m = qp.MuonTailFit(p01.spec(rng, n), fs)
    for _ in range(2):
        yield m.fitmuontail(20 * np.exp(-np.arange(n) / fs / rng.uniform(.01, .04)) + 0.1 * rng.standard_normal(n), lgcfullrtn=True)


def s_nsmb(rng, n):
    nb = int(rng.randint(1, 3))
    bt = np.column_stack([np.ones(n), np.arange(n) / n][:nb])
    s = p01.pulse(n, n // 2)
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bc, lf = z = qp.of_nsmb_setup(s, bt, p01.spec(rng, n), 1e3)
    yield list(z)
    iP = qp.of_nsmb_getiP(P)
    yield [iP]
    win = [np.arange(-4, 5)[None, :]]
    for _ in range(2):
        y = rng.standard_normal(n) + 4 * np.roll(s, int(rng.randint(-3, 4))) + bt @ rng.uniform(-3, 3, nb)
        yield qp.of_nsmb(y, phi, sbf.T, sbt, iP, psddnu.T, 1e3, win, ns_, nb_, bc, lfindex=5)
        yield qp.of_mb(y, phi, sbf.T, sbt, iB, B, psddnu.T, 1e3, ns_, nb_, lfindex=5)
        yield qp.of_nsmb_con(y, phi, Pfs, P, sbf.T, sbt, psddnu.T, 1e3, win, ns_, nb_, bc, lfindex=5, bkgpolarityconstraint=np.ones(nb), sigpolarityconstraint=np.array([1.0]))


def s_noise(rng, n):
    nch = int(rng.randint(2, 4))
    o = qp.Noise(rng.standard_normal((6, nch, n)) + 0.5 * rng.standard_normal((6, 1, n)) + 0.02 * np.arange(n), 10.0, [f"c{i}" for i in range(nch)], tracegain=float(rng.choice([1.0, 2.0])), name="x")
    get = lambda *a: [getattr(o, k) for k in a]
    yield get("freqs")
    if rng.randint(2):
        o.remove_trace_slope()
        yield get("traces")
    todo = [("calculate_psd", ("psd", "real_psd", "imag_psd")), ("calculate_corrcoeff", ("corrcoeff",)), ("calculate_csd", ("csd", "real_csd", "imag_csd"))]
    for k in [int(v) for v in rng.randint(0, 3, 2)] + [0, 2]:
        getattr(o, todo[k][0])()
        yield get(*todo[k][1])
    o.calculate_uncorr_noise()
    yield get("uncorrnoise", "corrnoise", "psd", "csd")


def s_iv(rng, n):
    ib, it, err, rsh = p01.iv_data(rng)
    it = it + 1e-9 * rng.standard_normal(it.shape)
    o = qp.IV(it, err, ib * rsh, np.full(it.shape, 1e-10), 9e-3, 1e-4, ["a", "b"], normalinds=range(0, 4))
    A = ("ioff", "ioff_err", "rfit", "rnorm", "rnorm_err", "ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err")
    for _ in range(2):
        o.calc_iv()
        yield [getattr(o, k) for k in A]


def s_ibis(rng, n):
    ib, it, err, rsh = p01.iv_data(rng)
    it = it + 1e-9 * rng.standard_normal(it.shape)
    sc = bool(rng.randint(2))
    o = qp.IBIS(it, err, ib, np.full(it.shape, 1e-10), rsh, 1e-4, range(0, 4), chan_names=["a", "b"], fitsc=sc, scinds=range(8, 12) if sc else None)
    for i in range(3):
        o.analyze(**(dict(yoff=2e-6, yoff_err=1e-8) if i == 1 else dict(xoff=1e-6, xoff_err=1e-8, yoff=1e-6, yoff_err=1e-8) if i == 2 else {}))
        yield [getattr(o, k) for k in ("rp", "rp_err", "rnorm", "ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err", "ioff", "ibias_off")]


def s_didv(rng, n):
    fs, sg, P = 625e3, 5000.0, 125
    p = dict(rsh=5e-3, rp=6e-3, r0=0.1 * rng.uniform(.8, 1.2), beta=0.5, l=float(rng.choice([0.5, 8.0])), L=1e-7, tau0=2e-4)
    per = dd.response(None, P, P, 1e-6, p["rsh"], lambda f: 1 / dd.imp(p, 2, f), sg, 0.5)
    tr = np.tile(per, (10, 2)) + 0.01 * np.std(per) * rng.standard_normal((10, 2 * P))
    R = lambda r: [r.get(k) for k in ("params", "errors", "cov", "cost", "smallsignalparams", "falltimes", "didv0")]
    if rng.randint(3) == 0:
        pr = np.array([5e-3, 6e-3, p["r0"], 0, 0, 0, 0, 0.0])
        o = qp.DIDVPriors(tr, fs, sg, 1e-6, p["rsh"])
        o.dofit(2, pr, np.diag((0.1 * pr)**2))
        yield R(o.fitresult(2))
        o.dofit(2, pr, np.diag((0.01 * pr)**2))
        yield R(o.fitresult(2))
        return
    o = qp.DIDV(tr, fs, sg, 1e-6, p["rsh"], r0=p["r0"], rp=6e-3)
    o.processtraces()
    yield [o._tmean, o._didvmean, o._didvstd, o._offset, o._freq, o._time]
    for k in [int(v) for v in rng.choice([1, 2], 2)]:
        o.dofit(k)
        yield R(o.fitresult(k))
    if rng.randint(2):
        q = qp.didvinitfromdata(o._tmean[:len(o._didvmean)], o._didvmean, o._didvstd, o._offset, o._offset_err, fs, sg, 1e-6, p["rsh"], r0=p["r0"], rp=6e-3)
        q.dofit(1)
        yield R(q.fitresult(1))
    yield R(o.fitresult(k))


def s_tes(rng, n):
    f = np.sort(rng.uniform(1, 1e5, n))
    o = qp.sim.TESnoise(freqs=f, rload=0.01 * rng.uniform(.5, 2), r0=0.1 * rng.uniform(.5, 2), lgcb=bool(rng.randint(2)))
    names = [k for k in ("s_itot", "s_ptot", "s_itotnormal", "s_itotsc", "s_itfn", "s_ptfn", "s_isquid", "s_ites", "s_iload", "dIdP", "dIdV", "dIdVnormal", "dIdVsc")]
    for k in rng.permutation(len(names))[:5]:
        yield [getattr(o, names[int(k)])(*([] if rng.randint(2) else [f[:3].copy()]))]
    o.r0 = 0.2
    yield [o.s_itot(), o.s_ptot()]


STEPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("s_")}
LOOSE = p01.LOOSE | {"nonlin", "muon", "didv", "iv", "ibis"}


def start(a):
    """iterator over the steps of one analysis"""
    rng = np.random.RandomState(a["seed"])
    if a["kind"] in STEPS:
        return STEPS[a["kind"]](rng, a["n"])
    args, run = p01.ENTRIES[a["kind"][1:]](rng)
    return (v() for v in [lambda: run(args), lambda: run(args)])


def play(x, order):
    """results of every step of every analysis; order None: one analysis after the other, else the analysis that makes the next step"""
    its = [start(a) for a in x["what"]]
    out = [[] for _ in its]
    live = []
    def step(i):
        np.random.seed(len(out[i]) + 1)
        try:
            v = next(its[i])
        except StopIteration:
            return False
        r = p01.flat(v)
        out[i].append(r)
        live.append((i, len(out[i]), p01.flat_refs(v), [q.copy() for q in r]))
        return True
    if order is None:
        for i in range(len(its)):
            while step(i):
                pass
    else:
        k = 0
        todo = list(range(len(its)))
        while todo:
            i = todo[order[k % len(order)] % len(todo)]
            k += 1
            if not step(i):
                todo.remove(i)
    # results that were handed out stay what they were
    moved = [f"{x['what'][i]['kind']}: the result of step {j} was changed by a later step" for i, j, v, old in live
             if any(not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") for a, b in zip(v, old))]
    return out, moved


def state():
    """process-wide settings an analysis has no business changing"""
    import warnings, matplotlib
    return dict(errstate=np.geterr(), filters=len(warnings.filters), cwd=os.getcwd(), rc={k: str(v) for k, v in matplotlib.rcParams.items() if not k.startswith("_")}, print=np.get_printoptions(),
                tz=os.environ.get("TZ"), env=dict(os.environ))


def forked(x, order):
    """run play in a child process, so that no order sees what another one left behind"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            before = state()
            res = play(x, order)
            after = state()
            msg = ("ok", res + ([k for k in before if before[k] != after[k]],))
        except BaseException:
            import traceback
            msg = ("error", traceback.format_exc())
        with os.fdopen(w, "wb") as f:
            pickle.dump(msg, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died")


@st.composite
def case(draw):
    kinds = sorted(STEPS) + ["." + k for k in sorted(p01.ENTRIES)]
    main = draw(st.sampled_from(sorted(STEPS)))
    n = draw(st.integers(24, 48))
    what = [dict(kind=main, seed=draw(SEED), n=n) for _ in range(draw(st.integers(2, 3)))]
    what += [dict(kind=draw(st.one_of(st.just(main), st.sampled_from(kinds))), seed=draw(SEED), n=n) for _ in range(draw(st.integers(0, 2)))]
    return dict(what=draw(st.permutations(what)), order=draw(st.lists(st.integers(0, 5), min_size=3, max_size=25)))


@CHECK.sub("interleaved", case(), quick=400, thorough=12000, hang=300)
def interleaved(c, x):
    """every step of every analysis gives the same result whatever else runs in between"""
    kinds = [a["kind"] for a in x["what"]]
    res = {}
    for name, order in (("alone", None), ("interleaved", x["order"])):
        how, v = forked(x, order)
        if how == "error":
            c.fail(f"{name} {kinds}: {v[-800:]}")
        res[name], moved, left = v
        c.ok(not moved, f"{name}: {moved[:3]}")
        c.ok(not left, f"{name} {kinds}: the analyses changed process-wide settings {left}")
    for i, (a, b) in enumerate(zip(res["alone"], res["interleaved"])):
        c.ok(len(a) == len(b), f"{kinds[i]}: {len(a)} steps alone, {len(b)} interleaved")
        for j, (p, q) in enumerate(zip(a, b)):
            c.ok(len(p) == len(q) and all(u.shape == v.shape and u.dtype == v.dtype for u, v in zip(p, q)), f"{kinds[i]} step {j + 1}: shapes differ when interleaved with {kinds}")
            for u, v in zip(p, q):
                if u.dtype.kind in "fc" and u.size:
                    fin = np.abs(u[np.isfinite(u)])
                    tol = 1e-5 if kinds[i].lstrip(".") in LOOSE else 1e-9
                    c.close(v, u, tol, f"{kinds[i]} step {j + 1}, interleaved with {kinds}", scale=fin.max() if fin.size else 1.0)
                else:
                    c.ok(np.array_equal(u, v), f"{kinds[i]} step {j + 1}, interleaved with {kinds}")
    c.nontrivial(max(len(a) for a in res["alone"]) > 1)
    for k in set(kinds):
        c.label(k)


@CHECK.sub("owned", st.fixed_dictionaries(dict(entry=st.sampled_from(sorted(p01.ENTRIES) + ["utils", "nsmb_parts"] * 3), seed=SEED)), quick=1200)
def owned(c, x):
    """what a caller writes into a result has no effect on later calls"""
    import copy
    args, run = p01.ENTRIES[x["entry"]](np.random.RandomState(x["seed"]))
    keep = copy.deepcopy(args)
    np.random.seed(3)
    res = run(args)
    one = [v.copy() for v in p01.flat(res)]
    n = 0
    for v in p01.flat_refs(res):
        if v.size and v.flags.writeable and v.dtype.kind in "fciub":
            v[...] = 77 if v.dtype.kind != "b" else True
            n += 1
    np.random.seed(3)
    two = p01.flat(run(keep))
    c.nontrivial(n)
    c.label(x["entry"])
    c.ok(len(one) == len(two) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") for a, b in zip(one, two)),
         f"{x['entry']}: another result after the caller wrote into that of the first call")
