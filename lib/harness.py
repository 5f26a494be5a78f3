"""
Shared machinery of all checks: runs the sub-checks of one property with
Hypothesis-generated cases, shrinks failures into JSON replay files, and
writes the evidence file.

A sub-check is  fn(c, x):  x is a JSON-able case drawn by the generator, c the
recorder/judge.  It must be a pure function of x and of the code in /repo.
"""
import sys, os, json, time, hashlib, importlib, io, traceback, warnings, signal, glob, contextlib, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
# Hypothesis is only installed in the tools' own environment: append it last, so
# that numpy, scipy ... still come from the interpreter that runs the code under test.
import numpy as np
import scipy, scipy.optimize, scipy.signal, scipy.linalg
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)
import hypothesis
from hypothesis import given, settings, seed as hyp_seed, strategies as st, HealthCheck, Phase
import qetpy
assert os.path.realpath(qetpy.__file__).startswith(REPO + "/"), qetpy.__file__
import matplotlib
matplotlib.use("Agg")
warnings.resetwarnings()
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Violation(Exception):
    """The property is broken."""


class StopRun(KeyboardInterrupt):
    """Ends a Hypothesis run early (time budget)."""


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def from_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + "/qetpy"):
            return True
        tb = tb.tb_next
    return False


class Ctx:
    """Judge and recorder for one case."""
    def __init__(self):
        self.labels = []
        self.nontriv = False
        self.known = set()

    def label(self, s):
        self.labels.append(str(s))

    def nontrivial(self, cond=True):
        self.nontriv = self.nontriv or bool(cond)

    def fail(self, msg):
        raise Violation(msg)

    def fail_known(self, key, msg):
        """A violation that is a recorded finding (known_findings.txt lists its key): noted,
        not raised.  Where the file does not list it, it is a violation like any other."""
        if key not in FINDING_KEYS:
            raise Violation(msg)
        self.labels.append("known finding " + key)
        self.known.add(key)

    def ok(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def arr(self, v, shape=None, what="value", finite=True, real=True):
        """Coerce an output of the code under test to an ndarray, judging its shape."""
        try:
            a = np.asarray(np.ma.filled(v, np.nan) if np.ma.isMaskedArray(v) else v)
        except Exception as e:
            raise Violation(f"{what}: not an array ({type(v).__name__}: {e})")
        if a.dtype == object:
            raise Violation(f"{what}: object array {v!r}")
        if shape is not None and a.shape != tuple(shape):
            raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
        if real and np.iscomplexobj(a):
            raise Violation(f"{what}: complex values")
        if finite and not np.all(np.isfinite(a)):
            raise Violation(f"{what}: non-finite values {a!r}"[:400])
        return a

    def num(self, v, what="value", finite=True):
        a = self.arr(v, what=what, finite=finite)
        if a.size != 1:
            raise Violation(f"{what}: expected a number, got shape {a.shape}")
        return float(a.reshape(())) if a.shape == () else float(a.ravel()[0])

    def tup(self, v, n, what="result"):
        if not isinstance(v, (tuple, list)) or len(v) != n:
            raise Violation(f"{what}: expected {n} return values, got {type(v).__name__} "
                            f"{len(v) if hasattr(v, '__len__') else ''}")
        return v

    def close(self, got, want, tol, what, scale=None):
        """|got-want| <= tol*scale (scale: max|want| by default)."""
        w = np.asarray(want)
        g = self.arr(got, what=what, finite=False, real=not np.iscomplexobj(w))
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
        if w.size == 0:
            return
        if scale is None:
            fin = np.abs(w[np.isfinite(w)])
            scale = fin.max() if fin.size else 0.0
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= tol * scale)
            same = (g == w) | (np.isnan(g) & np.isnan(w))
        bad &= ~same
        if np.any(bad):
            k = np.argmax(np.where(bad, 1, 0))
            gi, wi = g.ravel()[k], w.ravel()[k]
            raise Violation(f"{what}: got {gi!r}, expected {wi!r} "
                            f"(diff {abs(gi - wi):.3g}, allowed {np.max(tol*np.asarray(scale)):.3g}, "
                            f"{int(bad.sum())}/{bad.size} elements)")

    def raises(self, exc, f, what):
        try:
            with quiet():
                f()
        except exc:
            return
        except Hang:
            raise
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}({e}) instead of {exc}")
        raise Violation(f"{what}: did not raise {exc}")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    """A private directory, as cwd, removed afterwards."""
    d = tempfile.mkdtemp(prefix="qverif_")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Sub:
    def __init__(self, name, fn, gen, quick, thorough, hang):
        self.name, self.fn, self.gen, self.quick, self.thorough, self.hang = name, fn, gen, quick, thorough, hang


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = []

    def sub(self, name, gen, quick, thorough=None, hang=90):
        def deco(fn):
            self.subs.append(Sub(name, fn, gen, quick, thorough or quick * 20, hang))
            return fn
        return deco


def run_case(sub, case):
    """-> (ctx, None | (kind, message)).  kind: 'violation' or 'error'."""
    c = Ctx()
    np.random.seed(12345)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.hang)
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            sub.fn(c, json.loads(json.dumps(case)))
        return c, None
    except Violation as e:
        return c, ("violation", str(e))
    except Hang:
        return c, ("violation", f"did not finish within {sub.hang} s (normally far below 1 s)")
    except (KeyboardInterrupt, MemoryError, hypothesis.errors.HypothesisException):
        raise
    except Exception as e:
        tb = traceback.format_exc()
        if from_repo(e.__traceback__):
            return c, ("violation", f"valid input crashed the code under test: {type(e).__name__}: {e}\n{tb[-1200:]}")
        if isinstance(e, (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError)):
            # the judge stumbled over an output without the documented form (missing keys, values or attributes)
            return c, ("violation", f"the output does not have the documented form: {type(e).__name__}: {e}\n{tb[-1200:]}")
        return c, ("error", tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        mp = sys.modules.get("matplotlib.pyplot")
        if mp is not None:
            mp.close("all")


class _Failed(Exception):
    pass


def run_sub(args):
    """Worker: run one sub-check shard."""
    pid, subname, n, seedval, budget, shrink_budget = args
    chk = load(pid)
    sub = next(s for s in chk.subs if s.name == subname)
    res = dict(sub=subname, evaluations=0, labels={}, hashes=set(), samples=[], failure=None,
               truncated=False, error=None)
    t0 = time.time()
    state = dict(t_fail=None)

    def body(case):
        now = time.time()
        if state["t_fail"] is None and now - t0 > budget:
            res["truncated"] = True
            raise StopRun()
        if state["t_fail"] is not None and now - state["t_fail"] > shrink_budget:
            raise StopRun()
        c, bad = run_case(sub, case)
        if bad is None or state["t_fail"] is None:
            if state["t_fail"] is None:
                res["evaluations"] += 1
                for l in set(c.labels):
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if c.nontriv:
                    s = json.dumps(case, sort_keys=True)
                    h = hashlib.sha1(s.encode()).digest()[:8]
                    if h not in res["hashes"]:
                        res["hashes"].add(h)
                        if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and len(res["hashes"]) % 37 == 0):
                            res["samples"].append(dict(sub=subname, case=json.loads(s), labels=c.labels))
        if bad is not None:
            kind, msg = bad
            if kind == "error":
                res["error"] = msg + "\ncase: " + json.dumps(case)[:2000]
                raise StopRun()
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            res["failure"] = dict(case=case, msg=msg)
            raise _Failed(msg[:60])

    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example))(
        hyp_seed(seedval)(given(sub.gen)(body)))
    try:
        with quiet():
            test()
    except StopRun:
        pass
    except _Failed:
        pass
    except BaseException as e:
        if res["failure"] is None:
            res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


_loaded = {}
def load(pid):
    if pid not in _loaded:
        for d in (os.path.join(ROOT, "checks"), os.path.join(ROOT, "lib")):
            if d not in sys.path:
                sys.path.insert(0, d)
        sys.modules.setdefault("harness", sys.modules[__name__])
        _loaded[pid] = importlib.import_module(pid.lower()).CHECK
        assert _loaded[pid].pid == pid
    return _loaded[pid]


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                out.append(line)
    return out


def finding_keys():
    """Keys [like-this] of the listed findings."""
    import re
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p):
        return set()
    return {m for line in open(p) if line.startswith("KNOWN-FINDING:") for m in re.findall(r"\[([\w.-]+)\]", line)}


FINDING_KEYS = finding_keys()


def save_replay(pid, sub, case, msg):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}_{sub}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub=sub, case=case, message=msg), f, indent=1, sort_keys=True)
    return path


def replay(pid, path):
    chk = load(pid)
    d = json.load(open(path))
    sub = next(s for s in chk.subs if s.name == d["sub"])
    c, bad = run_case(sub, d["case"])
    if bad is None:
        print(f"replay {path}: property held")
        return 0
    print(f"replay {path}: {bad[0]}: {bad[1]}")
    if bad[0] == "violation":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 2


def main(argv):
    pid = argv[0]
    mode = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if mode == "replay":
        return replay(pid, argv[2])
    only = argv[2] if len(argv) > 2 else None
    tier = "thorough" if mode == "thorough" else "quick"
    seedval = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = load(pid)
    subs = [s for s in chk.subs if only is None or s.name == only]
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "6000"))
    shrink_budget = 45 if tier == "quick" else 300
    ncpu = max(1, min(8, os.cpu_count() or 1))
    violations, errors = [], []

    # saved inputs first (seconds-long replay tier)
    ncorp = 0
    for path in sorted(glob.glob(os.path.join(ROOT, "corpus", pid, "*.json"))):
        d = json.load(open(path))
        sub = next((s for s in subs if s.name == d["sub"]), None)
        if sub is None:
            continue
        ncorp += 1
        c, bad = run_case(sub, d["case"])
        if bad is not None:
            if bad[0] == "violation":
                violations.append((sub.name, path, bad[1]))
            else:
                errors.append(bad[1])

    tasks = []
    for s in subs:
        n = s.quick if tier == "quick" else s.thorough
        shards = 1
        if tier == "quick":
            shards = max(1, min(4, n // 60)) if len(subs) < 8 else (2 if n >= 120 else 1)
        else:
            shards = max(1, min(32, n // 200))
        per = -(-n // shards)
        for k in range(shards):
            h = int(hashlib.sha1(f"{pid}:{s.name}:{seedval}:{k}".encode()).hexdigest()[:12], 16)
            tasks.append((pid, s.name, per, h, budget, shrink_budget))
    results = []
    if ncpu == 1 or len(tasks) == 1:
        results = [run_sub(t) for t in tasks]
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        with ctx.Pool(min(ncpu, len(tasks))) as pool:
            results = list(pool.imap_unordered(run_sub, tasks, chunksize=1))
    results.sort(key=lambda r: [t[1] for t in tasks].index(r["sub"]))

    hashes, labels, samples, per_sub = set(), {}, [], {}
    evaluations = ncorp
    truncated = []
    seen = set()
    for r in results:
        evaluations += r["evaluations"]
        hashes |= {(r["sub"], h) for h in r["hashes"]}
        ps = per_sub.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, wall_s=0.0, classes={}))
        ps["evaluations"] += r["evaluations"]
        ps["nontrivial"] += len(r["hashes"])
        ps["wall_s"] = round(ps["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            ps["classes"][k] = ps["classes"].get(k, 0) + v
        samples += r["samples"]
        if r["truncated"]:
            truncated.append(r["sub"])
        if r["error"]:
            errors.append(f"[{r['sub']}] " + r["error"])
        if r["failure"] and r["sub"] not in seen:
            seen.add(r["sub"])
            path = save_replay(pid, r["sub"], r["failure"]["case"], r["failure"]["msg"])
            violations.append((r["sub"], path, r["failure"]["msg"]))
    keep, cnt = [], {}
    for s in samples:
        if cnt.get(s["sub"], 0) < 2:
            cnt[s["sub"]] = cnt.get(s["sub"], 0) + 1
            keep.append(s)
    ev = dict(property=pid, tier=tier, seed=seedval, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=chk.rule,
                            samples=keep[:24], per_subcheck=per_sub, saved_inputs_replayed=ncorp,
                            stopped_on_time_budget=truncated),
              assumptions=chk.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if only is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    for s, p in sorted(per_sub.items()):
        print(f"  {s}: {p['evaluations']} cases, {p['nontrivial']} distinct non-trivial, {p['wall_s']} s"
              + (f", classes {p['classes']}" if p["classes"] else ""))
    for line in known_findings(pid):
        print(line)
    for name, path, msg in violations:
        print(f"--- {pid}/{name}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier} seed={seedval}: {evaluations} cases, {len(hashes)} non-trivial, "
          f"{len(violations)} violations, {round(time.time()-t0,1)} s")
    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR\n" + e)
        return 2
    if not any(r["evaluations"] for r in results):
        print("HARNESS ERROR: nothing was generated")
        return 2
    return 0


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
