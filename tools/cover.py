"""Which lines of qetpy do the checks execute?  python tools/cover.py [N per sub] [IDs...]  (development aid)"""
import sys, os, ast, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
seen = {}
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, "cov")
def line(code, ln):
    f = code.co_filename
    if f.startswith("/repo/qetpy"):
        seen.setdefault(f, set()).add(ln)
    return mon.DISABLE
mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
import harness
from concurrent.futures import ProcessPoolExecutor
N = int(sys.argv[1]) if len(sys.argv) > 1 else 30
ids = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(harness.ROOT, "checks")) if f.endswith(".py"))
def work(a):
    r = harness.run_sub(a)
    return {k: sorted(v) for k, v in seen.items()}, a[:2], r["error"], r["failure"]
def main():
    tot = {}
    jobs = [(i, s.name, min(N, s.quick), 5, 600, 5) for i in ids for s in harness.load(i).subs]
    for k, v in seen.items():
        tot.setdefault(k, set()).update(v)
    with ProcessPoolExecutor(8) as ex:
        for cov, who, err, fail in ex.map(work, jobs):
            if err or fail:
                print(who, (err or str(fail))[-300:])
            for k, v in cov.items():
                tot.setdefault(k, set()).update(v)
    for f in sorted(tot):
        src = open(f).read()
        code = compile(src, f, "exec")
        lines = set()
        def walk(c):
            lines.update(l for _, _, l in c.co_lines() if l)
            for k in c.co_consts:
                if hasattr(k, "co_lines"):
                    walk(k)
        walk(code)
        # docstrings are lines of their own
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                lines -= set(range(n.lineno, n.end_lineno + 1))
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                lines.discard(n.lineno)
        miss = sorted(lines - tot[f])
        out, i = [], 0
        while i < len(miss):
            j = i
            while j + 1 < len(miss) and miss[j + 1] - miss[j] <= 2:
                j += 1
            out.append(f"{miss[i]}-{miss[j]}" if j > i else str(miss[i]))
            i = j + 1
        print(f"{f[len('/repo/'):]}: {len(lines)-len(miss)}/{len(lines)}", ", ".join(out))
if __name__ == "__main__":
    main()
