from harness import *
from gens import *
from nsmb import *
import qetpy as qp

CHECK = Check("N02", "Cases are multi-background systems with polarity vectors and extra search windows; non-trivial = at least "
              "one amplitude is constrained and its unconstrained value violates the constraint at some searched delay.")


@st.composite
def case(draw, nbmax=4):
    x = draw(system(nmax=32, nbmax=nbmax))
    nb = len(x["bg"])
    x["pol"] = [draw(st.sampled_from([0, 1, -1])) for _ in range(nb + 1)]
    x["nopol"] = draw(st.sampled_from(["given", "given", "given", "none"]))
    if draw(st.sampled_from([0, 0, 0, 1])):
        x["pol"] = [draw(st.sampled_from([0, 1, -1]))] + [1] * nb
    x["wins"] = [draw(st.tuples(st.integers(0, x["n"] - 1), st.integers(1, x["n"]))) for _ in range(draw(st.integers(0, 2)))]
    x["gaps"] = [draw(st.sampled_from([None, None, 2, 3, "hole", "random"])) for _ in x["wins"]]
    return x


def extra_windows(x):
    out = []
    for (a, b), g in zip(x["wins"], x["gaps"]):
        w = np.arange(a, min(x["n"], a + b))
        if g == "hole":
            w = np.concatenate([w[:len(w) // 3 + 1], w[2 * len(w) // 3 + 1:]])
        elif g == "random":
            m = np.random.RandomState(x["wseed"]).rand(len(w)) < 0.5
            m[0] = True
            w = w[m]
        elif g:
            w = w[::g]
        out.append(w)
    return out


def tolerance(z):
    return 1e-8 * z.full + 1e-13 * np.max(z.w) * np.sum(np.abs(z.Y)**2)


def heuristic(z, d, pol):
    """chi2 of the two gradient passes and the repeated zeroing that of_nsmb_con documents, for small variations of what counts as the wrong sign"""
    A = fft(z.design(d), axis=0) * np.sqrt(z.w)[:, None]
    b = z.Y * np.sqrt(z.w)
    sc = np.linalg.norm(A, axis=0)
    sc[sc == 0] = 1
    A = A / sc
    G, q = np.real(A.conj().T @ A), np.real(A.conj().T @ b)
    def fit(keep):
        a = np.zeros(len(q))
        if keep.any():
            a[keep] = np.linalg.lstsq(G[np.ix_(keep, keep)], q[keep], rcond=1e-12)[0]
        return a
    out = []
    for e in (0.0, 1e-9, -1e-9):
        bad = lambda v: (pol != 0) & (v * pol < e * np.sqrt(z.full))
        a0 = a = fit(np.ones(len(q), bool))
        keep = np.ones(len(q), bool)
        for _ in range(2):
            w = bad(a)
            keep = ~(w & bad(G @ (a0 - np.where(w, 0, a))))
            a = fit(keep)
        for _ in range(2 * len(q)):
            w = ~bad(a) & (a != 0) if e > 0 else ~bad(a)
            if np.array_equal(w, keep):
                break
            keep = w
            a = fit(keep)
        r = b - A @ a
        out.append(float(np.sum(np.abs(r)**2)))
    return max(out)


def signs(c, amps, pol, z, d, what):
    sc = np.linalg.norm(z.y) / np.linalg.norm(z.design(d), axis=0)
    for i, (a, p) in enumerate(zip(amps, pol)):
        if p:
            c.ok(a * p >= -1e-12 * sc[i], f"{what}: amplitude {i} is {a}, polarity constraint {p}")


def curv_of(m, z0, p):
    return m[0][0] - 2 * z0[0][0] + p[0][0]


@CHECK.sub("signal", case(), quick=2000)
def signal(c, x):
    z = Sys(x)
    n, fs = z.n, z.fs
    nb = z.bt.shape[1]
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = z.setup()
    raw = window_of(x)
    idx = np.unique(np.mod(raw, n))[None, :]
    extra = extra_windows(x)
    given = x["nopol"] == "given"
    pol = np.array(x["pol"]) if given else np.zeros(nb + 1, int)
    res = c.tup(qp.of_nsmb_con(z.y, phi, Pfs, P, sbf.T, sbt, psddnu.T, fs, [raw] + extra, ns_, nb_, bitcomb, lfindex=x["lf"],
                               bkgpolarityconstraint=pol[1:] if given else None,
                               sigpolarityconstraint=pol[:1] if given else None), 14, "of_nsmb_con")
    amps = c.arr(res[0], (nb + 1,), "amplitudes")
    k = c.num(res[1], "delay") * fs
    c.ok(abs(k - round(k)) < 1e-6 * n, "delay is not on the grid")
    d = int(round(k)) % n
    c.ok(d in idx, f"delay bin {d} outside the window")
    signs(c, amps, pol, z, d, "joint fit")
    free = {q: z.lsq(q) for q in range(n)}
    cond = max(f[2] for f in free.values())
    if cond > 1e5:
        return c.label("degenerate")
    tol = tolerance(z)
    con = {q: (free[q] if np.all(free[q][0] * pol >= 0) else z.lsq(q, pol)) for q in range(n)}
    nviol = sum(bool(np.any(free[q][0] * pol < 0)) for q in idx[0])
    c.nontrivial(nviol)
    c.label("violating" if nviol else "compatible")
    chi2 = c.num(res[2], "chi2")
    c.close(chi2, z.chi2(amps, d), 1, "reported chi2 vs residual of the returned amplitudes", scale=tol)
    c.close(c.num(res[3]), z.chi2(amps, d, min(n, x["lf"])), 1, "low-frequency chi2", scale=tol)
    c.close(c.arr(res[4], (1, n))[0], z.y - z.design(d) @ amps, 1e-7, "residual trace", scale=2 * np.max(np.abs(z.y)))
    best = min(con[q][1] for q in idx[0])
    c.ok(chi2 >= best - tol, f"chi2 {chi2} below the constrained optimum {best}")
    if chi2 > best + tol:
        msg = f"chi2 {chi2} above the constrained optimum {best} over the window"
        if nb < 2:
            c.fail(msg)
        c.fail_known("nsmb-suboptimal", msg)
        c.ok(chi2 <= 3 * best + 0.1 * z.full or chi2 <= min(heuristic(z, q, pol) for q in idx[0]) + tol, msg)
    else:
        c.label("optimal")
    if nviol == 0:
        c.close(chi2, min(free[q][1] for q in idx[0]), 1, "constraints satisfied by the free fit, chi2", scale=tol)
        c.close(chi2, free[d][1], 1, "free fit at the returned delay", scale=tol)
        A = np.linalg.norm(z.design(d), axis=0)
        c.close(amps * A, free[d][0] * A, 1e-6 * cond**0.5 * (1 + 1e-4 * cond), "free amplitudes",
                scale=np.max(np.abs(free[d][0] * A)) + 1e-9 * np.linalg.norm(z.y))
    # interpolation
    ti, ci = c.num(res[9], "interpolated delay") * fs, c.num(res[10], "interpolated chi2")
    c.num(res[8], "interpolated amplitude")
    c.ok(abs((ti - k + n / 2) % n - n / 2) <= 1 + 1e-6, f"interpolated delay {ti} is not within one bin of {k}")
    c.ok(ci <= chi2 + tol, f"interpolated chi2 {ci} is above the grid chi2 {chi2}")
    ai = c.num(res[8], "interpolated amplitude")
    if not any(np.any(free[q][0] * pol < 0) for q in range(n)):
        m, z0, p = (free[(d + q) % n] for q in (-1, 0, 1))
        curv = m[1] - 2 * z0[1] + p[1]
        if min(m[1], p[1]) > z0[1] + 2 * tol and curv > 1e4 * tol:
            v = 0.5 * (m[1] - p[1]) / curv
            wa = z0[0][0] + 0.5 * (p[0][0] - m[0][0]) * v + 0.5 * curv_of(m, z0, p) * v * v
            tt = 1e-5 + 4 * tol / curv
            c.close((ti - k - v + n / 2) % n - n / 2, 0.0, 1, "vertex of the chi2 parabola", scale=tt)
            c.close(ci, z0[1] - 0.125 * (m[1] - p[1])**2 / curv, 1, "chi2 at the vertex", scale=100 * tol)
            c.close(ai, wa, 1, "amplitude at the vertex", scale=1e-5 * cond * max(abs(m[0][0]), abs(z0[0][0]), abs(p[0][0]))
                    + 4 * tt * (abs(m[0][0]) + abs(p[0][0]) + abs(z0[0][0])) + 1e-9 * np.linalg.norm(z.y) / np.linalg.norm(z.s))
            c.label("vertex")
        elif min(m[1], p[1]) < z0[1] - 2 * tol:
            c.ok(abs(ti - k) < 1e-6 and abs(ci - chi2) <= tol, f"bin {k} is not a local minimum, but the interpolated answer is {ti}, {ci}")
            c.label("not a minimum")
    # additional windows, counted from the start of the trace (the template starts in the middle)
    nw = len(extra)
    aw, cw, tw = c.arr(res[5], (1, nw), "window amplitudes"), c.arr(res[6], (nw,), "window chi2"), c.arr(res[7], (nw,), "window times")
    awi, cwi, twi = (c.arr(res[q], sh) for q, sh in ((11, (1, nw)), (12, (nw,)), (13, (nw,))))
    for i, w in enumerate(extra):
        b = int(round(tw[i] * fs))
        c.ok(abs(tw[i] * fs - b) < 1e-6 * n and b in w, f"window {i}: time bin {tw[i] * fs} is not in the window {w[0]}..{w[-1]}")
        dd = (b - n // 2) % n
        bestw = min(con[(q - n // 2) % n][1] for q in w)
        c.ok(cw[i] >= bestw - tol, f"window {i}: chi2 {cw[i]} below the optimum {bestw}")
        if cw[i] > bestw + tol:
            msg = f"window {i}: chi2 {cw[i]} above the optimum {bestw}"
            if nb < 2:
                c.fail(msg)
            c.fail_known("nsmb-suboptimal", msg)
            c.ok(cw[i] <= 3 * bestw + 0.1 * z.full or cw[i] <= min(heuristic(z, (q - n // 2) % n, pol) for q in w) + tol, msg)
        elif abs(con[dd][1] - cw[i]) <= tol:
            A = np.linalg.norm(z.s)
            c.close(aw[0, i] * A, con[dd][0][0] * A, 1e-5 * cond**0.5 * (1 + 1e-4 * cond), f"window {i}: signal amplitude",
                    scale=np.max(np.abs(con[dd][0] * np.linalg.norm(z.design(dd), axis=0))) + 1e-9 * np.linalg.norm(z.y))
        else:
            c.fail(f"window {i}: chi2 {cw[i]} is not the one of the returned bin ({con[dd][1]})")
        c.ok(aw[0, i] * pol[0] >= 0, f"window {i}: signal amplitude {aw[0, i]} violates polarity {pol[0]}")
        at = int(np.flatnonzero(w == b)[0])
        near = w[max(at - 1, 0):at + 2]
        c.ok(near[0] - 1e-6 <= twi[i] * fs <= near[-1] + 1e-6, f"window {i}: interpolated time {twi[i] * fs} vs bin {b}")
        c.ok(cwi[i] <= cw[i] + tol, f"window {i}: interpolated chi2 above the grid one")
        ong = abs(twi[i] * fs - b) < 1e-6 * n and abs(cwi[i] - cw[i]) <= tol
        if ong:
            c.close(awi[0, i], aw[0, i], 1e-6, f"window {i}: amplitude at the grid bin", scale=abs(aw[0, i]) + 1e-9 * np.linalg.norm(z.y) / np.linalg.norm(z.s))
        if not any(np.any(free[q][0] * pol < 0) for q in range(n)):
            m, z0, p = (free[(dd + q) % n] for q in (-1, 0, 1))
            curv = m[1] - 2 * z0[1] + p[1]
            if b in (w[0], w[-1]) and ong:
                c.label("window edge")
            elif near[-1] - near[0] != 2:
                c.label("window gap")
            elif min(m[1], p[1]) > z0[1] + 2 * tol and curv > 1e4 * tol:
                v = 0.5 * (m[1] - p[1]) / curv
                tt = 1e-5 + 4 * tol / curv
                c.close(twi[i] * fs - b - v, 0.0, 1, f"window {i}: vertex of the chi2 parabola (bin {b} of {w[0]}..{w[-1]})", scale=tt)
                c.close(cwi[i], z0[1] - 0.125 * (m[1] - p[1])**2 / curv, 1, f"window {i}: chi2 at the vertex", scale=100 * tol)
                c.close(awi[0, i], z0[0][0] + 0.5 * (p[0][0] - m[0][0]) * v + 0.5 * curv_of(m, z0, p) * v * v, 1, f"window {i}: amplitude at the vertex",
                        scale=1e-5 * cond * max(abs(m[0][0]), abs(z0[0][0]), abs(p[0][0]))
                        + 4 * tt * (abs(m[0][0]) + abs(p[0][0]) + abs(z0[0][0])) + 1e-9 * np.linalg.norm(z.y) / np.linalg.norm(z.s))
                c.label("window vertex")
            elif min(m[1], p[1]) < z0[1] - 2 * tol:
                c.ok(ong, f"window {i}: bin {b} is not a local minimum, but the interpolated answer is {twi[i] * fs}, {cwi[i]}")
        c.label("window")


@CHECK.sub("background", case(nbmax=5), quick=6000)
def background(c, x):
    z = Sys(x)
    nb = z.bt.shape[1]
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = z.setup()
    pol = np.array(x["pol"][1:])
    a, chi, cond = z.lsq(None)
    res = c.tup(qp.of_mb(z.y, phi, sbf.T, sbt, iB, B, psddnu.T, z.fs, ns_, nb_, lfindex=x["lf"], bkgpolarityconstraint=pol), 3)
    amps = c.arr(res[0], (nb,), "background amplitudes")
    signs(c, amps, pol, z, None, "background fit")
    if cond > 1e5:
        return c.label("degenerate")
    tol = tolerance(z)
    chi2 = c.num(res[1])
    c.close(chi2, z.chi2(amps, None), 1, "chi2 vs residual of the returned amplitudes", scale=tol)
    c.close(c.num(res[2]), z.chi2(amps, None, min(z.n, x["lf"])), 1, "low-frequency chi2", scale=tol)
    bad = bool(np.any(a * pol < 0))
    c.nontrivial(bad)
    c.label("violating" if bad else "compatible")
    if not bad:
        c.close(chi2, chi, 1, "free fit satisfies the constraints", scale=tol)
    else:
        best = z.lsq(None, pol)[1]
        c.ok(chi2 >= best - tol, "chi2 below the constrained optimum")
        # the kept amplitudes are the least-squares ones given the zeroed ones
        keep = amps != 0
        g = np.real(fft(z.bt, axis=0).conj().T @ (z.w * fft(z.y - z.bt @ amps)))
        sc = np.sqrt(np.real(np.sum(np.abs(fft(z.bt, axis=0))**2 * z.w[:, None], axis=0)) * z.full)
        c.close(g[keep], 0 * g[keep], 1, "gradient along the kept backgrounds", scale=1e-6 * cond**0.5 * sc[keep] + 1e-12)
        if chi2 > best + tol:
            if nb < 2:
                c.fail(f"chi2 {chi2} above the constrained optimum {best}")
            c.fail_known("nsmb-suboptimal", "of_mb above the constrained optimum")
