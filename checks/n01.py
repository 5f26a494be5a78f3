from harness import *
from gens import *
from nsmb import *
import qetpy as qp

CHECK = Check("N01", "Cases are a trace, signal template, 1-4 background templates (flat, slope, pulses, random), PSD, "
              "search window and low-frequency index; non-trivial = a well-conditioned joint fit was compared.",
              ["the PSD value at DC is replaced by the one of the first bin (documented in of_nsmb_setup)"])


def bins_of(t, fs, n, c, what):
    k = c.num(t, what) * fs
    c.ok(abs(k - round(k)) < 1e-6 * n, f"{what}: {k} bins is not on the grid")
    return int(round(k))


@CHECK.sub("joint", system(), quick=4500)
def joint(c, x):
    z = Sys(x)
    n, fs = z.n, z.fs
    nb = z.bt.shape[1]
    out = c.tup(z.setup(), 12, "of_nsmb_setup")
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = out
    c.ok(ns_ == 1 and nb_ == nb, f"counts {ns_}, {nb_}")
    c.close(sbt, np.column_stack([z.s, z.bt]), 1e-12, "time-domain template matrix")
    c.close(c.arr(sbf, (n, nb + 1), real=False), fft(np.column_stack([z.s, z.bt]), axis=0) / n, 1e-12, "frequency-domain template matrix")
    iP = qp.of_nsmb_getiP(P)
    idx = window_of(x)
    win = np.unique(np.mod(idx, n))
    res = c.tup(qp.of_nsmb(z.y, phi, sbf.T, sbt, iP, psddnu.T, fs, [idx.copy()], ns_, nb_, bitcomb, lfindex=x["lf"]), 5, "of_nsmb")
    amps = c.arr(res[0], (nb + 1,), "amplitudes")
    k = bins_of(res[1], fs, n, c, "delay")
    c.ok(-n // 2 <= k <= n // 2, f"delay {k} bins outside half a trace")
    d = k % n
    c.ok(d in win, f"delay bin {d} is outside of the search window {win.tolist()[:30]}")
    tol = 1e-8 * z.full + 1e-13 * np.max(z.w) * np.sum(np.abs(z.Y)**2)
    ref = [z.lsq(q) for q in win]
    cond = max(r[2] for r in ref)
    chi2 = c.num(res[2], "chi2")
    if cond > 1e5:
        c.label("degenerate")
        tol = 1e-4 * z.full + 1e-9 * np.max(z.w) * np.sum(np.abs(z.Y)**2)
    else:
        c.nontrivial()
        a, chi, _ = z.lsq(d)
        A = np.linalg.norm(z.design(d), axis=0)
        c.close(amps * A, a * A, 1e-6 * cond**0.5 * (1 + 1e-4 * cond), "joint amplitudes vs least squares", scale=np.max(np.abs(a * A)) + 1e-9 * np.linalg.norm(z.y))
    best = min(r[1] for r in ref)
    c.close(chi2, z.chi2(amps, d), 1, "reported chi2 vs residual of the returned amplitudes", scale=tol)
    c.ok(abs(chi2 - best) <= tol, f"chi2 {chi2!r} is not the smallest in the window ({best!r})")
    fit = z.design(d) @ amps
    c.close(c.arr(res[4], (1, n), "residual")[0], z.y - fit, 1e-7, "residual trace", scale=np.max(np.abs(z.y)) + np.max(np.abs(fit)))
    c.close(c.num(res[3], "low-frequency chi2"), z.chi2(amps, d, min(x["lf"], n)), 1, "low-frequency chi2", scale=tol)
    c.label(x["win"])
    c.label(f"{nb} bg")


@CHECK.sub("background", system(), quick=4500)
def background(c, x):
    z = Sys(x)
    n, fs = z.n, z.fs
    nb = z.bt.shape[1]
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = z.setup()
    Bw = fft(z.bt, axis=0)
    Bref = np.real(Bw.conj().T @ (Bw * z.w[:, None]))
    c.close(c.arr(B, (nb, nb), "background matrix"), Bref, 1e-9, "background matrix")
    res = c.tup(qp.of_mb(z.y, phi, sbf.T, sbt, iB, B, psddnu.T, fs, ns_, nb_, lfindex=x["lf"]), 3, "of_mb")
    amps = c.arr(res[0], (nb,), "background amplitudes")
    a, chi, cond = z.lsq(None)
    tol = 1e-8 * z.full + 1e-13 * np.max(z.w) * np.sum(np.abs(z.Y)**2)
    if cond > 1e5:
        c.label("degenerate")
        tol = 1e-4 * z.full + 1e-9 * np.max(z.w) * np.sum(np.abs(z.Y)**2)
    else:
        c.nontrivial()
        A = np.linalg.norm(z.bt, axis=0)
        c.close(amps * A, a * A, 1e-6 * cond**0.5 * (1 + 1e-4 * cond), "background amplitudes vs least squares", scale=np.max(np.abs(a * A)) + 1e-9 * np.linalg.norm(z.y))
    c.close(c.num(res[1]), z.chi2(amps, None), 1, "chi2 vs residual of the returned amplitudes", scale=tol)
    c.close(c.num(res[1]), chi, 1, "chi2 vs least squares", scale=tol)
    c.close(c.num(res[2]), z.chi2(amps, None, min(x["lf"], n)), 1, "low-frequency chi2", scale=tol)


@CHECK.sub("getpt", system(nmax=24), quick=1200)
def getpt(c, x):
    """the masked matrices at one delay are the corresponding normal-equation matrices"""
    z = Sys(x)
    n = z.n
    nb = z.bt.shape[1]
    psddnu, phi, Pfs, P, sbf, sbt, iB, B, ns_, nb_, bitcomb, lfi = z.setup()
    c.ok(len(bitcomb) == 2**(nb + 1) and len({tuple(b) for b in bitcomb}) == 2**(nb + 1), "mask combinations")
    comb = x["seed"] % (2**(nb + 1) - 1) + 1
    mask = np.array(bitcomb[comb])
    d = x["k"]
    T = fft(z.design(d), axis=0)
    full = np.real(T.conj().T @ (T * z.w[:, None]))
    keep = np.flatnonzero(mask)
    c.nontrivial(len(keep) < nb + 1)
    sc = np.sqrt(np.outer(np.diag(full), np.diag(full)))
    got, inv = c.tup(qp.of_nsmb_getPt(Pfs, P, combind=comb, bindelay=d, bitcomb=bitcomb), 2)
    c.close(c.arr(got, (len(keep), len(keep))), full[np.ix_(keep, keep)], 1e-9, "masked matrix", scale=np.max(sc))
    got2, _ = qp.of_nsmb_getPt(Pfs, P, bindelay=d, bitmask=mask)
    c.close(got2, got, 1e-12, "mask given directly")
    c.close(c.arr(P, (nb + 1, nb + 1, n))[:, :, d], full, 1e-9, "P at the delay", scale=np.max(sc))
    c.close(got @ inv @ got, got, 1e-6, "pseudo-inverse")
