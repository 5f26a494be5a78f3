"""Judge a (amp, time, chi2) answer against scanned reference curves."""
import numpy as np
from gens import *

TOL = 1e-7


def floors(r, chi0=None):
    """Rounding floor of any chi2 built from the FFT of this trace."""
    return 1e-12 * max(1.0, float(np.max(r.w)) * np.sum(np.abs(r.V)**2) * 1e-3) + 1e-9 * (r.chi0 if chi0 is None else chi0)


def usable(r):
    return bool(np.isfinite(r.norm)) and r.norm > 1e-12 * np.sum(r.wfull * np.abs(r.S0)**2)


def judge_scan(c, n, fs, a, chi, allowed, res, what, tolc, epsa, dirc=0, interp=False, empty=None):
    """res = (amp, t, chi2); a, chi = reference amplitude/chi2 at every delay bin (n//2 = unshifted);
    empty = (amp, t, chi2) expected if no bin is allowed."""
    amp, t0, chi2 = (c.num(v, what + " " + nm) for v, nm in zip(c.tup(res, 3, what), ("amplitude", "time", "chi2")))
    ascale = np.max(np.abs(a)) + 1e-300
    if dirc:
        sure = allowed[dirc * a[allowed] > epsa]
        maybe = allowed[dirc * a[allowed] > -epsa]
    else:
        sure = maybe = allowed
    c.nontrivial(len(sure) < n)
    if len(maybe) == 0 or (len(sure) == 0 and amp == 0.0):
        c.label("empty")
        c.close(amp, empty[0], 1, what + ": amplitude with no allowed bin", scale=0.0)
        c.close(t0, empty[1], 1, what + ": time with no allowed bin", scale=0.0)
        c.close(chi2, empty[2], 1, what + ": chi2 with no allowed bin", scale=tolc)
        return
    k = t0 * fs + n // 2
    ki = int(round(k))
    best = np.min(chi[sure]) if len(sure) else np.inf
    if not interp:
        c.ok(abs(k - ki) < 1e-6, f"{what}: time {t0} is not on the sample grid (bin {k})")
        c.ok(ki in maybe, f"{what}: returned bin {ki} is not an allowed bin {allowed.tolist()[:20]} (direction {dirc})")
        c.ok(chi[ki] <= best + tolc, f"{what}: bin {ki} has chi2 {chi[ki]!r}, allowed minimum is {best!r}")
        c.close(amp, a[ki], 1, what + ": amplitude", scale=TOL * ascale + epsa)
        c.close(chi2, chi[ki], 1, what + ": chi2", scale=tolc)
        c.nontrivial(ki != n // 2)
        return
    cands = [b for b in maybe if chi[b] <= best + tolc] if len(sure) else list(maybe)
    msgs = []
    for b in cands:
        m, p = chi[(b - 1) % n], chi[(b + 1) % n]
        am, ap = a[(b - 1) % n], a[(b + 1) % n]
        curv = m - 2 * chi[b] + p
        ongrid = (abs(k - b) < 1e-6 and abs(amp - a[b]) <= TOL * ascale + epsa and abs(chi2 - chi[b]) <= tolc)
        if min(m, p) >= chi[b] - tolc:
            if curv <= 20 * tolc or min(m, p) < chi[b] + tolc:
                c.label("flat")
                if ongrid or (abs(k - b) <= 1 + 1e-6 and chi2 <= chi[b] + 30 * tolc):
                    return
                msgs.append(f"flat bin {b}")
                continue
            d = -0.5 * (p - m) / curv
            wa = a[b] + 0.5 * (ap - am) * d + 0.5 * (am - 2 * a[b] + ap) * d * d
            wc = chi[b] + 0.5 * (p - m) * d + 0.5 * curv * d * d
            dtol = 1e-5 + 4 * tolc / curv
            if abs(k - b - d) <= dtol and abs(chi2 - wc) <= 10 * tolc \
                    and abs(amp - wa) <= 1e-5 * ascale + 4 * dtol * ascale + epsa:
                c.nontrivial()
                c.label("vertex-edge" if b in (0, n - 1) else "vertex")
                return
            msgs.append(f"bin {b}: parabola vertex at bin {b + d}, amp {wa}, chi2 {wc}")
        else:
            if ongrid:
                c.label("edge-grid")
                return
            msgs.append(f"bin {b} is not a local minimum, grid answer amp {a[b]}, chi2 {chi[b]}")
    c.fail(f"{what}: interpolated answer bin {k}, amp {amp}, chi2 {chi2}; expected one of: {msgs[:4]}")
