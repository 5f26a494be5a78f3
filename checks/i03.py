from harness import *
from gens import *
from ivsys import *
from qetpy import IV, IBIS
import i01, i02

CHECK = Check("I03", "Cases are random TES circuits and error sizes; errors are compared with a numerical first-order propagation through "
              "the defining formulas (quantities of each formula taken as independent); non-trivial = at least one non-zero error beyond the current's.",
              ["the quantities entering one formula are treated as independent, as the existing test pins for rnorm_err"])


def prop(f, vals, errs, scales=None):
    """first-order propagation with numerical derivatives (Richardson), independent inputs"""
    tot = 0.0
    for i, (v, e) in enumerate(zip(vals, errs)):
        h = 1e-4 * max(abs(v), scales[i] if scales else 1e-12)
        def at(k):
            q = list(vals)
            q[i] = v + k * h
            return f(*q)
        g = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
        tot = tot + (g * e)**2
    return np.sqrt(tot)


@CHECK.sub("ibis", i02.case(), quick=2400)
def ibis(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    kw, z = i02.make(x, d, noise=x["noise"] > 0)
    ib = IBIS(**kw)
    off = {}
    if "y" in x["given"]:
        off.update(yoff=d["ioff"][..., None].copy(), yoff_err=np.full((nt, nch, 1), 3e-8))
    if "x" in x["given"]:
        off.update(xoff=z["boff"][..., None].copy(), xoff_err=np.full((nt, nch, 1), 2e-7))
    ib.analyze(**off)
    c.nontrivial(x["berr"] > 0 or x["rsherr"] > 0)
    dit, ibi = z["dites"], z["ib"]
    rsh, rsherr = x["rsh"], x["rsherr"] * x["rsh"]
    rt = 2e-4
    for t in range(nt):
        for ch in range(nch):
            w = f"data set {t},{ch}: "
            s = d["dites_err"][t, ch]
            bn, mn, cn = line(ibi[t, ch, :x["nn"]], dit[t, ch, :x["nn"]], s[:x["nn"]])
            en, em = np.sqrt(cn[0, 0]), np.sqrt(cn[1, 1])
            got = lambda k: float(c.arr(getattr(ib, k), what=k)[t, ch])
            want = prop(lambda m, r: r / m, [mn, rsh], [em, rsherr])
            c.close(got("rfit_err"), want, rt, w + "rfit_err")
            if x["fitsc"]:
                bs, ms, cs = line(ibi[t, ch, n - x["ns"]:], dit[t, ch, n - x["ns"]:], s[n - x["ns"]:])
                es, ems = np.sqrt(cs[0, 0]), np.sqrt(cs[1, 1])
                rp = rsh / ms - rsh
                rperr = prop(lambda m, r: r / m - r, [ms, rsh], [ems, rsherr])
                v, e = [bn, mn, bs, ms], [en, em, es, ems]
                px = lambda a, b, p, q: (a - p) / (q - b)
                py = lambda a, b, p, q: b * (a - p) / (q - b) + a
                X, Y = px(*v), py(*v)
                Xe, Ye = prop(px, v, e), prop(py, v, e)
            else:
                rp, rperr = z["rp"][t, ch], 0.03 * z["rp"][t, ch]
                X, Y, Xe, Ye = 0.0, bn, 0.0, en
            if "y" in x["given"]:
                Y, Ye = d["ioff"][t, ch], 3e-8
            if "x" in x["given"]:
                X, Xe = z["boff"][t, ch], 2e-7
            c.close(got("rp_err"), rperr, rt, w + "rp_err")
            c.close(got("ioff_err"), Ye, 1, w + "ioff_err", scale=2e-3 * Ye)
            c.close(got("ibias_off_err"), Xe, 1, w + "ibias_off_err", scale=2e-3 * Xe)
            c.close(got("rnorm_err"), np.hypot(got("rfit_err"), got("rp_err")), 1e-9, w + "rnorm_err")
            # per point, from the values the object itself reports for the offsets (a nearly cancelling
            # intersection would only amplify rounding here)
            X, Y, rp = got("ibias_off"), got("ioff"), got("rp")
            Xe, Ye, rperr = got("ibias_off_err"), got("ioff_err"), got("rp_err")
            ie = d["ibias_err"][t, ch]
            g = lambda k: c.arr(getattr(ib, k), (nt, nch, n), k)[t, ch]
            c.close(g("ites_err"), np.hypot(s, Ye), 1e-6, w + "ites_err")
            c.close(g("ibias_true_err"), np.hypot(ie, Xe), 1e-6, w + "ibias_true_err")
            for k in range(n):
                vals = [ibi[t, ch, k], X, dit[t, ch, k], Y, rsh, rp]
                errs = [ie[k], Xe, s[k], Ye, rsherr, rperr]
                sc = [0, 0.1 * abs(vals[0] - X), 0, 0.1 * abs(vals[2] - Y), 0, 0.01 * rsh]
                rtes = lambda i, i0, y, y0, r, q: (i - i0) * r / (y - y0) - (r + q)
                pt = lambda i, i0, y, y0, r, q: (i - i0) * r * (y - y0) - (r + q) * (y - y0)**2
                if abs(vals[2] - Y) < 0.05 * abs(vals[2]) + 0.02 * abs(Y) or abs(vals[0] - X) < 0.02 * abs(X):
                    continue        # numerical derivatives would be too coarse
                c.close(g("r0_err")[k], prop(rtes, vals, errs, sc), 5e-3, w + f"r0_err of point {k}")
                a = prop(pt, vals, errs, sc)
                c.close(g("ptes_err")[k], a, 1, w + f"ptes_err of point {k}", scale=1e-3 * a)
                c.close(g("vb_err")[k], prop(lambda i, i0, r: (i - i0) * r, [vals[0], X, rsh], [ie[k], Xe, rsherr], [0, sc[1], 0]), 1e-4, w + "vb_err")


@CHECK.sub("ibis_scale", i02.case(), quick=1200)
def ibis_scale(c, x):
    """all errors scale linearly with the input errors; values do not depend on their overall size"""
    d = build(x)
    kw, z = i02.make(x, d, noise=True)
    f = 0.25
    kw2 = dict(kw, dites_err=kw["dites_err"] * f, ibias_err=kw["ibias_err"] * f, rsh_err=kw["rsh_err"] * f)
    if not x["fitsc"]:
        kw2["rp_err_guess"] = kw["rp_err_guess"] * f
    a, b = IBIS(**kw), IBIS(**kw2)
    a.analyze()
    b.analyze()
    c.nontrivial()
    for k in ("rp", "rnorm", "rfit", "r0", "ptes", "vb", "ites", "ibias_true"):
        u, v = c.arr(getattr(a, k)), c.arr(getattr(b, k))
        sc = np.max(np.abs(v)) + (x["rsh"] if k in ("rp", "r0") else 0)
        c.close(u, v, 1, k + " with smaller errors", scale=1e-5 * sc)
    for k in ("rp_err", "rnorm_err", "rfit_err", "r0_err", "ptes_err", "vb_err", "ites_err", "ibias_true_err", "ioff_err", "ibias_off_err"):
        u, v = c.arr(getattr(a, k)), c.arr(getattr(b, k))
        c.ok(np.all(u >= 0), k + " is negative")
        c.close(v, u * f, 1e-4, k + " scales with the input errors")


@CHECK.sub("iv", i01.case(), quick=2400)
def iv(c, x):
    d = build(x)
    nt, nch, n = d["dites"].shape
    rl, arg = i01.rload_of(x, d)
    x["inds"] = "range" if x["inds"] == "auto" else x["inds"]
    le = np.abs(np.asarray(arg)) * 0.07
    obj, ites, dites, vb, verr = i01.run_iv(c, x, d, rl, arg, rlerr=le if np.ndim(arg) else float(le), pad=x["pad"])
    c.nontrivial(x["berr"] > 0)
    for t in range(nt):
        for ch in range(nch):
            w = f"data set {t},{ch}: "
            s = d["dites_err"][t, ch]
            b, m, cov = line(vb[t, ch, :x["nn"]], dites[t, ch, :x["nn"]], s[:x["nn"]])
            lerr = 0.07 * rl[t, ch]
            rferr = prop(lambda q: 1 / q, [m], [np.sqrt(cov[1, 1])])
            c.close(float(obj.rfit_err[t, ch]), rferr, 2e-4, w + "rfit_err")
            c.close(float(obj.rnorm_err[t, ch]), np.hypot(rferr, lerr), 2e-4, w + "rnorm_err")
            be = np.sqrt(cov[0, 0])
            c.close(float(obj.ioff_err[t, ch]), be, 2e-4, w + "ioff_err")
            for k in range(n):
                I, V, L = ites[t, ch, k], vb[t, ch, k], rl[t, ch]
                ie = np.hypot(s[k], be)
                e = [verr[t, ch, k], ie, lerr]
                c.close(obj.ites_err[t, ch, k], ie, 2e-4, w + "ites_err")
                c.close(obj.r0_err[t, ch, k], prop(lambda v, i, l: v / i - l, [V, I, L], e), 1e-3, w + f"r0_err of point {k}")
                c.close(obj.ptes_err[t, ch, k], prop(lambda v, i, l: i * v - i * i * l, [V, I, L], e), 1e-3, w + f"ptes_err of point {k}")
