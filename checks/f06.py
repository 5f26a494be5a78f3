from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter, ofamp, ofamp_pileup_stationary

CHECK = Check("F06", "Cases are systems plus a transformation (exact scaled shifted template, trace/PSD/template scale, "
              "rotation, sample-rate change, integral normalisation); non-trivial = the transformation is not the identity.")


@st.composite
def case(draw):
    x = draw(of_system(nmin=5))
    x["tr"][0]["sig"] = max(x["tr"][0]["sig"], 0.1)
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["A"] = draw(signed(logfl(1e-3, 1e3)))
    x["k"] = draw(st.integers(-(x["n"] // 2), x["n"] - 1 - x["n"] // 2))
    x["c"] = draw(signed(logfl(1e-3, 1e3)))
    x["pf"] = draw(logfl(1e-3, 1e3))
    x["ff"] = draw(logfl(1e-2, 1e2))
    x["const"] = draw(signed(fl(0, 30)))
    x["dir"] = draw(st.sampled_from([0, 0, 1, -1]))
    return x


def uniq(r, n, ac=False):
    S = r.shifts()
    w = r.w.copy()
    if ac:
        w[0] = 0
    corr = np.real(S @ (w * S[n // 2].conj())) / np.sum(w * np.abs(r.S0)**2)
    corr[n // 2] = 0
    return np.max(np.abs(corr)) < 1 - 1e-6


@CHECK.sub("exact", case(), quick=2000)
def exact(c, x):
    """a scaled shifted template is found exactly"""
    t, p = of_template(x), of_psd(x)
    n, fs, k = x["n"], x["fs"], x["k"]
    A = x["A"] * x["unit"]
    s = A * np.roll(t, k)
    if x["coupling"] == "AC":
        s = s + x["const"] * A
    r = Ref(s, t, p, fs, x["coupling"])
    if not usable(r) or not uniq(r, n) or r.norm < 1e-6 * np.sum(r.wfull * np.abs(r.S0)**2):
        return c.label("degenerate")
    c.nontrivial(k != 0)
    full = A**2 * np.sum(r.wfull * np.abs(r.S0)**2) * (1 + x["const"]**2 * n)
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    d = int(np.sign(A)) if x["dir"] else 0
    outs = [("withdelay", of.ofamp_withdelay(pulse_direction_constraint=d)), ("ofamp", ofamp(s, t, p, fs, coupling=x["coupling"])),
            ("window", of.ofamp_withdelay(nconstrain=1, windowcenter=k)),
            ("nodelay", (lambda q: (q[0], k / fs, q[1]))(of.ofamp_nodelay(windowcenter=k)))]
    S = r.shifts()
    D = fft(np.ones(n)) / fs
    cd = np.max(np.real(S @ (r.wfull * D.conj()))**2) / (np.sum(r.wfull * np.abs(r.S0)**2) * np.sum(r.wfull * np.abs(D)**2))
    if 1 - cd > 1e-4 and uniq(r, n, True):
        outs.append(("baseline", of.ofamp_baseline()))
    for what, (a, t0, chi2) in outs:
        c.close(c.num(t0) * fs, float(k), 1, what + ": time of an exact shifted template (bins)", scale=1e-6)
        c.close(c.num(a), A, 1e-6, what + ": amplitude of an exact shifted template")
        c.close(c.num(chi2), 0.0, 1, what + ": chi2 of an exact shifted template", scale=1e-9 * full / max(1e-9, 1 - cd) if what == "baseline" else 1e-9 * full)
    # with the first pulse removed nothing is left
    a2, t2, chi2 = of.ofamp_pileup_iterative(A, k / fs)
    c.close(c.num(a2), 0.0, 1, "second pulse of a single-pulse trace", scale=1e-5 * abs(A) * (1 + abs(x["const"])))
    c.close(c.num(chi2), 0.0, 1, "chi2 of both pulses", scale=1e-9 * full)


@CHECK.sub("twoexact", case(), quick=800)
def twoexact(c, x):
    """two exact template pulses are both found"""
    t, p = of_template(x), of_psd(x)
    n, fs = x["n"], x["fs"]
    k = x["k"]
    if k == 0:
        k = 1
    A, B = x["A"] * x["unit"], 0.7 * abs(x["A"]) * x["unit"]
    s = A * t + B * np.roll(t, k)
    r = Ref(s, t, p, fs, x["coupling"])
    S = r.shifts()
    corr = np.real(S @ (r.w * S[n // 2].conj())) / max(r.norm, 1e-300)
    corr[n // 2] = 0
    if not usable(r) or np.max(np.abs(corr)) > 0.999 or r.norm < 1e-6 * np.sum(r.wfull * np.abs(r.S0)**2):
        return c.label("degenerate")
    c.nontrivial()
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    for what, q in (("object", of.ofamp_pileup_stationary()),
                    ("function", ofamp_pileup_stationary(s, t, p, fs, coupling=x["coupling"]))):
        a1, a2, t2, chi2 = (c.num(v) for v in c.tup(q, 4))
        c.close(r.chi2((a1, 0.0), (a2, t2)), 0.0, 1, what + ": residual of the two returned pulses", scale=1e-8 * r.chi0)
        c.close(chi2, 0.0, 1, what + ": chi2", scale=1e-8 * (A**2 + B**2) * r.norm + 1e-8 * r.chi0)
    a2, t2, chi2 = of.ofamp_pileup_iterative(A, 0.0)
    c.close(c.num(t2) * fs, float(k), 1, "second time", scale=1e-6)
    c.close(c.num(a2), B, 1e-6, "second amplitude", scale=abs(A) + B)


@CHECK.sub("scaling", case(), quick=2000)
def scaling(c, x):
    t, p, (s,) = of_build(x)
    n, fs = x["n"], x["fs"]
    r = Ref(s, t, p, fs, x["coupling"])
    if not usable(r) or r.norm < 1e-6 * np.sum(r.wfull * np.abs(r.S0)**2):
        return c.label("degenerate")
    a, chi = r.scan()
    q = np.sort(chi)
    tol = TOL * r.chi0 + floors(r)
    if len(q) > 1 and q[1] - q[0] < 10 * tol:
        return c.label("tie")
    k = x["k"]
    cc = x["c"]
    base = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    a0, t0, c0 = (c.num(v) for v in base.ofamp_withdelay())
    n0, nc0 = (c.num(v) for v in base.ofamp_nodelay())
    e0 = c.num(base.energy_resolution())
    tr0 = c.num(base.time_resolution(a0))
    asc = np.max(np.abs(a))
    ta = 1e-6 * asc + 1e-6 * np.sqrt(tol / r.norm)
    c.nontrivial()
    # trace scale
    o = OptimumFilter(cc * s, t, p, fs, coupling=x["coupling"])
    A, T, C = o.ofamp_withdelay()
    c.close(c.num(T), t0, 1, "time of a scaled trace", scale=1e-6 / fs)
    c.close(c.num(A), cc * a0, 1, "amplitude of a scaled trace", scale=abs(cc) * ta)
    c.close(c.num(C), cc**2 * c0, 1, "chi2 of a scaled trace", scale=cc**2 * tol)
    c.close(c.num(o.energy_resolution()), e0, 1e-9, "resolution does not depend on the trace")
    # rotation
    o = OptimumFilter(np.roll(s, k), t, p, fs, coupling=x["coupling"])
    A, T, C = (c.num(v) for v in o.ofamp_withdelay())
    d = (T - t0) * fs - k
    c.close(d / n, float(np.round(d / n)), 1, "rotation of the trace moves the time by the rotation", scale=1e-6)
    c.close(A, a0, 1, "amplitude of a rotated trace", scale=ta)
    c.close(C, c0, 1, "chi2 of a rotated trace", scale=tol)
    # psd scale
    o = OptimumFilter(s, t, x["pf"] * p, fs, coupling=x["coupling"])
    A, T, C = o.ofamp_withdelay()
    c.close(c.num(T), t0, 1, "time for a scaled PSD", scale=1e-6 / fs)
    c.close(c.num(A), a0, 1, "amplitude for a scaled PSD", scale=ta)
    c.close(c.num(C), c0 / x["pf"], 1, "chi2 for a scaled PSD", scale=tol / x["pf"])
    c.close(c.num(o.energy_resolution()), e0 * np.sqrt(x["pf"]), 1e-8, "resolution for a scaled PSD")
    c.close(c.num(o.time_resolution(a0)), tr0 * np.sqrt(x["pf"]), 1e-8, "time resolution for a scaled PSD")
    # template scale
    o = OptimumFilter(s, cc * t, p, fs, coupling=x["coupling"])
    A, T, C = o.ofamp_withdelay()
    c.close(c.num(A), a0 / cc, 1, "amplitude for a scaled template", scale=ta / abs(cc))
    c.close(c.num(C), c0, 1, "chi2 for a scaled template", scale=tol)
    c.close(c.num(o.energy_resolution()), e0 / abs(cc), 1e-8, "resolution for a scaled template")
    # sample rate: same samples, same per-bin noise variance -> same chi2 and amplitude, times scale
    f = x["ff"]
    o = OptimumFilter(s, t, p / f, fs * f, coupling=x["coupling"])
    A, T, C = o.ofamp_withdelay()
    c.close(c.num(T), t0 / f, 1, "time at another sample rate", scale=1e-6 / fs / f)
    c.close(c.num(A), a0, 1, "amplitude at another sample rate", scale=ta)
    c.close(c.num(C), c0, 1, "chi2 at another sample rate", scale=tol)
    c.close(c.num(o.energy_resolution()), e0, 1e-8, "resolution at another sample rate")
    c.close(c.num(o.time_resolution(a0)), tr0 / f, 1e-8, "time resolution at another sample rate")


@CHECK.sub("resolution", case(), quick=1500)
def resolution(c, x):
    t, p, (s,) = of_build(x)
    n, fs = x["n"], x["fs"]
    r = Ref(s, t, p, fs, x["coupling"])
    if not usable(r) or r.norm < 1e-6 * np.sum(r.wfull * np.abs(r.S0)**2):
        return c.label("degenerate")
    A = x["A"] * x["unit"]
    of = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    c.nontrivial()
    # one sigma away from the best amplitude chi2 grows by one
    e = c.num(of.energy_resolution())
    c.ok(e > 0, "resolution is positive")
    q = Ref(A * t, t, p, fs, x["coupling"])
    c.close(q.chi2((A + e, 0.0)), 1.0, 1, "chi2 increase one resolution away from the amplitude",
            scale=1e-6 + 1e-13 * q.chi0)
    sg = c.tup(ofamp(s, t, p, fs, coupling=x["coupling"], lgcsigma=True), 4)[3]
    c.close(c.num(sg), e, 1e-9, "resolution of the function interface")
    tres = c.num(of.time_resolution(A))
    fish = A**2 * np.sum(r.w * (2 * np.pi * r.freqs)**2 * np.abs(r.S0)**2)
    c.ok(tres > 0, "time resolution is positive")
    c.close(tres, fish**-0.5, 1e-8, "time resolution vs Fisher information")
    # small displacement: chi2 = (d/sigma_t)^2
    d = 1e-4 / fs
    if (d / tres)**2 > 1e-10 * q.chi0:
        c.close(q.chi2((A, d)), (d / tres)**2, 1e-2, "chi2 increase for a small time shift")
        c.label("curvature")


@CHECK.sub("integral", case(), quick=1000)
def integral(c, x):
    t, p, (s,) = of_build(x)
    n, fs = x["n"], x["fs"]
    integ = t.sum() / fs
    if x["tkind"] == "random" or abs(integ) * fs < 1e-3:
        t = np.abs(t)
        integ = t.sum() / fs
    r = Ref(s, t, p, fs, x["coupling"])
    if not usable(r) or r.norm < 1e-6 * np.sum(r.wfull * np.abs(r.S0)**2):
        return c.label("degenerate")
    a, chi = r.scan()
    q = np.sort(chi)
    tol = TOL * r.chi0 + floors(r)
    if len(q) > 1 and q[1] - q[0] < 10 * tol:
        return c.label("tie")
    c.nontrivial()
    ta = 1e-6 * np.max(np.abs(a)) + 1e-6 * np.sqrt(tol / r.norm)
    one = OptimumFilter(s, t, p, fs, coupling=x["coupling"])
    two = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=True)
    pairs = [("withdelay", one.ofamp_withdelay(pulse_direction_constraint=x["dir"]),
              two.ofamp_withdelay(pulse_direction_constraint=x["dir"] * (1 if integ > 0 else -1))),
             ("nodelay", one.ofamp_nodelay(), two.ofamp_nodelay()),
             ("ofamp", ofamp(s, t, p, fs, coupling=x["coupling"]), ofamp(s, t, p, fs, coupling=x["coupling"], integralnorm=True)),
             ("iterative", one.ofamp_pileup_iterative(x["A"] * x["unit"], 0.0),
              two.ofamp_pileup_iterative(x["A"] * x["unit"] * integ, 0.0))]
    big = abs(x["A"]) * x["unit"]
    for what, u, v in pairs:
        u, v = [c.num(q) for q in u], [c.num(q) for q in v]
        ex = big if what == "iterative" else 0
        c.close(v[-1], u[-1], 1, what + ": chi2 with integral normalisation", scale=tol + 1e-8 * ex**2 * r.norm)
        if len(u) == 3 and what != "iterative":
            c.close(v[1], u[1], 1, what + ": time with integral normalisation", scale=1e-6 / fs)
        if abs(u[1] - v[1]) < 1e-6 / fs or what == "nodelay":
            c.close(v[0], u[0] * integ, 1, what + ": amplitude with integral normalisation", scale=(ta + 1e-6 * ex) * abs(integ))
    c.close(c.num(two.energy_resolution()), c.num(one.energy_resolution()) * abs(integ), 1e-8, "integral resolution")
    c.close(c.num(two.time_resolution(integ)), c.num(one.time_resolution(1.0)), 1e-8, "time resolution for the same pulse")
