from harness import *
from gens import *
from didv import imp, to_fit
import scipy.integrate

KB, QE = 1.380649e-23, 1.602176634e-19

CHECK = Check("M01", "Cases are random TES operating points (loop gain on both sides of 1), temperatures, readout noises and frequency grids "
              "(arrays and single numbers); non-trivial = loop gain above 1, non-zero SQUID pole or diffusive limit.",
              ["Frequencies are positive (the 1/f readout noise has no value at zero)."])

TOT = {"s_itot": ("s_iload", "s_ites", "s_itfn", "s_isquid"), "s_ptot": ("s_pload", "s_ptes", "s_ptfn", "s_psquid"),
       "s_itotnormal": ("s_iloadnormal", "s_itesnormal", "s_isquid"), "s_itotsc": ("s_iloadsc", "s_isquid")}
ALL = ["dIdV", "dIdP", "s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn", "s_itfn", "s_isquid", "s_psquid", "s_itot", "s_ptot",
       "dIdVnormal", "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal", "dIdVsc", "s_iloadsc", "s_itotsc"]


# values of the parameters that are not given
DEFAULT = dict(rload=0.012, r0=0.150, rshunt=0.005, beta=1.0, loopgain=10.0, inductance=400.0e-9, tau0=500.0e-6, G=5.0e-10, qetbias=160e-6,
               tc=0.040, tload=0.9, tbath=0.020, n=5.0, lgcb=True, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)


@st.composite
def params(draw):
    return dict(rload=draw(logfl(1e-3, 0.1)), r0=draw(logfl(1e-2, 1.0)), rshunt=draw(logfl(1e-3, 2e-2)), beta=draw(fl(0.0, 5.0)),
                loopgain=draw(st.one_of(fl(0.05, 0.9), fl(1.15, 50.0))), inductance=draw(logfl(1e-8, 1e-5)), tau0=draw(logfl(1e-6, 1e-2)),
                G=draw(logfl(1e-12, 1e-7)), qetbias=draw(logfl(1e-6, 1e-3)), tc=draw(fl(0.01, 0.12)), tload=draw(logfl(0.01, 5.0)),
                tbath=draw(fl(0.001, 0.11)), n=draw(st.sampled_from([3.0, 4.0, 5.0, 6.0])), lgcb=draw(st.booleans()),
                squiddc=draw(logfl(1e-13, 1e-10)), squidpole=draw(st.one_of(st.just(0.0), logfl(0.1, 1e5))), squidn=draw(st.sampled_from([0.5, 0.9, 1.0, 2.0])))


def clean(p):
    """the diffusive limit is 0/0 where the bath is exactly as warm as the TES"""
    p = dict(p)
    if abs(p["tbath"] / p["tc"] - 1) < 1e-3:
        p["tbath"] = p["tc"] * 1.01
    return p


@st.composite
def case(draw):
    return dict(p=draw(params()), f=draw(st.lists(logfl(1e-2, 1e6), min_size=1, max_size=6)) * draw(size(st.just(1), [60, 400, 3000])),
                grid=draw(st.lists(logfl(1e-2, 1e6), min_size=1, max_size=6)) * draw(size(st.just(1), [60, 400, 3000])), scalar=draw(st.booleans()), twod=draw(st.booleans()),
                omit=draw(st.one_of(st.just([]), st.lists(st.sampled_from(sorted(DEFAULT)), max_size=4, unique=True))))


def reference(p, f):
    """Irwin & Hilton, in terms of natural poles rather than of dI/dV"""
    s = 2j * np.pi * f
    l, r0, b = p["loopgain"], p["r0"], p["beta"]
    i0 = p["qetbias"] * p["rshunt"] / (r0 + p["rload"])
    # determinant form of the coupled electrothermal equations:
    # (L s + RL + R0(1+b)) I + (l G / I0) T = V ;  -I0 R0 (2+b) I + G (tau0 s + 1 - l) T = P
    a = p["inductance"] * s + p["rload"] + r0 * (1 + b)
    t = p["tau0"] * s + 1 - l
    det = a * t + l * r0 * (2 + b)
    o = dict(dIdV=t / det, dIdP=-l / (i0 * det))
    vl, vt = 4 * KB * p["tload"] * p["rload"] + 0 * f, 4 * KB * p["tc"] * r0 * (1 + b)**2 + 0 * f
    x = p["tbath"] / p["tc"]
    n = p["n"]
    if p["lgcb"]:
        F = 0.5 * (x**(n + 1) + 1)
    else:
        F = n / (2 * n + 1) * (1 - x**(2 * n + 1)) / (1 - x**n)
    o["s_vload"], o["s_vtes"] = vl, vt
    o["s_iload"] = vl * np.abs(t / det)**2
    # internal Johnson voltage drives V by +v and heats by -I0 v: response (tau0 s + 1)/det
    o["s_ites"] = vt * np.abs((p["tau0"] * s + 1) / det)**2
    o["s_ptfn"] = 4 * KB * p["tc"]**2 * p["G"] * F + 0 * f
    o["s_itfn"] = o["s_ptfn"] * np.abs(o["dIdP"])**2
    o["s_isquid"] = p["squiddc"]**2 * (1 + (p["squidpole"] / f)**p["squidn"])**2
    for k in ("load", "tes", "squid"):
        o["s_p" + k] = o["s_i" + k] / np.abs(o["dIdP"])**2
    o["s_itot"] = o["s_iload"] + o["s_ites"] + o["s_itfn"] + o["s_isquid"]
    o["s_ptot"] = o["s_pload"] + o["s_ptes"] + o["s_ptfn"] + o["s_psquid"]
    yn, ys = 1 / (p["rload"] + r0 + s * p["inductance"]), 1 / (p["rload"] + s * p["inductance"])
    o["dIdVnormal"], o["dIdVsc"] = yn, ys
    o["s_iloadnormal"], o["s_iloadsc"] = vl * np.abs(yn)**2, vl * np.abs(ys)**2
    o["s_vtesnormal"] = 4 * KB * p["tc"] * r0 + 0 * f
    o["s_itesnormal"] = o["s_vtesnormal"] * np.abs(yn)**2
    o["s_itotnormal"] = o["s_iloadnormal"] + o["s_itesnormal"] + o["s_isquid"]
    o["s_itotsc"] = o["s_iloadsc"] + o["s_isquid"]
    return o


def judge(c, obj, p, f, arg, what=""):
    ref = reference(p, f)
    got = {}
    l = p["loopgain"]
    amp = 1 / abs(1 - l) + l
    for k in ALL:
        v = getattr(obj, k)() if arg is None else getattr(obj, k)(arg)
        got[k] = c.arr(v, f.shape, what + k, real=k.startswith("s_"))
        c.close(got[k], ref[k], 1e-10 * amp, what + k, scale=np.abs(ref[k]))
        if k.startswith("s_"):
            c.ok(np.all(got[k] >= 0), f"{what}{k} is negative")
    for k, parts in TOT.items():
        c.close(got[k], sum(got[q] for q in parts), 1e-10, f"{what}{k} vs the sum of its components", scale=np.abs(got[k]))
    for q in ("load", "tes", "squid", "tfn", "tot"):
        c.close(got["s_p" + q] * np.abs(got["dIdP"])**2, got["s_i" + q], 1e-10, f"{what}power and current noise of {q}", scale=got["s_i" + q])
    return got


@CHECK.sub("components", case(), quick=4500)
def components(c, x):
    p = clean(dict(x["p"], **{k: DEFAULT[k] for k in x["omit"]}))
    given = {k: v for k, v in p.items() if k not in x["omit"] or v != DEFAULT[k]}
    f, g = np.array(x["f"]), np.array(x["grid"])
    if x["twod"] and len(f) % 2 == 0:
        f = f.reshape(2, -1)
    c.nontrivial(p["loopgain"] > 1 or p["squidpole"] > 0 or not p["lgcb"])
    c.label("ballistic" if p["lgcb"] else "diffusive")
    f0, g0 = f.copy(), g.copy()
    o = qetpy.sim.TESnoise(freqs=g, **given)
    got = judge(c, o, p, f, f, "explicit frequencies: ")
    judge(c, o, p, g, None, "stored frequencies: ")
    if x["scalar"]:
        v = float(f.ravel()[0])
        for k in ALL:
            c.close(np.asarray(getattr(o, k)(v)).reshape(-1)[:1], got[k].ravel()[:1], 1e-13, f"{k} at a single frequency", scale=np.abs(got[k].ravel()[:1]))
    c.ok(np.array_equal(f, f0) and np.array_equal(g, g0), "frequencies were modified")
    # the dI/dV is the two-pole model of the dI/dV fits
    q = dict(rsh=p["rshunt"], rp=p["rload"] - p["rshunt"], r0=p["r0"], beta=p["beta"], l=p["loopgain"], L=p["inductance"], tau0=p["tau0"])
    z = imp(q, 2, f)
    c.close(got["dIdV"] * z, np.ones(f.shape, dtype=complex), 1e-10 * (1 / abs(1 - p["loopgain"]) + p["loopgain"]) * np.max((p["rload"] + p["r0"] * (2 + p["beta"]) ** 2 / abs(1 - p["loopgain"])) / np.abs(z) + 1), "dI/dV x impedance of the two-pole model")


@CHECK.sub("scalings", case(), quick=2400)
def scalings(c, x):
    p = clean(x["p"])
    f = np.array(x["f"])
    T = qetpy.sim.TESnoise
    o = T(freqs=f, **p)
    c.nontrivial(p["loopgain"] > 1 or p["squidpole"] > 0 or not p["lgcb"])
    def same(k, a, b, fac=1.0):
        c.close(getattr(a, k)(), getattr(b, k)() * fac, 1e-10, k, scale=np.abs(getattr(b, k)() * fac))
    hot = T(freqs=f, **dict(p, tload=3 * p["tload"]))
    for k in ("s_vload", "s_iload", "s_pload", "s_iloadnormal", "s_iloadsc"):
        same(k, hot, o, 3.0)
    for k in ("s_ites", "s_itfn", "s_isquid", "s_ptes", "s_itesnormal"):
        same(k, hot, o)
    g = T(freqs=f, **dict(p, G=7 * p["G"]))
    for k in ("s_ptfn", "s_itfn"):
        same(k, g, o, 7.0)
    for k in ("s_iload", "s_ites", "s_isquid", "dIdV", "dIdP"):
        same(k, g, o)
    # all temperatures times 2: Johnson noises x2, phonon noise x4
    t = T(freqs=f, **dict(p, tc=2 * p["tc"], tbath=2 * p["tbath"], tload=2 * p["tload"]))
    for k in ("s_iload", "s_ites", "s_vtes", "s_vtesnormal", "s_iloadsc"):
        same(k, t, o, 2.0)
    same("s_itfn", t, o, 4.0)
    # all impedances times 2 (same bias current and time constants): responsivities scale
    r = T(freqs=f, **dict(p, rload=2 * p["rload"], r0=2 * p["r0"], rshunt=2 * p["rshunt"], inductance=2 * p["inductance"]))
    for k, fac in (("dIdV", 0.5), ("dIdP", 0.5), ("s_iload", 0.5), ("s_ites", 0.5), ("s_itfn", 0.25), ("s_ptes", 2.0), ("s_isquid", 1.0)):
        same(k, r, o, fac)
    # twice the bias: dI/dP halves, dI/dV stays
    b = T(freqs=f, **dict(p, qetbias=2 * p["qetbias"]))
    for k, fac in (("dIdV", 1.0), ("dIdP", 0.5), ("s_ites", 1.0), ("s_itfn", 0.25), ("s_ptes", 4.0), ("s_pload", 4.0)):
        same(k, b, o, fac)
    s = T(freqs=f, **dict(p, squiddc=2 * p["squiddc"]))
    for k in ("s_isquid", "s_psquid"):
        same(k, s, o, 4.0)
    # twice the SQUID pole at twice the frequency
    a = T(freqs=2 * f, **dict(p, squidpole=2 * p["squidpole"]))
    c.close(a.s_isquid(), o.s_isquid(), 1e-10, "SQUID noise is a function of pole over frequency", scale=o.s_isquid())
    # thermal fluctuation noise: equilibrium value 4 k T^2 G at tbath = tc, never above (below tc)
    eq = 4 * KB * p["tc"]**2 * p["G"]
    lim = T(freqs=f, **dict(p, tbath=p["tc"] * (1 - 1e-6)))
    c.close(lim.s_ptfn(), np.full(f.shape, eq), 1e-3, "thermal fluctuation noise in equilibrium", scale=eq)
    if p["tbath"] < p["tc"]:
        c.ok(np.all(o.s_ptfn() <= eq * (1 + 1e-9)) and np.all(o.s_ptfn() >= 0.3 * eq), "thermal fluctuation noise outside of its limits")


class Stored(qetpy.DIDV):
    """an object of the dIdV class that returns the given results"""
    def __init__(self, r):
        qetpy.DIDV.__init__(self, np.zeros((2, 100)), 1e5, 1e3, 1e-6, 5e-3)
        self.r = r
        for k in r:
            setattr(self, f"_{k}poleresult", r[k])

    def fitresult(self, poles):
        return self.r[poles]


@st.composite
def load_case(draw):
    return dict(p=draw(params()), rp=draw(logfl(1e-3, 0.02)), kind=draw(st.sampled_from(["transition", "superconducting", "normal"])),
                style=draw(st.sampled_from(["smallsignalparams", "params"])), default=draw(st.booleans()), rn=draw(logfl(0.05, 1.0)), neg=draw(st.sampled_from([0.0, 0.0, 0.3, 0.8])),
                f=draw(st.lists(logfl(1.0, 1e6), min_size=1, max_size=5)))


@CHECK.sub("load", load_case(), quick=1800)
def load_(c, x):
    p = clean(x["p"])
    f = np.array(x["f"])
    kind = "".join(list(x["kind"]))        # computed at run time
    if x["neg"]:
        # fitted parasitic resistances can come out below zero
        x["rp"] = -x["neg"] * p["rshunt"]
    ss = dict(rsh=p["rshunt"], rp=x["rp"], r0=p["r0"], beta=p["beta"], l=p["loopgain"], L=p["inductance"], tau0=p["tau0"], dt=1e-6)
    one = dict(rsh=p["rshunt"], rp=x["rp"] + (x["rn"] if kind == "normal" else 0), L=p["inductance"] * 1.5, dt=2e-6)
    def pack(d):
        return dict(smallsignalparams=d, params=dict(A=1.0, dt=0.0)) if x["style"] == "smallsignalparams" else dict(params=d)
    obj = Stored({1: pack(one), 2: pack(ss), 3: {}})
    kw = {} if x["default"] else {k: p[k] for k in ("G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole", "squidn")}
    q = dict(G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9, tbath=0.020, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)
    q.update(kw)
    q.update(n=5.0, lgcb=True, rshunt=p["rshunt"])
    c.nontrivial()
    c.label(kind)
    if kind == "normal":
        c.raises(ValueError, lambda: qetpy.sim.loadfromdidv(obj, noisetype=kind, **kw), "normal noise without rnormal")
        o = qetpy.sim.loadfromdidv(obj, noisetype=kind, rnormal=x["rn"], **kw)
        q.update(rload=p["rshunt"] + x["rp"], r0=x["rn"], inductance=p["inductance"] * 1.5)
        keys = ["dIdVnormal", "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal", "s_isquid", "s_vload"]
    elif kind == "superconducting":
        o = qetpy.sim.loadfromdidv(obj, noisetype=kind, **kw)
        q.update(rload=p["rshunt"] + x["rp"], r0=0.0, inductance=p["inductance"] * 1.5)
        keys = ["dIdVsc", "s_iloadsc", "s_itotsc", "s_isquid", "s_vload"]
    else:
        o = qetpy.sim.loadfromdidv(obj, noisetype=kind, **kw)
        q.update(rload=p["rshunt"] + x["rp"], r0=p["r0"], inductance=p["inductance"])
        keys = ALL
    if kind != "transition":
        q.update(beta=0.0, loopgain=0.5, tau0=0.0)
    else:
        q.update(beta=p["beta"], loopgain=p["loopgain"], tau0=p["tau0"])
    ref = reference(q, f)
    tol = 1e-9 * (1 / abs(1 - p["loopgain"]) + p["loopgain"])
    for k in keys:
        c.close(getattr(o, k)(f), ref[k], tol, f"{kind}: {k}", scale=np.abs(ref[k]))
    g = o.freqs
    c.ok(np.all(g > 0) and np.all(np.diff(g) > 0), "default frequencies")
    c.close(getattr(o, keys[-1])(), getattr(o, keys[-1])(g), 0.0, "stored frequencies")
    c.raises(ValueError, lambda: qetpy.sim.loadfromdidv(obj, noisetype="tes", **kw), "unknown noise type")


@st.composite
def eres_case(draw):
    return dict(tau=draw(logfl(1e-6, 1e-2)), eff=draw(fl(0.05, 1.0)), s0=draw(logfl(1e-40, 1e-30)), s1=draw(fl(0.0, 3.0)),
                n=draw(st.integers(3, 400)), fs=draw(logfl(1e3, 1e7)), kind=draw(st.sampled_from(["grid", "log", "list"])),
                white=draw(st.booleans()), seed=draw(SEED))


@CHECK.sub("resolution", eres_case(), quick=1800)
def resolution(c, x):
    r = np.random.RandomState(x["seed"])
    n, tau, eff = x["n"], x["tau"], x["eff"]
    E = qetpy.sim.energy_res_estimate
    c.nontrivial(not x["white"])
    if x["white"]:
        # white noise S (one-sided): 1/sigma^2 = eff^2 / (S tau)
        f = np.concatenate([[0.0], np.logspace(-5, 5, 20001)]) / tau
        c.close(c.num(E(f, tau, np.full(len(f), x["s0"]), eff)), np.sqrt(x["s0"] * tau) / eff / QE, 1e-3, "resolution with white noise", )
    f = {"grid": np.arange(n) * x["fs"] / (2 * n), "log": np.sort(10**r.uniform(0, 6, n)), "list": np.cumsum(r.uniform(0.1, 5, n))}[x["kind"]]
    S = x["s0"] * (1 + x["s1"] * np.abs(r.standard_normal(n)))
    S0, f0 = S.copy(), f.copy()
    got = c.num(E(f, tau, S, eff))
    # sum over the intervals of 4 eff^2 / (1 + w^2 tau^2) / S
    y = 4 * eff**2 / (1 + (2 * np.pi * f * tau)**2) / S
    want = 1 / np.sqrt(sum((y[i] + y[i + 1]) / 2 * (f[i + 1] - f[i]) for i in range(n - 1))) / QE
    c.close(got, want, 1e-9, "energy resolution")
    c.close(c.num(E(f, tau, 4 * S, eff)), 2 * got, 1e-9, "four times the noise power")
    c.close(c.num(E(f, tau, S, eff / 2)), 2 * got, 1e-9, "half the collection efficiency")
    c.ok(c.num(E(f, tau * 2, S, eff)) >= got * (1 - 1e-12), "slower collection cannot improve the resolution")
    if n > 4:
        c.ok(c.num(E(f[:-1], tau, S[:-1], eff)) >= got * (1 - 1e-12), "less bandwidth cannot improve the resolution")
    k = r.permutation(n)
    c.close(c.num(E(f[k], tau, S[k], eff)), got, 1e-9, "one-sided, frequencies in another order")
    c.close(c.num(E(f[::-1], tau, S[::-1], eff)), got, 1e-9, "one-sided, frequencies in falling order")
    # two-sided: power of both signs of the frequency, in any order
    if f[0] > 0 or x["kind"] == "grid":
        two_f = np.concatenate([f[f > 0], -f[f > 0], f[f == 0]])
        two_s = np.concatenate([S[f > 0] / 2, S[f > 0] / 2, S[f == 0] / 2])
        k = r.permutation(len(two_f)) if r.randint(2) else np.arange(len(two_f))
        if f[0] == 0:
            c.close(c.num(E(two_f[k], tau, two_s[k], eff)), got, 1e-9, "two-sided vs one-sided")
            c.label("two-sided")
    c.ok(np.array_equal(S, S0) and np.array_equal(f, f0), "inputs were modified")
