from harness import *
from gens import *
from didv import *

CHECK = Check("D02", "Cases are random 1-, 2- and 3-pole parameter sets, records of 1-5 square-wave periods of 2-200 samples, duty cycles and "
              "amplitudes; non-trivial = more than one pole, a duty cycle other than 0.5 or times that do not start at zero.")


@st.composite
def case(draw):
    x = draw(small())
    x["P"] = draw(st.one_of(st.integers(2, 24), st.integers(2, 200), st.sampled_from([1000, 3125, 6250, 10007])))
    x["m"] = draw(st.integers(1, 5))
    x["fs"] = draw(st.sampled_from([625e3, 1.25e6, 1e5, 5e4, 96000.0, 78125.0]))
    x["d"] = draw(st.one_of(st.just(0.5), st.sampled_from([0.25, 0.1, 0.9, 0.75]), fl(0.02, 0.98)))
    x["amp"] = draw(logfl(1e-8, 1e-5))
    x["t0"] = draw(st.sampled_from([0.0, 0.0, -1e-5, 0.3, -0.005, 2.0]))
    return x


def setup(x):
    N = x["P"] * x["m"]
    sg = x["fs"] / x["P"]
    t = np.arange(N) / x["fs"] + x["t0"]
    return N, sg, t


def run(c, x, t, sg, amp=None, d=None):
    d = x["d"] if d is None else d
    kw = dict(x["p"])
    # the default duty cycle is one half
    args = () if d == 0.5 and x["P"] % 2 else (d,)
    return c.arr(qetpy.squarewaveresponse(t, x["amp"] if amp is None else amp, sg, *args, **kw), t.shape, "response")


def fine(c, x):
    """the impedance is not (nearly) singular at zero frequency or a harmonic"""
    f = np.arange(x["P"] // 2 + 1) * x["fs"] / x["P"]
    z = imp(x["p"], x["poles"], f)
    ok = np.all(np.isfinite(z)) and np.min(np.abs(z)) > 1e-6 * np.max(np.abs(z))
    if not ok:
        c.label("singular")
    return ok


@CHECK.sub("fourier", case(), quick=4000)
def fourier(c, x):
    N, sg, t = setup(x)
    if not fine(c, x):
        return
    c.label(x["poles"])
    c.nontrivial(x["poles"] > 1 or x["d"] != 0.5 or x["t0"])
    got = run(c, x, t, sg)
    want = response(x, N, x["P"], x["amp"], x["p"]["rsh"], lambda f: 1 / imp(x["p"], x["poles"], f), sg, x["d"])
    scale = x["amp"] * x["p"]["rsh"] * np.max(1 / np.abs(imp(x["p"], x["poles"], np.arange(1, x["P"] // 2 + 1) * sg)))
    c.close(got, want, 1e-8, "response vs the sum of the filtered harmonics", scale=scale)
    c.ok(abs(np.mean(got)) <= 1e-12 * scale, f"response averages to {np.mean(got)!r}, not zero")
    per = got.reshape(x["m"], x["P"])
    c.close(per, np.tile(per[0], (x["m"], 1)), 1e-10, "response repeats every period", scale=scale)
    c.close(run(c, x, t, sg, amp=-2.5 * x["amp"]), -2.5 * got, 1e-12, "response is linear in the amplitude", scale=2.5 * scale)


@CHECK.sub("symmetry", case(), quick=2000)
def symmetry(c, x):
    """phase relations between duty cycles"""
    N, sg, t = setup(x)
    if not fine(c, x):
        return
    c.nontrivial(x["poles"] > 1)
    scale = x["amp"] * x["p"]["rsh"] * np.max(1 / np.abs(imp(x["p"], x["poles"], np.arange(1, x["P"] // 2 + 1) * sg)))
    P = x["P"]
    half = run(c, x, t, sg, d=0.5)
    # (a duty cycle of one half has a branch of its own in the code)
    c.close(run(c, x, t, sg, d=0.5 + 1e-12), half, 1e-7, "duty cycle just above one half", scale=scale)
    if P % 2 == 0:
        c.label("even period")
        if P % 4 == 0:
            c.close(np.roll(half, P // 2), -half, 1e-9, "half-period symmetry", scale=scale)
        k = 1 + int(x["d"] * P) % (P - 1)
    else:
        k = 1 + int(x["d"] * P) % (P - 1)
        # low for k samples, then high  =  minus (low for P-k samples, then high), k samples later
        a = run(c, x, t, sg, d=k / P)
        b = run(c, x, t, sg, d=(P - k) / P)
        c.close(a, -np.roll(b, k), 1e-8, "response to the complementary duty cycle", scale=scale)
    # superposition: low for the first k of P samples = sum of k single-sample steps, shifted
    if P % 2 == 1:
        one = run(c, x, t, sg, d=1 / P)
        c.close(run(c, x, t, sg, d=k / P), sum(np.roll(one, i) for i in range(k)), 1e-7, "response is the sum of its steps", scale=scale * P)


@st.composite
def slow(draw):
    x = dict(rsh=draw(logfl(1e-3, 1e-1)), rp=draw(logfl(1e-3, 1e-1)), tau=draw(fl(0.02, 0.5)), P=draw(st.sampled_from([400, 1000, 2001])),
             m=draw(st.integers(1, 3)), d=draw(st.one_of(st.just(0.5), fl(0.1, 0.9))), amp=draw(logfl(1e-8, 1e-5)))
    return x


@CHECK.sub("differential", slow(), quick=600)
def differential(c, x):
    """one pole: L dI/dt = V - R I solved exactly in the time domain"""
    P, fs, d = x["P"], 1e6, x["d"]
    T = P / fs
    tau = x["tau"] * T
    R = x["rsh"] + x["rp"]
    c.nontrivial(d != 0.5)
    t = np.arange(P * x["m"]) / fs
    got = c.arr(qetpy.squarewaveresponse(t, x["amp"], fs / P, d, rsh=x["rsh"], rp=x["rp"], L=tau * R), t.shape, "response")
    V = x["amp"] * x["rsh"]
    lo, hi = -V * (1 - d) / R, V * d / R   # zero-mean levels: low for d of the period, high for 1-d
    a, b = np.exp(-d * T / tau), np.exp(-(1 - d) * T / tau)
    # I0 at the start of the low part, I1 at its end
    I0 = (hi * (1 - b) + lo * (1 - a) * b) / (1 - a * b)
    I1 = lo + (I0 - lo) * a
    ph = np.mod(t, T)
    want = np.where(ph < d * T, lo + (I0 - lo) * np.exp(-ph / tau), hi + (I1 - hi) * np.exp(-(ph - d * T) / tau))
    err = np.sqrt(np.mean((got - want)**2)) / np.sqrt(np.mean(want**2))
    c.ok(err < 0.02, f"relative rms difference to the exact solution of the circuit equation: {err:.3g}")
