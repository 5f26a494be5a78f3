"""Reference dI/dV models (documented closed forms) and generators."""
import numpy as np
from hypothesis import strategies as st
from gens import fl, logfl, SEED

KEYS = {1: ["rsh", "rp", "L"],
        2: ["rsh", "rp", "r0", "beta", "l", "L", "tau0"],
        3: ["rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3"]}
FITKEYS = {1: ["A", "tau2", "dt"], 2: ["A", "B", "tau1", "tau2", "dt"],
           3: ["A", "B", "C", "tau1", "tau2", "tau3", "dt"]}


def imp(p, poles, f):
    """documented impedance in small-signal parameters"""
    s = 2j * np.pi * np.asarray(f, dtype=float)
    z = p["rsh"] + p["rp"] + s * p["L"]
    if poles == 1:
        return z
    d = 1 + s * p["tau0"] / (1 - p["l"])
    if poles == 3:
        d = d - p["gratio"] / (1 - p["l"]) / (1 + s * p["tau3"])
    return z + p["r0"] * (1 + p["beta"]) + p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]) / d


def imp_fit(q, poles, f):
    """documented impedance in fit parameters"""
    s = 2j * np.pi * np.asarray(f, dtype=float)
    z = q["A"] * (1 + s * q["tau2"])
    if poles == 1:
        return z
    d = 1 + s * q["tau1"]
    if poles == 3:
        d = d - q["C"] / (1 + s * q["tau3"])
    return z + q["B"] / d


def to_fit(p, poles):
    if poles == 1:
        A = p["rsh"] + p["rp"]
        return dict(A=A, tau2=p["L"] / A)
    A = p["rsh"] + p["rp"] + p["r0"] * (1 + p["beta"])
    q = dict(A=A, B=p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]), tau1=p["tau0"] / (1 - p["l"]), tau2=p["L"] / A)
    if poles == 3:
        q["C"] = p["gratio"] / (1 - p["l"])
        q["tau3"] = p["tau3"]
    return q


def falls(q, poles):
    """decay times of the response: -1/zeros of the impedance in s"""
    if poles == 1:
        return np.array([q["tau2"]])
    A, B, t1, t2 = q["A"], q["B"], q["tau1"], q["tau2"]
    C, t3 = (q["C"], q["tau3"]) if poles == 3 else (0.0, 0.0)
    n = (1, t2), (1, t1), (1, t3)
    P = np.polynomial.polynomial
    num = P.polyadd(A * P.polysub(P.polymul(P.polymul(n[0], n[1]), n[2]), C * np.array(n[0])), B * np.array(n[2]))
    num = num[:poles + 1]
    # reversed polynomial: roots in 1/s, negated
    return -np.roots(num)


@st.composite
def small(draw, poles=None, stable=False, T=None):
    """physical small-signal parameters; stable: real positive decay times < T"""
    poles = poles or draw(st.sampled_from([1, 2, 2, 3, 3]))
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 10.0, 0.1]))
    p = dict(rsh=5e-3 * unit * draw(fl(0.2, 4)), rp=unit * draw(logfl(2e-3, 2e-2)), L=unit * draw(logfl(2e-8, 1e-6)),
             r0=unit * draw(logfl(0.03, 0.3)), beta=draw(fl(0.0, 4.0)),
             l=draw(st.one_of(fl(0.05, 0.85), fl(1.3, 30.0))), tau0=draw(logfl(2e-5, 3e-3)),
             gratio=draw(fl(0.05, 0.8)), tau3=draw(logfl(5e-5, 5e-3)))
    return dict(poles=poles, p={k: p[k] for k in KEYS[poles]})


def spectrum(k, P, sgamp, rsh, d):
    """Fourier coefficient of harmonic k of the square wave sgamp*rsh peak to peak, which is low
    for the first fraction d of the period and high for the rest."""
    k = np.asarray(k, dtype=float)
    return -sgamp * rsh * (1 - np.exp(-2j * np.pi * k * d)) / (2j * np.pi * k)


def response(x, N, P, sgamp, rsh, Y, sgfreq, d):
    """sum over the harmonics below (and at) the Nyquist frequency"""
    n = np.arange(N)
    out = np.zeros(N)
    K = np.arange(1, (P - 1) // 2 + 1)
    c = spectrum(K, P, sgamp, rsh, d) * Y(K * sgfreq)
    # (sampled at n, the sum over k is a P-point transform)
    full = np.zeros(P, dtype=complex)
    full[K] = c
    full[-K] = np.conj(c)
    if P % 2 == 0:
        full[P // 2] = np.real(spectrum(P / 2, P, sgamp, rsh, d) * Y(P / 2 * sgfreq))
    per = np.array([np.sum(full * np.exp(2j * np.pi * np.arange(P) * i / P)) for i in range(P)]) if P <= 64 else np.fft.ifft(full) * P
    return np.resize(np.real(per), N) if N % P == 0 else np.real(per)[n % P]
