from harness import *
from gens import *
from ofjudge import *
from qetpy import OptimumFilter, chi2lowfreq, chi2_nopulse

CHECK = Check("F07", "Cases are (trace, template, PSD, amplitude, fractional time, cutoffs); non-trivial = at least one "
              "cutoff strictly between zero and the highest frequency.")


@st.composite
def case(draw):
    x = draw(of_system(nmin=4))
    x["coupling"] = draw(st.sampled_from(["AC", "DC"]))
    x["intn"] = draw(st.sampled_from([False, True])) if x["tkind"] != "random" else False
    x["a"] = draw(signed(fl(0, 20)))
    x["t"] = draw(st.one_of(st.integers(-x["n"], x["n"]).map(float), fl(-20, 20)))
    n = x["n"]
    x["fcs"] = draw(st.lists(st.one_of(fl(0, 0.6), st.integers(0, n // 2).map(lambda k: ["grid", k])), min_size=1, max_size=5))
    return x


@CHECK.sub("lowfreq", case(), quick=9000)
def lowfreq(c, x):
    t, p, (s,) = of_build(x)
    n, fs = x["n"], x["fs"]
    a, t0 = x["a"] * x["unit"], x["t"] / fs
    for which in ("object", "function"):
        intn = x["intn"] and which == "object"
        r = Ref(s, t, p, fs, x["coupling"], intn)
        if not usable(r):
            return c.label("unusable")
        am = a * (t.sum() / fs if intn else 1)
        of = OptimumFilter(s, t, p, fs, coupling=x["coupling"], integralnorm=intn)
        if which == "object":
            f = lambda aa, tt, fc: c.num(of.chi2_lowfreq(aa, tt, fcutoff=fc), "chi2_lowfreq")
        else:
            f = lambda aa, tt, fc: c.num(chi2lowfreq(s, t, aa, tt, p, fs, fcutoff=fc, coupling=x["coupling"]), "chi2lowfreq")
        tot = np.abs(r.V)**2 + np.abs(am * r.S0)**2
        full = float(np.sum(r.w * tot))
        fl_ = 1e-9 * full + floors(r)
        res = r.w * np.abs(r.V - am * r.S0 * np.exp(-2j * np.pi * r.freqs * t0))**2
        last, lastf = -1.0, -1.0
        fmax = np.max(np.abs(r.freqs))
        for fc in sorted((n and (q[1] * fs / n) if isinstance(q, list) else q * fs) for q in x["fcs"]):
            v = f(am, t0, fc)
            fa = np.abs(r.freqs)
            lo = np.sum(res[fa <= fc * (1 - 1e-12)])
            hi = np.sum(res[fa <= fc * (1 + 1e-12)])
            c.ok(lo - fl_ <= v <= hi + fl_, f"{which}: low-frequency chi2 at {fc}: {v}, expected {lo}..{hi}")
            # a cutoff exactly on a bin includes the bin
            j = int(round(fc / (fs / n)))
            if j <= n // 2 and fc == abs(r.freqs[j]):
                c.close(v, float(hi), 1, f"{which}: low-frequency chi2 includes the bin at the cutoff", scale=fl_)
                c.label("cutoff on a bin")
            c.ok(v >= -fl_ and v >= last - fl_, f"{which}: low-frequency chi2 decreased with the cutoff")
            last = v
            c.nontrivial(0 < fc < fmax)
        top = f(am, t0, fmax * 1.01)
        c.close(top, r.chi2((am, t0)), 1, f"{which}: cutoff above all frequencies gives the whole residual", scale=fl_)
        c.close(f(0.0, t0, fmax), r.chi0, 1, f"{which}: zero amplitude gives the no-pulse chi2", scale=fl_)
        amp, tt, chi2 = of.ofamp_withdelay()
        c.close(f(float(amp), float(tt), fmax * 2), c.num(chi2), 1, f"{which}: full cutoff equals the chi2 of the fit", scale=fl_ + 1e-7 * r.chi0)
        if which == "object":
            c.close(c.num(of.chi2_nopulse()), r.chi0, 1, "no-pulse chi2 (object)", scale=fl_)
            amp, chi2 = of.ofamp_nodelay()
            c.close(f(float(amp), 0.0, fmax), c.num(chi2), 1, "full cutoff equals the no-delay chi2", scale=fl_ + 1e-7 * r.chi0)
        else:
            c.close(c.num(chi2_nopulse(s, p, fs, coupling=x["coupling"])), r.chi0, 1, "no-pulse chi2 (function)", scale=fl_)
        # default cutoff is 10 kHz
        d = c.num(of.chi2_lowfreq(am, t0)) if which == "object" else c.num(chi2lowfreq(s, t, am, t0, p, fs, coupling=x["coupling"]))
        c.close(d, f(am, t0, 10000), 1, f"{which}: default cutoff", scale=fl_)
    # DC bin only matters without AC coupling
    v = [c.num(chi2_nopulse(s + q * x["unit"], p, fs)) for q in (0.0, 5.0)]
    c.close(v[1], v[0], 1, "AC no-pulse chi2 ignores a constant", scale=1e-9 * v[0] + floors(r) + 1e-12 * (5 * x["unit"])**2 * np.max(1 / p) * n / fs)
