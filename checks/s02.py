from harness import *
from gens import *
import qetpy as qp
from scipy.stats import chi2
from numpy.fft import fft, fftfreq

CHECK = Check("S02", "Cases are two-sided PSDs (white, pink, Lorentzian, random, single lines, zero or infinite DC), even and odd lengths, sample rates, numbers of traces and seeds; "
              "non-trivial = a PSD that is not flat.",
              ["convergence is judged with chi-squared quantiles at a probability of 1e-12 per comparison"])
P = 1e-12


@st.composite
def case(draw, nmin=1, big=(130, 257, 1000, 4096), many=(130, 300, 1100, 3000)):
    return dict(n=draw(size(st.integers(2, 60), list(big))), fs=draw(FS), kind=draw(st.sampled_from(["white", "pink", "lorentz", "rand", "line", "zerodc"])), seed=draw(SEED), lev=draw(st.sampled_from([1.0, 1e-22, 1e-12, 1e4])),
                nt=draw(size(st.integers(nmin, 30), list(many))), dc=draw(st.sampled_from(["keep", "inf"])), f=draw(fl(0.1, 10)))


def make(x):
    n = x["n"]
    k = np.abs(np.round(fftfreq(n) * n)).astype(int)
    r = np.random.RandomState(x["seed"] ^ 99)
    h = {"white": np.ones(n), "pink": 1 / (1.0 + np.arange(n)), "lorentz": 1 / (1 + (np.arange(n) / 3.0)**2), "rand": r.uniform(0.05, 3, n),
         "line": (np.arange(n) == r.randint(0, n // 2 + 1)) * 1.0, "zerodc": (np.arange(n) > 0) * 1.0}[x["kind"]]
    return h[k] * x["lev"], k


def gen(x, psd, nt=None, seed=None, **kw):
    np.random.seed(x["seed"] if seed is None else seed)
    return qp.gen_noise(psd, fs=x["fs"], ntraces=x["nt"] if nt is None else nt, **kw)


@CHECK.sub("basic", case(), quick=7500)
def basic(c, x):
    psd, k = make(x)
    n = x["n"]
    if x["dc"] == "inf":
        psd[0] = np.inf
        c.label("infinite DC")
    arg = psd.copy()
    y = c.arr(gen(x, arg), (x["nt"], n), "noise")
    c.nontrivial(x["kind"] != "white" or x["dc"] == "inf")
    c.ok(np.array_equal(arg, psd), "the PSD of the caller is modified")
    rms = np.sqrt(np.sum(psd[np.isfinite(psd)]) * x["fs"] / n)
    Y = fft(y)
    if x["dc"] == "inf" or psd[0] == 0:
        c.close(Y[:, 0], np.zeros(x["nt"]) + 0j, 1, "mean of the traces", scale=1e-9 * rms * n)
    z = psd == 0
    if z.any():
        c.close(Y[:, z], np.zeros((x["nt"], z.sum())) + 0j, 1, "power where the PSD is zero", scale=1e-9 * rms * n)
    c.ok(np.array_equal(gen(x, arg), y), "the same random state gives different noise")
    if x["nt"] > 1 and np.any(psd[np.isfinite(psd)] > 0):
        c.ok(not np.allclose(y[0], y[1], rtol=1e-6, atol=0), "two traces are identical")
    y2 = gen(x, psd * x["f"])
    c.close(y2, np.sqrt(x["f"]) * y, 1e-9, "noise of a scaled PSD", scale=rms * 10 * np.sqrt(x["f"]) + 1e-300)
    one = c.arr(gen(x, arg, nt=1), (1, n), "one trace")
    np.random.seed(x["seed"])
    d = c.arr(qp.gen_noise(arg), (1, n), "default number of traces")
    c.close(one, d * np.sqrt(x["fs"]), 1e-9, "default sample rate is 1", scale=10 * rms + 1e-300)


def chi2_ok(c, est, dof, what):
    """est = mean of dof/.. chi-squared variables with expectation one"""
    lo, hi = chi2.ppf(P, dof) / dof, chi2.isf(P, dof) / dof
    bad = ~((est >= lo) & (est <= hi))
    if np.any(bad):
        j = int(np.argmax(bad))
        c.fail(f"{what}: ratio {np.ravel(est)[j]:.4f} outside [{np.ravel(lo)[j if np.size(lo) > 1 else 0]:.4f}, {np.ravel(hi)[j if np.size(hi) > 1 else 0]:.4f}] at bin {j}")


@CHECK.sub("converges", case(big=(130, 257)), quick=1200, hang=120)
def converges(c, x):
    psd, k = make(x)
    n, fs, N = x["n"], x["fs"], 4000
    y = c.arr(gen(x, psd.copy(), nt=N), (N, n), "noise")
    c.nontrivial(x["kind"] != "white")
    Y = fft(y)
    est = (np.abs(Y)**2).mean(axis=0) / (n * fs)
    pos = psd > 0
    real = (k == 0) | (2 * k == n)
    dof = np.where(real, N, 2 * N).astype(float)
    chi2_ok(c, est[pos] / psd[pos], dof[pos], "PSD of the noise over the requested one")
    q = np.asarray(qp.calc_psd(y, fs=fs, folded_over=False)[1])
    chi2_ok(c, q[pos] / psd[pos], dof[pos], "calc_psd of the noise over the requested PSD")
    u = Y[:, pos] / np.sqrt(psd[pos] * n * fs)
    # phases: zero mean, no correlation with the conjugate, independent frequencies and traces
    c.ok(np.all(np.abs(u.mean(axis=0)) < 7.5 / np.sqrt(N)), "the mean of the noise does not vanish")
    u0 = u[:, ~real[pos]]
    if u0.shape[1]:
        c.ok(np.all(np.abs((u0**2).mean(axis=0)) < 8 * np.sqrt(2 / N)), "phases are not uniform")
        kur = (np.abs(u0)**4).mean(axis=0)
        c.ok(np.all(np.abs(kur - 2) < 0.1 * np.sqrt(4000 / N) * 7.5), f"amplitudes are not Rayleigh distributed: {kur}")
    half = k[pos] == np.arange(n)[pos]
    uh = u[:, half]
    g = np.abs(uh.conj().T @ uh / N)
    np.fill_diagonal(g, 0)
    c.ok(np.all(g < 8 / np.sqrt(N)), "different frequencies are correlated")
    lag = np.abs(np.mean(u[1:] * u[:-1].conj(), axis=0))
    c.ok(np.all(lag < 8 / np.sqrt(N)), "consecutive traces are correlated")
