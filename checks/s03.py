from harness import *
from gens import *
import qetpy as qp
import pickle
from scipy.signal import csd as scsd

CHECK = Check("S03", "Cases are multi-channel noise records (1-4 channels, correlated and anti-correlated), even and odd lengths, gains, names; non-trivial = more than one channel.",
              ["the real and imaginary cross spectra are compared with the complex one only where they are positive: the code fills the rest by interpolation, as it says"])


@st.composite
def case(draw, cmin=1):
    x = dict(nch=draw(size(st.integers(cmin, 4), [6, 9])), nt=draw(size(st.one_of(st.integers(6, 20), st.integers(6, 20), st.integers(20, 150)), [300, 600])), n=draw(size(st.one_of(st.integers(6, 64), st.integers(6, 64), st.integers(6, 64), st.integers(65, 200)), [300, 625, 1250])), fs=draw(FS), seed=draw(SEED), unit=draw(st.sampled_from([1.0, 1e-9, 1e-6])), corr=draw(fl(-0.95, 0.95)),
                gain=draw(st.sampled_from([1.0, 1.0, 1e6, 0.5, -2.0])), name=draw(st.sampled_from(["n", "my noise", "a b c", "T 40.5 mK", "run.2 b", "x.pkl", "ch-1_2"])), time=draw(st.booleans()), dc=draw(st.booleans()), flat=draw(st.booleans()))
    if cmin > 1 and x["nt"] * x["nch"]**2 > 2400:       # (the spectra are taken pair by pair)
        x["nt"] = 2400 // x["nch"]**2
    x["nt"] = max(x["nt"], 2 * x["nch"])        # (the decorrelation inverts a matrix of that rank)
    return x


def make(x):
    r = np.random.RandomState(x["seed"])
    nch = x["nch"]
    com = r.standard_normal((x["nt"], 1, x["n"]))
    t = r.standard_normal((x["nt"], nch, x["n"])) + 2 * x["corr"] * com * np.where(np.arange(nch) % 2, -1, 1)[:, None]
    t = np.cumsum(t, axis=-1) * 0.3 + t
    if x["dc"]:
        t = t + 20
    return t * x["unit"] * x["gain"], [f"ch{j}" for j in range(nch)]


def obj(x, t, names, **kw):
    k = dict(tracegain=x["gain"], name=x["name"])
    if x["time"]:
        k["time"] = np.arange(x["n"]) / x["fs"] + 0.5 / x["fs"]
    k.update(kw)
    return qp.Noise(t, x["fs"], names, **k)


@CHECK.sub("psd", case(), quick=2000)
def psd(c, x):
    t, names = make(x)
    n, fs = x["n"], x["fs"]
    arg = t[:, 0] if x["nch"] == 1 and x["flat"] else t
    N = obj(x, arg, names)
    N.calculate_psd()
    c.nontrivial(x["nch"] > 1)
    m = n // 2 + 1
    tt = t / x["gain"]
    c.close(N.traces, tt, 1e-12, "traces divided by the gain")
    c.close(N.freqs, np.fft.rfftfreq(n, 1 / fs), 1e-12, "frequencies")
    p = c.arr(N.psd, (x["nch"], m), "psd")
    re, im = c.arr(N.real_psd, p.shape, "real_psd"), c.arr(N.imag_psd, p.shape, "imag_psd")
    sc = np.max(p)
    c.close(re + im, p, 1e-9, "real + imaginary spectrum")
    c.ok(np.all(re >= 0) and np.all(im >= 0), "negative spectrum")
    F = np.fft.rfft(tt)
    w = np.full(m, 2.0)
    w[0] = 1
    if n % 2 == 0:
        w[-1] = 1
    nrm = w / (n * fs)
    c.close(p, (np.abs(F)**2).mean(axis=0) * nrm, 1e-9, "one-sided PSD")
    c.close(re, (F.real**2).mean(axis=0) * nrm, 1e-9, "real spectrum", scale=sc)
    c.close(im, (F.imag**2).mean(axis=0) * nrm, 1e-9, "imaginary spectrum", scale=sc)
    for j in range(x["nch"]):
        c.close(p[j], qp.calc_psd(tt[:, j], fs=fs)[1], 1e-9, f"psd of channel {j} vs calc_psd", scale=sc)
    c.close(p.sum(axis=-1) * fs / n, (tt**2).mean(axis=(0, 2)), 1e-9, "total power")
    c.ok(N.chandict == {f"ch{j}": j for j in range(x["nch"])}, f"channel dictionary {N.chandict}")
    c.close(N.time, np.arange(n) / fs + (0.5 / fs if x["time"] else 0), 1e-12, "times")


@CHECK.sub("csd", case(cmin=2), quick=240)
def csd(c, x):
    t, names = make(x)
    n, fs, nch = x["n"], x["fs"], x["nch"]
    m = n // 2 + 1
    tt = t / x["gain"]
    N = obj(x, t, names)
    N.calculate_csd()
    c.nontrivial()
    C = c.arr(N.csd, (nch, nch, m), "csd", real=False)
    sc = np.max(np.abs(C))
    c.close(C, np.conj(np.swapaxes(C, 0, 1)), 1e-9, "Hermitian cross spectrum", scale=sc)
    d = np.array([C[j, j] for j in range(nch)])
    c.ok(np.all(d.real >= -1e-12 * sc), "negative power on the diagonal")
    # coherence
    lim = np.sqrt(np.abs(d[:, None] * d[None]))
    c.ok(np.all(np.abs(C) <= lim * (1 + 1e-6) + 1e-12 * sc), "cross spectrum above the Cauchy-Schwarz bound")
    for k in range(m):
        e = np.linalg.eigvalsh(C[:, :, k])
        c.ok(e.min() >= -1e-9 * max(e.max(), 1e-12 * sc), f"cross spectral matrix at bin {k} is not positive: {e}")
    for i in range(nch):
        for j in range(nch):
            want = scsd(tt[:, i], tt[:, j], fs=fs, nperseg=n, nfft=n)[1].mean(axis=0)
            c.close(C[i, j], want, 1e-9, f"cross spectrum {i},{j} vs scipy", scale=sc)
    for part, f in ((N.real_csd, np.real), (N.imag_csd, np.imag)):
        part = c.arr(part, C.shape, "real/imaginary cross spectrum")
        pos = f(C) > 1e-9 * sc
        c.close(part[pos], f(C)[pos], 1e-9, "real/imaginary part where positive", scale=sc)
    for part, f in ((N.real_csd_std, np.real), (N.imag_csd_std, np.imag)):
        part = c.arr(part, C.shape, "standard deviation of the cross spectrum")
        i, j = 0, nch - 1
        w = f(scsd(tt[:, i], tt[:, j], fs=fs, nperseg=n, nfft=n)[1]).std(axis=0)
        ok = w > 1e-9 * np.max(w) if np.max(w) > 0 else np.zeros(m, bool)
        c.close(part[i, j][ok], w[ok], 1e-6, "standard deviation of the cross spectrum", scale=np.max(w))
    # decorrelation
    N.calculate_uncorr_noise()
    u, v = c.arr(N.uncorrnoise, (nch, m), "uncorrelated noise"), c.arr(N.corrnoise, (nch, m), "correlated noise")
    diag = np.array([N.real_csd[j, j] for j in range(nch)])
    c.close(u + v, diag, 1e-9, "uncorrelated + correlated = total", scale=sc)
    for k in range(m):
        A = C[:, :, k]
        cond = np.linalg.cond(A)
        if cond < 1e8:
            # regression residual: the power of a channel not explained by the others
            for j in range(nch):
                o = [q for q in range(nch) if q != j]
                b = A[np.ix_(o, [j])]
                res = (A[j, j] - (b.conj().T @ np.linalg.solve(A[np.ix_(o, o)], b))[0, 0]).real
                c.close(u[j, k], res, 1e-13 * cond * 100 + 1e-9, f"uncorrelated noise of channel {j} at bin {k}", scale=A[j, j].real)
                c.ok(-1e-9 <= u[j, k] / A[j, j].real <= 1 + 1e-6, "uncorrelated noise above the total")
    # fresh object: decorrelation computes what it needs
    M = obj(x, t, names)
    M.calculate_uncorr_noise()
    c.ok(np.array_equal(M.uncorrnoise, N.uncorrnoise) and np.array_equal(M.corrnoise, N.corrnoise), "decorrelation depends on the history of the object")


@CHECK.sub("corr", case(cmin=2), quick=700)
def corr(c, x):
    t, names = make(x)
    n, nch = x["n"], x["nch"]
    N = obj(x, t, names)
    N.calculate_corrcoeff()
    m = n // 2 + 1
    r = c.arr(N.corrcoeff, (nch, nch, m), "correlation coefficients")
    c.nontrivial()
    c.ok(np.all(np.abs(r) <= 1 + 1e-9), "correlation above one")
    for j in range(nch):
        c.close(r[j, j], np.ones(m), 1e-9, "diagonal")
    c.close(r, np.swapaxes(r, 0, 1), 1e-9, "symmetry", scale=1.0)
    A = np.abs(np.fft.rfft(t / x["gain"]))
    A = A - A.mean(axis=0)
    s = np.sqrt((A**2).mean(axis=0))
    w = np.einsum("tik,tjk->ijk", A, A) / len(t) / (s[:, None] * s[None])
    tot = np.abs(np.fft.rfft(t / x["gain"])).max()
    ok = (s.min(axis=0) > 1e-6 * tot)
    c.close(r[:, :, ok], w[:, :, ok], 1e-6, "correlation of the amplitudes over traces", scale=1.0)


@CHECK.sub("order_scale", case(cmin=2), quick=160)
def order_scale(c, x):
    t, names = make(x)
    nch = x["nch"]
    r = np.random.RandomState(x["seed"] ^ 3)
    perm = r.permutation(nch)
    f = r.uniform(0.2, 5, nch)

    def run(tr):
        N = obj(x, tr, names)
        N.calculate_psd()
        N.calculate_corrcoeff()
        N.calculate_uncorr_noise()
        return N
    a, b, s = run(t), run(t[:, perm]), run(t * f[:, None])
    c.nontrivial()
    sc = np.max(a.psd)
    c.close(b.psd, a.psd[perm], 1e-9, "psd with permuted channels", scale=sc)
    c.close(b.csd, a.csd[np.ix_(perm, perm)], 1e-9, "csd with permuted channels", scale=np.max(np.abs(a.csd)))
    c.close(b.corrcoeff, a.corrcoeff[np.ix_(perm, perm)], 1e-6, "correlation with permuted channels", scale=1.0)
    c.close(s.psd, a.psd * f[:, None]**2, 1e-9, "psd of scaled channels", scale=np.max(s.psd))
    c.close(s.csd, a.csd * (f[:, None] * f)[..., None], 1e-9, "csd of scaled channels", scale=np.max(np.abs(s.csd)))
    p = run(t[r.permutation(len(t))])
    c.close(p.psd, a.psd, 1e-9, "psd with permuted traces", scale=sc)
    c.close(p.csd, a.csd, 1e-9, "csd with permuted traces", scale=np.max(np.abs(a.csd)))


@CHECK.sub("slope_save", case(), quick=400)
def slope_save(c, x):
    t, names = make(x)
    n = x["n"]
    r = np.random.RandomState(x["seed"] ^ 8)
    time = np.arange(n) / x["fs"] + (0.5 / x["fs"] if x["time"] else 0)
    m = r.standard_normal((x["nt"], x["nch"], 1)) * 50 * x["unit"] * x["gain"] * x["fs"] / n
    A, B = obj(x, t, names), obj(x, t + m * time, names)
    A.remove_trace_slope()
    B.remove_trace_slope()
    c.nontrivial(x["nch"] > 1)
    sc = np.max(np.abs(B.traces)) + np.max(np.abs(m * time)) / abs(x["gain"])
    c.close(A.traces, B.traces, 1e-8, "traces without slope do not depend on an added slope", scale=sc)
    u = time - time.mean()
    c.close((A.traces * u).sum(axis=-1) / (u**2).sum() * np.ptp(time), np.zeros((x["nt"], x["nch"])), 1, "remaining slope", scale=1e-8 * sc)
    A.calculate_psd()
    if x["nch"] > 1:
        A.calculate_uncorr_noise()
        A.calculate_corrcoeff()
    with scratch() as d:
        p = d if x["dc"] else d + "/"
        A.save(p)
        files = os.listdir(d)
        c.ok(files == [x["name"].replace(" ", "_") + ".pkl"], f"saved files {files}")
        with open(os.path.join(d, files[0]), "rb") as fh:
            L = pickle.load(fh)
    for k, v in vars(A).items():
        w = getattr(L, k)
        c.ok(np.array_equal(v, w) if isinstance(v, np.ndarray) else v == w, f"{k} differs after loading")


@CHECK.sub("invalid", case(), quick=60)
def invalid(c, x):
    t, names = make(x)
    c.nontrivial()
    c.raises(ValueError, lambda: qp.Noise(t[0, 0], x["fs"], ["a"]), "a single trace")
    c.raises(ValueError, lambda: qp.Noise(t, x["fs"], names + ["z"]), "wrong number of names")
    one = qp.Noise(t[:, :1], x["fs"], ["a"])
    c.raises(ValueError, one.calculate_csd, "csd of one channel")
    c.raises(ValueError, one.calculate_corrcoeff, "correlation of one channel")
