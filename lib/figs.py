"""What a plotting call drew: figures still open or saved, their labelled curves, and the files written."""
import os, contextlib
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure

matplotlib.rcParams["figure.dpi"] = 12
matplotlib.rcParams["savefig.dpi"] = 12


class Seen:
    def __init__(self):
        self.saved = []                 # (figure, real path)
        self.figs = []

    def at(self, path):
        """figures saved to this file, the last one last"""
        p = os.path.realpath(path)
        return [f for f, q in self.saved if q == p]


@contextlib.contextmanager
def watch():
    """Record the figures made inside of the block, whether shown, returned, or saved and closed."""
    plt.close("all")
    s = Seen()
    orig, onew = Figure.savefig, plt.new_figure_manager
    depth = [0]

    def savefig(self, fname, *a, **k):
        r = orig(self, fname, *a, **k)
        s.saved.append((self, os.path.realpath(str(fname))))
        if self not in s.figs:
            s.figs.append(self)
        return r
    Figure.savefig = savefig
    try:
        yield s
    finally:
        Figure.savefig = orig
        for n in plt.get_fignums():
            f = plt.figure(n)
            if f not in s.figs:
                s.figs.append(f)


def arr(v):
    return np.asarray(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan), dtype=float)


def curves(ax):
    """[(label, x, y)] of every line and scatter of an axes (the marks of a legend have labels of their own)"""
    out = []
    for l in ax.get_lines():
        out.append((str(l.get_label()), arr(l.get_xdata(orig=True)).ravel(), arr(l.get_ydata(orig=True)).ravel()))
    for q in ax.collections:
        o = q.get_offsets()
        if isinstance(q, matplotlib.collections.PathCollection):
            o = arr(o).reshape(-1, 2)
            out.append((str(q.get_label()), o[:, 0], o[:, 1]))
    return out


def segments(ax):
    """end points of error bars: list of (n, 2, 2)"""
    out = []
    for q in ax.collections:
        if isinstance(q, matplotlib.collections.LineCollection):
            out.append(np.array([np.asarray(p)[[0, -1]] for p in q.get_segments() if len(p)]).reshape(-1, 2, 2))
    return out


def same(x, y, X, Y, tol=1e-9):
    X, Y = np.asarray(X, float).ravel(), np.asarray(Y, float).ravel()
    if x.shape != X.shape:
        return False
    def eq(a, b):
        fin = np.abs(b[np.isfinite(b)])
        t = tol * (fin.max() if fin.size else 0)
        with np.errstate(all="ignore"):
            return np.all((np.abs(a - b) <= t) | (a == b) | (np.isnan(a) & np.isnan(b)))
    return bool(eq(x, X) and eq(y, Y))


def has(c, ax, label, X, Y, what, tol=1e-9):
    """some curve with this label (None: any label) shows these points"""
    cv = curves(ax)
    cand = [q for q in cv if label is None or q[0] == label]
    if not cand:
        c.fail(f"{what}: nothing labelled {label!r} is drawn (labels: {[q[0] for q in cv]})")
    if any(same(x, y, X, Y, tol) for _, x, y in cand):
        return
    _, x, y = cand[0]
    Y = np.asarray(Y, float).ravel()
    d = "" if x.shape != Y.shape else f"; largest difference in y {np.nanmax(np.abs(y - Y), initial=0):.3g} of {np.nanmax(np.abs(Y), initial=0):.3g}"
    c.fail(f"{what}: the curve {label!r} is not the stored data ({len(x)} points drawn, {Y.size} expected{d})")


def lacks(c, ax, label, what):
    c.ok(all(q[0] != label for q in curves(ax)), f"{what}: {label!r} is drawn although it was not asked for")


def state(o):
    """copy of the data of an object"""
    out = {}
    for k, v in vars(o).items():
        try:
            out[k] = np.array(v, copy=True)
        except Exception:
            out[k] = v
    return out


def unchanged(c, o, before, what):
    now = vars(o)
    c.ok(set(now) == set(before), f"{what}: attributes added or removed: {set(now) ^ set(before)}")
    for k, v in before.items():
        try:
            same_ = np.array_equal(np.asarray(now[k]), v, equal_nan=True)
        except TypeError:
            same_ = np.array_equal(np.asarray(now[k]), v)
        except Exception:
            same_ = now[k] is v
        c.ok(same_, f"{what}: drawing changed {k}")
