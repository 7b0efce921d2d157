"""What a figure shows."""
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt


def table(*cols):
    """Rows of columns that are all defined, in order."""
    cols = [np.array([np.nan if v is None else v for v in np.ravel(c)],
                     dtype=float) for c in cols]
    a = np.stack(cols, axis=1)
    return a[~np.isnan(a).any(axis=1)]


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def lines(fig):
    """All polylines of a figure: (label, rows)."""
    out = []
    for ax in fig.axes:
        for ln in ax.lines:
            d = ln.get_data_3d() if hasattr(ln, 'get_data_3d') \
                else ln.get_data(orig=True)
            try:
                out.append((ln.get_label(), table(*d)))
            except (TypeError, ValueError):
                continue
        for c in ax.containers:
            if isinstance(c, matplotlib.container.ErrorbarContainer) \
                    and c[0] is not None:
                out.append((c.get_label(),
                            table(*c[0].get_data(orig=True))))
    return out


def dots(fig):
    """All point clouds of a figure: (label, rows)."""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, matplotlib.collections.PathCollection):
                a = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float),
                                 np.nan)
                out.append((c.get_label(), a[~np.isnan(a).any(axis=1)]))
    return out


def segments(fig):
    """All vertical error bars of a figure: (x, low, high)."""
    out = []
    for ax in fig.axes:
        for c in ax.containers:
            if isinstance(c, matplotlib.container.ErrorbarContainer):
                for col in c[2]:
                    for s in col.get_segments():
                        s = np.array(s, dtype=float)
                        out.append((s[0, 0], s[:, 1].min(), s[:, 1].max()))
    return out


def shades(fig):
    """All shaded bands of a figure: {x: (low, high)}."""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, matplotlib.collections.PolyCollection):
                for p in c.get_paths():
                    band = {}
                    for x, y in p.vertices:
                        lo, hi = band.get(x, (y, y))
                        band[x] = (min(lo, y), max(hi, y))
                    out.append(band)
    return out


def has(found, label, rows):
    return any(same(r, rows) and (label is None or lb == label)
               for lb, r in found)


class Figures:
    """Figures that exist when the code under test closes them."""

    def __enter__(self):
        self.seen = []
        self.real = plt.close
        plt.close('all')

        def close(*a, **k):
            for n in plt.get_fignums():
                f = plt.figure(n)
                if f not in self.seen:
                    self.seen.append(f)
            return self.real(*a, **k)
        plt.close = close
        return self

    def __exit__(self, *a):
        plt.close()
        plt.close = self.real
        plt.close('all')
        return False


def bars(fig):
    """All histograms of a figure: (edges, heights)."""
    out = []
    for ax in fig.axes:
        for c in ax.containers:
            if isinstance(c, matplotlib.container.BarContainer) and len(c):
                x = [p.get_x() for p in c] + [c[-1].get_x() +
                                              c[-1].get_width()]
                out.append((np.array(x), np.array([p.get_height()
                                                   for p in c])))
    return out


def medians(fig):
    """Positions of horizontal lines of box plots: one list per choice of
    a line in every box is too many, so the middle line of every box."""
    out = []
    for ax in fig.axes:
        ys = {}
        for ln in ax.lines:
            y = np.asarray(ln.get_ydata(), float)
            x = np.asarray(ln.get_xdata(), float)
            if len(y) == 2 and y[0] == y[1] and x[0] != x[1]:
                ys.setdefault(round(float(x.mean()), 6), []).append(
                    (x.max() - x.min(), y[0]))
        # the median line is the widest one of a box
        out.append([max(ys[k])[1] for k in sorted(ys)])
    return out
