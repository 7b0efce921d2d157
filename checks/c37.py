"""C37: figures and stress metrics of a strain-stress path data set.

Every data set shape (number of paths, lengths of the paths, dimension,
component order) within the bounds is plotted with the real code; the points,
histograms and boxes of the figures are read back and compared with the
quantities computed directly from the paths (tensors, norms, increments,
principal and pi-plane stresses, invariants, triaxiality, Lode parameter,
equivalent strain and stress).
"""
import _path  # noqa
import itertools
import warnings
from mc.core import Check, THOROUGH, quiet
import numpy as np
import torch
from mc.figs import Figures, bars, dots, has, lines, medians
from data_generation.strain_paths.interface import StrainPathGenerator
from time_series_data.time_dataset import TimeSeriesDatasetInMemory
from user_scripts.synthetic_data import gen_response_dataset as grd

warnings.simplefilter('ignore')
torch.set_default_dtype(torch.float64)
chk = Check('C37')
Gen = grd.MaterialResponseDatasetGenerator
ORDERS = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
PAIRS = {2: (('11', '22'), ('11', '12'), ('22', '12')),
         3: (('11', '22'), ('11', '33'), ('22', '33'), ('11', '12'),
             ('11', '23'), ('11', '13'))}


def order_of(nd, which):
    o = ORDERS[nd]
    return {'standard': o, 'reversed': o[::-1], 'rotated': o[2:] + o[:2]}[
        which]


def paths_of(nd, lengths, scale, shift):
    """Paths of tensors and times, all different."""
    out, times = [], []
    for k, n in enumerate(lengths):
        x = np.sin(1.7*np.arange(n*nd*nd) + 3.1*k + shift).reshape(n, nd, nd)
        x = np.cumsum(x, axis=0)
        out.append(scale*0.5*(x + np.swapaxes(x, 1, 2)))
        times.append(0.5*k + 0.25*np.arange(n)*(1 + k))
    return times, out


def comps(path, order):
    return np.array([[x[int(c[0]) - 1, int(c[1]) - 1] for c in order]
                     for x in path])


def rows(*cols):
    a = np.stack([np.ravel(c) for c in cols], axis=1)
    return a[~np.isnan(a).any(axis=1)]


def shown(t, figs, want, key, what, rep, label=None, get=lines):
    t.check(any(has(get(f), label, want) for f in figs), key,
            f'no figure shows {what}', rep)


def exact(t, figs, wants, key, what, rep):
    """Some figure shows exactly these polylines."""
    def ok(f):
        got = [r for _, r in lines(f) if len(r)]
        return len(got) == len(wants) and all(
            any(g.shape == w.shape and np.allclose(g, w, rtol=1e-9,
                                                   atol=1e-11)
                for g in got) for w in wants)
    t.check(any(ok(f) for f in figs), key, f'no figure shows {what}', rep)


def same_histogram(edges, heights, data):
    """Do the bars count the values, whatever the bins?  A value within
    rounding distance of an edge may be counted on either side of it."""
    lo, hi = data.min(), data.max()
    tol = 1e-9*max(hi - lo, np.abs(data).max())
    if len(edges) < 2 or not (abs(edges[0] - lo) <= tol
                              and abs(edges[-1] - hi) <= tol):
        return False
    low = np.array([np.sum((data > a + tol) & (data < b - tol))
                    for a, b in zip(edges[:-1], edges[1:])])
    high = np.array([np.sum((data >= a - tol) & (data <= b + tol))
                     for a, b in zip(edges[:-1], edges[1:])])
    n = heights*np.diff(edges)*len(data)
    return bool(np.isclose(n.sum(), len(data)) and np.all(n > low - 1e-6)
                and np.all(n < high + 1e-6))


def histogram(t, figs, data, key, what, rep):
    data = np.concatenate([np.ravel(x) for x in data])
    if (not len(data)
            or np.ptp(data) < 1e-9 + 1e-6*np.abs(data).max()):
        # Equal values up to rounding: the bins are not determined
        t.count('skipped')
        return
    t.check(any(same_histogram(a, b, data) for f in figs
                for a, b in bars(f)), key,
            f'no figure shows the histogram of {what}', rep)


def boxes(t, figs, data, key, what, rep):
    want = np.median(data, axis=0)
    t.check(any(np.allclose(m, want) for f in figs for m in medians(f)
                if len(m) == len(want)), key,
            f'no figure shows the boxes of {what}', rep)


# --------------------------------------------------------------------------
def strain(item, t):
    _, nd, lengths, which, single, flag = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    order = order_of(nd, which)
    times, tensors = paths_of(nd, lengths, 0.01, 0.0)
    data = [comps(x, order) for x in tensors]
    args = (times[0].copy(), data[0].copy()) if single else (
        [x.copy() for x in times], [x.copy() for x in data])
    with Figures() as F:
        StrainPathGenerator.plot_strain_path(
            'infinitesimal', nd, order, *args, strain_label='Strain',
            **{flag: True})
    figs = F.seen
    t.transition(len(figs))
    norm = [np.array([np.linalg.norm(x) for x in p]) for p in tensors]
    inc = [np.array([0.0] + [np.linalg.norm(b - a) for a, b in
                             zip(p[:-1], p[1:])]) for p in tensors]
    key = flag[8:]
    if flag == 'is_plot_strain_path':
        for k in range(min(5, len(lengths))):
            for j, c in enumerate(order):
                shown(t, figs, rows(times[k], data[k][:, j]), key,
                      f'component {c} of path {k}', rep, f'Strain {c}')
    elif flag == 'is_plot_strain_comp_hist':
        for j, c in enumerate(order):
            histogram(t, figs, [p[:, j] for p in data], key,
                      f'component {c}', rep)
    elif flag == 'is_plot_strain_norm':
        exact(t, figs, [rows(a, b) for a, b in zip(times, norm)], key,
              'the norms', rep)
    elif flag == 'is_plot_strain_norm_hist':
        histogram(t, figs, norm, key, 'the norms', rep)
    elif flag == 'is_plot_inc_strain_norm':
        # the first point, without increment, may or may not be shown
        for a, b in zip(times, inc):
            ok = any(has(lines(f), None, rows(a[i:], b[i:])) for f in figs
                     for i in (0, 1))
            t.check(ok, key, 'no figure shows the norms of the increments',
                    rep)
    elif flag == 'is_plot_inc_strain_norm_hist':
        histogram(t, figs, inc, key, 'the norms of the increments', rep)
    elif flag == 'is_plot_strain_path_pairs':
        for x, y in PAIRS[nd]:
            exact(t, figs, [rows(p[:, order.index(x)], p[:, order.index(y)])
                            for p in data], key, f'{y} over {x}', rep)
    elif flag == 'is_plot_strain_pairs_marginals':
        for x, y in PAIRS[nd]:
            for p in data:
                shown(t, figs, rows(p[:, order.index(x)],
                                    p[:, order.index(y)]), key,
                      f'{y} over {x}', rep, get=dots)
    elif flag == 'is_plot_strain_pairs_hist':
        for x, y in PAIRS[nd]:
            a = np.vstack([p[:, [order.index(x), order.index(y)]]
                           for p in data])
            want = np.histogram2d(a[:, 0], a[:, 1], bins=20)[0]
            got = [np.ma.filled(c.get_array(), 0.0).reshape(20, 20)
                   for f in figs for ax in f.axes for c in ax.collections
                   if c.get_array() is not None and
                   np.size(c.get_array()) == 400]
            t.check(any(np.allclose(g.T, want) for g in got), key,
                    f'no figure shows the histogram of {y} over {x}', rep)
    else:
        boxes(t, figs, np.vstack(data), key, 'the components', rep)
    same = all(np.array_equal(a, b) for a, b in zip(
        [args[1]] if single else args[1], data))
    t.check(same, 'input', 'the paths were modified', rep)


STRAIN = ('is_plot_strain_path', 'is_plot_strain_comp_hist',
          'is_plot_strain_norm', 'is_plot_strain_norm_hist',
          'is_plot_inc_strain_norm', 'is_plot_inc_strain_norm_hist',
          'is_plot_strain_path_pairs', 'is_plot_strain_pairs_marginals',
          'is_plot_strain_pairs_hist', 'is_plot_strain_comp_box')


# --------------------------------------------------------------------------
def metrics(x):
    """Invariants, triaxiality and Lode parameter of a stress tensor."""
    w = np.linalg.eigvalsh(x)
    i = (w.sum(), w[0]*w[1] + w[1]*w[2] + w[2]*w[0], w.prod())
    d = w - w.mean()
    j = (0.0, 0.5*(d**2).sum(), d.prod())
    q = np.sqrt(1.5*(d**2).sum())
    if j[1] < 1e-8:
        return i, j, np.nan, np.nan
    return i, j, w.mean()/q, 27.0/2.0*d.prod()/q**3


def stress(item, t):
    _, lengths, which, single, zero, flag = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    order = order_of(3, which)
    times, tensors = paths_of(3, lengths, 100.0, 1.0)
    if zero:
        for x in tensors:
            x[0] = 0.0
    data = [comps(x, order) for x in tensors]
    args = (data[0].copy(), times[0].copy()) if single else (
        [x.copy() for x in data], [x.copy() for x in times])
    np.random.seed(1)
    with Figures() as F:
        Gen.plot_stress_space_metrics('infinitesimal', order, *args,
                                      **{flag: True})
    figs = F.seen
    t.transition(len(figs))
    key = flag[8:]
    eig = [np.array([np.linalg.eigvalsh(x)[::-1] for x in p])
           for p in tensors]
    met = [[metrics(x) for x in p] for p in tensors]
    tri = [np.array([m[2] for m in p]) for p in met]
    lode = [np.array([m[3] for m in p]) for p in met]
    inv = np.array([m[0] + m[1] for p in met for m in p])
    tl = np.array([(m[2], m[3]) for p in met for m in p])
    tl = tl[~np.isnan(tl).any(axis=1)]
    if flag == 'is_plot_principal_stress_path':
        for p in eig:
            shown(t, figs, p, key, 'the principal stresses', rep)
    elif flag == 'is_plot_pi_stress_path_pairs':
        for p in eig:
            ok = False
            for perm in itertools.permutations(range(3)):
                a, b, c = p[:, perm].T
                z = (np.sqrt(2/3)*a - np.sqrt(1/6)*(b + c), (b - c)/np.sqrt(
                    2), (a + b + c)/np.sqrt(3))
                ok |= all(any(has(lines(f), None, rows(z[i], z[j]))
                              for f in figs)
                          for i, j in ((0, 1), (0, 2), (1, 2)))
            t.check(ok, key, 'no figure shows the path in the pi-plane', rep)
    elif flag == 'is_plot_stress_invar_hist':
        for j, c in enumerate(('I1', 'I2', 'I3', 'J1', 'J2', 'J3')):
            histogram(t, figs, [inv[:, j]], key, c, rep)
    elif flag == 'is_plot_stress_invar_box':
        boxes(t, figs, inv, key, 'the invariants', rep)
    elif flag == 'is_plot_stress_path_triax_lode':
        for k, (a, b) in enumerate(zip(tri, lode)):
            exact(t, figs, [rows(x, y) for x, y in zip(times, tri)
                            if len(rows(x, y))], key, 'triaxiality', rep)
            exact(t, figs, [rows(x, y) for x, y in zip(times, lode)
                            if len(rows(x, y))], key, 'Lode parameter', rep)
    elif flag == 'is_plot_stress_triax_lode_space':
        shown(t, figs, tl[:, ::-1], key, 'triaxiality over Lode parameter',
              rep, get=dots)
    elif flag == 'is_plot_stress_triax_lode_hist':
        histogram(t, figs, [tl[:, 0]], key, 'triaxiality', rep)
        histogram(t, figs, [tl[:, 1]], key, 'Lode parameter', rep)
    else:
        boxes(t, figs, tl, key, 'triaxiality and Lode parameter', rep)


STRESS = ('is_plot_principal_stress_path', 'is_plot_pi_stress_path_pairs',
          'is_plot_stress_invar_hist', 'is_plot_stress_invar_box',
          'is_plot_stress_path_triax_lode', 'is_plot_stress_triax_lode_space',
          'is_plot_stress_triax_lode_hist', 'is_plot_stress_triax_lode_box')


# --------------------------------------------------------------------------
def response(item, t):
    _, nd, lengths, which, other, single = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    eo, so = order_of(nd, which), order_of(nd, other)
    times, e = paths_of(nd, lengths, 0.01, 0.0)
    _, s = paths_of(nd, lengths, 100.0, 1.0)
    de, ds = [comps(x, eo) for x in e], [comps(x, so) for x in s]
    if single:
        args = eo, de[0], so, ds[0], times[0]
    else:
        args = eo, de, so, ds, times
    with Figures() as F:
        Gen.plot_material_response_path(
            'infinitesimal', nd, *args, is_plot_strain_stress_paths=True,
            is_plot_eq_strain_stress=True)
    figs = F.seen
    t.transition(len(figs))
    if len(lengths) == 1:
        for lb, o, d in (('Strain', eo, de[0]), ('Stress', so, ds[0])):
            for j, c in enumerate(o):
                shown(t, figs, rows(times[0], d[:, j]), 'response:' + lb,
                      f'{lb} {c}', rep, f'{lb} {c}')
    if nd == 3:
        def dev(x):
            return x - np.trace(x)/3.0*np.eye(3)
        exact(t, figs, [rows(
            [np.sqrt(2/3)*np.linalg.norm(dev(x)) for x in a],
            [np.sqrt(3/2)*np.linalg.norm(dev(x)) for x in b])
            for a, b in zip(e, s)], 'response:equivalent',
            'equivalent stress over equivalent strain', rep)


def dataset(item, t):
    _, nd, lengths, which, other, state = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    eo, so = order_of(nd, which), order_of(nd, other)
    times, e = paths_of(nd, lengths, 0.01, 0.0)
    _, s = paths_of(nd, lengths, 100.0, 1.0)
    de, ds = [comps(x, eo) for x in e], [comps(x, so) for x in s]
    acc = [np.cumsum(np.abs(x[:, :1]), axis=0) for x in de]
    data = TimeSeriesDatasetInMemory([dict(
        strain_comps_order=eo, strain_path=torch.tensor(de[k]),
        stress_comps_order=so, stress_path=torch.tensor(ds[k]),
        time_hist=torch.tensor(times[k]).reshape(-1, 1),
        **({'acc_p_strain': torch.tensor(acc[k])} if state else {}))
        for k in range(len(lengths))])
    with Figures() as F:
        grd.generate_dataset_plots('infinitesimal', nd, data)
    figs = F.seen
    t.transition(len(figs))
    for lb, o, d in (('Strain', eo, de), ('Stress', so, ds)):
        for k in range(min(5, len(lengths))):
            for j, c in enumerate(o):
                shown(t, figs, rows(times[k], d[k][:, j]), 'dataset:' + lb,
                      f'{lb} {c} of path {k}', rep, f'{lb} {c}')
        boxes(t, figs, np.vstack(d), 'dataset:box', lb, rep)
    if state:
        exact(t, figs, [rows(a, b) for a, b in zip(times, acc)],
              'dataset:state', 'the accumulated plastic strains', rep)
        histogram(t, figs, acc, 'dataset:state-histogram',
                  'the accumulated plastic strains', rep)


def items():
    out = []
    shapes = [c for n in (1, 2, 3) for c in itertools.product(
        (2, 3, 5), repeat=n)]
    if not THOROUGH:
        shapes = [c for c in shapes if len(c) < 3 or len(set(c)) == 3]
    shapes += [(4, 3, 2, 5, 3, 4)]
    for nd in (2, 3):
        for c in shapes:
            for f in STRAIN:
                out.append(('strain', nd, c, 'standard', False, f))
        for w in ('reversed', 'rotated'):
            for f in STRAIN:
                out.append(('strain', nd, (3, 4), w, False, f))
        for f in STRAIN:
            out.append(('strain', nd, (4,), 'standard', True, f))
    for c in shapes:
        for f in STRESS:
            for z in (False, True):
                out.append(('stress', c, 'standard', False, z, f))
    for f in STRESS:
        out.append(('stress', (4,), 'standard', True, True, f))
        for w in ('reversed', 'rotated'):
            out.append(('stress', (3, 4), w, False, False, f))
    for nd in (2, 3):
        for c in shapes:
            out.append(('response', nd, c, 'standard', 'standard', False))
            for s in (False, True):
                out.append(('dataset', nd, c, 'standard', 'standard', s))
        for a, b in itertools.product(('standard', 'reversed', 'rotated'),
                                      repeat=2):
            out.append(('response', nd, (4,), a, b, True))
            out.append(('response', nd, (3, 3), a, b, False))
            out.append(('dataset', nd, (3, 3), a, b, True))
    return out


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    chk.pmap(dispatch, items())


chk.run('figures', main)
chk.finish()
