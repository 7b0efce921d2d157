"""C32: result arrays and figures show exactly the stored results."""
import _path  # noqa
import itertools
import os
import pickle
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from mc.figs import (
    Figures, dots, has, lines, same, segments, shades, table)
from ioput import plots
from model_architectures.materials import process_predictions as pp
from model_architectures.procedures import convergence_plots as cp
from model_architectures.procedures import model_prediction as mp
from model_architectures.procedures import model_training as mt
from user_scripts.convergence_analyses import (
    plot_noisy_convergence_analysis as noisyca)
from user_scripts.local_model_update.hybrid_material_model import (
    uncertainty_quantification as hyuq)
from user_scripts.local_model_update.rc_material_model import (
    uncertainty_quantification as rcuq)
from user_scripts.local_model_update.rnn_material_model import (
    uncertainty_quantification as nnuq)
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, save_dataset)

torch.set_default_dtype(torch.float64)
warnings.simplefilter('ignore')
chk = Check('C32')


VALS = (1.5, -2.0, 4.25)


def columns(n_sets, n_rows, shift):
    """Data sets of different values and lengths (None padded)."""
    a = np.full((n_rows, 2*n_sets), None)
    for s in range(n_sets):
        m = n_rows - (s % 2 if n_rows > 1 else 0)
        for r in range(m):
            a[r, 2*s] = r + 0.5*s
            a[r, 2*s + 1] = VALS[(r + s + shift) % 3]*(1 + s)
    return a


def fig_items():
    out = []
    for n, r, sh, lab in itertools.product((1, 2, 3, 4), (1, 2, 3), (0, 1),
                                           (False, True)):
        for ref in (False, True):
            out.append(('xy', n, r, sh, lab, ref))
        out.append(('scatter', n, r, sh, lab, False))
        out.append(('xyz', n, r, sh, lab, False))
    for r, sh, sc in itertools.product((1, 2, 3), (0, 1, 2),
                                       ('linear', 'log')):
        out.append(('xy2', 1, r, sh, sc, False))
    for n, m, r, rt, bar, ref in itertools.product(
            (1, 2, 3), (1, 2, 3), (1, 2, 3), ('min-max', 'mean-std'),
            (False, True), (False, True)):
        out.append(('xny', n, m, r, rt, (bar, ref)))
        if not ref and bar:
            out.append(('sxny', n, m, r, rt, bar))
            if n == 1:
                out.append(('scatterbar', m, r, 0, rt, False))
    for g, d, sh in itertools.product((1, 2, 3), (1, 2, 3), (0, 1)):
        out.append(('bars', g, d, sh, None, None))
        out.append(('box', g, 2*d + 1, sh, None, False))
        out.append(('box', g, 2*d + 1, sh, None, True))
        out.append(('hist', g, d, sh, None, None))
    for r, sh in itertools.product((2, 3, 4), (0, 1, 2)):
        out.append(('r2', 1, r, sh, None, None))
        out.append(('hist2', 1, r, sh, None, None))
    return out


def spread(vals, rt):
    m = np.mean(vals)
    if rt == 'min-max':
        return min(vals), max(vals)
    e = 1.96*np.std(vals)
    return m - e, m + e


def many(n, m, r, s):
    return np.array([[k] + [VALS[(k + j + s) % 3]*(1 + s) + j
                            for j in range(m)] for k in range(r)], float)


def figure(item, t):
    kind, n, r, sh, lab, opt = item
    rep = dict(plot=kind, arguments=[str(x) for x in item[1:]])
    plt.close('all')
    labels = [f'set {k}' for k in range(n)]
    t.count('figures')
    t.state(item)
    t.trace(1)
    if kind in ('xy', 'scatter'):
        data = columns(n, r, sh)
        kw = dict(data_labels=labels) if lab else {}
        keep = data.copy()
        if kind == 'xy':
            f, _ = plots.plot_xy_data(data, is_reference_data=opt, **kw)
            got = lines(f)
        else:
            f, _ = plots.scatter_xy_data(data, **kw)
            got = [(a, b[~np.isnan(b).any(axis=1)]) for a, b in dots(f)]
        for k in range(n):
            want = table(data[:, 2*k], data[:, 2*k + 1])
            t.check(has(got, labels[k] if lab else None, want),
                    f'{kind}:data', 'a figure does not show a data set under '
                    'its label', dict(rep, set=k))
        t.check(len([1 for a in got if len(a[1])]) == n, f'{kind}:extra',
                'a figure shows other data', rep)
        t.check(np.array_equal(keep, data), f'{kind}:modified',
                'plotting modified the data', rep)
    elif kind == 'xyz':
        data = np.array([[VALS[(a + b + sh) % 3] + b for b in range(3*n)]
                         for a in range(r)])
        f, _ = plots.plot_xyz_data(data, data_labels=labels if lab else None)
        got = lines(f)
        for k in range(n):
            t.check(has(got, labels[k] if lab else None,
                        data[:, 3*k:3*k + 3]), 'xyz:data',
                    'a figure does not show a data set under its label',
                    dict(rep, set=k))
    elif kind == 'xy2':
        a, b = columns(1, r, sh).astype(float), columns(1, r, sh + 1)
        b = b.astype(float)
        a[:, 1] = np.abs(a[:, 1])
        f, _ = plots.plot_xy2_data(a, b, y1_scale=lab)
        got = [[table(*ln.get_data()) for ln in ax.lines] for ax in f.axes]
        t.check(len(got) == 2 and any(same(x, a) for x in got[0])
                and any(same(x, b) for x in got[1]), 'xy2:data',
                'a two-axes figure does not show the data on its axes', rep)
        t.check(f.axes[0].get_yscale() == lab
                and f.axes[1].get_yscale() == 'linear', 'xy2:scale',
                'the axes scales are not the requested ones', rep)
    elif kind in ('xny', 'sxny'):
        # here: n sets of r realizations with sh rows
        bar, ref = opt if kind == 'xny' else (opt, False)
        data = [many(n, 1 if ref and s == 0 else r, sh, s)
                for s in range(n)]
        if kind == 'xny':
            f, _ = plots.plot_xny_data(
                data, range_type=lab, is_error_bar=bar,
                is_reference_data=ref, data_labels=labels)
        else:
            f, _ = plots.scatter_xny_data(data, range_type=lab,
                                          is_error_bar=bar,
                                          data_labels=labels)
        got, seg, shd = lines(f), segments(f), shades(f)
        for s, d in enumerate(data):
            if ref and s == 0:
                t.check(has(got, labels[s], d[:, :2]), 'xny:reference',
                        'the reference data is not shown', rep)
                continue
            mean = np.stack((d[:, 0], d[:, 1:].mean(axis=1)), axis=1)
            t.check(has(got, labels[s], mean), f'{kind}:mean',
                    'the figure does not show the mean of the realizations',
                    dict(rep, set=s))
            want = [(row[0],) + spread(row[1:], lab) for row in d]
            if bar:
                t.check(all(any(np.allclose(w, g) for g in seg)
                            for w in want), f'{kind}:range',
                        'the error bars are not the range of the '
                        'realizations', dict(rep, set=s))
            elif kind == 'xny' and sh > 1:
                t.check(any(all(w[0] in b and np.allclose(w[1:], b[w[0]])
                                for w in want) for b in shd),
                        'xny:shading', 'the shaded band is not the range of '
                        'the realizations', dict(rep, set=s))
    elif kind == 'scatterbar':
        d = many(1, n, r, 0)
        a = np.empty((r, 2*n))
        for j in range(n):
            a[:, 2*j], a[:, 2*j + 1] = d[:, 0], d[:, 1 + j]
        f, _ = plots.scatter_xy_data(a, is_error_bar=True, range_type=lab)
        mean = np.stack((d[:, 0], d[:, 1:].mean(axis=1)), axis=1)
        t.check(has(lines(f), None, mean), 'scatterbar:mean',
                'the figure does not show the mean of the realizations', rep)
        seg = segments(f)
        t.check(all(any(np.allclose((row[0],) + spread(row[1:], lab), g)
                        for g in seg) for row in d), 'scatterbar:range',
                'the error bars are not the range of the realizations', rep)
    elif kind == 'bars':
        g = tuple(f'g{k}' for k in range(n))
        data = {f'd{k}': tuple(abs(VALS[(k + j + sh) % 3]) + 10*k
                               for j in range(n)) for k in range(r)}
        f, ax = plots.grouped_bar_chart(g, data)
        by = {c.get_label(): c for c in ax.containers}
        for k, v in data.items():
            ok = k in by and np.allclose(
                [p.get_height() for p in by[k].patches], v)
            t.check(ok, 'bars:data', 'the bars are not the values of the '
                    'data set', dict(rep, set=k))
        # bars of one group lie together around its tick
        if all(k in by for k in data):
            for j in range(n):
                c = [by[k].patches[j].get_x() + by[k].patches[j].get_width()/2
                     for k in data]
                t.check(abs(np.mean(c) - j) < 0.5 and max(
                    abs(x - j) for x in c) <= 0.5 and len(
                        set(np.round(c, 6))) == len(c), 'bars:position',
                        'the bars of a group are not side by side at the '
                        'group', rep)
    elif kind == 'box':
        data = np.array([[VALS[(a*(b + 1) + sh) % 3]*(b + 1) + a
                          for b in range(n)] for a in range(r)])
        f, _ = plots.plot_boxplots(data, data_labels=labels,
                                   is_mean_line=True,
                                   is_multiple_subplots=opt)
        ys = [set(np.round(ln.get_ydata(), 9).tolist()) for ax in f.axes
              for ln in ax.lines]
        for b in range(n):
            for name, v in (('median', np.median(data[:, b])),
                            ('mean', np.mean(data[:, b]))):
                t.check({round(float(v), 9)} in ys, f'box:{name}',
                        f'no box shows the {name} of a data set',
                        dict(rep, set=b))
    elif kind == 'hist':
        data = [np.array([VALS[(a + b + sh) % 3] for a in range(r + b)])
                for b in range(n)]
        f, ax = plots.plot_histogram(tuple(data), bins=4,
                                     bins_range=(-5., 5.))
        h = [np.array([p.get_height() for p in c.patches])
             for c in ax.containers]
        for d in data:
            want = np.histogram(d, bins=4, range=(-5., 5.))[0]
            t.check(any(len(x) == 4 and np.allclose(x, want) for x in h),
                    'hist:data', 'the histogram is not that of the data',
                    rep)
    elif kind == 'hist2':
        d = np.array([[VALS[(a + sh) % 3], VALS[(2*a + sh) % 3]]
                      for a in range(r)])
        f, ax = plots.plot_histogram_2d(d, bins=3, bins_range=[[-5, 5],
                                                               [-5, 5]])
        want = np.histogram2d(d[:, 0], d[:, 1], bins=3,
                              range=[[-5, 5], [-5, 5]])[0]
        got = [np.array(c.get_array()).reshape(3, 3) for c in ax.collections
               if isinstance(c, matplotlib.collections.QuadMesh)]
        t.check(any(np.allclose(x.T, want) for x in got), 'hist2:data',
                'the histogram is not that of the data', rep)
    elif kind == 'r2':
        for p in itertools.product(VALS, repeat=r):
            ref = np.arange(r) + 1.0*sh
            d = np.stack((ref, ref + np.array(p)/4), axis=1)
            f, ax = plots.scatter_xy_data(d, is_r2_coefficient=True)
            r2 = 1 - np.sum((d[:, 0] - d[:, 1])**2)/np.sum(
                (ref - ref.mean())**2)
            txt = ' '.join(x.get_text() for x in ax.texts)
            t.check(f'{r2:.2f}' in txt, 'r2:value',
                    f'the coefficient of determination is not {r2:.2f}: '
                    f'{txt}', dict(rep, prediction=d.tolist()))
            plt.close('all')
            t.trace()
    plt.close('all')


# ----------------------------------------------- stored predictions, arrays
def value(m, s, k, c, target):
    return 1000.0*m + 100.0*s + 10.0*k + c + (0.5 if target else 0.0)


def length(s):
    return 2 + s % 2


def store(pred_dir, m, ids, n_comp):
    os.makedirs(pred_dir)
    for s in ids:
        out, tgt = (np.array([[value(m if not g else 0, s, k, c, g)
                               for c in range(n_comp)]
                              for k in range(length(s))])
                    for g in (False, True))
        mp.save_sample_predictions(pred_dir, s, {
            'features_out': torch.tensor(out),
            'targets': torch.tensor(tgt),
            'stress_comps_order': tuple(range(n_comp - 1))})


def bundle(base, n, sub='5_testing_id_dataset'):
    d = os.path.join(base, sub)
    os.makedirs(d, exist_ok=True)
    ds = TimeSeriesDatasetInMemory([
        {'strain_path': torch.zeros(length(s), 6),
         'time_hist': 0.25*torch.arange(float(length(s))).reshape(-1, 1)
         + s} for s in range(n)])
    return save_dataset(ds, 'ss_paths_dataset', d, is_append_n_sample=True)


def arrays(item, t):
    ids, req, n_comp, n_lab, ptype = item
    rep = dict(stored=list(ids), requested=req, components=n_comp,
               labels=n_lab, prediction_type=ptype)
    labels = tuple(f'c{k}' for k in range(n_lab))
    want_ids = list(ids) if req == 'all' else list(req)
    n = max(ids) + 1
    with Scratch() as sc, quiet():
        base = sc
        path = bundle(base, n)
        pred = os.path.join(base, '7_prediction', 'in_distribution',
                            'prediction_set_0')
        store(pred, 3, ids, n_comp)
        # other files of the directory are no predictions
        open(os.path.join(pred, 'summary.dat'), 'w').close()
        t.state(item)
        t.trace(2)
        res = pp.build_prediction_data_arrays(
            pred, ptype, labels, samples_ids=req if req == 'all'
            else list(req))
        t.check(len(res) == n_lab, 'arrays:number',
                'not one array per component', rep)
        for j in range(min(n_lab, len(res))):
            c = n_comp - 1 if ptype == 'acc_p_strain' else j
            want = [[value(0, s, k, c, True), value(3, s, k, c, False)]
                    for s in want_ids for k in range(length(s))]
            got = np.array(res[j]).tolist()
            if req == 'all':
                got, want = sorted(got), sorted(want)
            t.check(np.shape(got) == np.shape(want)
                    and np.allclose(got, want), 'arrays:values',
                    'the array of a component is not the ground-truth and '
                    'prediction of all requested samples',
                    dict(rep, component=c))
        res = pp.build_time_series_predictions_data(
            path, pred, ptype, labels, samples_ids=req if req == 'all'
            else list(req))
        series(res, want_ids, (3,), n_lab, t, rep,
               n_comp - 1 if ptype == 'acc_p_strain' else 0)


def series(res, want_ids, models, n_lab, t, rep, first=0):
    for j in range(n_lab):
        c = j + first
        ok = len(res) == n_lab and \
            sorted(res[j]) == sorted(str(s) for s in set(want_ids))
        t.check(ok, 'series:samples',
                'the series are not those of the requested samples', rep)
        if not ok:
            continue
        for s in want_ids:
            want = [[0.25*k + s, value(0, s, k, c, True)]
                    + [value(m, s, k, c, False) for m in models]
                    for k in range(length(s))]
            got = np.array(res[j][str(s)], dtype=float)
            t.check(got.shape == np.shape(want) and np.allclose(got, want),
                    'series:values', 'the series of a sample is not its '
                    'time, ground-truth and predictions in model order',
                    dict(rep, component=c, sample=s))


def uq(item, t):
    models, ids, req, ptype = item
    rep = dict(models=list(models), stored=list(ids), requested=req,
               prediction_type=ptype)
    want_ids = list(ids) if req == 'all' else list(req)
    with Scratch() as sc, quiet():
        base = sc
        path = bundle(base, max(ids) + 1)
        for m in models:
            store(os.path.join(base, 'uncertainty_quantification',
                               f'model_{m}', '7_prediction',
                               'in_distribution'), m, ids, 2)
        os.makedirs(os.path.join(base, 'uncertainty_quantification',
                                 'plots'))
        t.state(item)
        t.trace(1)
        t.count('model_samples', len(models))
        res = pp.build_time_series_predictions_data(
            path, os.path.join(base, '7_prediction', 'in_distribution',
                               'prediction_set_0'), ptype, ('a', 'b'),
            samples_ids=req if req == 'all' else list(req),
            is_uncertainty_quantification=True) if ptype != 'acc_p_strain' \
            else pp.build_time_series_predictions_data(
                path, os.path.join(base, '7_prediction', 'in_distribution',
                                   'x'), ptype, ('a',),
                samples_ids=req if req == 'all' else list(req),
                is_uncertainty_quantification=True)
        n = 1 if ptype == 'acc_p_strain' else 2
        series(res, want_ids, sorted(models), n, t, rep, 2 - n)


def array_items():
    out = []
    pool = (0, 1, 2, 10)
    for r in (1, 2, 3):
        for ids in itertools.combinations(pool, r):
            reqs = ['all'] + [q for k in (1, 2)
                              for q in itertools.permutations(ids, k)]
            for req in reqs:
                for n_comp, n_lab in ((1, 1), (2, 2), (3, 2), (6, 6)):
                    for pt in ('stress_comps', 'p_strain_comps'):
                        out.append((ids, req, n_comp, n_lab, pt))
                out.append((ids, req, 3, 1, 'acc_p_strain'))
    return out


def uq_items():
    out = []
    for models in ((0,), (0, 1), (1, 0, 2), (0, 2, 10), tuple(range(12))):
        for ids in ((0,), (0, 2), (1, 10, 2)):
            reqs = ['all'] + [q for k in (1, 2)
                              for q in itertools.permutations(ids, k)]
            for req in reqs:
                for pt in ('stress_comps', 'p_strain_comps',
                           'acc_p_strain'):
                    out.append((models, ids, req, pt))
    return out


# ------------------------------------------- figures of stored results
def hist_items():
    return [(a, b, lg) for n in (1, 2, 3) for a in itertools.product(
        (1.0, 0.25, 3.5), repeat=n) for b in (1, 2, 3)
        for lg in (False, True)]


def history(item, t):
    """Training histories."""
    a, nb, lg = item
    rep = dict(loss=list(a), other=nb, log=lg)
    b = [0.5 + k for k in range(nb)]
    f = np.log if lg else np.array
    t.state(item)
    t.trace(1)
    with Figures() as F:
        mt.plot_training_loss_history({'train': list(a), 'val': b},
                                      is_log_loss=lg)
    ok = len(F.seen) == 1 and all(
        has(lines(F.seen[0]), lb, np.stack((np.arange(len(v)), f(v)), 1))
        for lb, v in (('train', a), ('val', b)))
    t.check(ok, 'history:loss', 'the loss history figure does not show the '
            'loss of every epoch', rep)
    lr = [10.0**-k for k in range(len(a))]
    with Figures() as F:
        mt.plot_training_loss_and_lr_history(list(a), lr, is_log_loss=lg)
    x = np.arange(len(a))
    ok = len(F.seen) == 1 and len(F.seen[0].axes) == 2 and all(
        any(same(table(*ln.get_data()), np.stack((x, v), 1))
            for ln in ax.lines)
        for ax, v in zip(F.seen[0].axes, (f(a), lr)))
    t.check(ok, 'history:lr', 'the learning rate figure does not show the '
            'loss and learning rate of every epoch', rep)
    with Figures() as F:
        mt.plot_model_parameters_history({'E': list(a), 'v': b},
                                         {'E': (0.0, 5.0), 'v': (0.5, 4.5)})
    for v in (a, b):
        t.check(any(has(lines(g), None, np.stack((np.arange(len(v)), v), 1))
                    for g in F.seen), 'history:parameters',
                'no figure shows the history of a parameter', rep)


def pred_items():
    return [(ls, ref, u) for n in (1, 2, 3) for ls in itertools.product(
        (1, 2, 3), repeat=n) for ref in (False, True)
        for u in (False, True)]


def prediction(item, t):
    """Prediction figures."""
    ls, ref, u = item
    rep = dict(lengths=list(ls), reference=ref, uncertainty=u)
    t.state(item)
    t.trace(1)
    sets = {f'p{k}': np.array([[j + 0.5*k, VALS[(j + k) % 3] + k]
                               for j in range(n)]) for k, n in enumerate(ls)}
    with Figures() as F:
        mp.plot_time_series_prediction(sets, is_reference_data=ref)
    t.check(len(F.seen) == 1 and all(has(lines(F.seen[0]), k, v)
                                     for k, v in sets.items()),
            'prediction:series', 'the figure does not show every '
            'prediction process under its name', rep)
    with Figures() as F:
        mp.plot_truth_vs_prediction(sets, error_bound=0.1 if ref else None)
    got = [] if len(F.seen) != 1 else [
        (a, b[~np.isnan(b).any(axis=1)]) for a, b in dots(F.seen[0])]
    t.check(all(has(got, k, v) for k, v in sets.items()),
            'prediction:scatter', 'the figure does not show every prediction '
            'process under its name', rep)
    if ref and got:
        # error bound: the band around the identity line
        bands = [b for b in shades(F.seen[0]) if len(b) > 2]
        ok = any(all(np.allclose(sorted((1.1*x, .9*x)), y, atol=1e-9)
                     for x, y in b.items()) for b in bands)
        t.check(ok, 'prediction:bound', 'the error bound is not the band '
                'of the relative error', rep)
    if u:
        with Figures() as F:
            many_ = {k: np.concatenate((v, 2*v[:, 1:]), axis=1)
                     if not (ref and k == 'p0') else v
                     for k, v in sets.items()}
            mp.plot_time_series_prediction(
                many_, is_reference_data=ref,
                is_uncertainty_quantification=True)
        got = lines(F.seen[0]) if F.seen else []
        for k, v in many_.items():
            want = np.stack((v[:, 0], v[:, 1:].mean(axis=1)), axis=1)
            t.check(has(got, k, want), 'prediction:uncertainty',
                    'the figure does not show the mean of the realizations',
                    dict(rep, process=k))


def boxes(figs, data, t, key, rep):
    """Some figure has boxes with the medians and means, in order."""
    for name, f in (('median', np.median), ('mean', np.mean)):
        ok = False
        for g in figs:
            for ax in g.axes:
                ys = {}
                for ln in ax.lines:
                    y = np.asarray(ln.get_ydata(), float)
                    if len(y) and np.ptp(y) == 0.0:
                        ys.setdefault(round(float(np.mean(
                            ln.get_xdata()))), set()).add(round(y[0], 9))
                ok |= all(round(float(f(d)), 9) in ys.get(k + 1, ())
                          for k, d in enumerate(data))
        t.check(ok, f'{key}:{name}', f'no figure shows the {name} of the '
                'model samples', rep)


def conv_items():
    out = []
    for sizes in itertools.permutations((1, 2, 10), 3):
        for nm in (1, 2, 11):
            out.append((sizes, nm))
    out += [((3,), 2), ((2, 2), 2)]
    return out


def convergence(item, t):
    """Convergence of models with the training size."""
    sizes, nm = item
    rep = dict(training_sizes=list(sizes), model_samples=nm)
    t.state(item)
    t.trace(1)
    with Scratch() as sc, quiet():
        root = sc
        bases, trains, tests, preds = [], [], [], []
        loss, par = {}, {}
        for i, n in enumerate(sizes):
            base = os.path.join(root, f'n{i}')
            bases.append(base)
            bundle(base, n, '1_training_dataset')
            bundle(base, 2)
            trains.append(os.path.join(base, '1_training_dataset'))
            tests.append(os.path.join(base, '5_testing_id_dataset'))
            p = os.path.join(base, '7_prediction', 'in_distribution',
                             'prediction_set_0')
            preds.append(p)
            for m in ('', *range(nm)):
                d = p if m == '' else os.path.join(
                    base, 'uncertainty_quantification', f'model_{m}',
                    '7_prediction', 'in_distribution')
                k = 0 if m == '' else m + 1
                store(d, 20*i + k, (0, 1), 2)
                loss[i, k] = 1e3*(1 + i) + 0.5*k
                summary(d, loss[i, k])
                b = base if m == '' else os.path.join(
                    base, 'uncertainty_quantification', f'model_{m}')
                os.makedirs(os.path.join(b, '3_model'))
                par[i, k] = {'E': 100.0 + 7*i + k, 'v': 0.3 + i + 0.01*k}
                with open(os.path.join(b, '3_model',
                                       'parameters_best.pkl'), 'wb') as h:
                    pickle.dump({'best_model_parameters': par[i, k],
                                 'model_parameters_bounds': None}, h)
        save = os.path.join(root, 'plots')
        os.makedirs(save)
        n = np.array(sizes, float)
        one = np.array([loss[i, 0] for i in range(len(sizes))])
        all_ = np.array([[loss[i, k + 1] for k in range(nm)]
                         for i in range(len(sizes))])
        with Figures() as F:
            cp.plot_prediction_loss_convergence(
                bases, trains, preds, save_dir=save, is_save_plot_data=True,
                is_latex=False)
        rows = np.stack((n, one), axis=1)
        t.check(len(F.seen) == 1 and has(dots(F.seen[0]), None, rows),
                'convergence:loss', 'the figure does not show the loss of '
                'every model at its training size', rep)
        t.check(same(stored(save, 'testing_loss_convergence'), rows),
                'convergence:loss-data', 'the plot data is not the loss of '
                'every model at its training size', rep)
        with Figures() as F:
            cp.plot_prediction_loss_convergence_uq(
                bases, trains, preds, save_dir=save, is_save_plot_data=True,
                is_latex=False)
        want = np.empty((len(sizes), 2*nm))
        want[:, 0::2], want[:, 1::2] = n[:, None], all_
        t.check(same(stored(save, 'testing_loss_convergence_uq'), want),
                'convergence:loss-uq-data', 'the plot data is not the loss '
                'of every model sample at its training size', rep)
        t.check(len(F.seen) == 1 and has(lines(F.seen[0]), None, np.stack(
            (n, all_.mean(axis=1)), axis=1)), 'convergence:loss-uq',
            'the figure does not show the mean loss of the model samples',
            rep)
        seg = segments(F.seen[0]) if F.seen else []
        t.check(all(any(np.allclose((n[i], all_[i].min(), all_[i].max()), g)
                        for g in seg) for i in range(len(sizes))),
                'convergence:loss-uq-range', 'the error bars are not the '
                'range over the model samples', rep)
        with Figures() as F:
            cp.plot_best_parameters_convergence(bases, trains,
                                                is_latex=False)
        for i, b in enumerate(bases):
            b = os.path.join(b, 'uncertainty_quantification')
            dd = os.path.join(b, 'plots', 'data')
            os.makedirs(dd)
            ms = [os.path.join(b, f'model_{m}') for m in range(nm)]
            with Figures() as G:
                rcuq.plot_best_parameters_uq(
                    ms, plot_data_dir=dd, filename='uq_best_parameters',
                    is_latex=False)
            for j, q in enumerate(('E', 'v')):
                boxes(G.seen, [[par[i, k + 1][q] for k in range(nm)]], t,
                      'uq:parameters', dict(rep, parameter=q, model=i))
            with Figures() as G:
                rcuq.plot_prediction_loss_uq(ms, [os.path.join(
                    m, '7_prediction', 'in_distribution') for m in ms],
                    is_latex=False)
            boxes(G.seen, [all_[i]], t, 'uq:loss', dict(rep, model=i))
        with Figures() as G:
            cp.plot_best_parameters_convergence_uq(bases, trains,
                                                   is_latex=False)
        for q in ('E', 'v'):
            y = np.array([par[i, 0][q] for i in range(len(sizes))])
            t.check(any(g.axes[0].get_ylabel() == q and has(
                dots(g), None, np.stack((n, y), axis=1)) for g in F.seen),
                'convergence:parameters', 'no figure shows a parameter of '
                'every model at its training size', dict(rep, parameter=q))
            gs = [g for g in G.seen if g.axes[0].get_ylabel() == q]
            boxes(gs, [[par[i, k + 1][q] for k in range(nm)]
                       for i in range(len(sizes))], t,
                  'convergence:parameters-uq', dict(rep, parameter=q))
            t.check(any([x.get_text() for x in g.axes[0].get_xticklabels()]
                        == [str(x) for x in sizes] for g in gs),
                    'convergence:parameters-uq-sizes', 'the boxes are not '
                    'labelled with the training sizes', rep)
        paths(sizes, nm, bases, trains, tests, preds, t, rep)


def realisations(item, t):
    """Figures of the realisations of a model."""
    kind, nm, tt = item
    mod = {'rc': rcuq, 'rnn': nnuq, 'hybrid': hyuq}[kind]
    rep = dict(kind=kind, model_samples=nm, testing=tt)
    t.state(item)
    t.trace(1)
    with Scratch() as sc, quiet():
        bundle(sc, 5)
        u = os.path.join(sc, 'uncertainty_quantification')
        for m in range(nm):
            b = os.path.join(u, f'model_{m}')
            for k, x in (('in_distribution', 0), ('out_distribution', 1)):
                d = os.path.join(b, '7_prediction', k)
                store(d, 30*x + m + 1, range(5), 6)
                summary(d, 1e3*(1 + x) + (m*m) % 7)
            os.makedirs(os.path.join(b, '3_model'))
            with open(os.path.join(b, '3_model', 'parameters_best.pkl'),
                      'wb') as h:
                pickle.dump({'best_model_parameters':
                             {'E': 100.0 + (m*m) % 7, 'v': 0.3 + 0.01*m},
                             'model_parameters_bounds': None}, h)
        with Figures() as F:
            mod.gen_model_uq_plots(
                u, nm, os.path.join(sc, '5_testing_id_dataset'), tt,
                is_latex=False)
        x = int(tt != 'in_distribution')
        boxes(F.seen, [[1e3*(1 + x) + (m*m) % 7 for m in range(nm)]], t,
              'realisations:loss', rep)
        if kind == 'rc':
            for v in ([100.0 + (m*m) % 7 for m in range(nm)],
                      [0.3 + 0.01*m for m in range(nm)]):
                boxes(F.seen, [v], t, 'realisations:parameters', rep)
        drawn = [(lines(f), shades(f)) for f in F.seen]
        for s, c in itertools.product(range(3 if kind == 'rc' else 5),
                                      range(6)):
            time = [0.25*k + s for k in range(length(s))]
            r = range(length(s))
            vals = np.array([[value(30*x + m + 1, s, k, c, False)
                              for m in range(nm)] for k in r])
            truth = np.stack((time, [value(0, s, k, c, True) for k in r]),
                             axis=1)
            mean = np.stack((time, vals.mean(axis=1)), axis=1)
            found = [(ln, sh) for ln, sh in drawn if has(ln, None, truth)
                     and has(ln, None, mean)]
            if not t.check(found, 'realisations:series', 'no figure shows '
                           'the ground-truth and the mean prediction of a '
                           'sample', dict(rep, sample=s, component=c)):
                continue
            t.check(any(all(np.allclose(
                next((b for q, b in band.items() if abs(q - time[k]) < 1e-9),
                     (np.inf, np.inf)),
                (vals[k].min(), vals[k].max())) for k in r)
                for _, sh in found for band in sh) or nm == 1,
                'realisations:range', 'no figure shades the range of the '
                'predictions', dict(rep, sample=s, component=c))


def noisy(item, t):
    """Convergence of models with the training size, every noise case."""
    sizes, nm, cases, rt = item
    rep = dict(training_sizes=list(sizes), model_samples=nm,
               noise_cases=cases, range_type=rt)
    t.state(item)
    t.trace(1)
    labels = [f'noise {c}' for c in range(cases)]
    n = np.array(sizes, float)
    val = np.array([[[1e3*(1 + i) + 37.0*c + 0.5*((k*7) % 11) for k in
                      range(nm)] for i in range(len(sizes))]
                    for c in range(cases)])
    with Scratch() as sc, quiet():
        bases, trains, preds = [], [], []
        for c, i in itertools.product(range(cases), range(len(sizes))):
            base = os.path.join(sc, f'case_{c}', f'n{sizes[i]}')
            bases.append(base)
            bundle(base, sizes[i], '1_training_dataset')
            trains.append(os.path.join(base, '1_training_dataset'))
            preds.append(os.path.join(base, '7_prediction', 'in_distribution',
                                      'prediction_set_0'))
            for k in range(nm):
                for tt in ('in_distribution', 'out_distribution'):
                    d = os.path.join(base, 'uncertainty_quantification',
                                     f'model_{k}', '7_prediction', tt)
                    os.makedirs(d)
                    summary(d, val[c, i, k] + (tt[0] == 'o')*1e6)
        real = noisyca.scatter_xy_data_noise_cases

        def scatter(*a, **k):
            k['range_type'] = rt
            return real(*a, **k)
        noisyca.scatter_xy_data_noise_cases = scatter
        try:
            with Figures() as F:
                noisyca.generate_convergence_plots(
                    cases, labels, bases, trains, trains, preds,
                    is_uncertainty_quantification=True, is_latex=False)
        finally:
            noisyca.scatter_xy_data_noise_cases = real
    t.transition(len(bases))
    t.check(len(F.seen) == 1, 'noisy:figure', f'{len(F.seen)} figures', rep)
    for f in F.seen:
        seg = segments(f)
        for c in range(cases):
            t.check(has(lines(f), labels[c], np.stack(
                (n, val[c].mean(axis=1)), axis=1)), 'noisy:mean',
                f'noise case {c}: not the mean loss of its model samples',
                rep)
            for i in range(len(sizes)):
                m = val[c, i].mean()
                s = 1.96*val[c, i].std()
                w = (n[i], val[c, i].min(), val[c, i].max()) \
                    if rt == 'min-max' else (n[i], m - s, m + s)
                t.check(any(np.allclose(w, g) for g in seg), 'noisy:range',
                        f'noise case {c}: no error bar {w}', rep)


def paths(sizes, nm, bases, trains, tests, preds, t, rep):
    types = {'stress_comps': ('a', 'b'), 'p_strain_comps': ('a', 'b')}
    with Figures() as F:
        cp.plot_time_series_convergence(bases, trains, tests, preds, types,
                                        plot_type='time_series_path',
                                        is_latex=False)
    with Figures() as G:
        cp.plot_time_series_convergence_uq(bases, trains, tests, preds,
                                           types, plot_type='time_series_path',
                                           is_latex=False)
    with Figures() as H:
        cp.plot_time_series_convergence(bases, trains, tests, preds, types,
                                        is_latex=False)
    t.check(len(F.seen) == len(G.seen) == 8, 'convergence:figures',
            'not one figure per sample and component', rep)
    distinct = len(set(sizes)) == len(sizes)
    for s, c in itertools.product((0, 1), (0, 1)):
        x = [0.25*k + s for k in range(length(s))]
        r = range(length(s))
        truth = np.stack((x, [value(0, s, k, c, True) for k in r]), axis=1)
        one = {f'N = {n}': np.stack((x, [value(20*i, s, k, c, False)
                                         for k in r]), axis=1)
               for i, n in enumerate(sizes)}
        avg = {f'N = {n}': np.stack((x, [np.mean(
            [value(20*i + m + 1, s, k, c, False) for m in range(nm)])
            for k in r]), axis=1) for i, n in enumerate(sizes)}
        for name, figs, want in (('path', F.seen, one),
                                 ('path-uq', G.seen, avg)):
            if not distinct:
                continue
            ok = any(has(lines(f), 'Ground-Truth', truth) and all(
                has(lines(f), k, v) for k, v in want.items()) for f in figs)
            t.check(ok, f'convergence:{name}', 'no figure shows the ground-'
                    'truth and the prediction of every model of a sample',
                    dict(rep, sample=s, component=c))
    if distinct:
        for c in (0, 1):
            want = {f'N = {n}': sorted(
                [value(0, s, k, c, True), value(20*i, s, k, c, False)]
                for s in (0, 1) for k in range(length(s)))
                for i, n in enumerate(sizes)}
            ok = any(all(any(lb == k and np.shape(d) == np.shape(v)
                             and np.allclose(sorted(d.tolist()), v)
                             for lb, d in dots(f))
                         for k, v in want.items()) for f in H.seen)
            t.check(ok, 'convergence:scatter', 'no figure shows the ground-'
                    'truth and prediction of every model of a component',
                    dict(rep, component=c))


def summary(d, loss):
    mp.write_prediction_summary_file(
        d, 'cpu', None, d, 'best', 'mse', {}, False, None, [0, 1], loss, 1.0,
        0.5)


def stored(save, name):
    p = os.path.join(save, 'plot_data', name + '_data.pkl')
    if not os.path.isfile(p):
        return np.zeros((0,))
    with open(p, 'rb') as f:
        return np.array(pickle.load(f)['data_xy'], dtype=float)


def main(chk):
    with quiet():
        chk.pmap(figure, fig_items())
        chk.pmap(arrays, array_items())
        chk.pmap(uq, uq_items())
        chk.pmap(history, hist_items())
        chk.pmap(prediction, pred_items())
        chk.pmap(convergence, conv_items())
        chk.pmap(noisy, [
            (z, nm, c, rt) for z in itertools.permutations((1, 2, 10))
            for nm in (1, 2, 3, 12) for c in (1, 2, 3)
            for rt in ('min-max', 'mean-std')])
        chk.pmap(realisations, [
            (k, n, tt) for k in ('rc', 'rnn', 'hybrid')
            for n in ((1, 2, 3, 12) if not THOROUGH else range(1, 14))
            for tt in ('in_distribution', 'out_distribution')])


chk.run('results', main)
chk.finish()
