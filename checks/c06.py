"""C06: data scaling against closed-form statistics.

(a) every small data tensor over an alphabet, every layout and scaler setting;
(b) scalers fitted from data sets: every small data set, sample order and
    storage; (c) explicit-state search over the model-level scaler operations.
"""
import _path  # noqa
import itertools
import math
import os
from fractions import Fraction as Fr
from mc.core import Check, Scratch, THOROUGH, quiet
import torch
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from utilities.fit_data_scalers import fit_data_scaler_from_dataset
from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                           TimeSeriesDataset)
from model_architectures.procedures import model_data_scaling as mds
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel

chk = Check('C06')
ALPHA = (-1.5, 0.0, 2.0, 100.0)


def column(values, kind, bessel=False):
    """(shift, scale) of a feature by definition; scale 0 if constant."""
    v = [Fr(x) for x in values]
    if kind == 'min-max':
        return min(v), max(v) - min(v)
    m = sum(v)/len(v)
    d = len(v) - (1 if bessel else 0)
    if d == 0:
        return m, None
    return m, math.sqrt(float(sum((x - m)**2 for x in v)/d))


def near(a, b, tol):
    return abs(a - b) <= tol*max(1.0, abs(b))


def check_scaler(t, key, sc, kind, stats, probes, bounds, rep, tol):
    """Transform/inverse of a fitted scaler against its definition."""
    lo, hi = bounds
    for X in probes:
        t.transition()
        keep = X.clone()
        Z = sc.transform(X)
        ZZ = sc.transform(X, is_check_data=True)
        if not torch.equal(X, keep):
            t.fail(f'{key}-input', 'transform modified its input', rep)
        if Z.shape != X.shape:
            t.fail(f'{key}-shape', f'{Z.shape} for {X.shape}', rep)
            return
        B = sc.inverse_transform(Z)
        B2 = sc.inverse_transform(Z, is_check_data=True)
        if not torch.equal(Z, ZZ) or not torch.equal(B, B2):
            t.fail(f'{key}-again', 'transform is not repeatable', rep)
        if B.shape != X.shape:
            t.fail(f'{key}-inverse-shape', f'{B.shape} for {X.shape}', rep)
            return
        n_f = X.shape[-1]
        xs, zs, bs = (Q.reshape(-1, n_f).tolist() for Q in (X, Z, B))
        for xr, zr, br in zip(xs, zs, bs):
            for k in range(n_f):
                s, d = stats[k]
                s = float(s)
                x = xr[k]
                if kind == 'min-max':
                    d = float(d)
                    want = lo + (x - s)/d*(hi - lo) if d else lo + (x - s)
                else:
                    want = (x - s)/d if d else x - s
                const = d == 0
                if const and x != s:
                    continue
                if not near(zr[k], want, tol):
                    t.fail(f'{key}-value', f'feature {k}: {x} -> {zr[k]} '
                           f'expected {want}; statistics {stats[k]}', rep)
                if not near(br[k], x, 10*tol):
                    t.fail(f'{key}-inverse', f'feature {k}: {x} -> {zr[k]} '
                           f'-> {br[k]}', rep)


def shapes():
    out = [((1, 1), 1), ((2, 1), 1), ((3, 1), 1), ((2, 2), 2), ((1, 2), 2),
           ((2, 2, 1), 1), ((2, 1, 2), 2), ((1, 2, 2), 2), ((1, 3, 1), 1),
           ((3, 1, 1), 1)]
    if THOROUGH:
        out += [((3, 2), 2), ((2, 3, 1), 1), ((3, 2, 1), 1)]
    return out


def tensors(item, t):
    shape, n_f, dtype = item
    n = math.prod(shape)
    tol = 3e-6 if dtype == torch.float32 else 1e-12
    probes_extra = [torch.tensor([[-1.5]*n_f, [7.0]*n_f], dtype=dtype),
                    torch.tensor([[[2.0]*n_f, [0.5]*n_f, [0.0]*n_f]],
                                 dtype=dtype)]
    for vals in itertools.product(ALPHA, repeat=n):
        X = torch.tensor(vals, dtype=dtype).reshape(shape)
        cols = X.reshape(-1, n_f).T.tolist()
        rep = {'data': X.tolist(), 'dtype': str(dtype)}
        for kind, bounds, bessel in (('min-max', (-1.0, 1.0), False),
                                     ('min-max', (0.0, 2.0), False),
                                     ('mean-std', (0, 0), False),
                                     ('mean-std', (0, 0), True)):
            stats = [column(c, kind, bessel) for c in cols]
            if any(s[1] is None for s in stats):
                continue
            t.state((shape, str(dtype), vals, kind, bounds, bessel))
            keep = X.clone()
            if kind == 'min-max':
                kw = {} if bounds == (-1.0, 1.0) else \
                    dict(norm_minimum=bounds[0], norm_maximum=bounds[1])
                sc = TorchMinMaxScaler(n_f, **kw)
                sc.fit(X)
                a, b = sc.get_minimum_and_maximum()
                got = list(zip(a.tolist(), (b - a).tolist()))
            else:
                sc = TorchStandardScaler(n_f)
                sc.fit(X, is_bessel=bessel)
                a, b = sc.get_mean_and_std()
                got = list(zip(a.tolist(), b.tolist()))
            key = f'{kind}-fit'
            if not torch.equal(X, keep):
                t.fail(f'{key}-input', 'fit modified the data', rep)
            for (g1, g2), (w1, w2) in zip(got, stats):
                if not near(g1, float(w1), 10*tol) or \
                        not near(g2, float(w2), 10*tol):
                    t.fail(f'{key}-stats', f'{got} expected {stats}', rep)
            check_scaler(t, key, sc, kind, stats, [X] + probes_extra, bounds,
                         rep, 20*tol)
            # Same statistics handed over explicitly
            if kind == 'min-max':
                sc2 = TorchMinMaxScaler(n_f, a, b, **kw)
                sc3 = TorchMinMaxScaler(n_f, **kw)
                sc3.set_maximum(b)
                sc3.set_minimum(a)
            else:
                sc2 = TorchStandardScaler(n_f, a, b)
                sc3 = TorchStandardScaler(n_f)
                sc3.set_std(b)
                sc3.set_mean(a)
            t.transition()
            for q in (sc2, sc3):
                if not torch.equal(q.transform(X), sc.transform(X)):
                    t.fail(f'{key}-set', 'scaler with given statistics '
                           'differs', rep)
    t.trace()
    t.sample({'shape': shape, 'last': vals})


def make_dataset(samples, storage, d):
    if storage == 'memory':
        return TimeSeriesDatasetInMemory(samples)
    files = []
    for i, s in enumerate(samples):
        p = os.path.join(d, f's{i}.pt')
        torch.save(s, p)
        files.append(p)
    return TimeSeriesDataset(d, files)


def dataset_samples(cells, lengths, n_f, dtype):
    """Samples with the given lengths filled with cell values."""
    it = iter(cells)
    out = []
    for n in lengths:
        x = torch.tensor([[next(it) for _ in range(n_f)] for _ in range(n)],
                         dtype=dtype)
        out.append({'features_in': x, 'features_out': 2.0*x[:, :1] + 1.0,
                    'other': torch.full((n, 3), 5.0)})
    return out


def datasets(item, t):
    lengths, n_f, dtype, storage, first = item
    n = sum(lengths)*n_f
    with Scratch() as d, quiet():
        for rest in itertools.product(ALPHA, repeat=n - 1):
            cells = (first,) + rest
            samples = dataset_samples(cells, lengths, n_f, dtype)
            ds = make_dataset(samples, storage, d)
            before = [{k: v.clone() for k, v in s.items()} for s in samples]
            orders = [tuple(range(len(samples)))] if storage == 'files' else \
                itertools.permutations(range(len(samples)))
            for order in orders:
                sub = ds if order == tuple(range(len(samples))) else \
                    torch.utils.data.Subset(ds, order)
                for kind in ('min-max', 'mean-std'):
                    for ft in ('features_in', 'features_out'):
                        t.transition()
                        m = n_f if ft == 'features_in' else 1
                        pars, bounds = {}, (-1.0, 1.0)
                        if kind == 'min-max' and ft == 'features_in':
                            pars = {'features_in': {'norm_minimum': 0.0,
                                                    'norm_maximum': 4.0}}
                            bounds = (0.0, 4.0)
                        sc = fit_data_scaler_from_dataset(
                            sub, ft, m, kind, pars)
                        cols = torch.cat([s[ft] for s in samples]).T.tolist()
                        stats = [column(c, kind) for c in cols]
                        rep = {'samples': [s[ft].tolist() for s in samples],
                               'order': order, 'storage': storage,
                               'features': ft}
                        if kind == 'min-max':
                            a, b = sc.get_minimum_and_maximum()
                            b = b - a
                        else:
                            a, b = sc.get_mean_and_std()
                        for k in range(m):
                            if not near(a[k].item(), float(stats[k][0]),
                                        1e-6) or not near(
                                    b[k].item(), float(stats[k][1]), 1e-6):
                                t.fail(f'dataset-{kind}-stats', f'feature '
                                       f'{k}: {(a[k].item(), b[k].item())} '
                                       f'expected {stats[k]}', rep)
                        X = samples[0][ft]
                        check_scaler(t, f'dataset-{kind}', sc, kind, stats,
                                     [X.unsqueeze(1)], bounds, rep, 1e-4)
            for i, s in enumerate(before):
                now = ds[i]
                if list(now) != list(s) or any(
                        not torch.equal(now[k], s[k]) for k in s):
                    t.fail('dataset-modified', f'sample {i} changed by '
                           'fitting', {'cells': cells})
            t.state((lengths, n_f, str(dtype), storage, cells))
    t.trace()


def rejects(chk):
    ds = TimeSeriesDatasetInMemory([{'features_in': torch.ones(2, 2)}])
    X = torch.ones(2, 2)
    sc = TorchStandardScaler(2, torch.zeros(2), torch.ones(2))
    cases = [lambda: fit_data_scaler_from_dataset(ds, 'features_in', 3),
             lambda: fit_data_scaler_from_dataset(ds, 'zz', 2),
             lambda: fit_data_scaler_from_dataset(ds, 'features_in', 2,
                                                  'nope'),
             lambda: fit_data_scaler_from_dataset(ds, 'features_in', 3,
                                                  'min-max'),
             lambda: sc.transform(torch.ones(2, 3)),
             lambda: sc.inverse_transform(torch.ones(2)),
             lambda: sc.set_mean(torch.ones(3)),
             lambda: sc.set_std(torch.ones(3)),
             lambda: TorchStandardScaler(0),
             lambda: TorchMinMaxScaler(2, minimum=torch.ones(3)),
             lambda: TorchMinMaxScaler(2, maximum=torch.ones(1)),
             lambda: TorchMinMaxScaler(2).fit(torch.ones(2, 3))]
    for i, c in enumerate(cases):
        chk.transition()
        with quiet():
            try:
                c()
                chk.fail(f'reject-{i}', 'inconsistent request accepted', i)
            except RuntimeError:
                pass


# -- model level -------------------------------------------------------------
def data(scale):
    return [{'features_in': scale*torch.tensor([[1.0, -2.0], [3.0, 0.0]]),
             'features_out': scale*torch.tensor([[0.5], [4.0]])},
            {'features_in': scale*torch.tensor([[0.0, 5.0], [0.25, 1.0]]),
             'features_out': scale*torch.tensor([[-1.0], [2.0]])}]


def flat(ds, ft):
    return torch.cat([s[ft] for s in ds]).T.tolist()


OPS = ('fit-std-1', 'fit-minmax-3', 'fit-minmax-1', 'set-std', 'set-minmax',
       'set-scalers', 'reload', 'load-file', 'init')


def apply_op(op, model, exp, d):
    """Apply on the real model; returns (model, expected description)."""
    if op.startswith('fit'):
        kind = 'mean-std' if 'std' in op else 'min-max'
        s = float(op[-1])
        mds.fit_data_scalers(model, TimeSeriesDatasetInMemory(data(s)),
                             scaling_type=kind)
        return model, {ft: (kind, [column(c, kind) for c in
                                   flat(data(s), ft)])
                       for ft in ('features_in', 'features_out')}
    if op == 'set-std':
        mds.set_fitted_data_scalers(model, 'mean-std', {
            'features_in': {'mean': torch.tensor([1.0, 2.0]),
                            'std': torch.tensor([2.0, 0.5])},
            'features_out': {'mean': torch.tensor([3.0]),
                             'std': torch.tensor([4.0])}})
        return model, {'features_in': ('mean-std', [(1.0, 2.0), (2.0, 0.5)]),
                       'features_out': ('mean-std', [(3.0, 4.0)])}
    if op == 'set-minmax':
        mds.set_fitted_data_scalers(model, 'min-max', {
            'features_in': {'minimum': torch.tensor([1.0, -2.0]),
                            'maximum': torch.tensor([2.0, 0.5])},
            'features_out': {'minimum': torch.tensor([3.0]),
                             'maximum': torch.tensor([4.0])}})
        return model, {'features_in': ('min-max', [(1.0, 1.0), (-2.0, 2.5)]),
                       'features_out': ('min-max', [(3.0, 1.0)])}
    if op == 'set-scalers':
        mds.set_data_scalers(
            model, TorchStandardScaler(2, torch.tensor([5.0, 6.0]),
                                       torch.tensor([1.0, 2.0])),
            TorchMinMaxScaler(1, torch.tensor([0.0]), torch.tensor([8.0])))
        return model, {'features_in': ('mean-std', [(5.0, 1.0), (6.0, 2.0)]),
                       'features_out': ('min-max', [(0.0, 8.0)])}
    if op == 'reload':
        return GRURNNModel.init_model_from_file(d), exp
    if op == 'load-file':
        mds.init_data_scalers(model)
        mds.load_model_data_scalers_from_file(model)
        return model, exp
    # fresh model of the same definition in the same directory
    return GRURNNModel(2, 1, 2, d, model_name='m',
                       is_model_in_normalized=True,
                       is_model_out_normalized=True), None


def model_bfs(item, t):
    with Scratch() as d, quiet():
        for word in item:
            model, exp = apply_op('init', None, None, d)
            stored, saving = None, True
            for i, op in enumerate(word):
                t.transition()
                # A reloaded model does not rewrite the initialization file
                model, exp = apply_op(op, model, stored if op in (
                    'reload', 'load-file') else exp, d)
                if op == 'reload':
                    saving = False
                elif op == 'init':
                    saving = True
                if saving:
                    stored = exp
                rep = {'operations': word[:i + 1]}
                t.state(('model', word[:i + 1]))
                for ft, m in (('features_in', 2), ('features_out', 1)):
                    X = torch.tensor([[1.5]*m, [-2.0]*m, [0.0]*m])
                    X3 = torch.stack((X, 2*X), dim=1)
                    if exp is None:
                        try:
                            mds.data_scaler_transform(model, X, ft)
                            t.fail('unfitted', 'transform with no fitted '
                                   f'scaler succeeded after {word[:i+1]}',
                                   rep)
                        except RuntimeError:
                            pass
                        continue
                    kind, stats = exp[ft]
                    for Q in (X, X3, X3.to(torch.float64)):
                        keep = Q.clone()
                        Z = mds.data_scaler_transform(model, Q, ft)
                        B = mds.data_scaler_transform(model, Z, ft,
                                                      mode='denormalize')
                        if Z.dtype != Q.dtype or B.dtype != Q.dtype:
                            t.fail('model-dtype', f'{Z.dtype}', rep)
                        if not torch.equal(Q, keep):
                            t.fail('model-input', 'input modified', rep)
                        W = torch.empty_like(Q, dtype=torch.float64)
                        for k in range(m):
                            s, q = map(float, stats[k])
                            w = (Q[..., k].double() - s)/q
                            W[..., k] = 2*w - 1 if kind == 'min-max' else w
                        if not torch.allclose(Z.double(), W, rtol=1e-5,
                                              atol=1e-5) or \
                                not torch.allclose(B, Q, rtol=1e-5,
                                                   atol=1e-5):
                            t.fail('model-transform', f'{ft} after '
                                   f'{word[:i+1]}: {Z.tolist()} expected '
                                   f'{W.tolist()}', rep)
            t.trace()


def modelops(depth):
    for n in range(1, depth + 1):
        yield from itertools.product(OPS, repeat=n)


chk.run('rejects', rejects)
chk.pmap(tensors, [(s, f, dt) for s, f in shapes()
                   for dt in (torch.float32, torch.float64)])
LENS = [(1,), (2,), (1, 2), (2, 1), (1, 1, 1)]
jobs = [(ls, 1, dt, st, a) for ls in LENS
        for dt in (torch.float32, torch.float64)
        for st in ('memory', 'files') for a in ALPHA
        if not (st == 'files' and dt == torch.float64)]
jobs += [((1, 1), 2, torch.float32, 'memory', a) for a in ALPHA]
if THOROUGH:
    jobs += [((2, 2), 1, torch.float32, 'memory', a) for a in ALPHA]
    jobs += [((1, 2), 2, torch.float32, 'memory', a) for a in ALPHA]
    jobs += [((1, 1, 1, 1), 1, torch.float32, 'memory', a) for a in ALPHA]
chk.pmap(datasets, jobs)
ws = list(modelops(4 if THOROUGH else 3))
chk.pmap(model_bfs, [ws[i::32] for i in range(32)])
chk.extra['bounds'] = {'alphabet': ALPHA, 'tensor shapes': len(shapes()),
                       'model operation depth': 4 if THOROUGH else 3}
chk.finish()
