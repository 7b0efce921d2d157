"""C33: features derived from strain and stress paths.

Every component order (all permutations, either index order), set of paths and
kind of data set is enumerated; the derived features are compared with the
invariants and parts of the tensors, and composed back.
"""
import _path  # noqa
import copy
import itertools
import os
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from model_architectures.hybrid_base_model.model.hybridized_layers import \
    VolDevCompositionModel
from model_architectures.materials.strain_features import add_strain_features
from model_architectures.materials.stress_features import add_stress_features
from time_series_data.time_dataset import (
    TimeSeriesDataset, TimeSeriesDatasetInMemory, concatenate_dataset_features)

chk = Check('C33')
ORDER = ('11', '22', '33', '12', '23', '13')
LABELS = (('strain', 'i1_strain'), ('strain', 'i2_strain'),
          ('stress', 'vol_stress'), ('stress', 'dev_stress'))


def tensors(n, seed, kind, scale=1.0):
    """n symmetric tensors (as a path)."""
    if kind == 'zero':
        return np.zeros((n, 3, 3))
    if kind.startswith('unit'):
        i, j = int(kind[4]) - 1, int(kind[5]) - 1
        x = np.zeros((n, 3, 3))
        x[:, i, j] = x[:, j, i] = np.arange(1, n + 1)
        return scale*x
    if kind == 'pressure':
        return scale*np.arange(1, n + 1)[:, None, None]*np.eye(3)
    x = np.sin(1.7*np.arange(9*n) + seed).reshape(n, 3, 3)
    return scale*(x + x.transpose(0, 2, 1))


def comps(x, order):
    return np.stack([x[:, int(c[0]) - 1, int(c[1]) - 1] for c in order], 1)


def want(label, x, order):
    tr = np.trace(x, axis1=1, axis2=2)
    if label == 'i1_strain':
        return tr[:, None]
    if label == 'i2_strain':
        # sum of the principal minors
        return sum(x[:, i, i]*x[:, j, j] - x[:, i, j]*x[:, j, i]
                   for i, j in ((0, 1), (0, 2), (1, 2)))[:, None]
    if label == 'vol_stress':
        return tr[:, None]/3
    return comps(x - tr[:, None, None]/3*np.eye(3), order)


def build(kind, samples, d):
    if kind == 'list':
        return samples
    if kind == 'memory':
        return TimeSeriesDatasetInMemory(samples)
    n = len(samples)
    if kind in ('part', 'filepart'):
        # the samples, in reverse order, after one that is not in the part
        full = build('memory' if kind == 'part' else 'files',
                     [copy.deepcopy(samples[0])] + samples[::-1], d)
        return torch.utils.data.Subset(full, list(range(n, 0, -1)))
    files = []
    for i, s in enumerate(samples):
        p = os.path.join(d, f'ss_path_{i}.pkl')
        torch.save(s, p)
        files.append(p)
    return TimeSeriesDataset(d, files, 'ss_path')


def same(a, b, tol):
    a = np.asarray(a)
    return a.shape == b.shape and np.allclose(
        a, b, rtol=tol, atol=tol*(1e-12 + np.abs(b).max()))


def case(item, t):
    kind, eo, so, words, labels, double, scale = item
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    tol = 1e-10 if double else 2e-5
    t.trace()
    t.state(item)
    rep = dict(item=[str(x) for x in item])
    samples, data = [], []
    for i, (n, w) in enumerate(words):
        x = dict(strain=tensors(n, 3*i, w, 0.01*scale),
                 stress=tensors(n, 3*i + 1, w, 500.0*scale))
        data.append(x)
        T = torch.get_default_dtype()
        samples.append(dict(
            strain_comps_order=eo, stress_comps_order=so,
            strain_path=torch.tensor(comps(x['strain'], eo), dtype=T),
            stress_path=torch.tensor(comps(x['stress'], so), dtype=T),
            time_hist=torch.arange(float(n)).reshape(-1, 1) + i))
    before = copy.deepcopy(samples)
    with Scratch() as d:
        ds = build(kind, samples, d)
        done = []
        for what, label in labels:
            f = add_strain_features if what == 'strain' \
                else add_stress_features
            ds = f(ds, label)
            done.append((what, label))
            t.transition()
            if not t.check(len(ds) == len(samples), 'size', f'{item}', rep):
                return
            for i in range(len(ds)):
                s = ds[i]
                for wh, lb in done:
                    o = eo if wh == 'strain' else so
                    w = want(lb, data[i][wh], o)
                    ref = w if lb != 'i2_strain' else np.array(
                        [[np.abs(data[i][wh]).max()**2]])
                    ref = np.array([[np.abs(data[i][wh]).max()]]) \
                        if lb != 'i2_strain' else ref
                    g = np.asarray(s.get(lb, np.zeros(0)))
                    t.check(g.shape == w.shape and np.abs(g - w).max()
                            <= tol*(ref.max() + 1e-30), lb,
                            f'{kind} {eo} {so} sample {i} {words[i]}: '
                            f'{g.tolist()[:2]}, expected {w.tolist()[:2]}',
                            rep)
                for k, v in before[i].items():
                    ok = torch.equal(s[k], v) if isinstance(
                        v, torch.Tensor) else s[k] == v
                    t.check(ok, 'other', f'{kind} sample {i}: {k} modified '
                            f'by {label}', rep)
                t.check(set(s) == set(before[i]) | {b for _, b in done},
                        'keys', f'{kind} {sorted(s)}', rep)
        if 'part' in kind:
            s = ds.dataset[0]
            t.check(set(s) == set(before[0]) and all(
                torch.equal(s[k], v) if isinstance(v, torch.Tensor)
                else s[k] == v for k, v in before[0].items()), 'outside',
                f'{kind} sample out of the part holds {sorted(s)}', rep)
        if {'vol_stress', 'dev_stress'} <= {b for _, b in done} and \
                so == ORDER and kind != 'list':
            # composed back, batch by batch
            ds = concatenate_dataset_features(
                ds, 'parts', ('vol_stress', 'dev_stress'),
                is_remove_features=False)
            m = VolDevCompositionModel()
            for i in range(len(ds)):
                y = m(ds[i]['parts'])
                z = m(ds[i]['parts'].unsqueeze(1)).squeeze(1)
                w = comps(data[i]['stress'], so)
                t.check(same(y, w, tol) and same(z, w, tol), 'composed',
                        f'{kind} sample {i} {words[i]}: parts compose to '
                        f'{y.tolist()[:2]}, stress {w.tolist()[:2]}', rep)


def rejects(item, t):
    """Requests that cannot be answered."""
    _, label, why = item
    torch.set_default_dtype(torch.float64)
    what = 'strain' if 'strain' in label else 'stress'
    n = 3 if why == 'plane' else 6
    s = {f'{what}_path': torch.ones(2, n),
         f'{what}_comps_order': ORDER if n == 6 else ('11', '22', '12')}
    if why == 'path':
        s.pop(f'{what}_path')
    elif why == 'order':
        s.pop(f'{what}_comps_order')
    elif why == 'label':
        label = label + '_2'
    f = add_strain_features if what == 'strain' else add_stress_features
    t.state(item)
    t.transition()
    try:
        f(TimeSeriesDatasetInMemory([s]), label)
        ok = False
    except RuntimeError:
        ok = True
    t.check(ok or why == 'none', 'rejects', f'{item}: accepted',
            dict(item=[str(x) for x in item]))


def dispatch(item, t):
    with quiet():
        (rejects if item[0] == 'rejects' else case)(item, t)


def main(chk):
    items = []
    units = tuple('unit' + c for c in ORDER)
    words = (((2, 'generic'), (3, 'generic')),
             tuple((2, u) for u in units) + ((1, 'pressure'),))
    perms = list(itertools.permutations(ORDER))
    flip = [tuple(c[::-1] for c in o) for o in perms]
    for k, o in enumerate(perms):
        items.append(('memory', o, perms[-1 - k], words[0], LABELS, True,
                      1.0))
    for o in flip if THOROUGH else flip[::7]:
        items.append(('memory', o, o, words[0], LABELS, True, 1.0))
    seqs = list(itertools.permutations(LABELS))
    for kind in ('memory', 'files', 'list', 'part', 'filepart'):
        for seq in seqs if THOROUGH or kind == 'memory' else seqs[::5]:
            for w in words:
                items.append((kind, ORDER, ORDER, w, seq, True, 1.0))
        for double in (True, False):
            for scale in (1.0, 1e-6, 1e6):
                for w in words:
                    items.append((kind, ORDER, ORDER, w, LABELS, double,
                                  scale))
        for n in range(1, 5):
            for kinds in itertools.product(('generic', 'zero', 'unit12'),
                                           repeat=n if THOROUGH else
                                           min(n, 3)):
                items.append((kind, ORDER, ORDER, tuple(
                    (1 + i, k) for i, k in enumerate(kinds)), LABELS, True,
                    1.0))
        # the same feature again
        for lb in LABELS:
            items.append((kind, ORDER, ORDER, words[0], (lb, lb), True, 1.0))
    for _, lb in LABELS:
        for why in ('none', 'path', 'order', 'label', 'plane'):
            items.append(('rejects', lb, why))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('features', main)
chk.finish()
