"""C04: time series data sets, explicit-state BFS over the real operations on
both storages in lock-step with a list-of-dictionaries model."""
import _path  # noqa
import itertools
import math
import os
import shutil
from mc.core import Check, Scratch, THOROUGH, quiet, where_raised
import torch
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, TimeSeriesDataset, save_dataset, load_dataset,
    change_dataset_features_labels, add_dataset_feature_init,
    concatenate_dataset_features, sum_dataset_features, split_dataset,
    get_parent_dataset_indices, get_time_series_data_loader)

chk = Check('C04')
START = ('a', 'b', 'c')
N = 2


def base(n=N):
    """Model: list of {label: nested tuple of exact numbers}."""
    out = []
    for i in range(n):
        out.append({'a': ((1.0 + i, 2.0), (3.0, -1.0*i)),
                    'b': ((0.5, 10.0 + i), (4.0, 8.0)),
                    'c': ((7.0 + i,), (0.25,))})
    return out


def tens(rows):
    return torch.tensor(rows)


def mat(t):
    return tuple(tuple(r) for r in t.tolist())


def model_of(ds):
    return [{k: mat(v) for k, v in ds[i].items()} for i in range(len(ds))]


INIT = ((0.0, 0.0, 1.0),)
OPS = [
    ('rename', {'a': 'd'}), ('rename', {'a': 'b', 'b': 'a'}),
    ('rename', {'a': 'b', 'b': 'c', 'c': 'a'}), ('rename', {'zz': 'a'}),
    ('rename', {'b': 'a'}), ('rename', {'a': 'a'}), ('rename', {}),
    ('init', 'h'), ('init', 'a'),
    ('cat', 'n', ('a', 'b'), False), ('cat', 'n', ('b', 'a', 'c'), True),
    ('cat', 'a', ('a', 'c'), True), ('cat', 'n', ('c',), True),
    ('cat', 'c', ('a', 'a'), False), ('cat', 'n', ('a', 'zz'), True),
    ('sum', 'n', ('a', 'b'), None, False),
    ('sum', 'n', ('a', 'b'), {'a': 2.0, 'b': -0.5}, True),
    ('sum', 'a', ('b', 'a'), {'b': 3.0}, True),
    ('sum', 'm', ('c',), {'c': 4.0}, False), ('sum', 'm', ('zz',), {}, True),
    ('saveload', True), ('saveload', False), ('move',), ('update', 1),
    ('addrm',), ('subset',),
]


def ref(op, m, storage):
    """Reference effect; None if the operation must be rejected."""
    new = [dict(s) for s in m]
    if op[0] in ('rename', 'cat', 'sum') and \
            any(set(s) != set(m[0]) for s in m):
        return 'skip'
    if op[0] == 'rename':
        for s in new:
            got = {v: s.pop(k) for k, v in op[1].items() if k in s}
            s.update(got)
    elif op[0] == 'init':
        for s in new:
            s[op[1]] = INIT
    elif op[0] in ('cat', 'sum'):
        label, srcs, rm = op[1], op[2], op[-1]
        if any(x not in m[0] for x in srcs):
            return None
        for s in new:
            rows = len(s[srcs[0]])
            if op[0] == 'cat':
                if any(len(s[x]) != rows for x in srcs):
                    return 'skip'
                val = tuple(sum((s[x][r] for x in srcs), ())
                            for r in range(rows))
            else:
                w = op[3] or {}
                if any((len(s[x]), len(s[x][0])) != (rows, len(
                        s[srcs[0]][0])) for x in srcs):
                    return 'skip'
                val = tuple(tuple(
                    sum(w.get(x, 1.0)*s[x][r][c] for x in srcs)
                    for c in range(len(s[srcs[0]][0])))
                    for r in range(rows))
            s[label] = val
            # Only in-memory data sets drop the source features
            if rm and storage == 'memory':
                for x in set(srcs):
                    if x != label:
                        s.pop(x)
    elif op[0] == 'update':
        if storage == 'files':
            new[op[1]] = {'a': ((9.0, 9.0), (9.0, 9.0)), 'q': ((1.0,),)}
    elif op[0] == 'addrm':
        if storage == 'memory':
            new = new[1:] + [{'a': ((6.0, 6.0), (6.0, 5.0)),
                              'b': ((1.0, 1.0), (1.0, 1.0)),
                              'c': ((1.0,), (2.0,))}]
    return new


class World:
    """A real data set, in memory or in files, rebuilt from a model state."""

    def __init__(self, storage, root):
        self.storage, self.root = storage, root
        self.k = 0

    def build(self, m):
        self.dir = os.path.join(self.root, 'd0')
        for x in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, x))
        os.makedirs(self.dir)
        samples = [{k: tens(v) for k, v in s.items()} for s in m]
        if self.storage == 'memory':
            self.ds = TimeSeriesDatasetInMemory(samples)
        else:
            files = []
            for i, s in enumerate(samples):
                files.append(os.path.join(self.dir, f'sample_{i}.pt'))
                torch.save(s, files[-1])
            self.ds = TimeSeriesDataset(self.dir, files, 'base')

    def apply(self, op):
        ds = self.ds
        if op[0] == 'rename':
            m = dict(op[1])
            out = change_dataset_features_labels(ds, m)
            assert m == op[1]
        elif op[0] == 'init':
            out = add_dataset_feature_init(ds, op[1], tens(INIT))
        elif op[0] == 'cat':
            out = concatenate_dataset_features(ds, op[1], op[2],
                                               is_remove_features=op[3])
        elif op[0] == 'sum':
            kw = {} if op[3] is None else {'features_weights': dict(op[3])}
            out = sum_dataset_features(ds, op[1], op[2],
                                       is_remove_features=op[4], **kw)
        elif op[0] == 'saveload':
            path = save_dataset(ds, 'set', self.dir, is_append_n_sample=op[1])
            name = f'set_n{len(ds)}.pkl' if op[1] else 'set.pkl'
            if os.path.basename(path) != name:
                return ('name', path)
            out = load_dataset(path)
        elif op[0] == 'move':
            if self.storage != 'files':
                return ds
            path = save_dataset(ds, 'set', self.dir)
            new = os.path.join(self.root, 'moved')
            shutil.copytree(self.dir, new)
            old = self.dir
            for f in os.listdir(old):
                if f.endswith('.pt'):
                    torch.save({'stale': torch.zeros(1, 1)},
                               os.path.join(old, f))
            npath = os.path.join(new, os.path.basename(path))
            TimeSeriesDataset.update_dataset_file_internal_directory(npath,
                                                                     new)
            out = load_dataset(npath)
            if out.get_dataset_directory() != new or any(
                    os.path.dirname(f) != new
                    for f in out.get_dataset_sample_files()):
                return ('dir', out.get_dataset_sample_files())
        elif op[0] == 'update':
            if self.storage != 'files':
                return ds
            ds.update_dataset_sample(op[1], {
                'a': torch.full((2, 2), 9.0), 'q': torch.ones(1, 1)})
            out = ds
        elif op[0] == 'addrm':
            if self.storage != 'memory':
                return ds
            ds.add_dataset_samples([{
                'a': tens(((6.0, 6.0), (6.0, 5.0))),
                'b': torch.ones(2, 2), 'c': tens(((1.0,), (2.0,)))}])
            ds.remove_dataset_samples([0])
            out = ds
        elif op[0] == 'subset':
            # Reading through other views does not change anything
            split_dataset(ds, {'x': 0.5, 'y': 0.5}, seed=3,
                          is_copy_dataset=True)
            for _ in get_time_series_data_loader(ds, batch_size=1,
                                                 is_shuffle=True):
                pass
            if self.storage == 'memory':
                for s in ds.get_dataset_samples():
                    for v in s.values():
                        v += 100.0
            TimeSeriesDatasetInMemory.from_dataset(ds)
            out = ds
        return out


def freeze(m):
    return tuple(tuple(sorted(s.items())) for s in m)


def bfs(item, t):
    storage, first, depth = item
    with Scratch() as d, quiet():
        w = World(storage, d)
        frontier = [(base(), ())]
        seen = set()
        for level in range(depth):
            nxt = []
            for m, hist in frontier:
                for op in (OPS if level else OPS[first::13]):
                    want = ref(op, m, storage)
                    if want == 'skip':
                        continue
                    t.transition()
                    h = hist + (op,)
                    rep = {'storage': storage, 'history': h}
                    w.build(m)
                    try:
                        out = w.apply(op)
                    except Exception as exc:
                        inr, desc = where_raised(exc)
                        if not inr:
                            raise
                        out = exc
                    if want is None:
                        if not isinstance(out, RuntimeError):
                            t.fail(f'{storage}-{op[0]}-accepted', 'operation '
                                   f'on a missing feature accepted: {h}',
                                   rep)
                        if model_of(w.ds) != m:
                            t.fail(f'{storage}-{op[0]}-reject-effect',
                                   f'rejected operation changed data: {h}',
                                   rep)
                        continue
                    if isinstance(out, Exception):
                        t.fail(f'{storage}-{op[0]}-exception',
                               f'{where_raised(out)[1]} after {h}', rep)
                        continue
                    if isinstance(out, tuple):
                        t.fail(f'{storage}-{op[0]}-{out[0]}', f'{out} {h}',
                               rep)
                        continue
                    got = model_of(out)
                    if got != want:
                        t.fail(f'{storage}-{op[0]}', f'{got} expected {want}'
                               f' after {h}', rep)
                        continue
                    if type(out) is not type(w.ds):
                        t.fail(f'{storage}-{op[0]}-type', str(type(out)),
                               rep)
                    key = freeze(want)
                    t.state((storage, key))
                    if key not in seen:
                        seen.add(key)
                        nxt.append((want, h))
                    if len(t.fails) > 12:
                        return
            frontier = nxt
        t.trace(len(frontier))
        if frontier:
            t.sample({'storage': storage, 'history': frontier[-1][1]})


# -- edits of a part of a split ----------------------------------------------
def parts(item, t):
    """Every edit on every part (also nested) changes that part only."""
    storage, nested = item
    sels = [c for r in (1, 2, 3) for c in itertools.permutations(range(3), r)]
    with Scratch() as d, quiet():
        w = World(storage, d)
        for sel in sels:
            for sub in ([None] if not nested else
                        [c for r in range(1, len(sel) + 1)
                         for c in itertools.permutations(range(len(sel)),
                                                         r)]):
                ids = sel if sub is None else tuple(sel[j] for j in sub)
                for op in OPS:
                    if op[0] not in ('rename', 'init', 'cat', 'sum',
                                     'saveload'):
                        continue
                    m = base(3)
                    want = ref(op, [m[i] for i in ids], storage)
                    if want == 'skip':
                        continue
                    t.transition()
                    rep = {'storage': storage, 'part': sel, 'nested': sub,
                           'operation': op}
                    w.build(m)
                    full = w.ds
                    w.ds = torch.utils.data.Subset(full, list(sel))
                    if sub is not None:
                        w.ds = torch.utils.data.Subset(w.ds, list(sub))
                    try:
                        out = w.apply(op)
                    except Exception as exc:
                        inr, desc = where_raised(exc)
                        if not inr:
                            raise
                        out = exc
                    if want is None:
                        t.check(isinstance(out, RuntimeError)
                                and model_of(full) == m,
                                f'{storage}-part-{op[0]}-accepted',
                                f'{rep}: {str(out)[:200]}', rep)
                        continue
                    if isinstance(out, (Exception, tuple)):
                        t.fail(f'{storage}-part-{op[0]}-exception',
                               f'{rep}: {str(out)[:200]}', rep)
                        continue
                    t.check(model_of(out) == want,
                            f'{storage}-part-{op[0]}',
                            f'{rep}: {model_of(out)} expected {want}', rep)
                    now = model_of(full)
                    for i in range(3):
                        x = m[i] if i not in ids or op[0] == 'saveload' \
                            else want[ids.index(i)]
                        t.check(now[i] == x, f'{storage}-part-{op[0]}-other',
                                f'{rep}: sample {i} holds {now[i]}, '
                                f'expected {x}', rep)
                    t.state((storage, ids, freeze(want)))
                    if len(t.fails) > 12:
                        return


# -- splits -----------------------------------------------------------------
def fractions():
    for a in (0.1, 0.25, 0.3, 0.5, 0.6, 0.7, 0.9):
        yield {'tr': a, 'te': 1 - a}
    for a, b in ((0.6, 0.2), (0.5, 0.25), (0.8, 0.1), (1/3, 1/3),
                 (0.34, 0.33)):
        yield {'tr': a, 'va': b, 'te': 1 - a - b}
    yield {'all': 1.0}


def splits(item, t):
    storage, n = item
    m = base(n)
    with Scratch() as d, quiet():
        w = World(storage, d)
        w.build(m)
        ds = w.ds
        for fr in fractions():
            for seed in (0, 1, None):
                for copy in (False, True):
                    t.transition()
                    t.state(('split', storage, n, tuple(fr.items()), seed,
                             copy))
                    rep = {'n': n, 'fractions': fr, 'seed': seed,
                           'storage': storage}
                    low = {k: math.floor(v*n + 1e-9) for k, v in fr.items()}
                    out = os.path.join(d, 'subsets')
                    shutil.rmtree(out, ignore_errors=True)
                    os.makedirs(out)
                    try:
                        parts = split_dataset(
                            ds, fr, is_copy_dataset=copy, seed=seed,
                            is_save_subsets=True, subsets_directory=out,
                            subsets_basename='s')
                    except RuntimeError:
                        # Legitimate only if a part would be empty
                        if min(low.values()) > 0:
                            t.fail('split-raise', f'split rejected: {rep}',
                                   rep)
                        if os.listdir(out):
                            t.fail('split-partial', 'rejected split left '
                                   f'files {os.listdir(out)}', rep)
                        continue
                    if list(parts) != list(fr):
                        t.fail('split-names', f'{list(parts)}', rep)
                    idx = sum((list(p.indices) for p in parts.values()), [])
                    if sorted(idx) != list(range(n)):
                        t.fail('split-partition', f'{sorted(idx)} is not a '
                               f'partition of {n} samples', rep)
                    for k, p in parts.items():
                        if not low[k] <= len(p) <= low[k] + 1 or \
                                len(p) < 1:
                            t.fail('split-size', f'{k}: {len(p)} samples for '
                                   f'fraction {fr[k]} of {n}', rep)
                        if [{a: mat(b) for a, b in p[i].items()}
                                for i in range(len(p))] != \
                                [m[j] for j in p.indices]:
                            t.fail('split-data', f'{k}', rep)
                        if get_parent_dataset_indices(
                                p, range(len(p))) != list(p.indices):
                            t.fail('split-parent', f'{k}', rep)
                        f = os.path.join(out, f's_{k}_n{len(p)}.pkl')
                        if not os.path.isfile(f):
                            t.fail('split-file', f'{os.listdir(out)}', rep)
                            continue
                        q = load_dataset(f)
                        if model_of(q) != [m[j] for j in p.indices]:
                            t.fail('split-saved', f'{k}', rep)
                    if len(os.listdir(out)) != len(fr):
                        t.fail('split-file-extra', f'{os.listdir(out)}', rep)
                    if seed is not None:
                        again = split_dataset(ds, fr, seed=seed)
                        if [list(p.indices) for p in again.values()] != \
                                [list(p.indices) for p in parts.values()]:
                            t.fail('split-seed', 'same seed gives another '
                                   'split', rep)
                    if model_of(ds) != m:
                        t.fail('split-modifies', 'data set changed', rep)
        for bad in ({'a': 0.5, 'b': 0.4}, {'a': 1.2, 'b': -0.2},
                    {'a': -0.5, 'b': 1.5}, {'a': 0.7, 'b': 0.7}):
            t.transition()
            try:
                split_dataset(ds, bad, seed=0)
                t.fail('split-bad', f'fractions {bad} accepted', bad)
            except RuntimeError:
                pass
    t.trace()


def misc(chk):
    with Scratch() as d, quiet():
        for storage in ('memory', 'files'):
            w = World(storage, os.path.join(d))
            m = base(4)
            w.build(m)
            ds = w.ds
            # batches of the loader, every batch size
            for bs in range(1, 6):
                chk.transition()
                rows = []
                for b in get_time_series_data_loader(ds, batch_size=bs):
                    k = b['a'].shape[1]
                    for j in range(k):
                        rows.append({f: mat(b[f][:, j, :]) for f in b})
                if rows != m:
                    chk.fail(f'loader-{storage}', f'batch size {bs}: {rows}',
                             bs)
            # indices removed / moving a partially copied set
            if storage == 'memory':
                for k in range(5):
                    for sub in itertools.combinations(range(4), k):
                        for seq in (list(sub), tuple(reversed(sub)),
                                    set(sub)):
                            ds2 = TimeSeriesDatasetInMemory(
                                [dict(s) for s in
                                 ({a: tens(b) for a, b in x.items()}
                                  for x in m)])
                            chk.transition()
                            ds2.remove_dataset_samples(seq)
                            if model_of(ds2) != [m[i] for i in range(4)
                                                 if i not in sub]:
                                chk.fail('remove', f'{sub}', sub)
            else:
                for miss in range(4):
                    w.build(m)
                    path = save_dataset(w.ds, 'set', w.dir)
                    new = os.path.join(d, 'new')
                    shutil.copytree(w.dir, new)
                    os.remove(os.path.join(new, f'sample_{miss}.pt'))
                    chk.transition()
                    with open(path, 'rb') as f:
                        raw = f.read()
                    try:
                        TimeSeriesDataset.\
                            update_dataset_file_internal_directory(path, new)
                        chk.fail('move-missing', 'move to an incomplete '
                                 'directory accepted', miss)
                    except RuntimeError:
                        pass
                    with open(path, 'rb') as f:
                        if f.read() != raw:
                            chk.fail('move-missing-effect', 'failed move '
                                     'changed the stored data set', miss)
                    if model_of(load_dataset(path)) != m:
                        chk.fail('move-missing-data', 'data lost', miss)
                    try:
                        w.ds._update_dataset_directory(new)
                    except RuntimeError:
                        pass
                    if model_of(w.ds) != m or \
                            w.ds.get_dataset_directory() != w.dir:
                        chk.fail('move-partial', 'failed move changed the '
                                 'data set', miss)
                # subsets can be moved too
                w.build(m)
                parts = split_dataset(w.ds, {'x': 0.5, 'y': 0.5}, seed=1,
                                      is_save_subsets=True,
                                      subsets_directory=w.dir)
                new = os.path.join(d, 'new2')
                shutil.copytree(w.dir, new)
                for k, p in parts.items():
                    f = os.path.join(new, f'{k}_n2.pkl')
                    TimeSeriesDataset.update_dataset_file_internal_directory(
                        f, new)
                    chk.transition()
                    q = load_dataset(f)
                    if q.dataset.get_dataset_directory() != new or \
                            model_of(q) != [m[i] for i in p.indices]:
                        chk.fail('move-subset', k, k)
                    TimeSeriesDataset.update_dataset_file_internal_directory(
                        f, new)
                    if model_of(load_dataset(f)) != [m[i]
                                                     for i in p.indices]:
                        chk.fail('move-again', k, k)
        # construction is checked
        os.makedirs(os.path.join(d, 'x'))
        f = os.path.join(d, 'x', 's.pt')
        torch.save({'a': torch.ones(1, 1)}, f)
        for args in ((os.path.join(d, 'no'), [f]),
                     (os.path.join(d, 'x'), [f + 'x']),
                     (d, [f])):
            chk.transition()
            try:
                TimeSeriesDataset(*args)
                chk.fail('construct', f'{args} accepted', None)
            except RuntimeError:
                pass


chk.run('misc', misc)
depth = 5 if THOROUGH else 4
chk.pmap(bfs, [(s, i, depth) for s in ('files', 'memory')
               for i in range(13)])
chk.pmap(parts, [(s, k) for s in ('memory', 'files')
                 for k in (False, True)])
chk.pmap(splits, [(s, n) for s in ('memory', 'files')
                  for n in range(1, 9 if THOROUGH else 7)])
chk.extra['bounds'] = {'depth': depth, 'operations': len(OPS), 'samples': N,
                       'split sizes': '1..%d' % (8 if THOROUGH else 6)}
chk.finish()
