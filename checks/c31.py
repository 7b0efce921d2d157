"""C31: data set pruning keeps every sample exactly once."""
import _path  # noqa
import itertools
import os
import pickle
import re
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
from mc.choice import Chooser
from miscellaneous.pruning import pruning_dataset as pr
from model_architectures.procedures.model_prediction import (
    make_predictions_subdir, save_sample_predictions)
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, load_dataset, save_dataset)

torch.set_default_dtype(torch.float64)
warnings.simplefilter('ignore')
chk = Check('C31')
REAL = pr.perform_model_standard_training, pr.perform_model_prediction


def dataset(ids):
    return TimeSeriesDatasetInMemory([
        {'strain_path': torch.full((2, 6), float(i)),
         'stress_path': torch.full((2, 6), 10.0*i),
         'time_hist': torch.arange(2.0).reshape(-1, 1)} for i in ids])


def ids_of(ds):
    out = []
    for k in range(len(ds)):
        x = ds[k]
        i = int(x['strain_path'][0, 0])
        assert torch.equal(x['stress_path'], torch.full((2, 6), 10.0*i))
        out.append(i)
    return out


def stored(path):
    return ids_of(load_dataset(path))


class Run:
    """Stand-ins of training and prediction that record their data."""

    def __init__(self, loss):
        self.loss, self.trained, self.tested = loss, [], []

    def train(self, train_path, model_directory, val_dataset_file_path=None,
              **kw):
        self.trained.append((stored(train_path), stored(
            val_dataset_file_path), model_directory,
            os.listdir(model_directory)))
        open(os.path.join(model_directory, 'model.pt'), 'w').write('x')

    def predict(self, predict_directory, dataset_file_path, model_directory,
                is_remove_sample_prediction=False, **kw):
        ids = stored(dataset_file_path)
        self.tested.append((ids, predict_directory, model_directory))
        assert os.path.isfile(os.path.join(model_directory, 'model.pt'))
        sub = make_predictions_subdir(predict_directory)
        for k, i in enumerate(ids):
            if not is_remove_sample_prediction:
                save_sample_predictions(sub, k, {
                    'prediction_loss_data': ('time', 'mse',
                                             self.loss[i], False)})
        return sub, sum(self.loss[i] for i in ids)/len(ids)


def sizes_of(n, fr):
    """Sizes of a split by fractions (floor, rest handed out in turn)."""
    out = [int(np.floor(n*f)) for f in fr]
    for k in range(n - sum(out)):
        out[k % len(fr)] += 1
    return out


def splittable(n, sched, limits, n_iter, step):
    """True if no split of the history has an empty part (not supported)."""
    dev = n
    for _ in range(n_iter):
        sz = sizes_of(dev, step)
        if min(sz) < 1:
            return False
        npr = sched[1] if sched[0] == 'constant' else int(sched[1]*dev)
        if dev <= limits[0] or dev/n < limits[1] or sz[2] < limits[2] or \
                npr/sz[2] > limits[3]:
            break
        dev -= npr
    return dev > 1


def prune(item, t):
    (_, n, types, sched, limits, n_iter, step, it, loss, remove, bound) = item
    tr = dict(item=[str(x) for x in item])
    name = f'{n} samples {types} {sched} {limits} {n_iter} iterations ' \
           f'splits {step} {it} losses {loss}'
    ch = Chooser(limit=bound)
    real = torch.randperm
    while True:
        def perm(m, **kw):
            left, out = list(range(m)), []
            for _ in range(m - 1):
                out.append(left.pop(ch.pick(list(range(len(left))))))
            return torch.tensor(out + left)
        t.trace()
        run = Run(loss)
        pr.perform_model_standard_training = run.train
        pr.perform_model_prediction = run.predict
        torch.randperm = perm
        try:
            with Scratch() as d:
                one(item, t, d, run, f'{name} draws {ch.trail[:12]}', tr)
        finally:
            torch.randperm = real
            (pr.perform_model_standard_training,
             pr.perform_model_prediction) = REAL
        if not ch.next():
            return


def one(item, t, d, run, name, tr):
    (_, n, types, sched, limits, n_iter, step, it, loss, remove, _) = item
    base = os.path.join(d, 'base_datasets')
    full = os.path.join(base, '1_training_dataset')
    os.makedirs(full)
    save_dataset(dataset(range(n)), 'ss_paths_dataset', full,
                 is_append_n_sample=True)
    tests = {'in_distribution': (n, n + 2), 'out_distribution': (n + 2, n + 5)}
    for k, sub in (('in_distribution', '5_testing_id_dataset'),
                   ('out_distribution', '6_testing_od_dataset')):
        os.mkdir(os.path.join(base, sub))
        save_dataset(dataset(range(*tests[k])), 'ss_paths_dataset',
                     os.path.join(base, sub), is_append_n_sample=True)
        open(os.path.join(base, sub, 'notes.txt'), 'w').write('x')
    before = snapshot(base)
    stale = os.path.join(d, 'pruned_datasets', 'n99')
    os.makedirs(stale)
    params = dict(
        n_iter_max=n_iter, prun_scheduler_type=sched[0],
        prun_scheduler_params={'constant': {'n_prun_sample': sched[1]},
                               'proportional': {'prun_ratio': sched[1]}}[
            sched[0]],
        n_dev_min=limits[0], ratio_dev_min=limits[1],
        n_prun_test_min=limits[2], prun_test_ratio_max=limits[3],
        pruning_step_sizes=dict(zip(('training', 'validation', 'testing'),
                                    step)),
        pruning_iter_sizes=dict(zip(('training', 'validation'), it)))
    par, data = pr.prune_time_series_dataset(
        d, types, params, is_remove_pruning_models=remove)
    # ---- model of the process
    dev, unused = list(range(n)), []
    ntr = nte = 0
    rows = []
    k = 0
    while True:
        if k > 0:
            n_dev = len(dev)
            npr = sched[1] if sched[0] == 'constant' else int(sched[1]*n_dev)
            sz = sizes_of(n_dev, step)
            if n_dev <= limits[0] or n_dev/n < limits[1] or \
                    sz[2] < limits[2] or npr/sz[2] > limits[3]:
                break
            if not t.check(len(run.trained) > ntr and len(run.tested) > nte,
                           'stopped', f'{name}: stopped at iteration {k} '
                           f'with {n_dev} samples', tr):
                return
            a, b, md, content = run.trained[ntr]
            c, _, md2 = run.tested[nte]
            ntr, nte = ntr + 1, nte + 1
            t.check(sorted(a + b + c) == sorted(dev) and [len(a), len(b),
                                                          len(c)] == sz,
                    'step:split', f'{name}: step {k} splits {sorted(dev)} '
                    f'into {a} {b} {c}', tr)
            t.check(not content and md == md2, 'step:model',
                    f'{name}: {content}', tr)
            # the best predicted samples are pruned (ties in any order)
            got = data.get(str(k))
            order = sorted(c, key=lambda i: (loss[i], c.index(i)))
            out = order[:npr]
            dev = [i for i in dev if i not in out]
            unused = unused + out
        if not t.check(len(run.trained) > ntr, 'stopped', f'{name}: stopped '
                       f'at iteration {k}', tr):
            return
        a, b, md, content = run.trained[ntr]
        ntr += 1
        sz = sizes_of(len(dev), it)
        t.check(sorted(a + b) == sorted(dev) and [len(a), len(b)] == sz,
                'iter:split', f'{name}: iteration {k} trains {a} validates '
                f'{b}, development {sorted(dev)}', tr)
        t.check(not content, 'iter:model', f'{name}: {content}', tr)
        losses = {}
        for q in types:
            want = unused if q == 'unused_data' else list(range(*tests[q]))
            if not want:
                losses[q] = None
                continue
            if not t.check(len(run.tested) > nte, 'iter:tested',
                           f'{name}: iteration {k} not tested', tr):
                return
            c, pd, md2 = run.tested[nte]
            nte += 1
            t.check(c == want and md2 == md and os.path.basename(pd) == q,
                    'iter:test-data', f'{name}: iteration {k} {q} tests {c} '
                    f'instead of {want}', tr)
            losses[q] = sum(loss[i] for i in want)/len(want)
        rows.append((k, n, len(dev), sz[0], sz[1], len(unused), losses))
        got = data.get(str(k))
        t.check(got is not None and (
            got['iter'], got['n_full'], got['n_dev'], got['n_train'],
            got['n_valid'], got['n_unused'],
            got['testing_types_loss']) == rows[-1], 'data',
            f'{name}: iteration {k} recorded {got}, expected {rows[-1]}', tr)
        nd = os.path.join(d, 'pruned_datasets', f'n{sz[0]}')
        t.check(os.path.isdir(os.path.join(nd, '3_model')) != remove or
                any(r[3] == sz[0] for r in rows[:-1]), 'iter:dir',
                f'{name}: iteration {k}', tr)
        t.state((n, types, sched, limits, k, tuple(dev), tuple(unused)))
        t.transition()
        if k >= n_iter:
            break
        k += 1
    t.check(ntr == len(run.trained) and nte == len(run.tested) and
            len(data) == len(rows), 'not-stopped', f'{name}: '
            f'{len(data)} iterations instead of {len(rows)}', tr)
    last = os.path.join(d, 'pruned_datasets', f'n{rows[-1][3]}')
    for sub, want in (('1_training_dataset', a), ('2_validation_dataset', b)):
        f = os.listdir(os.path.join(last, sub))
        t.check(len(f) == 1 and stored(os.path.join(last, sub, f[0])) ==
                want, 'files:' + sub, f'{name}: {f}', tr)
    t.check(snapshot(base) == before, 'base', f'{name}: base data sets '
            'changed', tr)
    names = set(os.listdir(os.path.join(d, 'pruned_datasets')))
    t.check(names == {f'n{r[3]}' for r in rows}, 'files:dirs',
            f'{name}: {names}', tr)
    with open(os.path.join(d, 'pruning_data.pkl'), 'rb') as f:
        pk = pickle.load(f)
    t.check(pk['pruning_iterative_data'] == data and
            pk['pruning_params'] == par and par['n_full'] == n, 'files:data',
            f'{name}: stored data differ', tr)
    got = [ln.split() for ln in open(os.path.join(d, 'summary.dat'))
           if re.match(r'^\s+\d+\s+\d+\s', ln)]
    want = []
    for r in rows:
        w = [str(r[0])]
        for v in r[2:6]:
            w += [str(v), f'{v/n*100:.1f}']
        want.append(w + [f'{r[6][q]:.4e}' for q in (
            'in_distribution', 'out_distribution', 'unused_data')
            if r[6].get(q) is not None])
    t.check(got == want, 'files:summary', f'{name}: summary {got}, expected '
            f'{want}', tr)


def snapshot(root):
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = open(p, 'rb').read()
    return out


def losses(item, t):
    """Losses of the stored predictions, by sample."""
    _, ids = item
    t.trace()
    t.state(item)
    with Scratch() as d:
        for i in ids:
            save_sample_predictions(d, i, {'prediction_loss_data': (
                'time', 'mse', 0.5*i + 1, False)})
        open(os.path.join(d, 'summary.dat'), 'w').write('x')
        got = pr.read_samples_loss_from_dir(d)
        want = (sorted(ids), [0.5*i + 1 for i in sorted(ids)])
        t.check((list(got[0]), list(got[1])) == want, 'losses',
                f'{ids}: {got}', dict(item=str(item)))


def number(item, t):
    """Number of pruned samples."""
    _, kind, v, n = item
    t.trace()
    t.state(item)
    got = pr.get_n_prun_sample(kind, {'n_prun_sample': v, 'prun_ratio': v},
                               list(range(n)))
    t.check(got == (v if kind == 'constant' else int(v*n)), 'number',
            f'{item}: {got}', dict(item=str(item)))


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    items = []
    free = (1, 0.0, 1, 1.0)
    half, third = (0.5, 0.25, 0.25), (0.34, 0.33, 0.33)
    alltypes = ('in_distribution', 'out_distribution', 'unused_data')

    def add(n, types=('unused_data',), sched=('constant', 1), limits=free,
            n_iter=2, step=half, it=(0.5, 0.5), loss=None, remove=False,
            bound=0):
        if not splittable(n, sched, limits, n_iter, step):
            return
        ls = tuple(loss) if loss is not None else tuple(
            (3*i + 1) % (n + 5) for i in range(n + 5))
        ls = ls + tuple(range(50, 50 + n + 5 - len(ls)))
        items.append(('prune', n, tuple(types), sched, limits, n_iter, step,
                      it, ls, remove, bound))
    # every order of the losses
    for n in (5, 6) if not THOROUGH else (5, 6, 7):
        for p in itertools.permutations(range(n)):
            add(n, loss=p, step=third if n == 6 else half, n_iter=2)
    # every random split
    add(4, n_iter=1, bound=6)
    add(5, n_iter=1, bound=8, step=(0.4, 0.2, 0.4))
    add(6, n_iter=2, bound=6, step=third)
    if THOROUGH:
        add(5, n_iter=2, bound=11, step=(0.4, 0.2, 0.4))
        add(6, n_iter=2, bound=9, step=third)
    # every combination of schedule, sizes and limits
    for n in (4, 6, 9, 12):
        for s in (('constant', 1), ('constant', 2), ('proportional', 0.25),
                  ('proportional', 0.1)):
            for m in (0, 1, 3, 6):
                for st in (half, third, (0.6, 0.2, 0.2)):
                    if min(sizes_of(n, st)) < 1:
                        continue
                    for lim in ((3, 0.0, 1, 1.0), (3, 0.7, 1, 1.0),
                                (3, 0.0, 2, 1.0), (3, 0.0, 1, 0.6),
                                (5, 0.0, 3, 0.4), (n - 1, 0.0, 1, 1.0)):
                        if lim[0] < 4 and st == (0.6, 0.2, 0.2):
                            lim = (4,) + lim[1:]
                        add(n, sched=s, n_iter=m, step=st, limits=lim,
                            it=(0.6, 0.4))
    for k in range(4):
        for ty in itertools.combinations(alltypes, k):
            for rm in (False, True):
                add(8, types=ty, n_iter=3, remove=rm, limits=(4, 0., 1, 1.))
    # equal losses
    add(6, loss=(1,)*11, limits=(3, 0., 1, 1.))
    for k in range(1, 5):
        for c in itertools.combinations((0, 1, 2, 9, 10, 11, 100), k):
            items.append(('losses', c))
    for n in range(0, 25):
        for v in (0, 1, 5):
            items.append(('number', 'constant', v, n))
        for v in (0.0, 0.05, 0.25, 0.5, 1.0):
            items.append(('number', 'proportional', v, n))
    chk.pmap(dispatch, items, chunk=4)


with quiet():
    chk.run('pruning', main)
chk.finish()
