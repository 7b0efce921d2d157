"""C34: training, prediction and uncertainty quantification workflows.

Two explorations, on the scripts of all three kinds of local models:
* runs: every history of uncertainty quantification runs (training or not,
  number of realisations, testing data set) up to a depth, with an
  interruption before or after every training and prediction, against a model
  of what must be stored (training and prediction replaced by stand-ins that
  leave a mark);
* flows: every history of real trainings (one epoch) and predictions over small
  data set files, with states stored besides the best one that must not be
  used.
"""
import _path  # noqa
import copy
import importlib
import itertools
import os
import pickle
import random
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from model_architectures.procedures.model_data_scaling import (
    data_scaler_transform)
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, save_dataset)

warnings.simplefilter('ignore')
chk = Check('C34')
KINDS = ('rc', 'rnn', 'hybrid')
BASE = 'user_scripts.local_model_update.{}_material_model.{}'


def module(kind, name):
    return importlib.import_module(BASE.format(kind, name))


class Stop(Exception):
    """Interruption of a run."""


class Patch:
    """Replace attributes of modules."""
    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.old = [(m, a, getattr(m, a)) for m, a, _ in self.items
                    if hasattr(m, a)]
        for m, a, v in self.items:
            if hasattr(m, a):
                setattr(m, a, v)

    def __exit__(self, *exc):
        for m, a, v in self.old:
            setattr(m, a, v)


def tree(root):
    """All files below a directory with their contents."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as s:
                out[os.path.relpath(p, root)] = s.read()
    return out


# ------------------------------------------------- uncertainty quantification
def runs(item, t):
    kind, hist = item
    uq = module(kind, 'uncertainty_quantification')
    rep = dict(kind=kind, history=[list(map(str, h)) for h in hist])
    t.trace()
    st = dict(train=0, predict=0, calls=0, stop=None, log=[])
    with Scratch() as d:
        data = {k: os.path.join(d, 'data', f'{k}.pkl')
                for k in ('train', 'val', 'id', 'od')}
        os.makedirs(os.path.join(d, 'data'))
        for k, p in data.items():
            open(p, 'w').write(k)
        mdir = os.path.join(d, '3_model')
        udir = os.path.join(d, 'uncertainty_quantification')
        os.makedirs(mdir)
        os.makedirs(os.path.join(d, '7_prediction'))

        def gate(moment):
            if st['stop'] == (st['calls'], moment):
                raise Stop

        def train(train_path, model_dir, val_dataset_file_path=None,
                  device_type='cpu', is_verbose=False):
            gate('before')
            st['train'] += 1
            st['log'].append(('train', train_path, model_dir,
                              val_dataset_file_path))
            with open(os.path.join(model_dir, 'model'), 'w') as f:
                f.write(str(st['train']))
            os.makedirs(os.path.join(model_dir, 'plots'), exist_ok=True)
            gate('after')
            st['calls'] += 1

        def predict(pred_dir, data_path, model_dir,
                    is_remove_sample_prediction=False, device_type='cpu',
                    is_verbose=False):
            gate('before')
            st['predict'] += 1
            with open(os.path.join(model_dir, 'model')) as f:
                made = f.read()
            k = 0
            while os.path.exists(os.path.join(pred_dir,
                                              f'prediction_set_{k}')):
                k += 1
            sub = os.path.join(pred_dir, f'prediction_set_{k}')
            os.makedirs(sub)
            with open(os.path.join(sub, 'mark'), 'w') as f:
                f.write(f'{st["predict"]} {made} {data_path}')
            with open(os.path.join(sub, f'sample_{st["predict"]}'), 'w') as f:
                f.write('x')
            gate('after')
            st['calls'] += 1
            return sub if kind == 'rc' else (sub, 1.0)

        models, preds = {}, {}
        for training, n, tt, stop in hist:
            st.update(calls=0, stop=stop, log=[])
            pdir = os.path.join(d, '7_prediction', tt)
            first_t, first_p = st['train'], st['predict']
            done = True
            with Patch((uq, 'perform_model_standard_training', train),
                       (uq, 'perform_model_prediction', predict),
                       (module(kind, 'train_model'),
                        'perform_model_standard_training', train),
                       (module(kind, 'predict'),
                        'perform_model_prediction', predict)), quiet():
                try:
                    uq.perform_model_uq(
                        udir, n, data['train'], mdir, pdir, data[tt],
                        is_model_training=training,
                        val_dataset_file_path=data['val'])
                except Stop:
                    done = False
            t.transition()
            ident = f'{kind}: {hist}: after {(training, n, tt, stop)}'
            # what is stored
            got_m, got_p = {}, {}
            for f in sorted(os.listdir(udir)) if os.path.isdir(udir) else ():
                if not f.startswith('model_'):
                    continue
                i = int(f[6:])
                m = os.path.join(udir, f, '3_model', 'model')
                if os.path.exists(m):
                    got_m[i] = int(open(m).read())
                pd = os.path.join(udir, f, '7_prediction')
                for k in os.listdir(pd) if os.path.isdir(pd) else ():
                    fs = sorted(os.listdir(os.path.join(pd, k)))
                    if 'mark' not in fs:
                        continue
                    a, b, c = open(os.path.join(pd, k, 'mark')).read() \
                        .split(' ', 2)
                    got_p[i, k] = (int(a), int(b), c)
                    t.check(fs == ['mark', f'sample_{a}'], 'runs:mixed',
                            f'{ident}: predictions of realisation {i}: {fs}',
                            rep)
            t.state((kind, tuple(sorted(got_m.items())),
                     tuple(sorted((k, v[1]) for k, v in got_p.items()))))
            # always: predictions come from the realisation they belong to
            for (i, k), (serial, made, path) in got_p.items():
                t.check(got_m.get(i) == made, 'runs:model',
                        f'{ident}: predictions of realisation {i} were made '
                        f'by model {made}, stored model {got_m.get(i)}', rep)
                t.check(path == data.get(k), 'runs:data',
                        f'{ident}: predictions {k} of {path}', rep)
            t.check(len(set(got_m.values())) == len(got_m), 'runs:distinct',
                    f'{ident}: realisations share a model {got_m}', rep)
            t.check(all(x == ('train', data['train'], mdir, data['val'])
                        for x in st['log']), 'runs:inputs',
                    f'{ident}: {st["log"]}', rep)
            if training:
                want = {i: first_t + i + 1 for i in range(n)}
                if done:
                    t.check(got_m == want and set(got_p) ==
                            {(i, tt) for i in range(n)}, 'runs:complete',
                            f'{ident}: models {got_m}, predictions '
                            f'{sorted(got_p)}', rep)
                else:
                    t.check(set(got_m.items()) <= set(want.items()),
                            'runs:interrupted', f'{ident}: {got_m}', rep)
            else:
                t.check(got_m == models, 'runs:kept',
                        f'{ident}: models {models} became {got_m}', rep)
                other = {k: v for k, v in preds.items()
                         if k[1] != tt or k[0] >= n}
                t.check(all(got_p.get(k) == v for k, v in other.items()),
                        'runs:others', f'{ident}: predictions not asked for '
                        f'changed: {preds} to {got_p}', rep)
                if done:
                    t.check(set(got_p) == set(other) | {
                        (i, tt) for i in range(n) if i in models},
                        'runs:complete', f'{ident}: {sorted(got_p)}', rep)
            for k, (serial, _, _) in got_p.items():
                if done and k[1] == tt and k[0] < n:
                    t.check(serial > first_p, 'runs:stale',
                            f'{ident}: predictions {k} are not of this run',
                            rep)
            t.check({k: open(p).read() for k, p in data.items()} ==
                    {k: k for k in data} and
                    set(os.listdir(os.path.join(d, 'data'))) ==
                    {f'{k}.pkl' for k in data}, 'runs:sources',
                    f'{ident}: data set files changed', rep)
            models, preds = got_m, got_p


def run_ops(ns, crash):
    out = []
    for tt in ('id', 'od'):
        for n in ns:
            for tr in (True, False):
                out.append((tr, n, tt, None))
                if crash:
                    calls = 2*n if tr else n
                    out += [(tr, n, tt, (k, m)) for k in range(calls)
                            for m in ('before', 'after')]
    return out


def run_items():
    items = []
    full, plain = run_ops((1, 2, 3), True), run_ops((1, 2, 3), False)
    small = run_ops((1, 2), True)
    hists = {(a,) for a in full}
    hists |= set(itertools.product(plain, full))
    hists |= set(itertools.product(small, plain))
    hists |= set(itertools.product(run_ops((2,), False), repeat=3))
    if THOROUGH:
        hists |= set(itertools.product(full, repeat=2))
        hists |= set(itertools.product(plain, repeat=3))
        hists |= {(a, b, c) for a, b in itertools.product(plain, small)
                  for c in run_ops((2, 3), False)}
    for k in KINDS:
        items += [('runs', k, h) for h in sorted(hists, key=str)]
    return items


# ------------------------------------------------ real training and prediction
ORDER = ('11', '22', '33', '12', '23', '13')


def samples(n, seed, lengths=(4,)):
    out = []
    for i in range(n):
        T = lengths[i % len(lengths)]
        x = np.cumsum(np.sin(1.3*np.arange(6*T) + seed + 7*i).reshape(T, 6),
                      axis=0)
        e = torch.tensor(2e-3*x, dtype=torch.float)
        out.append(dict(
            strain_path=e, stress_path=(1e5 + 1e3*i)*e, strain_comps_order=ORDER,
            stress_comps_order=ORDER,
            time_hist=torch.arange(T, dtype=torch.float).reshape(-1, 1)))
    return out


def equal(a, b):
    return a.shape == b.shape and torch.allclose(a.double(), b.double(),
                                                 rtol=1e-6, atol=1e-9)


def state_files(mdir):
    return [f for f in os.listdir(mdir) if f.endswith('.pt')]


def flows(item, t):
    kind, hist, draw = item
    torch.set_default_dtype(torch.float32)
    tm, pr = module(kind, 'train_model'), module(kind, 'predict')
    rep = dict(kind=kind, history=[str(h) for h in hist], draw=draw)
    t.trace()
    t.state(item)
    stubs = [(m, a, lambda *x, **kw: (None, None)) for m in (tm, pr)
             for a in dir(m) if a.startswith('plot_')]
    seen = []
    real = tm.train_model

    def train_model(n_max_epochs, dataset, model_init_args, *a, **kw):
        es = kw.get('early_stopping_kwargs') or {}
        seen.append((list(dataset), copy.deepcopy(model_init_args),
                     list(es['validation_dataset'])
                     if kw.get('is_early_stopping') else None))
        return real(2, dataset, model_init_args, *a, **kw)

    def small(f):
        def g(*a, **kw):
            args = f(*a, **kw)
            if isinstance(args, dict) and 'hidden_layer_size' in args:
                args['hidden_layer_size'] = 3
            return args
        return g

    def uniform(a, b):
        return {'low': a, 'mid': 0.5*(a + b), 'high': b}[draw]

    stubs.append((tm, 'train_model', train_model))
    if kind == 'rnn':
        stubs.append((tm, 'set_default_model_parameters',
                      small(tm.set_default_model_parameters)))
    with Scratch() as d:
        src = {}
        for name, n, seed, ln in (('A', 3, 1, (4,)), ('B', 2, 5, (4,)),
                                  ('V', 2, 9, (4,)), ('X', 1, 2, (4,)),
                                  ('Y', 6, 4, (4,)), ('Z', 4, 6, (3,))):
            sub = os.path.join(d, 'data', name)
            os.makedirs(sub)
            save_dataset(
                TimeSeriesDatasetInMemory(samples(n, seed, ln)),
                'ss_paths_dataset', sub, is_append_n_sample=True)
            src[name] = (os.path.join(sub, f'ss_paths_dataset_n{n}.pkl'),
                         samples(n, seed, ln))
        raw = tree(os.path.join(d, 'data'))
        mdir = os.path.join(d, '3_model')
        pdir = os.path.join(d, '7_prediction')
        os.makedirs(mdir)
        os.makedirs(pdir)
        n_sets = 0
        for op in hist:
            t.transition()
            ident = f'{kind}: {hist}: {op}'
            before = tree(pdir)
            with Patch(*stubs), quiet():
                torch.manual_seed(11)
                old = random.uniform
                random.uniform = uniform
                try:
                    if op[0] == 'train':
                        seen.clear()
                        tm.perform_model_standard_training(
                            src[op[1]][0], mdir,
                            val_dataset_file_path=src['V'][0])
                    else:
                        kept = tree(mdir)
                        res = pr.perform_model_prediction(
                            pdir, src[op[1]][0], mdir,
                            is_remove_sample_prediction=op[2])
                except Exception as e:
                    t.fail('flows:raise', f'{ident} raises '
                           f'{type(e).__name__}: {e}', rep)
                    return
                finally:
                    random.uniform = old
            if op[0] == 'train':
                trained(t, ident, rep, seen, src, op[1], mdir)
                t.check(tree(pdir) == before, 'flows:predictions',
                        f'{ident}: predictions changed by training', rep)
                decoys(mdir)
            else:
                t.check(tree(mdir) == kept, 'flows:model',
                        f'{ident}: model directory changed by prediction',
                        rep)
                sub = res if isinstance(res, str) else res[0]
                predicted(t, ident, rep, kind, sub, src[op[1]][1], mdir,
                          op[2])
                after = tree(pdir)
                t.check(all(after.get(k) == v for k, v in before.items()) and
                        all(k.startswith(os.path.relpath(sub, pdir) + os.sep)
                            for k in after if k not in before),
                        'flows:earlier', f'{ident}: earlier predictions '
                        'changed', rep)
                n_sets += 1
                t.check(len([x for x in os.listdir(pdir)
                             if x.startswith('prediction_set_')]) == n_sets,
                        'flows:sets', f'{ident}: {os.listdir(pdir)}', rep)
            t.check(tree(os.path.join(d, 'data')) == raw, 'flows:sources',
                    f'{ident}: data set files changed', rep)


def trained(t, ident, rep, seen, src, name, mdir):
    if not t.check(len(seen) == 1, 'flows:trainings',
                   f'{ident}: {len(seen)} trainings', rep):
        return
    data, args, val = seen[0]
    for what, got, want in (('training', data, src[name][1]),
                            ('validation', val, src['V'][1])):
        if got is None:
            continue
        t.check(len(got) == len(want) and all(
            equal(g['features_in'][:, :6], w['strain_path']) and
            equal(g['features_out'][:, :6], w['stress_path'])
            for g, w in zip(got, want)), f'flows:{what}',
            f'{ident}: {what} samples are not those of the file', rep)
        t.check(all(g['features_in'].shape[1] == args['n_features_in'] and
                    g['features_out'].shape[1] == args['n_features_out']
                    for g in got if 'n_features_in' in args),
                'flows:features', f'{ident}: number of features', rep)
    for k, p in (args.get('learnable_parameters') or {}).items():
        lo, hi = p['bounds']
        t.check(lo <= p['initial_value'] <= hi, 'flows:bounds',
                f'{ident}: {k} starts at {p["initial_value"]} outside of '
                f'{lo, hi}', rep)
    files = state_files(mdir)
    t.check(any('-best' in f for f in files) and
            os.path.exists(os.path.join(mdir, 'model_init_file.pkl')) and
            os.path.exists(os.path.join(mdir, 'loss_history_record.pkl')),
            'flows:stored', f'{ident}: {sorted(os.listdir(mdir))}', rep)


def decoys(mdir):
    """Perturb every stored state but the best one."""
    for f in state_files(mdir):
        if '-best' in f or '_optim' in f:
            continue
        p = os.path.join(mdir, f)
        st = torch.load(p, weights_only=False)
        torch.save({k: (v*0.5 + 0.25 if torch.is_tensor(v) and
                        v.is_floating_point() else v)
                    for k, v in st.items()}, p)


def reference(kind, mdir):
    """Model of the best stored state."""
    cls = {'rc': ('rc_base_model.model.recurrent_model',
                  'RecurrentConstitutiveModel'),
           'rnn': ('rnn_base_model.model.gru_model', 'GRURNNModel'),
           'hybrid': ('hybrid_base_model.model.hybrid_model',
                      'HybridModel')}[kind]
    C = getattr(importlib.import_module('model_architectures.' + cls[0]),
                cls[1])
    model = C.init_model_from_file(model_directory=mdir)
    best = [f for f in state_files(mdir) if '-best' in f and
            '_optim' not in f]
    assert len(best) == 1, best
    model.load_state_dict(torch.load(os.path.join(mdir, best[0]),
                                     weights_only=False))
    model.eval()
    return model


def predicted(t, ident, rep, kind, sub, want, mdir, removed):
    names = os.listdir(sub)
    rec = [f for f in names if f.startswith('prediction_sample_')]
    t.check('summary.dat' in names and 'plots' in names and
            any(f.startswith('prediction_metrics') for f in names),
            'flows:summary', f'{ident}: {sorted(names)}', rep)
    if removed:
        t.check(not rec, 'flows:removed', f'{ident}: {sorted(rec)}', rep)
        return
    if not t.check(set(rec) == {f'prediction_sample_{i}.pkl'
                                for i in range(len(want))}, 'flows:records',
                   f'{ident}: {sorted(rec)}', rep):
        return
    model = reference(kind, mdir)
    t.count('predictions', len(want))
    for i, s in enumerate(want):
        with open(os.path.join(sub, f'prediction_sample_{i}.pkl'), 'rb') as f:
            r = pickle.load(f)
        out = torch.as_tensor(np.asarray(r['features_out']))
        t.check(equal(torch.as_tensor(np.asarray(r['targets'])),
                      s['stress_path']), 'flows:targets',
                f'{ident}: targets of sample {i}', rep)
        ref = forward(kind, model, s['strain_path'])
        err = (out.double() - ref.double()).abs().max().item() \
            if out.shape == ref.shape else float('inf')
        t.check(err <= 1e-4*(1e-12 + ref.abs().max().item()), 'flows:best',
                f'{ident}: prediction of sample {i} is not that of the best '
                f'state (difference {err:.3e})', rep)


def forward(kind, model, strain):
    with torch.no_grad():
        if model.is_model_in_normalized:
            strain = data_scaler_transform(model, strain, 'features_in',
                                                 'normalize')
        out = model(strain)
        out = out[0] if isinstance(out, tuple) else out
        if model.is_model_out_normalized:
            out = data_scaler_transform(model, out, 'features_out',
                                              'denormalize')
    return out


def flow_items():
    ops = [('train', 'A'), ('train', 'B'), ('predict', 'X', False),
           ('predict', 'Y', False), ('predict', 'Z', True)]
    pred = ops[2:] + [('predict', 'Z', False)]
    hists = [(a, b) for a in ops[:2] for b in pred]
    hists += [(a, b, c) for a in ops[:1] for b in pred for c in pred]
    hists += [(ops[0], b, ops[1], c) for b in pred[:2] for c in pred[:2]]
    if THOROUGH:
        hists += [(a, b, c, e) for a in ops[:2] for b in pred for c in pred
                  for e in pred + ops[:2]]
    out = []
    for k in KINDS:
        for i, h in enumerate(hists):
            out.append(('flows', k, h, ('low', 'mid', 'high')[i % 3]))
    return out


# ------------------------------------------------------- patch simulations
POOL = []


def patches(item, t):
    """Generated patches, stored and loaded for simulation."""
    (hist,) = item
    gs = importlib.import_module('user_scripts.synthetic_data.'
                                 'gen_random_specimen')
    from data_generation.spdg.patch import FiniteElementPatch
    rep = dict(history=[list(map(str, h)) for h in hist])
    t.trace()
    ident = ''
    st = dict(k=0, stop=None)

    def simulate(self, path, *a, **kw):
        if st['k'] == st['stop']:
            raise Stop
        st['k'] += 1
        out = os.path.splitext(path)[0]
        os.makedirs(out, exist_ok=True)
        return True, out

    def mesh(n_dim):
        return {'elem_type': 'SHEXA8', 'n_elems_per_dim': (2, 1, 1)}

    real = gs.generate_material_patch
    serial = itertools.count()

    def generate(*a, **kw):
        while len(POOL) < 8:
            with quiet():
                POOL.append(real(*a, **kw))
        return copy.deepcopy(POOL[next(serial) % 8])

    def read(x):
        # without the (random) load factors
        with open(x) as f:
            return ''.join(x for x in f if x.split()[2:3] !=
                           ['1.00000000e-06'])

    with Scratch() as d, Patch(
            (gs, 'set_patch_mesh_params', mesh),
            (gs, 'generate_material_patch', generate),
            (gs, 'plot_links_tfact_hist', lambda *a, **k: None),
            (gs.LinksSimulator, 'run_links_simulation', simulate),
            (FiniteElementPatch, 'plot_deformed_patch',
             lambda *a, **k: None)):
        other = os.path.join(d, 'material_patch_extra')
        os.makedirs(other)
        open(os.path.join(other, 'note'), 'w').write('kept')
        np.random.seed(5)
        stored = {}
        for n, save, load, stop in hist:
            t.transition()
            ident = f'{hist}: {(n, save, load, stop)}'
            names = ['material_patch'] if n == 1 else [
                f'material_patch_{i}' for i in range(n)]
            st.update(k=0, stop=stop)
            missing = [x for x in names if x not in stored] if load else []
            res = err = None
            try:
                with quiet():
                    res = gs.generate_random_patches(
                        d, n_patch=n, is_save_material_patch=save,
                        is_load_material_patch=load)
            except (Stop, RuntimeError) as e:
                err = e
            reached = names if stop is None else names[:stop + 1]
            if missing and missing[0] in reached:
                t.check(isinstance(err, RuntimeError), 'patches:missing',
                        f'{ident}: a patch that is not stored is loaded', rep)
                reached = names[:names.index(missing[0])]
            elif stop is not None:
                t.check(isinstance(err, Stop), 'patches:raise',
                        f'{ident}: {err}', rep)
            elif not t.check(err is None and list(res[0]) == list(res[1]) ==
                             [str(i) for i in range(n)], 'patches:result',
                             f'{ident}: {err or res}', rep):
                return
            for i, x in enumerate(reached):
                f = os.path.join(d, x, 'simulations', 'random_specimen.dat')
                if res is not None:
                    f = res[0][str(i)]
                    t.check(os.path.realpath(f).startswith(os.path.join(
                        os.path.realpath(d), x) + os.sep) and
                        os.path.isdir(res[1][str(i)]), 'patches:place',
                        f'{ident}: patch {i} in {f}', rep)
                if not t.check(os.path.isfile(f), 'patches:simulated',
                               f'{ident}: {f} missing', rep):
                    return
                now = read(f)
                if load:
                    t.check(now == stored[x], 'patches:loaded',
                            f'{ident}: the simulated patch {x} is not the '
                            'stored one', rep)
                else:
                    t.check(now not in stored.values(), 'patches:new',
                            f'{ident}: patch {x} is not a new one', rep)
                    stored.pop(x, None)
                    if save:
                        stored[x] = now
            have = {x for x in os.listdir(d) if os.path.isfile(os.path.join(
                d, x, 'material_patch', 'material_patch.pkl'))}
            t.check(have == set(stored), 'patches:stored',
                    f'{ident}: stored {sorted(have)}, expected '
                    f'{sorted(stored)}', rep)
            t.check(read(os.path.join(other, 'note')) == 'kept',
                    'patches:other', f'{ident}: other files changed', rep)
            t.state(tuple(sorted(stored)) + (n, save, load, stop))


def patch_items():
    ops = [(n, s, ld, c) for n in (1, 2) for s in (True, False)
           for ld in (False, True) for c in (None, *range(n))]
    keep = [o for o in ops if o[1] or o[2]]
    hists = list(itertools.product(ops, repeat=2))
    hists += [h for h in itertools.product(keep, repeat=3)
              if THOROUGH or (h[0][3] is None and h[2][3] is None)]
    if THOROUGH:
        hists += list(itertools.product([o for o in keep if o[0] == 2],
                                        repeat=4))
    return [('patches', h) for h in hists]


def dispatch(item, t):
    {'runs': runs, 'flows': flows, 'patches': patches}[item[0]](item[1:], t)


def main(chk):
    chk.pmap(dispatch, flow_items() + run_items() + patch_items())


chk.run('workflows', main)
chk.finish()
