"""C35: temperature- and composition-dependent material data.

The complete local model updating pipeline is explored on small grids: every
grid shape, sample number, ratio, draw of the effective temperature and
composition and pattern of failed response computations (generation); every
set of stored data sets and reduction (assembly); every history of updating
runs; every short uniaxial strain path.
"""
import _path  # noqa
import copy
import importlib
import itertools
import os
import random
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, save_dataset, load_dataset)

warnings.simplefilter('ignore')
chk = Check('C35')
lmu = importlib.import_module(
    'user_scripts.complete_pipelines.local_model_update')
ORDER = ('11', '22', '33', '12', '23', '13')
T_ALL = (25.0, 325.0, 625.0)
C_ALL = (0.0, 0.5, 1.0)


def j2(par, strain):
    """Stress and plastic strain history of a material with linear
    hardening."""
    E, v = float(par['E']), float(par['v'])
    hp = np.asarray(par['hardening_parameters']['hardening_points'], float)
    s0, H = hp[0, 1], (hp[-1, 1] - hp[0, 1])/(hp[-1, 0] - hp[0, 0])
    G, K = E/(2*(1 + v)), E/(3*(1 - 2*v))
    ee, p = np.zeros((3, 3)), 0.0
    out, acc = [np.zeros((3, 3))], [0.0]
    for a, b in zip(strain[:-1], strain[1:]):
        ee = ee + b - a
        tr = np.trace(ee)
        s = 2*G*(ee - tr/3*np.eye(3))
        q = np.sqrt(1.5*np.sum(s*s))
        f = q - (s0 + H*p)
        if f > 0:
            dg = f/(3*G + H)
            n = 1.5*s/q
            ee = ee - dg*n
            s = s - 2*G*dg*n
            p += dg
        out.append(s + K*tr*np.eye(3))
        acc.append(p)
    return np.array(out), np.array(acc)


def tensors(path, order):
    x = np.zeros((len(path), 3, 3))
    for k, c in enumerate(order):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        x[:, i, j] = x[:, j, i] = np.asarray(path)[:, k]
    return x


class Swap:
    """Replace attributes (of modules, classes)."""
    def __init__(self, *items):
        self.items = [x for x in items if hasattr(x[0], x[1])]

    def __enter__(self):
        self.old = [(o, a, getattr(o, a)) for o, a, _ in self.items]
        for o, a, v in self.items:
            setattr(o, a, v)

    def __exit__(self, *exc):
        for o, a, v in self.old:
            setattr(o, a, v)


def find(root, kind):
    """Stored data sets of a type: {relative directory: samples}."""
    out = {}
    for d, _, fs in os.walk(root):
        if os.path.basename(d) == f'{kind}_dataset':
            for f in fs:
                if f.endswith('.pkl'):
                    out.setdefault(os.path.relpath(d, root), []).append(
                        (f, list(load_dataset(os.path.join(d, f)))))
    return out


# ------------------------------------------------------------- generation
def generate(item, t):
    temps, comps, nums, ratio, draw, fails = item
    torch.set_default_dtype(torch.float64)
    t.trace()
    t.state(item)
    rep = dict(temperatures=temps, compositions=comps, samples=str(nums),
               ratio=str(ratio), draw=draw, failures=str(fails))
    ident = f'{item}'
    nums, ratio = dict(nums), dict(ratio)
    real_set = lmu.set_strain_path_generator
    real_uniform = random.uniform
    R = lmu.MaterialResponseDatasetGenerator
    real_path = R.compute_stress_path
    made, log = [], []

    def setter(*a, strain_path_type='random', **kw):
        g, k = real_set(*a, strain_path_type=strain_path_type, **kw)
        k = dict(k, n_time=5)
        if 'n_control' in k:
            k['n_control'] = (2, 3)
        real = g.generate_strain_path

        def path(**kk):
            res = real(**kk)
            made.append((strain_path_type, np.array(res[2])))
            return res
        g.generate_strain_path = path
        return g, k

    def stress(self, *a, **kw):
        res = real_path(self, *a, **kw)
        bad = len(log) < len(fails) and fails[len(log)]
        log.append(bad)
        return (*res[:3], True) if bad else res

    def uniform(a, b):
        return {'low': a, 'mid': 0.5*(a + b), 'high': b,
                'real': None}[draw] if draw != 'real' else real_uniform(a, b)

    with Scratch() as d:
        os.makedirs(os.path.join(d, '0_simulation', 'T0.00_C0.00',
                                 'training_dataset'))
        given = copy.deepcopy(ratio)
        np.random.seed(3)
        random.seed(3)
        err = None
        with Swap((lmu, 'set_strain_path_generator', setter),
                  (R, 'compute_stress_path', stress),
                  (random, 'uniform', uniform)), quiet():
            try:
                lmu.generate_material_data(
                    d, 'infinitesimal', 4, 'von_mises',
                    temperatures=list(temps), compositions=list(comps),
                    n_sample_type=nums, rnd_strain_path_ratio=ratio,
                    is_save_dataset_plots=False)
            except RuntimeError as e:
                err = e
        t.transition(len(log))
        n_rnd = {k: int(n*given.get(k, 1.0)) for k, n in nums.items()}
        if any(k < 1 or (k == nums[x] and given.get(x, 1.0) < 1)
               for x, k in n_rnd.items()):
            t.check(err is not None, 'generate:accepted', f'{ident}: ratio '
                    'that leaves a kind of path without samples', rep)
            return
        if sum(fails) > 10 and all(fails):
            t.check(err is not None, 'generate:trials', f'{ident}: endless '
                    'failures', rep)
            return
        if not t.check(err is None, 'generate:raise', f'{ident}: {err}', rep):
            return
        good = [p for p, bad in zip(made, log) if not bad]
        for kind, n in nums.items():
            got = find(os.path.join(d, '0_simulation'), kind)
            if not t.check(len(got) == len(temps)*len(comps) and
                           all(len(x) == 1 and len(x[0][1]) == n and
                               x[0][0].endswith(f'_n{n}.pkl')
                               for x in got.values()), 'generate:sets',
                           f'{ident}: {kind}: {sorted(got)}', rep):
                return
            cells = set()
            for where, ((_, data),) in got.items():
                first = [(float(s['temperature_hist'][0]),
                          float(s['composition_hist'][0])) for s in data]
                cells.add(cell(t, ident, rep, kind, where, first, temps,
                               comps, draw))
                for i, s in enumerate(data):
                    sample(t, ident, rep, kind, where, i, s,
                           'random' if i < n_rnd[kind] else 'proportional',
                           good)
            t.check(len(cells - {None}) == len(temps)*len(comps),
                    'generate:pairs', f'{ident}: {kind}: pairs {cells}', rep)
        used = [s for k in nums for v in find(os.path.join(
            d, '0_simulation'), k).values() for s in v[0][1]]
        t.check(len(used) == len(good), 'generate:lost', f'{ident}: '
                f'{len(good)} responses, {len(used)} stored', rep)


def cell(t, ident, rep, kind, where, vals, temps, comps, draw):
    """Pair a data set belongs to, with its temperatures/compositions."""
    name = where.split(os.sep)[0]
    for (i, T), (j, C) in itertools.product(enumerate(temps),
                                            enumerate(comps)):
        if name != f'T{T:.2f}_C{C:.2f}':
            continue
        if kind == 'training':
            lo = hi = (T, C)
        else:
            lo = (temps[max(0, i - 1)], comps[max(0, j - 1)])
            hi = (temps[min(i + 1, len(temps) - 1)],
                  comps[min(j + 1, len(comps) - 1)])
        ok = all(lo[k] - 1e-9 <= v[k] <= hi[k] + 1e-9 for v in vals
                 for k in (0, 1))
        if draw in ('low', 'mid', 'high'):
            w = {'low': 0.0, 'mid': 0.5, 'high': 1.0}[draw]
            want = [lo[k] + w*(hi[k] - lo[k]) for k in (0, 1)]
            ok = ok and all(np.allclose(v, want) for v in vals)
        t.check(ok, 'generate:range', f'{ident}: {where}: temperature and '
                f'composition {vals[:2]} not drawn from {lo} to {hi}', rep)
        return (i, j)
    t.fail('generate:where', f'{ident}: unexpected {where}', rep)


def sample(t, ident, rep, kind, where, i, s, sort, good):
    T, C = float(s['temperature_hist'][0]), float(s['composition_hist'][0])
    n = len(s['time_hist'])
    t.check(all(len(s[k]) == n for k in ('strain_path', 'stress_path',
                                         'temperature_hist', 'acc_p_strain',
                                         'composition_hist')) and
            bool((s['temperature_hist'] == T).all()) and
            bool((s['composition_hist'] == C).all()), 'generate:lengths',
            f'{ident}: {where}: sample {i}', rep)
    e = np.asarray(s['strain_path'], float)
    t.check(any(k == sort and p.shape == e.shape and
                np.allclose(p, e, rtol=1e-12, atol=1e-15)
                for k, p in good), 'generate:path', f'{ident}: {where}: '
            f'sample {i} has no {sort} strain path with a computed response',
            rep)
    want, acc = j2(lmu.get_model_parameters('von_mises', T, C),
                   tensors(e, s['strain_comps_order']))
    got = tensors(np.asarray(s['stress_path'], float),
                  s['stress_comps_order'])
    t.check(np.allclose(got, want, rtol=1e-5, atol=1e-4), 'generate:stress',
            f'{ident}: {where}: stress of sample {i} is not the response at '
            f'T={T}, C={C}: {np.abs(got - want).max():.3e}', rep)
    t.check(np.allclose(np.asarray(s['acc_p_strain'], float).reshape(-1), acc,
                        rtol=1e-5, atol=1e-9), 'generate:state',
            f'{ident}: {where}: plastic strain of sample {i}', rep)


def generate_items():
    out = []
    grids = [((25.0,), (0.0,)), ((325.0,), (0.0, 0.5, 1.0)),
             ((25.0, 325.0, 625.0), (0.5,)), ((25.0, 30.0), (0.25, 0.26)),
             ((25.0, 100.0, 625.0), (0.0, 0.3, 1.0))]
    for (temps, comps), draw in itertools.product(
            grids, ('low', 'mid', 'high', 'real')):
        out.append((temps, comps, (('training', 2), ('validation', 3),
                                   ('testing_id', 2)),
                    (('training', 0.5), ('validation', 0.7),
                     ('testing_id', 0.5)), draw, ()))
    for n in (1, 2, 3):
        for r in (None, 0.0, 0.3, 0.5, 0.7, 1.0):
            out.append(((325.0,), (0.5,), (('training', n),),
                        () if r is None else (('training', r),), 'mid', ()))
    for k in range(1, 5):
        for w in itertools.product((0, 1), repeat=k):
            out.append(((325.0, 425.0), (0.5,), (('training', 2),),
                        (('training', 0.5),), 'mid', w))
    out.append(((325.0,), (0.5,), (('training', 2),), (('training', 0.5),),
                'mid', (1,)*60))
    return [('generate',) + x for x in out]


# --------------------------------------------------------------- assembly
def assemble(item, t):
    sets, kinds, cut, again = item
    torch.set_default_dtype(torch.float64)
    t.trace()
    t.state(item)
    rep = dict(sets=str(sets), types=kinds, reduction=str(cut))
    cut = dict(cut) if cut is not None else None
    with Scratch() as d:
        want = {k: [] for k in kinds}
        serial = itertools.count()
        for i, per in enumerate(sets):
            for k, n in zip(('training', 'validation', 'testing_id'), per):
                p = os.path.join(d, '0_simulation', f'T{i}.00_C0.50',
                                 f'{k}_dataset')
                os.makedirs(os.path.join(p, 'plots'))
                ids = [next(serial) for _ in range(n)]
                if n:
                    save_dataset(TimeSeriesDatasetInMemory([dict(
                        strain_path=torch.full((2, 6), float(x)),
                        stress_path=torch.full((2, 6), -float(x)),
                        stress_comps_order=ORDER) for x in ids]),
                        'ss_paths_dataset', p, is_append_n_sample=True)
                if k in want:
                    want[k].append(ids)
        for k in ('1_training_dataset', '2_validation_dataset'):
            # results of an earlier assembly
            os.makedirs(os.path.join(d, k))
            open(os.path.join(d, k, 'ss_paths_dataset_n99.pkl'), 'w').close()
        raw = {k: [[x['strain_path'][0, 0].item() for x in v[0][1]]
                   for v in find(os.path.join(d, '0_simulation'), k).values()]
               for k in kinds}
        for seed in range(2 if again else 1):
            t.transition()
            random.seed(seed)
            torch.manual_seed(seed)
            with quiet():
                lmu.assemble_material_datasets(
                    d, 'infinitesimal', 4, list(kinds), 'ss_paths_dataset',
                    size_balanced_reduction=cut)
        t.check(raw == {k: [[x['strain_path'][0, 0].item()
                             for x in v[0][1]] for v in find(
                                 os.path.join(d, '0_simulation'), k).values()]
                        for k in kinds}, 'assemble:sources',
                f'{item}: stored data sets changed', rep)
        for k in kinds:
            sub = os.path.join(d, {'training': '1_training_dataset',
                                   'validation': '2_validation_dataset',
                                   'testing_id': '5_testing_id_dataset'}[k])
            fs = [f for f in os.listdir(sub) if f.endswith('.pkl')]
            if not t.check(len(fs) == 1, 'assemble:files', f'{item}: {fs}',
                           rep):
                continue
            with quiet():
                path = lmu.find_dataset_file(sub)
            t.check(os.path.realpath(path) == os.path.realpath(
                os.path.join(sub, fs[0])), 'assemble:find', f'{path}', rep)
            data = list(load_dataset(path))
            ids = [int(s['strain_path'][0, 0]) for s in data]
            t.check(fs[0].endswith(f'_n{len(data)}.pkl') and
                    len(set(ids)) == len(ids) and all(
                        bool((s['stress_path'] == -x).all())
                        for s, x in zip(data, ids)), 'assemble:samples',
                    f'{item}: {k}: samples {ids} in {fs}', rep)
            f = 1.0
            if cut and isinstance(cut.get(k), float) and 0 <= cut[k] <= 1:
                f = cut[k]
            num = [len(set(ids) & set(x)) for x in want[k]]
            t.check(num == [int(len(x)*f) for x in want[k]] and
                    sum(num) == len(ids), 'assemble:count',
                    f'{item}: {k}: {num} samples of each data set '
                    f'({[len(x) for x in want[k]]}, fraction {f})', rep)


def assemble_items():
    out = []
    for n in (1, 2, 3):
        for sets in itertools.product(((2, 1, 1), (3, 2, 1), (1, 4, 2)),
                                      repeat=n):
            for kinds in (('training',), ('training', 'validation'),
                          ('training', 'validation', 'testing_id'),
                          ('testing_id',)):
                for cut in (None, (), (('training', 0.5),),
                            (('training', 1.0), ('validation', 0.75)),
                            (('testing_id', 2.0),)):
                    if cut and kinds[-1] == 'testing_id' and \
                            cut[0] == ('training', 0.5) and \
                            any(s[0] < 2 for s in sets):
                        continue
                    out.append((sets, kinds, cut, n == 2))
    # reductions that leave no sample at all are outside
    return [('assemble',) + x for x in out if x[2] is None or all(
        sum(int(s[('training', 'validation', 'testing_id').index(k)]*min(
            f, 1.0)) for s in x[0]) for k, f in x[2])]


# --------------------------------------------------------------- updating
def update(item, t):
    (hist,) = item
    t.trace()
    t.state(item)
    rep = dict(history=[list(map(str, h)) for h in hist])
    calls = []
    with Scratch() as d:
        files = {}
        for k, n in (('1_training_dataset', 12), ('2_validation_dataset', 3),
                     ('5_testing_id_dataset', 2)):
            os.makedirs(os.path.join(d, k, 'plots'))
            files[k] = save_dataset(TimeSeriesDatasetInMemory(
                [{'x': torch.zeros(1)}]*n), 'ss_paths_dataset',
                os.path.join(d, k), is_append_n_sample=True)

        def uq(uq_dir, n, train, model_dir, pred_dir, test,
               is_model_training=True, val_dataset_file_path=None, **kw):
            ready = os.path.isdir(model_dir) and not os.listdir(model_dir) \
                and os.path.isdir(os.path.dirname(pred_dir))
            left = sorted(os.listdir(uq_dir)) if os.path.isdir(uq_dir) else []
            calls.append((n, train, test, val_dataset_file_path,
                          is_model_training, ready, left))
            open(os.path.join(model_dir, 'model'), 'w').close()
            os.makedirs(pred_dir, exist_ok=True)
            os.makedirs(uq_dir, exist_ok=True)
            open(os.path.join(uq_dir, f'run_{len(calls)}'), 'w').close()

        def plots(uq_dir, n, test_dir, kind, **kw):
            calls.append(('plots', n, os.path.realpath(test_dir), kind))

        left = []
        for n, training, figs in hist:
            t.transition()
            calls_before = len(calls)
            with Swap((lmu, 'perform_model_uq', uq),
                      (lmu, 'gen_model_uq_plots', plots)), quiet():
                lmu.perform_material_model_updating(
                    d, n_model_sample=n, is_model_training=training,
                    is_generate_uq_plots=figs)
            new = calls[calls_before:]
            if training:
                left = []
            want = [(n, files['1_training_dataset'],
                     files['5_testing_id_dataset'],
                     files['2_validation_dataset'], training, True,
                     sorted(left))]
            if figs:
                want.append(('plots', n, os.path.realpath(os.path.join(
                    d, '5_testing_id_dataset')), 'in_distribution'))
            t.check(new == want, 'update:calls', f'{hist}: {new}, expected '
                    f'{want}', rep)
            left = left + [f'run_{calls_before + 1}']
            t.check(sorted(os.listdir(os.path.join(
                d, 'uncertainty_quantification'))) == sorted(left) and
                set(os.listdir(d)) == set(files) |
                {'uncertainty_quantification'} and
                all(os.path.isfile(f) for f in files.values()),
                'update:left', f'{hist}: {os.listdir(d)}', rep)


def update_items():
    ops = [(n, tr, f) for n in (1, 3) for tr in (True, False)
           for f in (True, False)]
    return [('update', h) for k in (1, 2, 3)
            for h in itertools.product(ops, repeat=k)]


# ------------------------------------------- parameters and uniaxial paths
def parameters(item, t):
    T, C = item
    torch.set_default_dtype(torch.float64)
    t.trace()
    t.state(item)
    rep = dict(temperature=T, composition=C)
    inside = 25 <= T <= 625 and 0 <= C <= 1
    try:
        p = lmu.get_model_parameters('von_mises', T, C)
    except RuntimeError:
        p = None
    t.transition()
    t.check((p is not None) == inside, 'parameters:bounds',
            f'{item}: {"accepted" if p else "refused"}', rep)
    if p is None:
        return
    hp = np.asarray(p['hardening_parameters']['hardening_points'], float)
    t.check(float(p['E']) > 0 and -1 < float(p['v']) < 0.5 and
            (hp[:, 1] > 0).all() and (np.diff(hp[:, 0]) > 0).all() and
            (np.diff(hp[:, 1]) >= 0).all(), 'parameters:admissible',
            f'{item}: E={p["E"]}, v={p["v"]}, yield stress from '
            f'{hp[0].tolist()}', rep)


def uniaxial(item, t):
    path, T, C = item
    torch.set_default_dtype(torch.float64)
    ev = importlib.import_module(
        'user_scripts.complete_pipelines.evaluate_gru_model')
    t.trace()
    t.state(item)
    rep = dict(strain_33=path, temperature=T, composition=C)
    with quiet():
        model = ev.get_vm_material_model('infinitesimal', 4, T, C)
        e, s = ev.get_uniaxial_stress_path(torch.tensor(path), 'von_mises',
                                           model, T, C)
    t.transition(len(path))
    # component order of three-dimensional problems
    from simulators.fetorch.math.matrixops import get_problem_type_parameters
    order = get_problem_type_parameters(4)[1]
    E, S = (tensors(np.asarray(x), order) for x in (e, s))
    t.check(np.allclose(E[:, 2, 2], path, rtol=1e-12, atol=0),
            'uniaxial:strain', f'{item}: prescribed strain {E[:, 2, 2]}', rep)
    lat = S.copy()
    lat[:, 2, 2] = 0
    t.check(np.abs(lat).max() < 1e-5, 'uniaxial:stress', f'{item}: lateral '
            f'stress {np.abs(lat).max()}', rep)
    want, _ = j2(lmu.get_model_parameters('von_mises', T, C), E)
    t.check(np.allclose(S, want, rtol=1e-6, atol=1e-4), 'uniaxial:response',
            f'{item}: {np.abs(S - want).max()}', rep)


def keys(k, t):
    """Stored strain paths are found by their composition."""
    ev = importlib.import_module(
        'user_scripts.complete_pipelines.evaluate_gru_model')
    t.trace()
    t.state(('key', k))
    data = {f'strain_frac_{i}_T_{T}': [float(i), float(T)]
            for i in range(101) for T in (25, 325)}
    for T in (25, 325):
        t.transition()
        for c in (k/100, round(k*0.01, 2), float(np.linspace(0, 1, 101)[k])):
            try:
                got = [round(float(x)) for x in
                       ev.extract_strain_path(data, T, c)]
            except KeyError as e:
                got = e
            t.check(got == [k, T], 'uniaxial:key',
                    f'composition {c}, T={T}: {got}', dict(composition=c))


def uniaxial_items():
    out = []
    pool = (0.0, 0.01, -0.02, 0.001)
    pairs = [(25, 0.0), (625, 1.0)] if not THOROUGH else list(
        itertools.product((25, 325, 625), (0.0, 0.5, 1.0)))
    for T, C in pairs:
        for k in (1, 2, 3):
            for w in itertools.product(pool, repeat=k):
                if THOROUGH or k < 3 or w[0] != w[1]:
                    out.append(('uniaxial', (0.0,) + w, T, C))
    out += [('keys', k) for k in range(101)]
    step = 12 if not THOROUGH else 50
    for i, j in itertools.product(range(-1, step + 2), repeat=2):
        out.append(('parameters', 25 + 600*i/step, j/step))
    return out


FUN = {'generate': generate, 'assemble': assemble, 'update': update,
       'parameters': parameters, 'uniaxial': uniaxial}


def dispatch(item, t):
    if item[0] == 'keys':
        keys(item[1], t)
    else:
        FUN[item[0]](item[1:], t)


def main(chk):
    chk.pmap(dispatch, generate_items() + uniaxial_items() +
             assemble_items() + update_items())


chk.run('pipeline', main)
chk.finish()
