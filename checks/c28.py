"""C28: synthetic material response data sets."""
import _path  # noqa
import itertools
import os
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
from mc import mats
from mc.increments import LETTERS
from mc.recurrent import ORDER, Oracle, strains
import user_scripts.synthetic_data.gen_response_dataset as gen
import user_scripts.synthetic_data.gen_noisy_response_dataset as noisy
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, TimeSeriesDataset, load_dataset, save_dataset)
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler

torch.set_default_dtype(torch.float64)
chk = Check('C28')
LETTERS['N'] = np.full((3, 3), np.nan)
MODELS = ('elastic', 'von_mises', 'drucker_prager', 'lou_zhang_yoon')
NAMES = {pt: tuple(f'{i + 1}{j + 1}' for i, j in o)
         for pt, o in ORDER.items()}
SPLIT = {}


class Script:
    """Strain path generator that plays a list of words."""
    words, calls, pt = [], 0, 1

    def __init__(self, *a):
        pass

    def generate_strain_path(self, **kw):
        cls = Script
        w = cls.words[cls.calls]
        cls.calls += 1
        cls.kw = kw
        e = np.array(strains(w, cls.pt))
        return NAMES[cls.pt], times(w), e


def times(w):
    return np.array([0.0] + [0.5*k + 0.25 for k in range(1, len(w) + 1)])


def parameters(base, strict=False):
    """With strict=True, the material never converges on plastic steps."""
    return mats.parameters(base)


def features(base, pt):
    n = len(ORDER[pt])
    out = {'strain_mf': n, 'not_a_state': 2, 'e_strain_mf': n}
    if base != 'elastic':
        out['acc_p_strain'] = 1
    return out


def expected(ref, w, feats):
    """Stress path and state paths of a word."""
    pt = ref.pt
    assert ref.ok(w), w
    rows = [ref.out[w[:i]] for i in range(len(w) + 1)]
    stress = np.array([r[0] for r in rows])
    state = {f: np.array([r[1][f] for r in rows]) for f in feats
             if f != 'not_a_state'}
    return np.array(strains(w, pt)), stress, state


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(
        a, b, rtol=tol, atol=tol*max(1e-12, np.abs(b).max(initial=0.0))))


def compare(t, key, name, sample, order, strain, stress, state, time, tr,
            extra=()):
    """A sample holds exactly the response."""
    keys = {'strain_comps_order', 'strain_path', 'stress_comps_order',
            'stress_path', 'time_hist', *state, *extra}
    ok = set(sample) == keys
    t.check(ok, key + ':features', f'{name}: features {sorted(sample)}, '
            f'expected {sorted(keys)}', tr)
    if not ok:
        return
    t.check(tuple(sample['strain_comps_order']) == order
            and tuple(sample['stress_comps_order']) == order,
            key + ':order', f'{name}: components '
            f'{sample["strain_comps_order"]} '
            f'{sample["stress_comps_order"]}', tr)
    for k, want in (('strain_path', strain), ('stress_path', stress),
                    ('time_hist', time.reshape(-1, 1)), *state.items()):
        got = sample[k]
        t.check(isinstance(got, torch.Tensor)
                and got.dtype == torch.get_default_dtype()
                and close(got.numpy(), want), f'{key}:{k}',
                f'{name}: {k} is {got.tolist()}, expected {want.tolist()}',
                tr)


def samples_of(ds):
    return [ds[i] for i in range(len(ds))]


def generate(item, t):
    """Data sets from generated strain paths."""
    _, base, pt, words, memory, kind = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    name = f'{base} {pt} {words} {memory} {kind}'
    ref = Oracle(base, pt, {})
    feats = features(base, pt)
    good = [w for w in words if ref.ok(w)]
    Script.words, Script.calls, Script.pt = list(words), 0, pt
    old = (gen.RandomStrainPathGenerator,
           gen.ProportionalStrainPathGenerator,
           noisy.RandomStrainPathGenerator,
           noisy.ProportionalStrainPathGenerator)
    (gen.RandomStrainPathGenerator, gen.ProportionalStrainPathGenerator,
     noisy.RandomStrainPathGenerator,
     noisy.ProportionalStrainPathGenerator) = (Script,)*4
    par = mats.parameters(base)
    try:
        with Scratch() as d:
            if kind == 'noiseless':
                g = noisy.NoisyMaterialResponseDatasetGenerator(
                    'infinitesimal', pt)
                m = mats.model_class(base)('infinitesimal', pt, par)
                ds = g.generate_noiseless_dataset(
                    len(good), 'random', {'n_time': 7}, m,
                    state_features=dict(feats))
            else:
                g = gen.MaterialResponseDatasetGenerator('infinitesimal', pt)
                ds = g.generate_response_dataset(
                    len(good), kind, {'n_time': 7}, base, par,
                    state_features=dict(feats), is_in_memory_dataset=memory,
                    dataset_directory=None if memory else d,
                    dataset_basename=None if memory else 'ds')
            t.check(isinstance(ds, TimeSeriesDatasetInMemory if memory
                               else TimeSeriesDataset), 'type',
                    f'{name}: {type(ds)}', tr)
            out = samples_of(ds)
            t.check(len(out) == len(good) and Script.kw == {'n_time': 7},
                    'number', f'{name}: {len(out)} samples, expected '
                    f'{len(good)}; {Script.kw}', tr)
            for w, s in zip(good, out):
                t.state((base, pt, w, memory, kind))
                compare(t, 'generate', f'{name} path {w}', s, NAMES[pt],
                        *expected(ref, w, feats), times(w), tr)
    finally:
        (gen.RandomStrainPathGenerator, gen.ProportionalStrainPathGenerator,
         noisy.RandomStrainPathGenerator,
         noisy.ProportionalStrainPathGenerator) = old


def hopeless(item, t):
    """No endless loop: paths that always fail are reported."""
    _, base, pt, cls = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    Script.words, Script.calls, Script.pt = [('N',)]*40, 0, pt
    mod = gen if cls == 'gen' else noisy
    old = mod.RandomStrainPathGenerator
    mod.RandomStrainPathGenerator = Script
    par = mats.parameters(base)
    try:
        if cls == 'gen':
            gen.MaterialResponseDatasetGenerator(
                'infinitesimal', pt).generate_response_dataset(
                    1, 'random', {}, base, par)
        else:
            m = mats.model_class(base)('infinitesimal', pt, par)
            noisy.NoisyMaterialResponseDatasetGenerator(
                'infinitesimal', pt).generate_noiseless_dataset(
                    1, 'random', {}, m)
        got = 'a data set'
    except RuntimeError:
        got = 'reported'
    except IndexError:
        got = 'endless'
    finally:
        mod.RandomStrainPathGenerator = old
    t.check(got == 'reported', 'hopeless', f'{item}: {got}', tr)


def from_strain(item, t):
    """Data sets from stored strain paths, any order of the components."""
    _, base, pt, words, perm = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    ref = Oracle(base, pt, {})
    feats = features(base, pt)
    order = tuple(NAMES[pt][i] for i in perm)
    p = list(perm)
    with Scratch() as d:
        src = [{'strain_comps_order': order,
                'strain_path': torch.tensor(strains(w, pt))[:, p],
                'time_hist': torch.tensor(times(w)).reshape(-1, 1)}
               for w in words]
        before = [{k: v.clone() if isinstance(v, torch.Tensor) else v
                   for k, v in s.items()} for s in src]
        save_dataset(TimeSeriesDatasetInMemory(src), 'strains', d)
        fp = os.path.join(d, [f for f in os.listdir(d)][0])
        g = gen.MaterialResponseDatasetGenerator('infinitesimal', pt)
        bad = [w for w in words if not ref.ok(w)]
        try:
            ds = g.gen_response_dataset_from_strain_dataset(
                fp, base, mats.parameters(base), state_features=dict(feats))
        except RuntimeError:
            t.check(bool(bad), 'strain:raised', f'{item}: failure without a '
                    f'failing path', tr)
            return
        t.check(not bad, 'strain:failure', f'{item}: failing path in the '
                f'data set', tr)
        if bad:
            return
        t.check(len(ds) == len(words), 'strain:number', f'{item}: {len(ds)}',
                tr)
        for w, s in zip(words, samples_of(ds)):
            t.state((base, pt, w, perm))
            e, sg, st = expected(ref, w, feats)
            st = {k: v[:, p] if v.shape[1] == len(p) and k != 'acc_p_strain'
                  else v for k, v in st.items()}
            compare(t, 'strain', f'{item} path {w}', s, order, e[:, p],
                    sg[:, p], st, times(w), tr)
        again = load_dataset(fp)
        t.check(all(torch.equal(again[i]['strain_path'],
                                b['strain_path']) and
                    set(again[i]) == set(b) for i, b in enumerate(before)),
                'strain:source', f'{item}: stored strain data set changed',
                tr)


CSV = ('TIME', 'E11', 'E22', 'E33', 'E12', 'E23', 'E13', 'S11', 'S22', 'S33',
       'S12', 'S23', 'S13')


def csv(item, t):
    """Data sets from response files."""
    _, pt, labels, zero, memory = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    with Scratch() as d:
        src = os.path.join(d, 'csv')
        os.mkdir(src)
        want = {}
        paths = []
        for k, lab in enumerate(labels):
            n = 2 + k % 2
            rows = np.array([[100*lab + 13*r + c + 0.5 for c in range(13)]
                             for r in range(n)])
            if k in zero:
                rows[:, 7:] = 0.0
            else:
                want[lab] = rows
            fp = os.path.join(src, f'path_7_{lab}.csv')
            with open(fp, 'w') as f:
                f.write(','.join(CSV) + '\n')
                for r in rows:
                    f.write(','.join(repr(float(x)) for x in r) + '\n')
            paths.append(fp)
        g = gen.MaterialResponseDatasetGenerator('infinitesimal', pt)
        kw = {}
        if not memory:
            kw = dict(is_in_memory_dataset=False, dataset_directory=d,
                      dataset_basename='ds')
        ds = g.gen_response_dataset_from_csv(tuple(paths), **kw)
        labs = sorted(want)
        t.check(len(ds) == len(labs), 'csv:number', f'{item}: {len(ds)} '
                f'samples, expected {len(labs)}', tr)
        order = NAMES[pt]
        es = [CSV.index('E' + c) for c in order]
        ss = [CSV.index('S' + c) for c in order]
        for lab, s in zip(labs, samples_of(ds)):
            t.state((pt, lab, zero, memory))
            r = want[lab]
            compare(t, 'csv', f'{item} file {lab}', s, order, r[:, es],
                    r[:, ss], {}, r[:, 0], tr)


class Noise:
    """Noise generator that plays given noise paths."""

    def __init__(self, scripts):
        self.scripts, self.calls = scripts, []

    def generate_noise_path(self, path, noise_variability='homoscedastic',
                            heteroscedastic_weights=None, **kw):
        self.calls.append((np.array(path), noise_variability,
                           None if heteroscedastic_weights is None
                           else np.array(heteroscedastic_weights)))
        z = self.scripts[len(self.calls) - 1]
        return np.array(z(np.array(path)))


def bump(k):
    def f(p):
        r, c = np.indices(p.shape)
        return 1e-3*np.sin(1.0 + r*(k + 1) + 2.0*c)
    return f


def broken(p):
    z = np.zeros(p.shape)
    z[-1] = np.nan
    return z


def scaler(kind, n):
    if kind is None:
        return None
    if kind == 'min-max':
        s = TorchMinMaxScaler(n)
        s.set_minimum_and_maximum(
            torch.tensor([-0.04 - 0.01*k for k in range(n)]),
            torch.tensor([0.05 + 0.02*k for k in range(n)]))
    else:
        s = TorchStandardScaler(n)
        s.set_mean_and_std(
            torch.tensor([0.004 - 0.002*k for k in range(n)]),
            torch.tensor([0.02 + 0.01*k for k in range(n)]))
    return s


def to_unit(x, kind):
    n = x.shape[1]
    if kind == 'min-max':
        lo = np.array([-0.04 - 0.01*k for k in range(n)])
        hi = np.array([0.05 + 0.02*k for k in range(n)])
        return -1 + 2*(x - lo)/(hi - lo)
    m = np.array([0.004 - 0.002*k for k in range(n)])
    return (x - m)/np.array([0.02 + 0.01*k for k in range(n)])


def span(n, kind):
    """Size of a unit of noise in strain."""
    if kind is None:
        return np.ones(n)
    if kind == 'min-max':
        return np.array([(0.05 + 0.02*k + 0.04 + 0.01*k)/2
                         for k in range(n)])
    return np.array([0.02 + 0.01*k for k in range(n)])


def average(x, w):
    """Moving average with repeated ends."""
    h = (w - 1)//2
    y = np.concatenate([np.repeat(x[:1], h, 0), x,
                        np.repeat(x[-1:], w - 1 - h, 0)])
    return np.array([y[i:i + w].mean(axis=0) for i in range(len(x))])


def respond(base, pt, strain, feats):
    """Response to any strain path, one increment at a time."""
    m = mats.model_class(base)('infinitesimal', pt, mats.parameters(base))
    st = m.state_init()
    ref = Oracle(base, pt, {})
    nd = 2 if pt == 1 else 3
    rows = [ref.row(None)]

    def tens(v):
        e = np.zeros((nd, nd))
        for (i, j), x in zip(ORDER[pt], v):
            e[i, j] = e[j, i] = x
        return e
    for a, b in zip(strain[:-1], strain[1:]):
        st, _ = m.state_update(torch.tensor(tens(b - a)), st)
        rows.append(ref.row(st))
    return (np.array([r[0] for r in rows]),
            {f: np.array([r[1][f] for r in rows]) for f in feats
             if f != 'not_a_state'})


def norms(strain, pt):
    out = []
    for v in strain:
        s = sum((1.0 if i == j else 2.0)*x*x
                for (i, j), x in zip(ORDER[pt], v))
        out.append(np.sqrt(s))
    return np.array(out)


def noise(item, t):
    """Noisy data sets."""
    _, base, pt, words, kind, var, normalizer, denoise, fails = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    feats = features(base, pt)
    ref = Oracle(base, pt, {})
    src, clean = [], []
    for w in words:
        e, s, _ = expected(ref, w, feats)
        clean.append((e, s))
        src.append({'strain_comps_order': NAMES[pt],
                    'strain_path': torch.tensor(e),
                    'stress_comps_order': NAMES[pt],
                    'stress_path': torch.tensor(s),
                    'time_hist': torch.tensor(times(w)).reshape(-1, 1)})
    scripts, used = [], []
    for k in range(len(words)):
        if k in fails:
            scripts.append(broken)
        scripts.append(bump(k))
        used.append(len(scripts) - 1)
    z = Noise(scripts)
    m = mats.model_class(base)('infinitesimal', pt, mats.parameters(base))
    g = noisy.NoisyMaterialResponseDatasetGenerator('infinitesimal', pt)
    ds = g.generate_noisy_dataset(
        TimeSeriesDatasetInMemory(src), z, m, state_features=dict(feats),
        strain_data_scaler=scaler(kind, len(ORDER[pt])),
        noise_variability=var, heteroscedastic_normalizer=normalizer,
        is_denoise_strain_path=denoise)
    t.check(len(ds) == len(words) and len(z.calls) == len(scripts),
            'noise:number', f'{item}: {len(ds)} samples after '
            f'{len(z.calls)} draws, expected {len(words)}', tr)
    for k, (w, s) in enumerate(zip(words, samples_of(ds))):
        t.state((base, pt, w, kind, var, normalizer, denoise))
        e, sg = clean[k]
        n = scripts[used[k]](e)
        n[0] = 0.0
        want = e + n*span(e.shape[1], kind)
        if denoise:
            want = average(want, 5)
            want[0] = e[0]
        stress, state = respond(base, pt, want, feats)
        compare(t, 'noise', f'{item} path {w}', s, NAMES[pt], want, stress,
                state, times(w), tr,
                extra=('strain_noise_path', 'stress_noise_path'))
        if 'stress_noise_path' not in s:
            continue
        t.check(close(s['strain_noise_path'].numpy(), n, 1e-7)
                and close(s['stress_noise_path'].numpy(), stress - sg, 1e-6),
                'noise:noise', f'{item} path {w}: noise '
                f'{s["strain_noise_path"].tolist()} '
                f'{s["stress_noise_path"].tolist()}, expected {n.tolist()} '
                f'{(stress - sg).tolist()}', tr)
        got = z.calls[used[k]]
        wt = None
        if var == 'heteroscedastic':
            wt = norms(e, pt)
            wt = wt/(wt.max() if normalizer is None else normalizer)
        t.check(got[1] == var and ((wt is None and got[2] is None) or (
            wt is not None and got[2] is not None and close(got[2], wt))),
            'noise:weights', f'{item} path {w}: noise drawn with {got[1:]}, '
            f'expected {var} {wt}', tr)
        t.check(close(src[k]['strain_path'].numpy(), e)
                and close(src[k]['stress_path'].numpy(), sg),
                'noise:source', f'{item}: noiseless data set changed', tr)


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    items = []
    L = 3 if THOROUGH else 2
    for base, pt in itertools.product(MODELS, (1, 4)):
        sig = 'UuSGgHCB' if not (base == 'lou_zhang_yoon' and
                                 not THOROUGH) else 'UGg'
        words = [w for k in range(1, L + 1)
                 for w in itertools.product(sig, repeat=k)]
        if not THOROUGH and pt == 4:
            words = [w for w in words if len(w) == 1 or 'G' in w]
        ref = Oracle(base, pt, {})
        words = [w for w in words if ref.ok(w)]
        # sets of several paths of different lengths
        for k in range(0, len(words), 6):
            ws = tuple(words[k:k + 6])
            items.append(('generate', base, pt, ws, True, 'random'))
        items.append(('generate', base, pt, tuple(words[:4]), False,
                      'proportional'))
        items.append(('generate', base, pt, tuple(words[-4:]), True,
                      'noiseless'))
        if base != 'elastic':
            # failing paths are drawn again
            for pos in range(4):
                for reps in (1, 3, 9):
                    ws = list(words[1:4])
                    ws[pos:pos] = [('G', 'N')]*reps
                    ws = [w for i, w in enumerate(ws)
                          if ref.ok(w) or any(ref.ok(v) for v in ws[i:])]
                    for kind in ('random', 'noiseless'):
                        items.append(('generate', base, pt, tuple(ws), True,
                                      kind))
            items.append(('hopeless', base, pt, 'gen'))
            items.append(('hopeless', base, pt, 'noisy'))
        n = len(ORDER[pt])
        perms = list(itertools.permutations(range(n)))
        if not THOROUGH:
            perms = perms[::1 if n == 3 else 97]
        for k, p in enumerate(perms):
            ws = tuple(words[(3*k + j) % len(words)] for j in range(3))
            items.append(('from_strain', base, pt, ws, p))
        if base != 'elastic':
            items.append(('from_strain', base, pt,
                          (words[0], ('N',)), tuple(range(n))))
    for pt, labels in itertools.product(
            (1, 4), ((1,), (2, 10), (10, 9, 100), (3, 1, 2), (11, 2, 1, 10))):
        for r in range(len(labels)):
            for zero in itertools.combinations(range(len(labels)), r):
                items.append(('csv', pt, labels, zero, True))
        items.append(('csv', pt, labels, (), False))
        items.append(('csv', pt, labels, (0,) if len(labels) > 1 else (),
                      False))
    ws = (('U', 'G', 'g'), ('G', 'G'), ('S', 'B', 'u', 'G', 'U', 'g'))
    for base, pt, kind, (var, nz), den in itertools.product(
            MODELS[:3] if not THOROUGH else MODELS, (1, 4),
            (None, 'min-max', 'mean-std'),
            (('homoscedastic', None), ('heteroscedastic', None),
             ('heteroscedastic', 0.02)), (False, True)):
        if pt == 4 and not THOROUGH and base == 'drucker_prager':
            continue
        for order in (ws, ws[::-1]):
            items.append(('noise', base, pt, order, kind, var, nz, den, ()))
    for f in ((0,), (1,), (0, 2)):
        items.append(('noise', 'von_mises', 1, ws, None, 'homoscedastic',
                      None, False, f))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('response data sets', main)
chk.finish()
