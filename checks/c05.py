"""C05: predictions are per-sample, independent of batching and order.

The real `predict` of the three architectures is run for every batch size and
every ordered selection of samples of a small data set, for every storage and
normalisation setting; each record is compared with the response of the model
to that sample alone (scaling and loss by definition).  All short histories of
prediction runs into one directory are explored.
"""
import _path  # noqa
import itertools
import os
import pickle
from mc.core import Check, Scratch, THOROUGH, quiet, words
from mc import nets
import torch
from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                           TimeSeriesDataset)
from model_architectures.procedures.model_state_files import \
    save_model_state
from model_architectures.rnn_base_model.predict.prediction import \
    predict as predict_rnn
from model_architectures.rc_base_model.predict.prediction import \
    predict as predict_rc
from model_architectures.hybrid_base_model.predict.prediction import \
    predict as predict_hyb

chk = Check('C05')
N = 4 if THOROUGH else 3
T = 4
PRED = {'rnn': predict_rnn, 'rc': predict_rc, 'hybrid': predict_hyb}
S_IN = ('mean-std', [0.5, -1.0], [2.0, 0.5])
S_OUT = ('min-max', [-1.0], [3.0])


def rnn_samples(truth=True, hidden=False, lengths=None):
    out = []
    for i in range(N):
        n = lengths[i] if lengths else T
        s = {'features_in': torch.tensor(
            [[0.3*(i + 1) - 0.2*t, 0.1*t*(i - 1) + 0.05*i]
             for t in range(n)])}
        if truth:
            s['features_out'] = torch.tensor(
                [[0.7*i - 0.1*t*t + 0.05] for t in range(n)])
        if hidden:
            s['hidden_features_in'] = torch.tensor(
                [[0.1*(i + 1), -0.3*i, 0.2]])
        out.append(s)
    return out


def rc_samples(truth=True):
    out = []
    for i in range(N):
        f = torch.tensor([[0.004*t*(i + 1), -0.002*t, 0.001*i*t, 0.003*t*i,
                           0.0, 0.002*t*(i - 1)] for t in range(T)])
        s = {'features_in': f}
        if truth:
            s['features_out'] = torch.tensor(
                [[100.0*i + 10*t + c for c in range(6)] for t in range(T)])
        out.append(s)
    return out


def build(arch, d, norm, seed=1, save=True):
    if arch == 'rnn':
        m = nets.gru(d, norm=norm, seed=seed, layers=1, save=save)
        s_in, s_out = S_IN, S_OUT
        nets.set_scalers(m, s_in, s_out)
    elif arch == 'rc':
        m = nets.rc(d, learnable=nets.learnable_E(90e3 + 10e3*seed),
                    save=save)
        s_in = ('mean-std', [0.0]*6, [0.01]*6)
        s_out = ('min-max', [-500.0]*6, [700.0]*6)
        nets.set_scalers(m, s_in, s_out)
    else:
        a = nets.gru(None, n_in=2, n_out=2, seed=seed, save=False)
        b = nets.gru(None, n_in=4, n_out=1, seed=seed + 1, save=False)
        c = nets.gru(None, n_in=2, n_out=1, seed=seed + 2, save=False)
        m = nets.hybrid(d, [('a', a, (0, 0), False), ('b', b, (0, 1), True),
                            ('c', c, (1, 0), False)], 2, 1, kind='additive',
                        norm=norm, save=save)
        s_in, s_out = S_IN, S_OUT
        nets.set_scalers(m, s_in, s_out)
    return m, s_in, s_out


def reference(arch, model, sample, norm, s_in, s_out):
    """Response of the model to one sample alone."""
    model.eval()
    with torch.no_grad():
        x = sample['features_in'][:, None, :]
        if norm[0]:
            x = nets.scale(s_in, x)
        if arch == 'rnn':
            h = sample.get('hidden_features_in')
            y, _ = model(x, None if h is None else h[:, None, :])
        else:
            y = model(x)
        if norm[1]:
            y = nets.unscale(s_out, y)
    return y[:, 0, :]


def loss_of(kind, y, z, norm_loss, s_out):
    if norm_loss:
        y, z = nets.scale(s_out, y), nets.scale(s_out, z)
    y, z = y.double(), z.double()
    if kind == 'mse':
        return float(((y - z)**2).mean())
    den = torch.where(z.abs() < 1e-5, torch.ones_like(z), z.abs())
    return float(((y - z).abs()/den).mean())


def dataset(samples, storage, d):
    if storage == 'memory':
        return TimeSeriesDatasetInMemory([dict(s) for s in samples])
    os.makedirs(d)
    files = []
    for i, s in enumerate(samples):
        files.append(os.path.join(d, f's_{i}.pt'))
        torch.save(s, files[-1])
    ds = TimeSeriesDataset(d, files, 'base')
    return ds


def near(a, b, tol=2e-5):
    if a is None or b is None:
        return a is b
    return abs(float(a) - float(b)) <= tol*max(1.0, abs(float(b)))


def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def compare(t, key, sub, avg, expected, loss_kind, norm_loss, rep, arch):
    """Prediction set directory against the expected records."""
    names = {f for f in os.listdir(sub) if f.startswith('prediction_sample')}
    want = {f'prediction_sample_{i}.pkl' for i in range(len(expected))}
    if names != want:
        t.fail(f'{key}-records', f'records {sorted(names)} expected '
               f'{sorted(want)}', rep)
        return
    tol = 1e-3 if arch == 'rc' else 2e-5
    for i, (y, z, loss) in enumerate(expected):
        t.transition()
        with open(os.path.join(sub, f'prediction_sample_{i}.pkl'),
                  'rb') as f:
            r = pickle.load(f)
        if r['features_out'].shape != y.shape or not torch.allclose(
                r['features_out'], y, rtol=2e-5, atol=tol):
            t.fail(f'{key}-features', f'record {i}: '
                   f'{r["features_out"].tolist()} expected {y.tolist()}',
                   rep)
        if (r['targets'] is None) != (z is None) or (
                z is not None and not torch.equal(r['targets'], z)):
            t.fail(f'{key}-targets', f'record {i}: ground truth '
                   f'{r["targets"]} expected {z}', rep)
        nature, lt, lv, ln = r['prediction_loss_data']
        if (nature, lt, ln) != ('features_out', loss_kind, norm_loss) \
                or not near(lv, loss, 1e-4):
            t.fail(f'{key}-loss', f'record {i}: loss '
                   f'{r["prediction_loss_data"]} expected {loss}', rep)
    if expected[0][2] is None:
        if avg is not None:
            t.fail(f'{key}-average', f'{avg} expected None', rep)
    else:
        a = sum(e[2] for e in expected)/len(expected)
        if avg is None or not near(avg, a, 1e-4):
            t.fail(f'{key}-average', f'{avg} expected {a}', rep)


def one(t, arch, norm, samples, order, bs, storage, loss_kind, norm_loss,
        how, seed, root, model_pack):
    model, s_in, s_out, d, refs = model_pack
    rep = dict(arch=arch, normalised=norm, order=order, batch_size=bs,
               storage=storage, loss=loss_kind, normalised_loss=norm_loss,
               how=how, seed=seed)
    key = f'{arch}'
    with Scratch() as w:
        chosen = [samples[i] for i in order]
        ds = dataset(chosen, storage, os.path.join(w, 'ds'))
        keep = [{k: v.clone() for k, v in s.items()} for s in chosen]
        before = tree(d)
        params = [p.detach().clone() for p in model.parameters()]
        out = os.path.join(w, 'out')
        os.makedirs(out)
        with quiet():
            sub, avg = PRED[arch](
                ds, d, model=model if how == 'given' else None,
                predict_directory=out,
                model_load_state=None if how in ('given', 'default')
                else how, loss_type=loss_kind, is_normalized_loss=norm_loss,
                batch_size=bs, seed=seed)
        expected = []
        for i in order:
            z = samples[i].get('features_out')
            y = refs[how][i]
            expected.append((y, z, None if z is None else loss_of(
                loss_kind, y, z, norm_loss, s_out)))
        t.state(repr(rep))
        compare(t, key, sub, avg, expected, loss_kind, norm_loss, rep, arch)
        for i, s in enumerate(keep):
            g = ds[i]
            if set(g) != set(s) or any(not torch.equal(g[k], s[k])
                                       for k in s):
                t.fail(f'{key}-dataset', 'the data set was modified', rep)
        if tree(d) != before:
            t.fail(f'{key}-modeldir', 'the model directory was modified',
                   rep)
        if any(not torch.equal(a, b) for a, b in
               zip(params, model.parameters())):
            t.fail(f'{key}-model', 'the model was modified', rep)
        t.trace()


def orders(n):
    return [p for k in range(1, n + 1)
            for p in itertools.permutations(range(n), k)]


def sweep(item, t):
    arch, norm, truth, hidden, storage, loss_kind, norm_loss = item
    with Scratch() as root:
        d = os.path.join(root, 'model')
        os.makedirs(d)
        model, s_in, s_out = build(arch, d, norm)
        samples = rc_samples(truth) if arch == 'rc' else rnn_samples(
            truth, hidden)
        refs = {}
        # states on disk: default = seed 1, best = seed 2, epoch 3 = seed 3
        for how, seed, kw in (('default', 1, {}),
                              ('best', 2, dict(epoch=4, state_type='best')),
                              (3, 3, dict(epoch=3, state_type='epoch'))):
            m2, _, _ = build(arch, d, norm, seed, save=False)
            with quiet():
                save_model_state(m2, **kw)
            refs[how] = [reference(arch, m2, s, norm, s_in, s_out)
                         for s in samples]
        refs['given'] = [reference(arch, model, s, norm, s_in, s_out)
                         for s in samples]
        # the samples and the stored states are distinguishable
        ys = [y for r in (refs['default'], refs['best'], refs[3]) for y in r]
        assert all(not torch.allclose(a, b, rtol=1e-3, atol=0.0)
                   for a, b in itertools.combinations(ys, 2))
        pack = (model, s_in, s_out, d, refs)
        full = tuple(range(N))
        every = arch == 'rnn' or THOROUGH
        for order in orders(N) if every else (
                [full, full[::-1], (1,), (2, 0)]):
            for bs in range(1, len(order) + 2):
                one(t, arch, norm, samples, order, bs, storage, loss_kind,
                    norm_loss, 'given', None, root, pack)
        for how in ('default', 'best', 3):
            for bs, seed in itertools.product((1, 2), (None, 7)):
                one(t, arch, norm, samples, full[::-1], bs, storage,
                    loss_kind, norm_loss, how, seed, root, pack)
        # samples of different lengths, one at a time
        if arch == 'rnn' and not hidden:
            samples = rnn_samples(truth, lengths=[2 + (i % 3)
                                                  for i in range(N)])
            refs = {'given': [reference(arch, model, s, norm, s_in, s_out)
                              for s in samples]}
            pack = (model, s_in, s_out, d, refs)
            for order in orders(N):
                one(t, arch, norm, samples, order, 1, storage, loss_kind,
                    norm_loss, 'given', None, root, pack)


def histories(arch, t):
    """All sequences of prediction runs and foreign entries."""
    with Scratch() as root:
        d = os.path.join(root, 'model')
        os.makedirs(d)
        mods = []
        for s in (1, 2):
            m, s_in, s_out = build(arch, d, (0, 0), s, save=False)
            mods.append(m)
        samples = rc_samples() if arch == 'rc' else rnn_samples()
        refs = [[reference(arch, m, s, (0, 0), s_in, s_out)
                 for s in samples] for m in mods]
        ops = ['run0', 'run1', 'memory-only', 'foreign1', 'drop0']
        import shutil
        for w in words(ops, 5 if THOROUGH else 4):
            if len(w) > 3 and arch != 'rnn':
                continue
            with Scratch() as out:
                for op in w:
                    before = tree(out)
                    sets = set(os.listdir(out))
                    if op == 'foreign1':
                        p = os.path.join(out, 'prediction_set_1')
                        os.makedirs(p, exist_ok=True)
                        with open(os.path.join(p, 'note.txt'), 'w') as f:
                            f.write('x')
                        continue
                    if op == 'drop0':
                        shutil.rmtree(os.path.join(out, 'prediction_set_0'),
                                      ignore_errors=True)
                        continue
                    k = {'run0': 0, 'run1': 1, 'memory-only': 0}[op]
                    order = (0, 1) if k == 0 else (2, 1)
                    ds = dataset([samples[i] for i in order], 'memory', None)
                    with quiet():
                        sub, avg = PRED[arch](
                            ds, d, model=mods[k], predict_directory=None
                            if op == 'memory-only' else out)
                    t.transition()
                    after = tree(out)
                    rep = {'arch': arch, 'history': w}
                    if any(after.get(p) != b for p, b in before.items()):
                        t.fail(f'{arch}-overwrite', 'an earlier prediction '
                               'set was changed', rep)
                    expected = []
                    for i in order:
                        y, z = refs[k][i], samples[i]['features_out']
                        expected.append((y, z, loss_of('mse', y, z, False,
                                                       s_out)))
                    if op == 'memory-only':
                        if after != before or sub is not None:
                            t.fail(f'{arch}-memory', 'files were written',
                                   rep)
                        a = sum(e[2] for e in expected)/len(expected)
                        if not near(avg, a, 1e-4):
                            t.fail(f'{arch}-average', f'{avg} expected {a}',
                                   rep)
                        continue
                    if os.path.basename(sub) in sets or \
                            os.path.dirname(sub) != out:
                        t.fail(f'{arch}-fresh', f'{sub} is not new', rep)
                        continue
                    compare(t, f'{arch}-history', sub, avg, expected, 'mse',
                            False, rep, arch)
                t.state(('h', arch, w))
                t.trace()


items = []
for norm in itertools.product((0, 1), repeat=2):
    for truth, hidden, storage, lk, nl in itertools.product(
            (True, False), (False, True), ('memory', 'files'),
            ('mse', 'mre'), (False, True)):
        if not truth and (lk == 'mre' or nl):
            continue
        if not THOROUGH and hidden and (storage == 'files' or lk == 'mre'):
            continue
        items.append(('rnn', norm, truth, hidden, storage, lk, nl))
for truth, storage, lk, nl in itertools.product(
        (True, False), ('memory', 'files'), ('mse', 'mre'), (False, True)):
    if not truth and (lk == 'mre' or nl):
        continue
    for norm in itertools.product((0, 1), repeat=2):
        items.append(('hybrid', norm, truth, False, storage, lk, nl))
    items.append(('rc', (0, 0), truth, False, storage, lk, nl))
chk.pmap(sweep, items)
chk.pmap(histories, ['rnn', 'rc', 'hybrid'])
chk.sample(items[0])
chk.extra['bounds'] = {
    'samples': N, 'batch_sizes': f'1..{N + 1}',
    'orders': 'every ordered selection of the samples (all for the network '
              'model, four for the others in the quick tier)',
    'history_depth': 5 if THOROUGH else 4}
chk.assumptions += ['batched and single evaluation agree to 2e-5 relative '
                    '(floating-point kernels)']
chk.finish()
