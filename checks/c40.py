"""C40: local model training against an independent optimizer.

Every epoch of the real training of recurrent networks, recurrent constitutive
models and hybrid models is replayed: some order of the samples (all orders
are tried when the sampler shuffles) must explain the recorded loss and the
stored state of the epoch by optimizer steps along the gradient of the batch
losses, followed by the bounds of the material parameters.
"""
import _path  # noqa
import itertools
import os
import pickle
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure  # noqa
from mc import mats, nets
from time_series_data.time_dataset import TimeSeriesDatasetInMemory
from model_architectures.rnn_base_model.train import training as rnn_t
from model_architectures.rc_base_model.train import training as rc_t
from model_architectures.hybrid_base_model.train import training as hyb_t
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel

torch.set_default_dtype(torch.float64)
matplotlib.figure.Figure.savefig = lambda *a, **k: None
chk = Check('C40')
TRAIN = {'rnn': (rnn_t.train_model, GRURNNModel),
         'rc': (rc_t.train_model, RecurrentConstitutiveModel),
         'hyb': (hyb_t.train_model, HybridModel)}
SCHED = {None: {}, 'steplr': {'step_size': 2, 'gamma': 0.5},
         'explr': {'gamma': 0.6},
         'linlr': {'start_factor': 1.0, 'end_factor': 0.5, 'total_iters': 2}}


def lr_at(kind, lr, k):
    kw = SCHED[kind]
    if kind is None:
        return lr
    if kind == 'steplr':
        return lr*kw['gamma']**(k//kw['step_size'])
    if kind == 'explr':
        return lr*kw['gamma']**k
    n = kw['total_iters']
    return lr*(1.0 - 0.5*min(k, n)/n)


class Adam:
    """Reference of the optimizer."""

    def __init__(self, params):
        self.m = [np.zeros(q.shape) for q in params]
        self.v = [np.zeros(q.shape) for q in params]
        self.t = 0

    def copy(self):
        c = Adam([])
        c.m, c.v, c.t = list(self.m), list(self.v), self.t
        return c

    def step(self, xs, gs, lr):
        self.t += 1
        out = []
        for i, (x, g) in enumerate(zip(xs, gs)):
            self.m[i] = 0.9*self.m[i] + 0.1*g
            self.v[i] = 0.999*self.v[i] + 0.001*g*g
            mh = self.m[i]/(1 - 0.9**self.t)
            vh = self.v[i]/(1 - 0.999**self.t)
            out.append(x - lr*mh/(np.sqrt(vh) + 1e-8))
        return out


def data(arch, n, shift=0.0):
    """Samples of three time steps; no two of them alike."""
    out = []
    for i in range(n):
        k = np.arange(9.0).reshape(3, 3)
        if arch == 'rnn':
            f = np.sin(1.7*k + 0.9*i + shift)[:, :2]*np.array([1.0, 4.0])
            g = np.cos(1.1*k + 2.3*i + shift)[:, :1]*3.0 + 1.0
        else:
            f = 0.012*np.sin(1.3*k + 1.9*i + shift)
            f[0] = 0.0
            g = 900.0*np.cos(1.1*k + 2.3*i + shift)
        out.append({'features_in': torch.tensor(f),
                    'features_out': torch.tensor(g)})
    return out


LEARN = {'von_mises_vmap': {'E': (100e3, (90e3, 110e3)),
                            's0': (500.0, (450.0, 520.0))},
         'von_mises': {'E': (100e3, (99e3, 140e3)),
                       's0': (500.0, (200.0, 900.0))},
         'elastic': {'E': (100e3, (50e3, 200e3))},
         'lou_zhang_yoon_vmap': {'yield_c_s0': (0.5, (-4.0, 3.0)),
                                 'yield_d_s0': (0.3, (-2.5, 2.5))}}


def learn(base):
    return {k: {'initial_value': v, 'bounds': b}
            for k, (v, b) in LEARN[base].items()}


def init_args(arch, sub, norm, d):
    kw = dict(model_directory=d, model_name='net',
              is_model_in_normalized=bool(norm[0]),
              is_model_out_normalized=bool(norm[1]))
    if arch == 'rnn':
        src, layers = sub
        return dict(n_features_in=2, n_features_out=1, hidden_layer_size=2,
                    n_recurrent_layers=layers, gru_model_source=src, **kw)
    if arch == 'rc':
        base, pn = sub
        return dict(n_features_in=3, n_features_out=3,
                    learnable_parameters=learn(base),
                    strain_formulation='infinitesimal', problem_type=1,
                    material_model_name=base,
                    material_model_parameters=mats.parameters(
                        base[:-5] if base.endswith('_vmap') else base),
                    is_normalized_parameters=pn, model_directory=d,
                    model_name='net')
    parts = {'g': nets.gru(None, 3, 3, hidden=2, seed=4, save=False)}
    for k, pn in zip('ab', sub):
        parts[k] = nets.rc(None, ('von_mises_vmap', 'elastic')[k == 'b'], 1,
                           learnable=learn(('von_mises_vmap', 'elastic')[
                               k == 'b']), save=False, name=k,
                           is_normalized_parameters=pn)
    return dict(n_features_in=3, n_features_out=3, hyb_models_dict={
        k: {'hyb_model': m, 'hyb_indices': (i, 0),
            'is_input_residual': False}
        for i, (k, m) in enumerate(parts.items())},
        hybridization_type='additive', **kw)


def limits(model):
    """Bounds of the stored value of every material parameter."""
    out = {}
    parts = model.get_hybridized_models() if hasattr(
        model, 'get_hybridized_models') else [model]
    for m in parts:
        if not hasattr(m, 'get_model_parameters_bounds'):
            continue
        for k, v in m.get_model_parameters().items():
            b = tuple(float(x) for x in m.get_model_parameters_bounds()[k])
            out[id(v)] = (-1.0, 1.0) if m.is_normalized_parameters else b
    return out


def moments(samples, ft):
    x = np.concatenate([s[ft].numpy() for s in samples])
    return x.mean(axis=0), x


def same(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol*np.maximum(np.abs(a), np.abs(b)) + 1e-12))


LOSS = {'mse': ('mse', {}),
        'clip': ('mre', {'zero_handling': 'clip', 'small': 0.7}),
        'reg': ('mre', {'zero_handling': 'regularizer', 'small': 0.3})}


def loss_value(kind, a, b):
    if kind == 'mse':
        return ((a - b)**2).mean()
    den = b.abs().clamp(min=0.7) if kind == 'clip' else b.abs() + 0.3
    return ((a - b).abs()/den).mean()


def chunks(order, size):
    return [order[i:i + size] for i in range(0, len(order), size)]


def steps(item, t):
    (arch, sub, norm, n, batch, shuffle, sched, lr, n_max, every, valid,
     loss_norm, loss) = item
    t.trace()
    rep = dict(item=[str(x) for x in item])
    samples = data(arch, n)
    held = data(arch, 2, 0.4)
    before = [{k: v.clone() for k, v in s.items()} for s in samples + held]
    fn, cls = TRAIN[arch]
    with Scratch() as d:
        kw = dict(batch_size=batch, is_sampler_shuffle=shuffle, seed=5,
                  save_every=every, lr_scheduler_type=sched,
                  lr_scheduler_kwargs=SCHED[sched],
                  loss_type=LOSS[loss][0], loss_kwargs=LOSS[loss][1])
        if arch == 'rc':
            kw.update(is_params_stopping=False, is_normalized_loss=loss_norm)
        if valid:
            kw.update(is_early_stopping=True, early_stopping_kwargs=dict(
                validation_dataset=TimeSeriesDatasetInMemory(held),
                validation_frequency=1, trigger_tolerance=99,
                improvement_tolerance=0.0))
        with quiet():
            model, best, best_epoch = fn(
                n_max, TimeSeriesDatasetInMemory(samples),
                init_args(arch, sub, norm, d), lr, **kw)
        rec = pickle.load(open(os.path.join(
            d, 'loss_history_record.pkl'), 'rb'))
        got = [float(x) for x in rec['training_loss_history']]
        t.check(len(got) == n_max + 1, 'epochs',
                f'{item}: {len(got)} epochs recorded', rep)
        t.check(all(torch.equal(a[k], b[k]) and set(a) == set(b)
                    for a, b in zip(samples + held, before) for k in b),
                'data', f'{item}: training changed the samples', rep)
        if sched is not None:
            lrs = [float(np.asarray(x).reshape(-1)[0])
                   for x in rec['lr_history_epochs']]
            t.check(same(lrs, [lr_at(sched, lr, k + 1)
                               for k in range(len(got))], 1e-9), 'lr',
                    f'{item}: learning rates {lrs}', rep)
        # an independent model in the initial state
        d2 = os.path.join(d, 'ref')
        os.mkdir(d2)
        ref = cls(**init_args(arch, sub, norm, d2))
        init = torch.load(os.path.join(d, 'net-init.pt'),
                          weights_only=False)
        ref.load_state_dict(init)
        if hasattr(ref, 'sync_material_model_parameters'):
            ref.sync_material_model_parameters()
        scal = {}
        for ft, on in (('features_in', norm[0]),
                       ('features_out', norm[1] or loss_norm)):
            if not on:
                continue
            mean, x = moments(samples, ft)
            a, b = [z.numpy() for z in
                    model._data_scalers[ft].get_mean_and_std()]
            t.check(same(a, mean) and (same(b, x.std(axis=0)) or
                                       same(b, x.std(axis=0, ddof=1))),
                    'scaling', f'{item}: {ft} scaled by {a}, {b}', rep)
            scal[ft] = (torch.tensor(a), torch.tensor(b))
        if arch == 'hyb' and norm[1]:
            ref._data_scalers = model._data_scalers
        ps = list(ref.parameters())
        lim = limits(ref)

        def put(xs):
            with torch.no_grad():
                for q, x in zip(ps, xs):
                    q.copy_(torch.tensor(x))

        def loss_of(ss):
            f = torch.stack([s['features_in'] for s in ss], dim=1)
            g = torch.stack([s['features_out'] for s in ss], dim=1)
            if norm[0]:
                f = (f - scal['features_in'][0])/scal['features_in'][1]
            y = ref(f)
            y = y[0] if isinstance(y, tuple) else y
            if 'features_out' in scal:
                m, s = scal['features_out']
                g = (g - m)/s
                if loss_norm:
                    y = (y - m)/s
            return loss_value(loss, y, g)

        def epoch(xs, opt, order, rate):
            """State and loss after an epoch in a given order."""
            opt = opt.copy()
            losses, path = [], []
            for c in chunks(order, batch):
                put(xs)
                for q in ps:
                    q.grad = None
                z = loss_of([samples[i] for i in c])
                z.backward()
                losses.append(float(z))
                gs = [np.zeros(q.shape) if q.grad is None else
                      q.grad.numpy().copy() for q in ps]
                xs = opt.step(xs, gs, rate)
                xs = [np.clip(x, *lim[id(q)]) if id(q) in lim else x
                      for q, x in zip(ps, xs)]
                path.append(xs)
            return xs, opt, float(np.mean(losses)), path
        put([q.detach().numpy() for q in ps])
        xs = [q.detach().numpy().copy() for q in ps]
        opt = Adam(ps)
        stored = {}
        for f in os.listdir(d):
            k = f[4:-3]
            if f.startswith('net-') and f.endswith('.pt') and k.isdigit():
                put(xs)
                ref.load_state_dict(torch.load(os.path.join(d, f),
                                               weights_only=False))
                stored[int(k)] = [q.detach().numpy().copy() for q in ps]
        t.check(n_max in stored and set(stored) == {
            k for k in range(n_max + 1) if every and k % every == 0} | {n_max},
            'states', f'{item}: states of epochs {sorted(stored)}', rep)
        orders = list(itertools.permutations(range(n))) if shuffle else [
            tuple(range(n))]
        vals = [float(x) for x in rec['validation_loss_history'] or ()] \
            if valid else []
        if 'lou' in str(sub):
            convexity(t, item, rep, ref, put, stored, d)
            return
        used = []
        for k in range(n_max + 1):
            fits = []
            for o in orders:
                r = epoch(xs, opt, o, lr_at(sched, lr, k))
                t.transition(len(r[3]))
                if same(got[k], r[2]) and (k not in stored or all(
                        same(a, b, 1e-5) for a, b in zip(stored[k], r[0]))):
                    fits.append((o, r))
                    break
            if not fits:
                t.fail('step', f'{item}: epoch {k}: loss {got[k]} and state '
                       f'are not those of optimizer steps over the samples '
                       f'(expected loss {r[2]})', rep)
                return
            o, (xs, opt, _, path) = fits[0]
            used.append(o)
            t.state((str(item), k, o))
            if valid:
                put(xs)
                with torch.no_grad():
                    v = np.mean([float(loss_of([s])) for s in held])
                t.check(k < len(vals) and same(vals[k], v), 'validation',
                        f'{item}: epoch {k}: validation loss '
                        f'{vals[k:k + 1]}, expected {v}', rep)
        if shuffle and n >= 3 and n_max >= 3:
            t.check(len(set(used)) > 1 or batch >= n, 'shuffle',
                    f'{item}: the sampler never shuffled: {used}', rep)


def convexity(t, item, rep, ref, put, stored, d):
    h, b = rc_t.read_parameters_history_from_file(
        os.path.join(d, 'parameters_history_record.pkl'))
    for k in sorted(stored):
        put(stored[k])
        v = {q: float(x) for q, x in
             ref.get_detached_model_parameters().items()}
        t.state((str(item), k))
        t.transition()
        c, dd = v['yield_c_s0'], v['yield_d_s0']
        t.check(-4.0 <= c <= 3.0 and -2.5 <= dd <= 2.5
                and mats.lou_convex(c, dd) > -5e-2, 'constraint',
                f'{item}: yield surface ({c}, {dd}) of epoch {k} is not '
                f'convex', rep)
    t.check({q: tuple(float(y) for y in z) for q, z in b.items()} ==
            {q: z[1] for q, z in LEARN['lou_zhang_yoon_vmap'].items()},
            'constraint', f'{item}: bounds {b}', rep)


def main(chk):
    items = []
    n_max = 4 if THOROUGH else 3
    small = (None, 1, 2)

    def add(arch, sub, norm=(0, 0), n=3, batch=1, shuffle=False, sched=None,
            lr=0.05, n_max=n_max, every=1, valid=False, loss_norm=False,
            loss='mse'):
        items.append((arch, sub, norm, n, batch, shuffle, sched, lr, n_max,
                      every, valid, loss_norm, loss))
    for norm, batch, shuffle, sched in itertools.product(
            itertools.product((0, 1), repeat=2), (1, 2, 3), (False, True),
            SCHED):
        for sub in itertools.product(('torch', 'custom'), (1, 2)):
            if not THOROUGH and sub != ('custom', 1) and sched is not None:
                continue
            add('rnn', sub, norm, 3, batch, shuffle, sched)
    for n, batch, shuffle, every in itertools.product(
            (1, 2, 4), (1, 3), (False, True), small):
        add('rnn', ('torch', 1), (1, 1), n, batch, shuffle, None, 0.2,
            every=every, valid=True, n_max=3)
    for base, pn, lnorm, batch, shuffle in itertools.product(
            ('von_mises_vmap', 'elastic'), (True, False),
            (False, True), (1, 2, 3), (False, True)):
        for lr in (0.05, 0.9) if pn else (50.0, 8e3):
            add('rc', (base, pn), (0, 0), 3, batch, shuffle, None, lr,
                loss_norm=lnorm, n_max=2)
    for base, pn, sched, valid in itertools.product(
            ('von_mises_vmap', 'von_mises'), (True, False), SCHED,
            (False, True)):
        add('rc', (base, pn), (0, 0), 2, 1, False, sched,
            0.4 if pn else 2e3, valid=valid, every=2, n_max=2)
    for sub, norm, batch, shuffle in itertools.product(
            itertools.product((True, False), repeat=2),
            ((0, 0), (1, 0), (0, 1), (1, 1)), (1, 2), (False, True)):
        add('hyb', sub, norm, 3 if shuffle else 2, batch, shuffle, None,
            0.9 if all(sub) else 700.0, valid=not shuffle, n_max=2)
    for loss, norm, batch, shuffle in itertools.product(
            ('clip', 'reg'), ((0, 0), (1, 1)), (1, 2), (False, True)):
        add('rnn', ('torch', 1), norm, 3, batch, shuffle, 'explr',
            valid=True, loss=loss)
        add('rc', ('von_mises_vmap', True), (0, 0), 3, batch, shuffle, None,
            0.1, valid=True, loss_norm=bool(norm[0]), loss=loss)
        add('hyb', (True, True), norm, 3, batch, shuffle, None, 0.1,
            valid=True, loss=loss)
    for pn, lr, batch in itertools.product((True, False), (0.2, 0.9),
                                           (1, 3)):
        add('rc', ('lou_zhang_yoon_vmap', pn), (0, 0), 3, batch, False, None,
            lr, n_max=2)
    chk.pmap(steps, items)


with quiet():
    chk.run('training steps', main)
chk.finish()
