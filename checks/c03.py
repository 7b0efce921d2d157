"""C03: the training outcome is determined by the loss history.

The real training loops of the three architectures are driven by scripted
losses: the loss kernel (`torch.nn.functional.mse_loss`) returns the value the
script prescribes for that step or validation (with a non-zero gradient, so
that every step moves the parameters), which reaches every loss history
exactly.  Parameters are recorded after every optimizer step; the files, the
records and the returned values are compared with an epoch state machine.
"""
import _path  # noqa
import itertools
import os
import pickle
import shutil
from mc.core import Check, Scratch, THOROUGH, quiet
from mc import nets, mats
import torch
import torch.nn.functional as TF
from torch.optim.optimizer import (register_optimizer_step_post_hook,
                                   register_optimizer_step_pre_hook)
from time_series_data.time_dataset import TimeSeriesDatasetInMemory
from model_architectures.rnn_base_model.train.training import \
    train_model as train_rnn
from model_architectures.rc_base_model.train.training import \
    train_model as train_rc
from model_architectures.rc_base_model.train import training as rc_training
from model_architectures.hybrid_base_model.train.training import \
    train_model as train_hyb
from model_architectures.procedures.model_training import \
    read_loss_history_from_file

chk = Check('C03')
TRAIN = {'rnn': train_rnn, 'rc': train_rc, 'hybrid': train_hyb,
         'hybrc': train_hyb}
REAL_LOSS = TF.mse_loss


class Script:
    """Replaces the loss kernel and records the run."""

    def __init__(self, train=None, valid=None, n_valid=1):
        self.train = train          # per step values
        self.valid = valid          # per validation values
        self.n_valid = n_valid
        self.steps = []             # parameters after each step
        self.first = None           # parameters before the first step
        self.targets = []
        self.outputs = []
        self.vtargets = []
        self.overrun = False

    def loss(self, input, target, *a, **k):
        if torch.is_grad_enabled():
            i = len(self.targets)
            self.targets.append(target.detach().clone())
            self.outputs.append(input.detach().clone())
            if self.train is None:
                return REAL_LOSS(input, target, *a, **k)
            if i >= len(self.train):
                self.overrun = True
                raise RuntimeError('verif: script exhausted')
            s = input.sum()
            return (s - s.detach()) + self.train[i]
        i = len(self.vtargets)//self.n_valid
        self.vtargets.append(target.detach().clone())
        if self.valid is None:
            return REAL_LOSS(input, target, *a, **k)
        if i >= len(self.valid):
            self.overrun = True
            raise RuntimeError('verif: script exhausted')
        return torch.tensor(self.valid[i])

    def _params(self, opt):
        return [p.detach().clone() for g in opt.param_groups
                for p in g['params']]

    def __enter__(self):
        def pre(opt, a, k):
            if self.first is None:
                self.first = self._params(opt)

        def post(opt, a, k):
            self.steps.append(self._params(opt))
        self.h = (register_optimizer_step_pre_hook(pre),
                  register_optimizer_step_post_hook(post))
        TF.mse_loss = self.loss
        return self

    def __exit__(self, *a):
        TF.mse_loss = REAL_LOSS
        for h in self.h:
            h.remove()


def samples(arch, n, shift=0.0):
    out = []
    for i in range(n):
        if arch in ('rc', 'hybrc'):
            f = torch.tensor([[0.0]*6, [0.001*(i + 1), 0.0, 0.0, 0.0002, 0.0,
                                        0.0]])
            g = torch.tensor([[10.0*i + shift]*6, [7.0*i + shift]*6])
        else:
            f = torch.tensor([[0.3*i, 0.1], [0.2, -0.4*i]])
            g = torch.tensor([[1.0*i + shift], [2.0*i - 1.0 + shift]])
        out.append({'features_in': f, 'features_out': g})
    return out


def init_args(arch, d, norm=(0, 0)):
    if arch == 'rnn':
        return dict(n_features_in=2, n_features_out=1, hidden_layer_size=2,
                    model_directory=d, model_name='net',
                    is_model_in_normalized=bool(norm[0]),
                    is_model_out_normalized=bool(norm[1]))
    if arch == 'rc':
        return dict(n_features_in=6, n_features_out=6,
                    learnable_parameters=nets.learnable_E(100e3, 1e3, 1e6),
                    strain_formulation='infinitesimal', problem_type=4,
                    material_model_name='elastic',
                    material_model_parameters=mats.parameters('elastic'),
                    model_directory=d, model_name='net')
    if arch == 'hybrc':
        m = nets.rc(None, 'elastic', learnable=nets.learnable_E(
            100e3, 1e3, 1e6), save=False)
        return dict(n_features_in=6, n_features_out=6, hyb_models_dict={
            'mat': {'hyb_model': m, 'hyb_indices': (0, 0),
                    'is_input_residual': False}}, model_directory=d,
            model_name='net')
    a = nets.gru(None, n_in=2, n_out=2, hidden=2, seed=3, save=False)
    b = nets.gru(None, n_in=2, n_out=1, hidden=2, seed=4, save=False)
    return dict(n_features_in=2, n_features_out=1,
                hyb_models_dict={
                    'a': {'hyb_model': a, 'hyb_indices': (0, 0),
                          'is_input_residual': False},
                    'b': {'hyb_model': b, 'hyb_indices': (0, 1),
                          'is_input_residual': False}},
                model_directory=d, model_name='net',
                is_model_in_normalized=bool(norm[0]),
                is_model_out_normalized=bool(norm[1]))


LR = {'rnn': 0.01, 'rc': 5e3, 'hybrid': 0.01, 'hybrc': 5e3}


def stopper(valid, freq, trigger, tol, n_epochs):
    """Early stopping by definition: (stop epoch or None, best epoch)."""
    best, best_epoch, bad, k = float('inf'), None, 0, 0
    for e in range(n_epochs):
        if e % freq:
            continue
        v = valid[k]
        k += 1
        if v < best:
            if k > 1:
                bad = 0 if (best - v)/abs(best) > tol else bad + 1
            best, best_epoch = v, e
        else:
            bad += 1
        if bad >= trigger:
            return e, best_epoch
    return None, best_epoch


def vhistory(valid, freq, n_epochs):
    out = []
    for e in range(n_epochs):
        if e % freq == 0:
            out.append(valid[e//freq])
        else:
            out.append(out[-1])
    # nothing is recorded after the last validation
    return out[:(n_epochs - 1)//freq*freq + 1]


def same(a, b):
    return len(a) == len(b) and all(torch.equal(x, y) for x, y in zip(a, b))


def load_file(path):
    return list(torch.load(path, map_location='cpu').values())


def run(t, arch, d, word, per=1, n_data=None, batch=None, save_every=None,
        valid=None, freq=1, trigger=1, tol=0.01, n_valid=1, norm=(0, 0),
        shuffle=False, load=None, params_stop=None, start=None, lr=None,
        expect_epochs=None, label='', norm_loss=False, outputs=False):
    """One training; `word` has the average loss of every epoch (per=1) or
    the tuple of its step losses."""
    steps = [v for w in word for v in (w if per > 1 else (w,))]
    avgs = [sum(w)/per if per > 1 else w for w in word]
    n_data = n_data or per
    batch = batch or 1
    data = TimeSeriesDatasetInMemory(samples(arch, n_data))
    kw = dict(batch_size=batch, is_sampler_shuffle=shuffle, seed=3,
              save_every=save_every, model_load_state=load)
    if arch == 'rc':
        kw['is_params_stopping'] = params_stop is not None
        kw['is_normalized_loss'] = norm_loss
        if params_stop is not None:
            kw['params_stopping_kwargs'] = params_stop
    if valid is not None:
        vd = TimeSeriesDatasetInMemory(samples(arch, n_valid, 0.5))
        kw['is_early_stopping'] = True
        kw['early_stopping_kwargs'] = dict(
            validation_dataset=vd, validation_frequency=freq,
            trigger_tolerance=trigger, improvement_tolerance=tol)
    n_max = len(word) - 1
    rep = dict(arch=arch, losses=word, validation=valid, frequency=freq,
               trigger=trigger, tolerance=tol, save_every=save_every,
               normalised=norm, shuffle=shuffle, load=load, batch=batch,
               params_stop=params_stop, label=label)
    key = f'{arch}-{label}' if label else arch
    with Script(steps, valid, n_valid) as s, quiet():
        try:
            model, best_loss, best_epoch = TRAIN[arch](
                n_max, data, init_args(arch, d, norm),
                LR[arch] if lr is None else lr, **kw)
        except RuntimeError:
            if not s.overrun:
                raise
            t.fail(f'{key}-epochs', 'training continued beyond the maximum '
                   f'epoch {n_max} or validated more often than prescribed',
                   rep)
            return None
    t.state(repr(rep))
    t.transition(len(s.steps))
    t.trace()
    # number of epochs
    stop, vbest = (None, None)
    if valid is not None:
        stop, vbest = stopper(valid, freq, trigger, tol, n_max + 1)
    n_ep = n_max + 1 if stop is None else stop + 1
    if expect_epochs is not None:
        n_ep = min(n_ep, expect_epochs)
        if stop is not None and stop + 1 > n_ep:
            stop = None
    if len(s.steps) != n_ep*per:
        t.fail(f'{key}-epochs', f'{len(s.steps)/per} epochs were run '
               f'expected {n_ep}', rep)
        return None
    if not len(set(tuple(float(x) for p in st for x in p.flatten())
                   for st in s.steps)) == len(s.steps):
        t.fail(f'{key}-no-update', 'a training step does not change the '
               'parameters', rep)
        return None
    avgs = avgs[:n_ep]
    # data: each sample once per epoch, in order unless shuffled
    ref = torch.stack([q['features_out'] for q in data], dim=1)
    vref = None
    if valid is not None:
        vref = torch.stack([q['features_out'] for q in vd], dim=1)
    if norm[1] or norm_loss:
        flat = ref.double().reshape(-1, ref.shape[-1])
        mean, std = flat.mean(0), flat.std(0, unbiased=False)
        scale_out = (mean, std)
        ref = (ref - mean)/std
        if vref is not None:
            vref = (vref - mean)/std
    for e in range(n_ep):
        seen = torch.cat(s.targets[e*per:(e + 1)*per], dim=1)
        want = ref.to(seen.dtype)
        got, exp = ([tuple(round(float(x), 4) for x in q[:, j].flatten())
                     for j in range(q.shape[1])] for q in (seen, want))
        if (sorted(got) != sorted(exp)) if shuffle else (got != exp):
            t.fail(f'{key}-data', f'epoch {e}: targets {got} expected '
                   f'{exp}', rep)
    if valid is not None:
        for k in range(len(s.vtargets)):
            want = vref[:, k % n_valid]
            if not torch.allclose(s.vtargets[k].double(), want.double(),
                                  atol=1e-4):
                t.fail(f'{key}-vdata', f'validation targets '
                       f'{s.vtargets[k].tolist()} expected '
                       f'{want.tolist()}', rep)
                break
        if len(s.vtargets) != n_valid*((n_ep - 1)//freq + 1):
            t.fail(f'{key}-vcount', f'{len(s.vtargets)} validation samples',
                   rep)
    if start is not None and not same(s.first, start):
        t.fail(f'{key}-start', 'training did not start from the requested '
               'state', rep)
    if outputs and not shuffle:
        check_outputs(t, key, model, data, s, batch, per, norm,
                      scale_out if norm_loss else None, rep)
    # parameters
    final = [p.detach() for p in model.parameters()]
    after = [s.steps[(e + 1)*per - 1] for e in range(n_ep)]
    last = after[vbest] if stop is not None else after[-1]
    if not same(final, last):
        t.fail(f'{key}-returned', 'the returned model has not the '
               'parameters of the ' + ('best validation' if stop is not None
                                       else 'last') + ' epoch', rep)
    # files
    names = sorted(os.listdir(d))
    bests = [f for f in names if f.startswith('net-')
             and f.endswith('-best.pt')]
    low = [e for e in range(n_ep) if avgs[e] == min(avgs)]
    want_best = [vbest] if stop is not None else low
    be = None
    if len(bests) != 1 or not bests[0][4:-8].isdigit() or \
            int(bests[0][4:-8]) not in want_best:
        t.fail(f'{key}-best-file', f'best state files {bests} expected one '
               f'of epoch {want_best}', rep)
    else:
        be = int(bests[0][4:-8])
        if not same(load_file(os.path.join(d, bests[0])), after[be]):
            t.fail(f'{key}-best-params', 'the best state has not the '
                   f'parameters of epoch {be}', rep)
        o = torch.load(os.path.join(d, f'net_optim-{be}-best.pt'))
        st = int(o['state']['state'][0]['step'])
        if (o['epoch'], st) != (be, (be + 1)*per):
            t.fail(f'{key}-best-optim', f'optimizer state of epoch '
                   f'{o["epoch"]} after {st} steps with best epoch {be}',
                   rep)
    saved = {int(f[4:-3]) for f in names if f.startswith('net-')
             and f[4:-3].isdigit()}
    must = {e for e in range(n_ep) if save_every and e % save_every == 0
            and (stop is None or e <= vbest)} | {n_ep - 1}
    if stop is None and saved != must or not must <= saved or any(
            e >= n_ep for e in saved):
        t.fail(f'{key}-saved', f'saved epochs {sorted(saved)} expected '
               f'{sorted(must)}', rep)
    for e in saved & set(range(n_ep)):
        want = last if e == n_ep - 1 else after[e]
        if not same(load_file(os.path.join(d, f'net-{e}.pt')), want):
            t.fail(f'{key}-saved-params', f'state of epoch {e} has not its '
                   'parameters', rep)
        o = torch.load(os.path.join(d, f'net_optim-{e}.pt'))
        if o['epoch'] != e:
            t.fail(f'{key}-saved-optim', f'optimizer of epoch {e}', rep)
    if not same(load_file(os.path.join(d, 'net-init.pt')), s.first):
        t.fail(f'{key}-init', 'the initial state is not the one training '
               'started from', rep)
    # records
    _, lt, hist, vhist = read_loss_history_from_file(
        os.path.join(d, 'loss_history_record.pkl'))
    if lt != 'mse' or len(hist) != n_ep or any(
            abs(float(a) - b) > 1e-6 for a, b in zip(hist, avgs)):
        t.fail(f'{key}-history', f'loss history {hist} expected {avgs}', rep)
    if valid is not None:
        wv = vhistory(valid, freq, n_ep)
        if len(vhist) != len(wv) or any(abs(float(a) - b) > 1e-6
                                        for a, b in zip(vhist, wv)):
            t.fail(f'{key}-vhistory', f'{vhist} expected {wv}', rep)
    elif vhist is not None:
        t.fail(f'{key}-vhistory', f'{vhist} expected None', rep)
    if abs(best_loss - min(avgs)) > 1e-6 or best_epoch not in low:
        t.fail(f'{key}-report', f'reported {best_loss} at epoch '
               f'{best_epoch} expected {min(avgs)} at {low}', rep)
    if arch in ('rc', 'hybrc') and be is not None:
        lb = 'E' if arch == 'rc' else 'mat_E'
        with open(os.path.join(d, 'parameters_best.pkl'), 'rb') as f:
            bp = pickle.load(f)['best_model_parameters']
        if abs(float(bp[lb]) - float(after[be][0])) > 1e-6*1e5:
            t.fail(f'{key}-best-record', f'best parameters {bp} expected '
                   f'{after[be]}', rep)
        with open(os.path.join(d, 'parameters_history_record.pkl'),
                  'rb') as f:
            ph = pickle.load(f)['model_parameters_history']
        if len(ph[lb]) != n_ep + 1:
            t.fail(f'{key}-params-history', f'{len(ph[lb])} records of '
                   f'{n_ep} epochs', rep)
        else:
            # epoch record: within the values taken in the epoch
            seq = [float(s.first[0])] + [float(x[0]) for x in s.steps]
            for e in range(n_ep):
                w = seq[e*per:(e + 1)*per + 1]
                if not min(w) - 0.1 <= float(ph[lb][e + 1]) <= max(w) + 0.1:
                    t.fail(f'{key}-params-record', f'parameter {ph[lb][e+1]} '
                           f'recorded at epoch {e}, values {w}', rep)
            if abs(float(ph[lb][0]) - seq[0]) > 0.1:
                t.fail(f'{key}-params-initial', f'{ph[lb][0]} recorded as '
                       f'initial value {seq[0]}', rep)
    return after, s


def check_outputs(t, key, model, data, s, batch, per, norm, scale_out, rep):
    """The loss of each step is that of the response of the model, with the
    parameters before the step, to the samples of the batch."""
    x = torch.stack([q['features_in'] for q in data], dim=1)
    if norm[0]:
        flat = x.double().reshape(-1, x.shape[-1])
        x = ((x - flat.mean(0))/flat.std(0, unbiased=False)).float()
    keep = [p.detach().clone() for p in model.parameters()]
    for i in range(len(s.steps)):
        before = s.first if i == 0 else s.steps[i - 1]
        j = i % per
        with torch.no_grad():
            for p, v in zip(model.parameters(), before):
                p.copy_(v)
            y = model(x[:, j*batch:(j + 1)*batch])
            y = y[0] if isinstance(y, tuple) else y
        if scale_out is not None:
            y = (y - scale_out[0])/scale_out[1]
        if y.shape != s.outputs[i].shape or not torch.allclose(
                y.double(), s.outputs[i].double(), rtol=1e-4, atol=1e-4):
            t.fail(f'{key}-outputs', f'step {i}: loss of '
                   f'{s.outputs[i].tolist()} expected {y.tolist()}', rep)
            break
    with torch.no_grad():
        for p, v in zip(model.parameters(), keep):
            p.copy_(v)


def plain(item, t):
    """Every training loss history, no validation."""
    arch, n, save_every = item
    for word in itertools.product((1.0, 2.0, 3.0), repeat=n):
        with Scratch() as d:
            run(t, arch, d, word, save_every=save_every)


def batches(item, t):
    """Several steps per epoch, uneven last batch, shuffled or not."""
    arch, n_data, batch, shuffle, norm, norm_loss = item
    per = -(-n_data//batch)
    vals = list(itertools.product((1.0, 2.0, 3.0), repeat=per))
    if per > 2:
        vals = [v for v in vals if sorted(v) in ([1, 2, 3], [2, 2, 2],
                                                 [1, 1, 3])]
    for word in itertools.product(vals, repeat=2):
        if per == 1:
            word = tuple(w[0] for w in word)
        with Scratch() as d:
            run(t, arch, d, word, per=per, n_data=n_data, batch=batch,
                shuffle=shuffle, norm=norm, label='batches',
                norm_loss=norm_loss, outputs=True)


V = (1.0, 0.995, 0.9, 2.0)


def early(item, t):
    """Every validation history, trigger and frequency."""
    arch, n, freq, trigger, save_every, tol, norm = item
    k = (n - 1)//freq + 1
    train = [(1.0, 3.0, 2.0, 2.0, 1.0)[:n], (3.0, 2.0, 2.0, 1.0, 3.0)[:n]]
    for j, valid in enumerate(itertools.product(V, repeat=k)):
        # histories that differ only after the stop are the same execution
        stop, _ = stopper(valid, freq, trigger, tol, n)
        if stop is not None and any(v != V[0]
                                    for v in valid[stop//freq + 1:]):
            continue
        word = train[j % 2]
        with Scratch() as d:
            run(t, arch, d, word, save_every=save_every, valid=list(valid),
                freq=freq, trigger=trigger, tol=tol, norm=norm,
                label='early')


def reload_(item, t):
    """Training again in the same directory, from every saved state."""
    arch, word, load = item
    with Scratch() as d:
        got = run(t, arch, d, word, save_every=1)
        if got is None:
            return
        after, s = got
        if load == 'fresh':
            start, ld = None, None
        elif load == 'best':
            b = [f for f in os.listdir(d) if f.endswith('-best.pt')
                 and f.startswith('net-')]
            if len(b) != 1:
                return
            start, ld = after[int(b[0][4:-8])], 'best'
        elif load == 'last':
            start, ld = after[-1], 'last'
        elif load == 'init':
            start, ld = s.first, 'init'
        else:
            start, ld = after[load], load
        for word2 in itertools.product((1.0, 2.0), repeat=2):
            with Scratch() as d2:
                dd = os.path.join(d2, 'm')
                shutil.copytree(d, dd)
                run(t, arch, dd, word2, save_every=1, load=ld, start=start,
                    label='again')


def seeds(item, t):
    """Same seed, same result; whatever the random state before."""
    arch, seed, batch, shuffle = item
    res = []
    for noise in (11, 22):
        with Scratch() as d:
            torch.manual_seed(noise)
            import random
            import numpy as np
            random.seed(noise)
            np.random.seed(noise)
            data = TimeSeriesDatasetInMemory(samples(arch, 4))
            args = init_args(arch, d)
            kw = {'is_params_stopping': False} if arch == 'rc' else {}
            with Script() as s, quiet():
                model, bl, be = TRAIN[arch](
                    2, data, args, LR[arch], batch_size=batch,
                    is_sampler_shuffle=shuffle, seed=seed, **kw)
            h = read_loss_history_from_file(
                os.path.join(d, 'loss_history_record.pkl'))[2]
            res.append((s.steps, s.targets, [float(x) for x in h], bl, be))
    t.trace(2)
    t.state(item)
    a, b = res
    rep = dict(arch=arch, seed=seed, batch=batch, shuffle=shuffle)
    if len(a[0]) != len(b[0]) or not all(
            same(x, y) for x, y in zip(a[0], b[0])) or a[2:] != b[2:] or \
            not all(torch.equal(x, y) for x, y in zip(a[1], b[1])):
        t.fail(f'{arch}-seed', 'two trainings with the same seed differ',
               rep)


def convergence(trigger, t):
    """Parameters convergence criterion against its definition."""
    f = rc_training.check_model_parameters_convergence
    P = (1.0, 1.005, 1.02, 0.0)
    n_hist = 6 if THOROUGH else 5
    for n in range(1, n_hist + 1):
        for h in itertools.product(P, repeat=n):
            for other in ((2.0,)*n, tuple(2.0 + 0.1*i for i in range(n))):
                for min_len in (0, 3):
                    def conv(x):
                        if len(x) <= trigger:
                            return False
                        for a, b in list(zip(x, x[1:]))[-trigger:]:
                            r = abs(b - a)
                            if abs(a) > 1e-8:
                                r /= abs(a)
                            if not r < 0.01:
                                return False
                        return True
                    want = conv(h) and conv(other) and n > min_len
                    with quiet():
                        got, _ = f({'a': list(h), 'b': list(other)},
                                   trigger_tolerance=trigger,
                                   min_hist_length=min_len)
                    t.transition()
                    if bool(got) != want:
                        t.fail('rc-convergence', f'{got} expected {want}',
                               dict(a=h, b=other, trigger=trigger,
                                    min_hist_length=min_len))
            t.state(('conv', trigger, h))


def params_stop(item, t):
    """Stopping by parameters convergence, alone and with validation."""
    trigger, slow, valid, vtrig = item
    n = 6
    with Scratch() as d:
        run(t, 'rc', d, (3.0, 2.0, 2.5, 1.0, 2.0, 1.5), lr=1.0 if slow
            else 5e3, params_stop=dict(trigger_tolerance=trigger),
            valid=valid, trigger=vtrig,
            expect_epochs=min(n, trigger) if slow else n,
            label='params-stop')


ARCHS = ('rnn', 'rc', 'hybrid')
items = []
for arch in ARCHS:
    for n in range(1, 6 if THOROUGH else 5):
        for se in (None, 1, 2, 3):
            if n == 4 and se in (1, 3) and not THOROUGH:
                continue
            items.append((arch, n, se))
items += [('hybrc', n, None) for n in (1, 2, 3)]
chk.pmap(plain, sorted(items, key=lambda q: -q[1]))
items = [(a, nd, b, sh, nm, nl) for a in ARCHS
         for nd, b in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 1), (2, 5))
         for sh in (False, True) for nm in ((0, 0), (1, 0), (0, 1), (1, 1))
         for nl in ((False, True) if a == 'rc' and nd > 1 else (False,))
         if not (a == 'rc' and nm != (0, 0)) and (nm == (0, 0) or nd > 1)]
chk.pmap(batches, items)
items = []
for arch in ARCHS:
    n = 5 if THOROUGH else 4
    for freq, trig in itertools.product((1, 2), (1, 2, 3)):
        items.append((arch, n, freq, trig, None, 0.01, (0, 0)))
    items.append((arch, n, 1, 2, 1, 0.01, (0, 0)))
    items.append((arch, n, 2, 1, 1, 0.5, (0, 0)))
    items.append((arch, n, 3, 1, 2, 0.01, (0, 0)))
    if arch != 'rc':
        items.append((arch, 3, 1, 1, None, 0.01, (0, 1)))
        items.append((arch, 3, 1, 2, None, 0.01, (1, 1)))
items.append(('hybrc', 3, 1, 1, None, 0.01, (0, 0)))
chk.pmap(early, items)
items = [(a, w, ld) for a in ARCHS
         for w in ((1.0,), (1.0, 2.0, 1.5), (3.0, 2.0, 1.0))
         for ld in ('fresh', 'best', 'last', 'init', 0, 1, 2)
         if not isinstance(ld, int) or ld < len(w)]
chk.pmap(reload_, items)
chk.pmap(seeds, list(itertools.product(
    ARCHS, range(8 if THOROUGH else 3), (1, 2, 4), (False, True))))
chk.pmap(convergence, (1, 2, 3))
items = [(tr, slow, v, vt) for tr in (1, 2, 3, 5) for slow in (True, False)
         for v, vt in ((None, 1), ([1.0, 2.0, 3.0, 1.0, 1.0, 1.0], 2),
                       ([1.0, 0.5, 0.6, 0.7, 0.8, 0.9], 1),
                       ([1.0, 0.5, 0.4, 0.3, 0.2, 0.1], 1))]
chk.pmap(params_stop, items)
chk.sample({'arch': 'rnn', 'losses': [1.0, 3.0, 2.0], 'validation': None})
chk.extra['bounds'] = {
    'epochs': '1..5' if THOROUGH else '1..4',
    'training_loss_alphabet': [1, 2, 3], 'validation_alphabet': list(V),
    'save_every': [None, 1, 2, 3], 'trigger': [1, 2, 3],
    'validation_frequency': [1, 2, 3]}
chk.assumptions += ['losses are finite',
                    'the loss is computed by torch.nn.functional.mse_loss '
                    'under gradient for training and without for '
                    'validation']
chk.finish()
