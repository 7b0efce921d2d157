"""C27: training of the material model finder (material model discovery)."""
import _path  # noqa
import itertools
import os
import pickle
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure  # noqa
from mc import specimen as sp
from mc.discover import Specimen, bc_of, plain, VALUES
from mc import discover, nets, mats
from mc.recurrent import bounds_of
from material_model_finder.train import training
from model_architectures.procedures.model_state_files import load_model_state

torch.set_default_dtype(torch.float64)
chk = Check('C27')
matplotlib.figure.Figure.savefig = lambda *a, **k: None
TRUE = {'elastic': {'E': 100e3, 'v': 0.25},
        'von_mises': {'E': 95e3, 's0': 760.0, 'a': 650.0},
        'drucker_prager': {'E': 100e3, 's0': 770.0}}
SCHED = {None: None,
         'steplr': {'step_size': 2, 'gamma': 0.5},
         'explr': {'gamma': 0.7},
         'linlr': {'start_factor': 1.0, 'end_factor': 0.5, 'total_iters': 2}}


def lr_at(kind, lr, k):
    """Learning rate of epoch k (from 0), by definition of the scheduler."""
    kw = SCHED[kind]
    if kind is None:
        return lr
    if kind == 'steplr':
        return lr*kw['gamma']**(k//kw['step_size'])
    if kind == 'explr':
        return lr*kw['gamma']**k
    n = kw['total_iters']
    f = kw['start_factor'] + (kw['end_factor'] - kw['start_factor'])*min(
        k, n)/n
    return lr*f


class Adam:
    """Reference of the optimizer (scalars)."""

    def __init__(self, n):
        self.m, self.v, self.t = np.zeros(n), np.zeros(n), 0

    def step(self, x, g, lr):
        self.t += 1
        self.m = 0.9*self.m + 0.1*g
        self.v = 0.999*self.v + 0.001*g*g
        mh = self.m/(1 - 0.9**self.t)
        vh = self.v/(1 - 0.999**self.t)
        return x - lr*mh/(np.sqrt(vh) + 1e-8)


def stops(hist, tol, trigger, min_len):
    """Every parameter moved less than tol over the last steps."""
    n = len(next(iter(hist.values())))
    if n <= trigger or n <= min_len:
        return False
    for h in hist.values():
        for a, b in list(zip(h[:-1], h[1:]))[-trigger:]:
            d = abs(b - a)
            if not (d/abs(a) if abs(a) > 1e-8 else d) < tol:
                return False
    return True


def problem(base, word, kind, factor, weights):
    mesh = sp.MESHES['quad4']
    u = sp.history(mesh, word)
    bc = bc_of(mesh, 'some', kind)
    paths = sp.strain_paths(mesh, u)

    def forces(values):
        fn = sp.material_stress(base, mesh[1], values)
        return sp.internal_forces(mesh, [fn(p) for p in paths])
    r = forces(TRUE[base])

    def loss(values):
        return sp.loss(forces(values), r, bc, kind, weights, factor)[0]
    return mesh, u, bc, r, loss


def reference(base, start, bounds, norm, loss, n_max, lr, sched, stop):
    """Epochs by the definition of the procedure, with derivatives of the
    reference loss by differences."""
    names = list(start)
    lo = np.array([bounds[k][0] for k in names])
    hi = np.array([bounds[k][1] for k in names])
    half = (hi - lo)/2 if norm else np.ones(len(names))
    x = np.clip(np.array([start[k] for k in names]), lo, hi)
    opt = Adam(len(names))
    losses, hist, reason = [], {k: [] for k in names}, 'max'
    epoch = 0
    while True:
        f = loss(dict(zip(names, x)))
        g = np.zeros(len(names))
        for i in range(len(names)):
            h = 1e-5*abs(x[i])
            y, z = x.copy(), x.copy()
            y[i] += h
            z[i] -= h
            g[i] = (loss(dict(zip(names, y))) - loss(dict(zip(names, z))))/(
                2*h)
        if norm:
            q = (x - lo)/half - 1
            q = opt.step(q, g*half, lr_at(sched, lr, epoch))
            x = lo + (np.clip(q, -1, 1) + 1)*half
        else:
            x = np.clip(opt.step(x, g, lr_at(sched, lr, epoch)), lo, hi)
        losses.append(f)
        for k, v in zip(names, x):
            hist[k].append(v)
        if epoch >= n_max:
            break
        if stop is not None and stops(hist, *stop):
            reason = 'stop'
            break
        epoch += 1
    return losses, hist, reason


def same(a, b, tol=2e-5):
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol*np.maximum(np.abs(a), np.abs(b))))


def run(item, t):
    t.trace()
    (base, word, kind, norm, bnds, start, n_max, lr, sched, stop, every,
     opts) = item
    opts = dict(opts)
    tr = dict(item=[str(x) for x in item])
    factor = 2.5 if opts.get('factor') else None
    weights = np.linspace(0.5, 1.5, len(word) + 1) if opts.get('weights') \
        else None
    name = ' '.join(str(x) for x in item)
    mesh, u, bc, r, loss = problem(plain(base), word, kind, factor, weights)
    vals = {k: v*dict(start).get(k, 1.0) for k, v in
            VALUES[plain(base)].items()}
    bounds = {k: bounds_of(v) for k, v in VALUES[plain(base)].items()}
    if bnds == 'tight':
        bounds = {k: (0.97*v, 1.04*v)
                  for k, v in VALUES[plain(base)].items()}
    losses, hist, reason = reference(
        plain(base), vals, bounds, norm, loss, n_max, lr, sched, stop)
    with Scratch() as d:
        old = discover.rc_kwargs

        def rc_kwargs(b, pt, md, nrm):
            kw = old(b, pt, md, nrm)
            kw['learnable_parameters'] = {
                k: {'initial_value': vals[k], 'bounds': bounds[k]}
                for k in vals}
            return kw
        discover.rc_kwargs = rc_kwargs
        try:
            spec = Specimen(d, mesh, ('rcn:' if norm else 'rc:') + base, u, r,
                            bc, kind=kind)
        finally:
            discover.rc_kwargs = old
        fd = os.path.join(d, 'train')
        os.mkdir(fd)
        with quiet():
            model, best, best_epoch = training.train_model(
                n_max, spec.data, spec.state,
                dict(model_directory=fd, force_equilibrium_loss_type=kind,
                     **opts.get('init', {})),
                lr, lr_scheduler_type=sched, lr_scheduler_kwargs=SCHED[sched],
                is_explicit_model_parameters=True,
                is_params_stopping=stop is not None,
                params_stopping_kwargs=None if stop is None else dict(
                    zip(('convergence_tolerance', 'trigger_tolerance',
                         'min_hist_length'), stop)),
                loss_scaling_factor=None if factor is None
                else torch.tensor(factor),
                loss_time_weights=None if weights is None
                else torch.tensor(weights),
                save_every=every, device_type='cpu', seed=0,
                is_verbose=False)
        t.state((name, len(losses), reason))
        n = len(losses)
        # losses
        rec = pickle.load(open(os.path.join(
            fd, 'loss_history_record.pkl'), 'rb'))
        got = [float(x) for x in rec['training_loss_history']]
        scale = max(max(losses), 1e-300)
        ok = len(got) == n
        t.check(ok, 'epochs', f'{name}: {len(got)} epochs, expected {n}', tr)
        if not ok:
            return
        t.check(all(abs(a - b) <= 2e-5*max(a, b) + 1e-9*scale
                    for a, b in zip(got, losses)), 'losses',
                f'{name}: losses {got}, expected {losses}', tr)
        if sched is not None:
            # learning rate in place after each epoch
            lrs = [float(np.asarray(x).reshape(-1)[0])
                   for x in rec['lr_history_epochs']]
            t.check(same(lrs, [lr_at(sched, lr, k + 1) for k in range(n)],
                         1e-9), 'lr', f'{name}: learning rates {lrs}', tr)
        # parameters
        h, b = training.read_parameters_history_from_file(
            os.path.join(fd, 'parameters_history_record.pkl'))
        want = {f'model_1_{k}': v for k, v in hist.items()}
        t.check(set(h) == set(want) and all(
            same(h[k], want[k]) for k in h), 'parameters',
            f'{name}: parameters {h}, expected {want}', tr)
        wb = {f'model_1_{k}': v for k, v in bounds.items()}
        t.check({k: tuple(float(y) for y in v) for k, v in b.items()} == wb,
                'bounds-record', f'{name}: bounds {b}, expected {wb}', tr)
        eps = 1e-9
        for k, v in h.items():
            lo, hi = wb[k]
            t.check(all(lo - eps*abs(lo) <= float(x) <= hi + eps*abs(hi)
                        for x in v), 'bounds',
                    f'{name}: {k} leaves its bounds: {v}', tr)
        # best epoch (equal losses: any)
        low = min(got)
        t.check(float(best) == low and got[best_epoch] == low, 'best-loss',
                f'{name}: best loss {best} of epoch {best_epoch}, history '
                f'{got}', tr)
        ties = [k for k, x in enumerate(got) if x == low]
        p, b = training.read_best_parameters_from_file(
            os.path.join(fd, 'parameters_best.pkl'))
        t.check(set(p) == set(h) and any(
            all(float(p[q]) == float(h[q][k]) for q in h) for k in ties),
            'best-parameters', f'{name}: best parameters {p}, history {h}, '
            f'losses {got}', tr)
        states(t, name, tr, model, fd, got, ties, h, every, vals, bounds,
               norm, n)
        # the trained model reproduces the last parameters
        last = {k: float(v) for k, v in
                model.get_detached_model_parameters().items()}
        t.check(all(last[k] == float(h[k][-1]) for k in h), 'returned',
                f'{name}: returned model has {last}, last epoch {h}', tr)
        z = float(model(sequential_mode='sequential_element_vmap'))
        f = loss({k: last[f'model_1_{k}'] for k in vals})
        t.check(abs(z - f) <= 2e-5*max(z, f) + 1e-9*scale, 'material',
                f'{name}: the trained material gives the loss {z}, its '
                f'parameters {f}', tr)


def states(t, name, tr, model, fd, got, ties, h, every, vals, bounds, norm,
           n):
    """State files: finder and each material model."""
    (key, mat), = model.get_material_models().items()
    names = {k: k[len('model_1_'):] for k in h}

    def values():
        return {k: float(v) for k, v in
                model.get_detached_model_parameters().items()}

    def is_epoch(v, k):
        return all(abs(v[q] - float(h[q][k])) <= 1e-9*abs(v[q]) for q in v)
    want = {k for k in range(n) if every is not None and k % every == 0}
    want.add(n - 1)
    for sub, m in (('finder', model), ('material', mat)):
        files = os.listdir(m.model_directory)
        base = m.model_name
        ep = {int(f[len(base) + 1:-3]) for f in files
              if f.startswith(base + '-') and f.endswith('.pt')
              and f[len(base) + 1:-3].isdigit()}
        t.check(ep == want, 'epoch-states', f'{name}: {sub} states of epochs '
                f'{sorted(ep)}, expected {sorted(want)} ({files})', tr)
        for k in sorted(ep & want):
            e = load_model_state(m, model_load_state=k,
                                 is_remove_posterior=False)
            t.check(e == k and is_epoch(values(), k), 'epoch-state',
                    f'{name}: {sub} state of epoch {k} has {values()}', tr)
        e = load_model_state(m, model_load_state='best',
                             is_remove_posterior=False)
        t.check(e in ties and is_epoch(values(), e), 'best-state',
                f'{name}: {sub} best state is epoch {e} with {values()}; '
                f'losses {got}', tr)
        if sub == 'material':
            load_model_state(m, model_load_state='init',
                             is_remove_posterior=False)
            v = values()
            t.check(all(abs(v[q] - vals[names[q]]) <= 1e-9*abs(v[q])
                        for q in v), 'init-state',
                    f'{name}: initial state has {v}, expected {vals}', tr)
        load_model_state(m, model_load_state=n - 1,
                         is_remove_posterior=False)
    # optimizer of the best epoch: as many steps as epochs
    name_ = f'{model.model_name}_optim'
    fs = [f for f in os.listdir(fd) if f.startswith(name_)
          and f.endswith('-best.pt')]
    o = torch.load(os.path.join(fd, fs[0]), weights_only=False)
    steps = {int(s['step']) for s in o['state']['state'].values()}
    t.check(len(fs) == 1 and o['epoch'] in ties
            and steps == {o['epoch'] + 1}, 'training-state',
            f'{name}: best optimizer states {fs} of epoch {o["epoch"]} after '
            f'{steps} steps', tr)


def net(item, t):
    """Networks as material: same seed, same result; states of the epochs."""
    t.trace()
    mat, n_max, every, lr = item
    tr = dict(item=[str(x) for x in item])
    mesh = sp.MESHES['quad4']
    u = sp.history(mesh, 'ab')
    bc = bc_of(mesh, 'some', 'pointwise')
    r = np.zeros_like(u)
    runs = []
    for rep in range(2):
        with Scratch() as d:
            spec = Specimen(d, mesh, mat, u, r, bc)
            m = spec.state.get_elements_material()['1']
            first = {k: v.clone() for k, v in m.state_dict().items()}
            fd = os.path.join(d, 'train')
            os.mkdir(fd)
            with quiet():
                model, best, best_epoch = training.train_model(
                    n_max, spec.data, spec.state,
                    dict(model_directory=fd), lr,
                    is_explicit_model_parameters=mat.startswith('hyb'),
                    save_every=every, seed=3, is_verbose=False)
            rec = [float(x) for x in pickle.load(open(os.path.join(
                fd, 'loss_history_record.pkl'), 'rb'))[
                    'training_loss_history']]
            mats_ = {}
            (_, m), = model.get_material_models().items()
            for f in sorted(os.listdir(m.model_directory)):
                if f.endswith('.pt'):
                    mats_[f] = torch.load(
                        os.path.join(m.model_directory, f),
                        weights_only=False)
            # the loss of epoch k + 1 is that of the state after epoch k
            seq = [('init', first)] + [
                (k, mats_.get(f'{m.model_name}-{k}.pt'))
                for k in range(n_max + 1)]
            for k, (lab, sd) in enumerate(seq[:n_max + 1]):
                if sd is None:
                    continue
                m.load_state_dict(sd)
                with torch.no_grad():
                    z = float(model(
                        sequential_mode='sequential_element_vmap'))
                t.check(abs(z - rec[k]) <= 1e-9*abs(z), 'net-loss',
                        f'{item}: epoch {k} loss {rec[k]}, state {lab} '
                        f'gives {z}', tr)
            runs.append((rec, {f: {k: v.tolist() for k, v in s.items()}
                               for f, s in mats_.items()}))
            t.state((item, rep))
    t.check(runs[0] == runs[1], 'seed', f'{item}: two runs with the same seed'
            f' differ', tr)


def explicit(model):
    """Learnable parameters: label, tensor, bounds, normalised, material."""
    out = []
    for key, m in model.get_material_models().items():
        parts = [('', m)]
        if hasattr(m, 'get_hybridized_models'):
            parts = [(f'{a}_', b) for a, b in zip(
                m.get_hybridized_models_names(), m.get_hybridized_models())]
        for pre, q in parts:
            if not hasattr(q, 'get_model_parameters_bounds'):
                continue
            b = q.get_model_parameters_bounds()
            for k, v in q.get_model_parameters().items():
                out.append((f'model_{key}_{pre}{k}', v,
                            tuple(float(x) for x in b[k]),
                            bool(q.is_normalized_parameters), key))
    return out


def natural(v, b, norm):
    return b[0] + 0.5*(v + 1.0)*(b[1] - b[0]) if norm else v


def several(item, t):
    """Hybrid models: parameters of every part."""
    t.trace()
    mats_, mesh, n_max, every, lr = item
    mats_ = list(mats_)
    tr = dict(item=[str(x) for x in item])
    mesh = sp.MESHES[mesh]
    u = sp.history(mesh, 'ab')
    bc = bc_of(mesh, 'some', 'pointwise')
    r = np.zeros_like(u)

    def build(d):
        torch.manual_seed(0)
        return Specimen(d, mesh, mats_ if len(mats_) > 1 else mats_[0], u, r,
                        bc, separate=True)
    # reference: optimizer step along the gradient, then bounds
    losses, hist, nets_ = [], {}, []
    with Scratch() as d:
        spec = build(d)
        f = spec.finder
        ps = explicit(f)
        lim = {id(v): ((-1.0, 1.0) if nm else b) for _, v, b, nm, _ in ps}
        every_p = [q for m in f.get_material_models().values()
                   for q in m.parameters()]
        t.check(len({id(q) for q in every_p}) == len(every_p) and
                {id(q) for q in every_p} == {id(q) for q in f.parameters()},
                'several:learnable', f'{item}: learnable parameters of the '
                f'finder are not those of its materials', tr)
        opt = [Adam(q.numel()) for q in every_p]
        for k in range(n_max + 1):
            for q in every_p:
                q.grad = None
            z = f(sequential_mode='sequential_element_vmap')
            z.backward()
            losses.append(float(z))
            for q, o in zip(every_p, opt):
                x = o.step(q.detach().numpy().reshape(-1).copy(),
                           q.grad.numpy().reshape(-1), lr)
                if id(q) in lim:
                    x = np.clip(x, *lim[id(q)])
                with torch.no_grad():
                    q.copy_(torch.tensor(x).reshape(q.shape))
            for lab, v, b, nm, _ in ps:
                hist.setdefault(lab, []).append(
                    natural(float(v), b, nm))
            nets_.append([q.detach().numpy().copy() for q in every_p])
    with Scratch() as d:
        spec = build(d)
        fd = os.path.join(d, 'train')
        os.mkdir(fd)
        with quiet():
            model, best, best_epoch = training.train_model(
                n_max, spec.data, spec.state, dict(model_directory=fd), lr,
                is_explicit_model_parameters=True, save_every=every, seed=3,
                is_verbose=False)
        got = [float(x) for x in pickle.load(open(os.path.join(
            fd, 'loss_history_record.pkl'), 'rb'))['training_loss_history']]
        t.state((item, len(got)))
        t.check(same(got, losses), 'several:losses',
                f'{item}: losses {got}, expected {losses}', tr)
        h, b = training.read_parameters_history_from_file(
            os.path.join(fd, 'parameters_history_record.pkl'))
        t.check(set(h) == set(hist) and all(
            same(h[k], hist[k]) for k in h), 'several:parameters',
            f'{item}: parameters {h}, expected {hist}', tr)
        ps = explicit(model)
        t.check({k: tuple(float(y) for y in v) for k, v in b.items()} ==
                {p[0]: p[2] for p in ps}, 'several:bounds-record',
                f'{item}: bounds {b}', tr)
        for lab, v, bb, nm, _ in ps:
            t.check(all(bb[0]*(1 - 1e-9) <= float(x) <= bb[1]*(1 + 1e-9)
                        for x in h.get(lab, ())), 'several:bounds',
                    f'{item}: {lab} leaves its bounds: {h.get(lab)}', tr)
        got_p = {k: float(v) for k, v in
                 model.get_detached_model_parameters().items()}
        t.check(set(got_p) == set(hist) and all(
            same([got_p[k]], [hist[k][-1]]) for k in hist),
            'several:returned', f'{item}: returned {got_p}', tr)
        p, _ = training.read_best_parameters_from_file(
            os.path.join(fd, 'parameters_best.pkl'))
        k = got.index(min(got))
        t.check(best_epoch == k and float(best) == min(got) and
                set(p) == set(hist) and all(
                    same([float(p[q])], [hist[q][k]]) for q in hist),
                'several:best', f'{item}: best {best} of epoch {best_epoch}: '
                f'{p}; losses {got}', tr)
        # states of every material
        want = {k for k in range(n_max + 1)
                if every is not None and k % every == 0} | {n_max}
        i0 = 0
        for m in model.get_material_models().values():
            own = list(m.parameters())
            sel = slice(i0, i0 + len(own))
            i0 += len(own)
            for k in sorted(want) + ['best']:
                e = load_model_state(m, model_load_state=k,
                                     is_remove_posterior=False)
                ref = nets_[e if e is not None else 0][sel]
                t.check((e == k or (k == 'best' and got[e] == min(got)))
                        and all(same(q.detach().numpy().reshape(-1),
                                     w.reshape(-1))
                                for q, w in zip(own, ref)),
                        'several:state', f'{item}: state {k} of '
                        f'{m.model_name} is not that of epoch {e}', tr)
        t.transition(n_max + 1)


def constrained(item, t):
    """Yield surface convexity after every epoch (plain and in a hybrid)."""
    t.trace()
    hyb, start, lr, norm, n_max = item
    tr = dict(item=[str(x) for x in item])
    mesh = sp.MESHES['quad4']
    u = 3.0*sp.history(mesh, 'ab')
    bc = bc_of(mesh, 'some', 'pointwise')
    learn = {'yield_c_s0': (-4.0, 3.0), 'yield_d_s0': (-2.5, 2.5),
             'E': (80e3, 120e3)}
    vals = dict(zip(learn, start + (100e3,)))
    base = 'lou_zhang_yoon_vmap'
    with Scratch() as d:
        md = os.path.join(d, 'm')
        os.mkdir(md)
        kw = dict(learnable={k: {'initial_value': v, 'bounds': learn[k]}
                             for k, v in vals.items()},
                  save=False, is_check_su_fail=False,
                  is_normalized_parameters=norm)

        class Spec(Specimen):
            def add(self, st, mat, ids, etypes, md_):
                if hyb:
                    parts = {k: nets.rc(md, base if k != 'e' else
                                        'von_mises_vmap', 1, name=k, **(
                                            kw if k != 'e' else
                                            dict(save=False)))
                             for k in ('e', 'a', 'b')}
                    st.init_elements_model(
                        'hybrid_material_model', {}, ids, etypes, dict(
                            n_features_in=3, n_features_out=3,
                            hyb_models_dict={
                                k: {'hyb_model': m, 'hyb_indices': (c, 0),
                                    'is_input_residual': False}
                                for c, (k, m) in enumerate(parts.items())},
                            hybridization_type='additive',
                            model_directory=md, is_model_in_normalized=False,
                            is_model_out_normalized=False, device_type='cpu'))
                else:
                    st.init_elements_model(
                        'rc_' + base, mats.parameters(plain(base)), ids,
                        etypes, dict(
                            n_features_in=3, n_features_out=3,
                            learnable_parameters=kw['learnable'],
                            material_model_name=base, state_features_out={},
                            is_auto_sync_parameters=True,
                            is_check_su_fail=False, model_directory=md,
                            is_normalized_parameters=norm,
                            is_model_in_normalized=False,
                            is_model_out_normalized=False, device_type='cpu'))
        spec = Spec(d, mesh, 'x', u, np.zeros_like(u), bc)
        fd = os.path.join(d, 'train')
        os.mkdir(fd)
        with quiet():
            model, _, _ = training.train_model(
                n_max, spec.data, spec.state, dict(model_directory=fd), lr,
                is_explicit_model_parameters=True, seed=3, is_verbose=False)
        h, _ = training.read_parameters_history_from_file(
            os.path.join(fd, 'parameters_history_record.pkl'))
        now = {k: float(v) for k, v in
               model.get_detached_model_parameters().items()}
        t.state((item, tuple(sorted(now))))
        for pre in ('model_1_a_', 'model_1_b_') if hyb else ('model_1_',):
            n = 0
            for k, (c, dd) in enumerate(zip(h[pre + 'yield_c_s0'],
                                            h[pre + 'yield_d_s0'])):
                t.transition()
                n += 1
                t.check(-4.0 <= c <= 3.0 and -2.5 <= dd <= 2.5 and
                        mats.lou_convex(float(c), float(dd)) > -5e-2,
                        'constraint', f'{item}: {pre} yield surface '
                        f'({c}, {dd}) of epoch {k} is not convex '
                        f'({mats.lou_convex(float(c), float(dd))})', tr)
            t.check(n == n_max + 1 and all(
                float(h[pre + q][-1]) == now[pre + q] for q in learn),
                'constraint', f'{item}: parameters {now}, recorded {h}', tr)


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    items = []
    VM, DP = 'von_mises_vmap', 'drucker_prager_vmap'

    def add(base=VM, word='ab', kind='pointwise', norm=True, bnds='wide',
            start=(), n_max=2, lr=0.05, sched=None, stop=None, every=None,
            opts=()):
        items.append(('run', base, word, kind, norm, bnds,
                      tuple(dict(start).items()), n_max, lr, sched, stop,
                      every, tuple(dict(opts).items())))
    N = 5 if THOROUGH else 4
    # number of epochs, stored epochs and schedulers
    for n_max, every, sched in itertools.product(
            range(N), (None, 1, 2, 3), SCHED):
        add(n_max=n_max, every=every, sched=sched)
    # step sizes from stagnation to overshoot, bounds, starting points
    for lr, bnds, norm, base in itertools.product(
            (1e-4, 0.1, 0.6, 1.7), ('wide', 'tight'), (True, False),
            (VM, DP) if THOROUGH else (VM,)):
        for start in ((), (('E', 0.975),), (('E', 1.5), ('s0', 0.8))):
            add(base=base, bnds=bnds, norm=norm, start=start, n_max=4,
                lr=lr if norm else 2e3*lr)
    # loss options
    for kind, opts in itertools.product(
            ('pointwise', 'dirichlet_sets'),
            (dict(), dict(factor=1), dict(weights=1),
             dict(factor=1, weights=1))):
        add(kind=kind, opts=opts, every=1)
    words = ['a', 'ba', 'abc'] + (['abac', 'cab'] if THOROUGH else [])
    for base, word in itertools.product((VM, DP), words):
        add(base=base, word=word)
    # stopping by parameters convergence
    for tol, trig, mn, lr in itertools.product(
            (1e-3, 0.02, 0.5), (1, 2), (0, 3), (0.005, 0.1)):
        add(stop=(tol, trig, mn), lr=lr, n_max=4, sched='explr')
    for mat, every, lr in itertools.product(
            ('gru:min-max', 'gru:plain', 'hyb:plain'), (None, 1),
            (1e-3, 0.05)):
        items.append(('net', mat, 3, every, lr))
    for m, mesh, lr, every in itertools.product(
            ('hyb2:nn', 'hyb2:np', 'hyb2:pn', 'hyb2:pp', 'hyb:plain'),
            ('quad4', 'tri3x2'), (0.05, 0.9, 2e3), (None, 1, 2)):
        items.append(('several', (m,), mesh, 4 if THOROUGH else 3, every,
                      lr))
    for hyb, start, lr, norm in itertools.product(
            (False, True), ((0.0, 0.0), (2.5, 2.0), (-3.5, 1.0)),
            (0.05, 0.9), (True, False)):
        items.append(('constrained', hyb, start, lr, norm,
                      3 if THOROUGH else 2))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('finder training', main)
chk.finish()
