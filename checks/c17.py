"""C17: learnable material parameters: bounds, constraints, sync, files."""
import _path  # noqa
import functools
import itertools
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from mc import mats
from mc.recurrent import ORDER, Oracle, apply_values, batch_of, build
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.procedures.model_state_files import \
    load_model_state, save_model_state

chk = Check('C17')
WORDS = [('U', 'G')]
# learnable parameters: bounds and levels (below, inside, above)
PARS = {
    'elastic': {'E': (5e4, 2e5), 'v': (0.1, 0.4)},
    'von_mises': {'s0': (300.0, 700.0), 'E': (5e4, 2e5)},
    'von_mises:2': {'a': (100.0, 900.0), 'b': (0.2, 0.9)},
    'von_mises_vmap': {'v': (0.1, 0.4), 's0': (300.0, 700.0)},
    'von_mises_mixed': {'kin_a': (100.0, 2000.0), 's0': (300.0, 700.0)},
    'von_mises_mixed_vmap': {'kin_a': (100.0, 2000.0), 'b': (0.2, 0.9)},
    'drucker_prager': {'friction_angle': (0.05, 0.4), 's0': (300.0, 700.0)},
    'drucker_prager:2': {'yield_pressure_parameter': (0.1, 0.6),
                         'flow_pressure_parameter': (0.05, 0.5)},
    'drucker_prager_vmap': {'friction_angle': (0.05, 0.4),
                            'yield_cohesion_parameter': (0.8, 1.2)},
    'lou_zhang_yoon': {'yield_c_s0': (-4.0, 3.0), 'yield_d_s0': (-2.5, 2.5)},
    'lou_zhang_yoon:2': {'yield_b_s0': (0.0, 0.2), 'yield_a_s0': (0.9, 1.1)},
    'lou_zhang_yoon_vmap': {'yield_c_s0': (-4.0, 3.0),
                            'yield_d_s0': (-2.5, 2.5)},
}


# every parameter a material can learn, on its own
ONE = {'E': (5e4, 2e5), 'v': (0.1, 0.4), 's0': (300.0, 700.0),
       'a': (100.0, 900.0), 'b': (0.2, 0.9), 'kin_s0': (0.0, 50.0),
       'kin_a': (100.0, 900.0), 'kin_b': (0.2, 0.9),
       'yield_cohesion_parameter': (0.8, 1.2),
       'yield_pressure_parameter': (0.1, 0.6),
       'flow_pressure_parameter': (0.05, 0.5), 'friction_angle': (0.05, 0.4)}
for k, lo, hi in (('a', 0.9, 1.1), ('b', 0.0, 0.2), ('c', 0.5, 1.5),
                  ('d', -0.5, 0.5)):
    ONE.update({f'yield_{k}_s0': (lo, hi), f'yield_{k}_a': (0.0, 0.4),
                f'yield_{k}_b': (0.3, 0.8)})
EACH = []
for base, ps in (
        ('elastic', ('E', 'v')),
        ('von_mises', ('E', 'v', 's0', 'a', 'b')),
        ('von_mises_mixed', ('E', 'v', 's0', 'a', 'b', 'kin_s0', 'kin_a',
                             'kin_b')),
        ('drucker_prager', ('E', 'v', 's0', 'a', 'b', 'friction_angle')
         + tuple(k for k in ONE if k.endswith('_parameter'))),
        ('lou_zhang_yoon', ('E', 'v', 's0', 'a', 'b')
         + tuple(k for k in ONE if k[5:6] == '_' and k[7:8] == '_'))):
    for v in ('', '_vmap') if base != 'elastic' else ('',):
        EACH += [(base + v, p) for p in ps]


def levels(p, lo, hi):
    w = hi - lo
    out = [lo - 0.02*w, lo + 0.3*w, hi + 0.03*w]
    if p in ('yield_c_s0', 'yield_d_s0'):
        # inside the convex domain, outside of it in several directions
        out = [lo - 0.1*w, 0.3, hi + 0.1*w, lo + 0.05*w]
    return out


def lookup(par, base, p):
    """Value of a parameter in the material's parameters."""
    if p in ('s0', 'a', 'b'):
        v = par['hardening_parameters'][p]
    elif p.startswith('kin_'):
        v = par['kinematic_hardening_parameters'][p[4:]]
    elif p.startswith('yield_') and base == 'lou_zhang_yoon':
        v = par[f'{p[6]}_hardening_parameters'][p[8:]]
    else:
        v = par[p]
    return float(v)


convex = mats.lou_convex


@functools.lru_cache(None)
def boundary(th):
    lo, hi = 0.0, 5.0
    for _ in range(30):
        r = 0.5*(lo + hi)
        if convex(r*np.cos(th), r*np.sin(th)) >= 0:
            lo = r
        else:
            hi = r
    return lo


class Run:

    def __init__(self, key, norm, auto, d, t):
        self.key, self.norm, self.auto, self.d, self.t = key, norm, auto, d, t
        self.name = key.split(':')[0]
        self.base = self.name.replace('_vmap', '')
        self.bounds = PARS[key] if key in PARS else \
            {key.split(':')[1]: ONE[key.split(':')[1]]}
        mat = {'kin': 'nadai_ludwik'} if key.endswith(':kin_b') else {}
        self.mat = tuple(mat.items())
        self.values = {p: lo + 0.6*(hi - lo) for p, (lo, hi)
                       in self.bounds.items()}
        if len(self.values) == 2 and 'yield_c_s0' in self.values:
            self.values = {'yield_c_s0': 0.9, 'yield_d_s0': 0.2}
        self.synced = {}
        self.m = build(self.name, 1, self.values, d, ('e_strain_mf',), norm,
                       auto, False, self.bounds, True, **mat)
        self.tol = 4e-6 if self.name.endswith('_vmap') else 1e-8

    def raw(self, p, v):
        lo, hi = self.bounds[p]
        return -1.0 + 2.0*(v - lo)/(hi - lo) if self.norm else v

    def set(self, p, v):
        with torch.no_grad():
            self.m.get_model_parameters()[p].fill_(self.raw(p, v))
        self.values[p] = v

    def op(self, op):
        m = self.m
        if op[0] == 'set':
            self.set(op[1], op[2])
        elif op[0] == 'bounds':
            m.enforce_parameters_bounds()
            for p, (lo, hi) in self.bounds.items():
                self.values[p] = min(max(self.values[p], lo), hi)
            for p, v in m.get_detached_model_parameters().items():
                lo, hi = self.bounds[p]
                e = 1e-9*(abs(lo) + abs(hi))
                if not lo - e <= v <= hi + e:
                    return 'bounds', f'{p} = {v} outside {lo}, {hi}'
        elif op[0] == 'constraints':
            m.enforce_parameters_constraints()
            if len(self.values) == 2 and 'yield_c_s0' in self.values:
                return self.constrained()
        elif op[0] == 'sync':
            m.sync_material_model_parameters()
            self.synced = dict(self.values)
        elif op[0] == 'forward':
            if self.auto:
                self.synced = dict(self.values)
            y = m(batch_of(WORDS, 1)).detach().numpy()
            want = expected(self.base, tuple(sorted(self.synced.items())),
                            self.mat)
            self.t.trace()
            if want is not None:
                bad = np.abs(y[:, 0] - want).max()
                if not bad <= self.tol*1e3:
                    return 'prediction', f'differs by {bad}'
        elif op[0] == 'reload':
            m.save_model_init_file()
            save_model_state(m)
            new = RecurrentConstitutiveModel.init_model_from_file(self.d)
            load_model_state(new)
            self.m = new
            if new.model_name != m.model_name or \
                    new.model_directory != m.model_directory:
                return 'reload', 'name or directory differ'
        return self.look()

    def constrained(self):
        c, d = self.values['yield_c_s0'], self.values['yield_d_s0']
        got = self.m.get_detached_model_parameters()
        gc, gd = got['yield_c_s0'], got['yield_d_s0']
        mg = convex(c, d)
        if mg > 1e-3:
            wc, wd = c, d
        else:
            r = boundary(float(np.arctan2(d, c)))
            wc, wd = r*np.cos(np.arctan2(d, c)), r*np.sin(np.arctan2(d, c))
            if mg > -1e-3 and abs(gc - c) + abs(gd - d) < 1e-9:
                wc, wd = gc, gd
        if abs(gc - wc) + abs(gd - wd) > 2e-2:
            return 'convexity', (f'({c}, {d}) becomes ({gc}, {gd}) expected '
                                 f'({wc}, {wd})')
        self.values.update(yield_c_s0=gc, yield_d_s0=gd)
        return self.look()

    def look(self):
        m = self.m
        got = m.get_detached_model_parameters(is_normalized_out=False)
        raws = {p: float(v) for p, v in m.get_model_parameters().items()}
        if set(got) != set(self.values) or set(raws) != set(self.values):
            return 'names', f'{sorted(got)} {sorted(raws)}'
        if m.get_model_parameters_bounds() != self.bounds:
            return 'bounds', f'{m.get_model_parameters_bounds()}'
        for p, v in self.values.items():
            lo, hi = self.bounds[p]
            e = 1e-9*(abs(lo) + abs(hi))
            if abs(got[p] - v) > e:
                return 'value', f'{p} is {got[p]} expected {v}'
            if abs(raws[p] - self.raw(p, v)) > e:
                return 'raw', f'{p} is {raws[p]} expected {self.raw(p, v)}'
        par = m.get_material_model_parameters()
        for p, v in self.synced.items():
            lo, hi = self.bounds[p]
            if abs(lookup(par, self.base, p) - v) > 1e-9*(abs(lo) + abs(hi)):
                return 'sync', (f'material uses {p} = '
                                f'{lookup(par, self.base, p)} expected {v}')
        if 'friction_angle' in self.synced and not any(
                p.endswith('_parameter') for p in self.synced):
            f = self.synced['friction_angle']
            for p, v in (('yield_cohesion_parameter', 2/3**0.5*np.cos(f)),
                         ('yield_pressure_parameter', 3**0.5*np.sin(f)),
                         ('flow_pressure_parameter', 3**0.5*np.sin(f))):
                if abs(lookup(par, self.base, p) - v) > 1e-9:
                    return 'friction', p
        return None


@functools.lru_cache(None)
def expected(base, values, mat=()):
    r = Oracle(base, 1, dict(values), **dict(mat))
    if not r.ok(WORDS[0]):
        return None
    return r.path(WORDS[0], ('e_strain_mf',))


def histories(item, t):
    key, norm, auto, depth, first = item
    torch.set_default_dtype(torch.float64)
    ops = alphabet(key)
    with Scratch() as d:
        for w in itertools.product(ops, repeat=depth - 1):
            word = (first,) + w
            r = Run(key, norm, auto, d, t)
            for k, op in enumerate(word):
                t.transition()
                msg = r.op(op)
                if msg:
                    t.fail(f'{r.base}:{msg[0]}', msg[1],
                           dict(model=key, normalized=norm, auto_sync=auto,
                                word=word[:k + 1]))
                    return
                t.state((key, norm, auto,
                         tuple(sorted(r.values.items())),
                         tuple(sorted(r.synced.items()))))


def each(item, t):
    """Every parameter of every material on its own."""
    key, norm, auto = item
    torch.set_default_dtype(torch.float64)
    (p, (lo, hi)), = [(key.split(':')[1], ONE[key.split(':')[1]])]
    with Scratch() as d:
        for v in (lo, lo + 0.3*(hi - lo), hi + 0.05*(hi - lo)):
            for word in ((('set', p, v), ('bounds',), ('sync',),
                          ('forward',)),
                         (('sync',), ('set', p, v), ('bounds',), ('reload',),
                          ('sync',), ('forward',))):
                r = Run(key, norm, auto, d, t)
                for k, op in enumerate(word):
                    t.transition()
                    msg = r.op(op)
                    if msg:
                        t.fail(f'{r.base}:{p}:{msg[0]}', msg[1],
                               dict(model=key, normalized=norm,
                                    auto_sync=auto, word=word[:k + 1]))
                        return
                    t.state((key, norm, auto,
                             tuple(sorted(r.values.items())),
                             tuple(sorted(r.synced.items()))))


def alphabet(key):
    out = [('set', p, v) for p, (lo, hi) in PARS[key].items()
           for v in levels(p, lo, hi)]
    out += [('bounds',), ('forward',), ('reload',), ('sync',)]
    if 'yield_c_s0' in PARS[key]:
        out += [('constraints',)]
    return out


def transform(chk):
    """Normalisation for many bounds and values."""
    torch.set_default_dtype(torch.float64)
    grid = (-3.0, -0.5, 0.0, 1e-4, 2.0, 1e5)
    with Scratch() as d:
        for lo, hi in itertools.product(grid, repeat=2):
            kw = dict(d=d, norm=True, bounds={'E': (lo, hi)})
            if hi < lo:
                try:
                    build('elastic', 1, {'E': lo}, **kw)
                    chk.fail('accepted', f'bounds {lo}, {hi}', {})
                except RuntimeError:
                    pass
                continue
            if hi == lo:
                continue
            m = build('elastic', 1, {'E': lo}, **kw)
            if m.get_model_parameters_norm_bounds() != {'E': (-1.0, 1.0)}:
                chk.fail('norm-bounds', 'not -1, 1', {})
            for f, tens in itertools.product(
                    (0.0, 0.1, 0.5, 0.8, 1.0, -0.5, 1.7), (False, True)):
                v = lo + f*(hi - lo)
                x = torch.tensor(v) if tens else v
                chk.state((lo, hi, f, tens))
                n = float(m.transform_parameter('E', x, 'normalize'))
                b = float(m.transform_parameter(
                    'E', torch.tensor(n) if tens else n, 'denormalize'))
                chk.transition()
                if abs(n - (2*f - 1)) > 1e-9*(1 + abs(lo)/(hi - lo)) or \
                        abs(b - v) > 1e-9*(abs(lo) + abs(hi)):
                    chk.fail('transform', f'{v} in {lo}, {hi} gives {n}, '
                             f'{b}', dict(bounds=(lo, hi), value=v))
                # as initial value
                m2 = build('elastic', 1, {'E': v}, **kw)
                if abs(m2.get_detached_model_parameters()['E'] - v) > \
                        1e-9*(abs(lo) + abs(hi)) or \
                        abs(float(m2.get_model_parameters()['E']) - n) > 1e-9:
                    chk.fail('initial', f'initial value {v}',
                             dict(bounds=(lo, hi), value=v))
                chk.trace()


def settings(item, t):
    """Settings survive saving and loading."""
    auto, check, norm, feats, name, pt = item
    torch.set_default_dtype(torch.float64)
    with Scratch() as d:
        vals = {'E': 9e4, 's0': 400.0}
        m = build(name, pt, vals, d, feats, norm, auto, check,
                  init_file=True)
        save_model_state(m)
        new = RecurrentConstitutiveModel.init_model_from_file(
            model_directory=d)
        load_model_state(new)
        x = batch_of([('U', 'G'), ('H', 'S')], pt)
        ident = dict(auto_sync=auto, check=check, normalized=norm,
                     features=feats, model=name, problem_type=pt)
        for step in range(3):
            if step == 1:
                for k in (m, new):
                    with torch.no_grad():
                        k.get_model_parameters()['s0'].fill_(
                            0.5 if norm else 333.0)
            if step == 2:
                m.sync_material_model_parameters()
                new.sync_material_model_parameters()
            t.transition()
            t.state(item + (step,))
            t.trace()
            if not torch.equal(m(x), new(x)):
                t.fail('settings', 'prediction differs after loading',
                       dict(ident, step=step))
                return
        x[1, 0] = float('nan')
        res = []
        for k in (m, new):
            try:
                res.append(torch.isnan(k(x)).tolist())
            except RuntimeError:
                res.append('raised')
        if res[0] != res[1]:
            t.fail('settings-failure', 'failed updates are treated '
                   'differently after loading', ident)


def freeze(chk):
    torch.set_default_dtype(torch.float64)
    with Scratch() as d:
        m = build('von_mises', 1, {'E': 9e4, 's0': 400.0, 'v': 0.2}, d)
        for p in ('s0', 'E'):
            m.freeze_parameter(p)
            m.zero_grad()
            m(batch_of(WORDS, 1)).sum().backward()
            chk.transition()
            grads = {k: v.grad is not None and float(v.grad) != 0.0
                     for k, v in m.get_model_parameters().items()}
            want = {'s0': False, 'E': p != 'E', 'v': True}
            if grads != want:
                chk.fail('freeze', f'after freezing {p}: gradients {grads}',
                         {})
        try:
            m.freeze_parameter('zzz')
            chk.fail('freeze-unknown', 'unknown parameter accepted', {})
        except RuntimeError:
            pass
        for bad in ('kin_a', 'yield_c_s0', 'friction_angle', 'zzz'):
            k = build('von_mises', 1, {bad: 1.0}, d)
            try:
                k(batch_of(WORDS, 1))
                chk.fail('unknown-parameter', bad, {})
            except RuntimeError:
                pass


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    transform(chk)
    freeze(chk)
    items = []
    for key in PARS:
        for norm, auto in itertools.product((True, False), repeat=2):
            lou = 'lou' in key
            depth = 2 if lou else 3
            if THOROUGH and not lou:
                depth = 4 if norm and not key.endswith('vmap') else 3
            elif THOROUGH and norm:
                depth = 3
            elif not THOROUGH and norm != auto and not lou:
                depth = 2
            elif not THOROUGH and lou and not norm:
                continue
            for op in alphabet(key):
                items.append(('histories', key, norm, auto, depth, op))
    for it in itertools.product((True, False), (True, False), (True, False),
                                ((), ('e_strain_mf',)),
                                ('von_mises', 'drucker_prager_vmap'), (1, 4)):
        items.append(('settings',) + it)
    for name, p in EACH:
        for norm, auto in ((True, True), (False, False)):
            if THOROUGH or 'lou' not in name or norm:
                items.append(('each', f'{name}:{p}', norm, auto))
    items.sort(key=lambda i: 'lou' not in str(i[1]))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('parameters', main)
chk.finish()
