"""C08: the consistent tangent is the derivative of the stress."""
import _path  # noqa
import copy
from mc.core import Check, THOROUGH
import numpy as np
import torch
from mc import mats, plast
from mc.increments import LETTERS, inc_tensor

chk = Check('C08')


def embed(a, pt):
    out = np.zeros((3, 3))
    n = 2 if pt == 1 else 3
    out[:n, :n] = a
    return out


def derivative(ref, old, inc, pt):
    """Derivative of the exact stress in Kelvin components; None where the
    response has a kink."""
    o = plast.order(pt)
    out = np.zeros((len(o), len(o)))
    s0, branch = plast.solve(ref, old, inc)
    h = 2e-7
    for b in range(len(o)):
        d = np.zeros(len(o))
        d[b] = h
        D = plast.from_mf(d, pt)
        r = [plast.solve(ref, old, inc + q*D) for q in (1, -1)]
        if {x[1] for x in r} != {branch}:
            return None, branch, s0
        f = [(plast.to_mf(r[0][0], pt) - plast.to_mf(s0, pt))/h,
             (plast.to_mf(s0, pt) - plast.to_mf(r[1][0], pt))/h]
        if np.abs(f[0] - f[1]).max() > 2e-3*ref.G:
            return None, branch, s0
        out[:, b] = 0.5*(f[0] + f[1])
    return out, branch, s0


def search(item, t):
    name, pt, kw, letters, depth = item
    torch.set_default_dtype(torch.float64)
    par = mats.parameters(name, **{k: v for k, v in kw.items()
                                   if k != 'set'})
    par.update(kw.get('set', {}))
    model = mats.model_class(name)('infinitesimal', pt, par)
    ref = plast.Reference(name, copy.deepcopy(par),
                          kw.get('hard', 'nadai_ludwik'),
                          kw.get('kin', 'linear'))
    frontier = [((), model.state_init())]
    for d in range(depth):
        nxt = []
        for word, st in frontier:
            old = plast.view(st, pt)
            for c in letters:
                w = word + (c,)
                inc = inc_tensor(c, pt)
                rep = dict(model=name, problem_type=pt, par=str(kw), word=w)
                new, tan = model.state_update(inc, st)
                t.transition()
                v = plast.view(new, pt)
                if v['is_su_fail']:
                    t.count('failed_updates')
                    continue
                nxt.append((w, new))
                t.state((name, pt, str(kw), w))
                want, branch, s = derivative(ref, old, embed(
                    plast.arr(inc), pt), pt)
                sc = 1.0 + np.abs(s).max()
                if np.abs(v['stress'] - s).max() > 1e-5*sc:
                    t.fail(f'{name}:stress', f'{v["stress"]} expected {s}',
                           rep)
                    continue
                if want is None:
                    t.count('kinks')
                    continue
                t.count(branch)
                got = plast.arr(tan)
                if got.shape != want.shape:
                    t.fail(f'{name}:shape', f'{got.shape}', rep)
                    continue
                err = np.abs(got - want).max()
                if not err <= 2e-4*(ref.G + ref.K):
                    i = np.unravel_index(np.argmax(np.abs(got - want)),
                                         got.shape)
                    t.fail(f'{name}:{branch}', f'tangent component {i} is '
                           f'{got[i]:.6g}, the derivative of the stress is '
                           f'{want[i]:.6g}', rep)
                t.trace()
        frontier = nxt
    t.sample(dict(model=name, problem_type=pt))


def items():
    out = []
    full = 'UuSQHCGgBsZ'
    d = 3 if THOROUGH else 2
    dp = dict(set={'flow_pressure_parameter': torch.tensor(
        0.12, dtype=torch.float64)})
    for pt in (1, 4):
        out.append(('elastic', pt, {}, full, 1))
        for hard in ('linear', 'perfect', 'nadai_ludwik',
                     'piecewise_linear'):
            for n in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
                out.append((n, pt, dict(hard=hard), full, d))
                out.append((n + '_vmap', pt, dict(hard=hard),
                            'USHGBs', d))
        for n in ('von_mises_mixed', 'von_mises_mixed_vmap'):
            out.append((n, pt, dict(kin='nadai_ludwik'), full, d))
        for n in ('drucker_prager', 'drucker_prager_vmap'):
            out.append((n, pt, dp, full, d))
        for n in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
            out.append((n, pt, dict(unit=1e-3), 'USHGBs', d))
            out.append((n + '_vmap', pt, dict(unit=1e-3), 'USGB', d))
    return out


def main(chk):
    its = items()
    chk.pmap(search, sorted(its, key=lambda o: -len(o[3])**o[4]
                            * (3 if 'vmap' in o[0] else 1)))


chk.run('search', main)
chk.extra['alphabet'] = sorted(LETTERS)
chk.assumptions += [
    'compared away from the kinks of the response (yield onset, hardening '
    'break points, cone-apex transition), where no derivative exists; '
    'counted as "kinks"']
chk.finish()
