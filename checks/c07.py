"""C07: admissibility of every reached material state (explicit-state search
of the real constitutive updates)."""
import _path  # noqa
import copy
import itertools
from mc.core import Check, THOROUGH
import numpy as np
import torch
from mc import mats, plast
from mc.increments import LETTERS, inc_tensor

chk = Check('C07')

F32 = dict(yield_=3e-5, stress=3e-6, strain=3e-6, flow=3e-4, band=3e-4)


def same(a, b):
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and bool(
            torch.all((a == b) | (torch.isnan(a) & torch.isnan(b))
                      if a.is_floating_point() else a == b))
    return a == b


def same_state(a, b):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def key(st):
    return tuple(sorted((k, tuple(np.round(
        plast.arr(v).reshape(-1)*1e9, 0).tolist())
                         if isinstance(v, torch.Tensor) else v)
                        for k, v in st.items()))


def below_apex(ref, old, inc, new):
    """Apex return from a trial pressure just below the apex pressure."""
    a, b = ref.lou_abcd(old['acc'])[:2]
    p = np.trace(ref.elastic(old['e_strain'] + inc))/3
    ratio = p*3*a*b/ref.hard(old['acc'])
    return 0.95 <= ratio <= 1.0 and \
        np.abs(plast.dev(new['stress'])).max() < 1e-3


def search(item, t):
    name, pt, kw, dtype, letters, depth, su64 = item
    torch.set_default_dtype(dtype)
    try:
        _search(name, pt, kw, dtype, letters, depth, su64, t)
    finally:
        torch.set_default_dtype(torch.float32)


def _search(name, pt, kw, dtype, letters, depth, su64, t):
    extra = {'is_su_float64': False} if not su64 else {}
    par = mats.parameters(name, **{k: v for k, v in kw.items()
                                   if k != 'set'})
    for k, v in kw.get('set', {}).items():
        par[k] = v
    model = mats.model_class(name)('infinitesimal', pt, par, **extra)
    ref = plast.Reference(name, copy.deepcopy(par), kw.get('hard', 'nadai_ludwik'),
                          kw.get('kin', 'linear'))
    tol = F32 if dtype == torch.float32 else None
    tag = f'{name}'
    init = model.state_init()
    bad = [k for k, v in init.items() if bool(torch.as_tensor(v).any())]
    t.check(not bad, f'{name}:initial-state-not-zero',
             f'the state of the virgin material is not zero: {bad}',
             dict(model=name, problem_type=pt, variables=bad))
    frontier = [((), init)]
    edges = []
    seen = set()
    for d in range(depth):
        nxt = []
        for word, st in frontier:
            old = plast.view(st, pt)
            for c in letters:
                w = word + (c,)
                inc = inc_tensor(c, pt).to(dtype)
                inc_in, st_in = inc.clone(), {
                    k: v.clone() if isinstance(v, torch.Tensor) else v
                    for k, v in st.items()}
                rep = dict(model=name, problem_type=pt, par=str(kw),
                           dtype=str(dtype), word=w)
                new, tangent = model.state_update(inc, st)
                t.transition()
                if torch.get_default_dtype() != dtype:
                    t.fail(f'{tag}:dtype', 'default floating-point precision '
                           'changed by the update', rep)
                    torch.set_default_dtype(dtype)
                if not same(inc, inc_in) or not same_state(st, st_in):
                    t.fail(f'{tag}:pure', 'the update modifies the increment '
                           'or the last converged state', rep)
                    st = st_in
                if set(new) != set(init):
                    t.fail(f'{tag}:keys', f'state variables {sorted(new)}',
                           rep)
                wrong = [k for k, v in new.items()
                         if isinstance(v, torch.Tensor)
                         and v.is_floating_point() and v.dtype != dtype]
                if wrong:
                    t.fail(f'{tag}:precision', f'{wrong} not {dtype}', rep)
                v = plast.view(new, pt)
                inc3 = np.zeros((3, 3))
                n = inc.shape[0]
                inc3[:n, :n] = plast.arr(inc)
                for what, msg in plast.check_update(ref, old, inc3, v, tol):
                    apex = what == 'acc-decreases' and \
                        name.startswith('lou') and \
                        below_apex(ref, old, inc3, v)
                    t.fail(f'{tag}:{what}' + (
                        ':apex-return-below-apex' if apex else ''),
                           msg, rep)
                if c == 'Z' and not v['is_su_fail']:
                    zs = {'elastic': ('e_strain', 'stress', 'strain')}.get(
                        name, ('e_strain', 'stress', 'strain', 'acc'))
                    sc = {'stress': 1.0 + np.abs(old['stress']).max()}
                    for k in zs:
                        if np.abs(v[k] - old[k]).max() > (
                                1e-5 if tol else 2e-8)*sc.get(k, 0.1):
                            t.fail(f'{tag}:zero-increment', f'{k} changes '
                                   f'from {old[k]} to {v[k]}', rep)
                edges.append((w, inc_in, st_in, new, tangent))
                if v['is_su_fail']:
                    t.count('failed_updates')
                    t.check(name.startswith('lou') and set(w) & set('BHX'),
                            f'{tag}:not-converged', f'the update by a '
                            f'moderate increment fails at {w}', rep)
                    continue
                t.count('plastic' if v['is_plast'] else 'elastic')
                k = key(new)
                if k in seen:
                    t.count('revisited')
                    continue
                seen.add(k)
                t.state((name, pt, str(kw), str(dtype), k))
                nxt.append((w, new))
        frontier = nxt
    # the update depends on nothing but its arguments
    for w, inc, st, new, tangent in reversed(edges):
        again, tangent2 = model.state_update(inc, st)
        t.trace()
        rep = dict(model=name, problem_type=pt, par=str(kw),
                   dtype=str(dtype), word=w)
        if not same_state(again, new) or not (
                tangent is None and tangent2 is None
                or same(tangent, tangent2)):
            t.fail(f'{tag}:function', 'the same update gives a different '
                   'result', rep)
    t.sample(dict(model=name, problem_type=pt, edges=len(edges)))


def roundoff(item, t):
    """Increments that differ in their last digits are updated alike."""
    name, pt, hard = item
    torch.set_default_dtype(torch.float64)
    try:
        par = mats.parameters(name, hard=hard)
        model = mats.model_class(name)('infinitesimal', pt, par)
        slow = name == 'lou_zhang_yoon_vmap' and not THOROUGH
        for word in ('', 'B', 'H', 'HH', 'BH', 'BC', 'G', 'CC')[
                :2 if slow else 8]:
            st = model.state_init()
            for c in word:
                st, _ = model.state_update(inc_tensor(c, pt), st)
                if plast.view(st, pt)['is_su_fail']:
                    st = None
                    break
            if st is None:
                continue
            for c in 'C' if slow else 'CHsZ':
                base = inc_tensor(c, pt)
                want = plast.view(model.state_update(base, st)[0], pt)
                t.state((item, word, c))
                n = base.shape[0]
                for sg in itertools.product((-1, 0, 1), repeat=n):
                    for mag in (1e-18,) if slow else (1e-18, 4e-18):
                        t.transition()
                        inc = base + mag*torch.diag(torch.tensor(
                            sg, dtype=torch.float64))
                        got = plast.view(model.state_update(inc, st)[0], pt)
                        rep = dict(item=[str(x) for x in item], word=word,
                                   increment=c, signs=sg, by=mag)
                        if not t.check(bool(got['is_su_fail'])
                                       == bool(want['is_su_fail']),
                                       f'{name}:roundoff:failure',
                                       f'{item} {word}+{c}: increment '
                                       f'changed by {sg} times {mag}: failed '
                                       f'{bool(got["is_su_fail"])}', rep):
                            return
                        if want['is_su_fail']:
                            continue
                        a, b = np.asarray(got['stress']), \
                            np.asarray(want['stress'])
                        t.check(np.abs(a - b).max()
                                <= 1e-5*(np.abs(b).max() + 1.0),
                                f'{name}:roundoff:stress',
                                f'{item} {word}+{c} {sg}: stress changes by '
                                f'{np.abs(a - b).max()}', rep)
    finally:
        torch.set_default_dtype(torch.float32)


def items():
    D, S = torch.float64, torch.float32
    full = 'UuSHCGBsXZ'
    few = 'USHGBsZ'
    dp = dict(set={'flow_pressure_parameter': torch.tensor(0.12)})
    out = []
    for pt in (1, 4):
        out.append(('elastic', pt, {}, D, full, 2, True))
        for hard in ('linear', 'perfect', 'nadai_ludwik',
                     'piecewise_linear'):
            out.append(('von_mises', pt, dict(hard=hard), D, full, 3, True))
            out.append(('von_mises_mixed', pt, dict(hard=hard), D, few, 3,
                        True))
            out.append(('drucker_prager', pt, dict(hard=hard), D, full, 3,
                        True))
            out.append(('lou_zhang_yoon', pt, dict(hard=hard), D, few, 2,
                        True))
        out.append(('von_mises_mixed', pt, dict(kin='nadai_ludwik'), D, few, 3,
                    True))
        out.append(('drucker_prager', pt, dp, D, few, 3, True))
        # stresses in GPa and in Pa
        for n in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
            for v in ('', '_vmap'):
                out.append((n + v, pt, dict(unit=1e-3), D, few, 2, True))
                out.append((n + v, pt, dict(unit=1e6, hard='linear'), D, few,
                            2, True))
        out.append(('lou_zhang_yoon', pt, dict(unit=1e-3), D, few, 2, True))
        out.append(('lou_zhang_yoon', pt, dict(
            set={'is_associative_hardening': False}), D, few, 2, True))
        from simulators.fetorch.material.models.standard.hardening import \
            get_hardening_law
        out.append(('lou_zhang_yoon', pt, dict(set={
            'a_hardening_parameters': {'s0': torch.tensor(1.1),
                                       'a': torch.tensor(0.8)},
            'b_hardening_parameters': {'s0': torch.tensor(0.04),
                                       'a': torch.tensor(0.1)},
            'c_hardening_parameters': {'s0': torch.tensor(0.6),
                                       'a': torch.tensor(1.5)},
            'd_hardening_parameters': {'s0': torch.tensor(-0.3),
                                       'a': torch.tensor(2.0)}}), D,
            'USGBsZ', 2, True))
        for name in ('von_mises', 'von_mises_mixed', 'drucker_prager',
                     'lou_zhang_yoon', 'elastic'):
            out.append((name, pt, {}, S, 'UuSGsZ', 2, True))
            if name in ('von_mises', 'drucker_prager'):
                out.append((name, pt, dict(hard='linear'), S, 'UuSGsZ', 2,
                            False))
            if name not in ('elastic', 'lou_zhang_yoon'):
                for hard in ('linear', 'nadai_ludwik', 'piecewise_linear'):
                    out.append((name + '_vmap', pt, dict(hard=hard), D, few,
                                2, True))
                out.append((name + '_vmap', pt, {}, S, 'UuSGsZ', 2, True))
        out.append(('drucker_prager_vmap', pt, dp, D, few, 2, True))
        out.append(('lou_zhang_yoon_vmap', pt, {}, D, 'USHGBs',
                    2 if THOROUGH else 1, True))
    if THOROUGH:
        out = [o[:5] + (o[5] + 1,) + o[6:] for o in out]
    # longest first
    cost = {'lou_zhang_yoon': 15, 'lou_zhang_yoon_vmap': 30}
    return sorted(out, key=lambda o: -cost.get(o[0], 1)*len(o[4])**o[5])


def main(chk):
    chk.pmap(search, items())
    chk.pmap(roundoff, [
        (n + v, pt, h) for n in ('lou_zhang_yoon', 'drucker_prager',
                                 'von_mises', 'von_mises_mixed')
        for v in ('', '_vmap') for pt in (4, 1)
        for h in ('nadai_ludwik',)])


chk.run('search', main)
chk.extra['alphabet'] = sorted(LETTERS)
chk.assumptions += [
    'increments are words over the alphabet; materials are the listed '
    'parameter sets; reference yield and flow conditions hold within the '
    'convergence tolerance of the code (1e-6)']
chk.finish()
