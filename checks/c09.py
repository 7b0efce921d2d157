"""C09: vectorised constitutive models against the per-point ones."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH
import numpy as np
import torch
from mc import mats, plast
from mc.increments import LETTERS, inc_tensor

chk = Check('C09')
DROP = ('is_plast', 'is_su_fail', 'is_apex_return')


def flat(st):
    return {k: plast.arr(v).reshape(-1).astype(float)
            if isinstance(v, torch.Tensor) else np.array([float(v)])
            for k, v in st.items()}


def differ(a, b, pt, ref, unit=1.0):
    """First state variable in which two states differ."""
    if set(a) != set(b):
        return 'variables', f'{sorted(a)} and {sorted(b)}'
    fa, fb = flat(a), flat(b)
    for k in sorted(a):
        x, y = fa[k], fb[k]
        if x.shape != y.shape:
            return k, f'shapes {x.shape} and {y.shape}'
        if k in DROP:
            ok = bool(np.all(x == y))
        elif 'stress' in k:
            sc = 500.0*unit + (np.nanmax(np.abs(x)) if x.size and not
                          np.all(np.isnan(x)) else 0.0)
            ok = np.allclose(x, y, rtol=0, atol=ATOL*sc, equal_nan=True)
        else:
            ok = np.allclose(x, y, rtol=0, atol=ATOL*0.05, equal_nan=True)
        if not ok:
            return k, f'{x.tolist()} and {y.tolist()}'
    return None


ATOL = 4e-6
UNIT = [1.0]         # unit of stress of the material at hand


def search(item, t):
    name, pt, kw, letters, depth = item
    torch.set_default_dtype(torch.float64)
    UNIT[0] = kw.get('unit', 1.0)

    def par(n):
        p = mats.parameters(n, **{k: v for k, v in kw.items()
                                  if k != 'set'})
        p.update(kw.get('set', {}))
        return p
    std = mats.model_class(name)('infinitesimal', pt, par(name))
    vec = mats.model_class(name + '_vmap')('infinitesimal', pt,
                                           par(name + '_vmap'))
    has_tangent = name != 'lou_zhang_yoon'
    # per-point responses of all words, by prefix
    table = {(): (std.state_init(), None)}
    ws = [w for n in range(1, depth + 1)
          for w in itertools.product(letters, repeat=n)]
    failed = set()
    for w in ws:
        prev = table.get(w[:-1])
        if prev is None:
            continue
        st, tan = std.state_update(inc_tensor(w[-1], pt), prev[0])
        t.transition()
        t.state((name, pt, str(kw), w))
        if plast.view(st, pt)['is_su_fail']:
            failed.add(w)
        else:
            table[w] = (st, tan)
        rep = dict(model=name, problem_type=pt, par=str(kw), word=w)
        # same step, evaluated alone by the vectorised model
        if len(w) <= (1 if name == 'lou_zhang_yoon' else depth):
            st2, tan2 = vec.state_update(inc_tensor(w[-1], pt), prev[0])
            t.trace()
            compare(t, name, 'alone', st, tan, st2, tan2, pt, rep,
                    has_tangent, prev[0])
    words = [w for w in itertools.product(letters, repeat=depth)
             if w in table]

    def path(incs):
        st = vec.state_init()
        out = []
        for i in range(depth):
            st, tan = vec.state_update(incs[i], st)
            out.append((st, tan) if has_tangent else (st,))
        return out

    def check(batch, how):
        incs = torch.stack([torch.stack([inc_tensor(c, pt) for c in w])
                            for w in batch])
        res = torch.vmap(path)(incs)
        for b, w in enumerate(batch):
            t.trace()
            for i in range(depth):
                st, tan = table[w[:i + 1]]
                got = {k: v[b] for k, v in res[i][0].items()}
                rep = dict(model=name, problem_type=pt, par=str(kw), word=w,
                           step=i, batch=batch if len(batch) < 10
                           else len(batch))
                compare(t, name, how, st, tan, got, res[i][1][b]
                        if has_tangent else None, pt, rep, has_tangent,
                        table[w[:i]][0])

    check(words, 'batch')
    if name != 'lou_zhang_yoon' or THOROUGH:
        check(words[::-1], 'batch-reversed')
    # every pair of regimes in one batch, in both orders
    reps = {}
    for w in words:
        sig = tuple((v['is_plast'], v['is_apex_return']) for v in (
            plast.view(table[w[:i + 1]][0], pt) for i in range(depth)))
        reps.setdefault(sig, w)
    for a, b in itertools.permutations(list(reps.values())[:6], 2):
        if name == 'lou_zhang_yoon' and not THOROUGH:
            break
        check([a, b], 'pair')
    # failing paths do not disturb the others
    for w in sorted(failed)[:3]:
        if len(w) != 1 or name == 'lou_zhang_yoon':
            continue
        good = words[0]
        incs = torch.stack([torch.stack([inc_tensor(c, pt) for c in
                                         (w*depth)[:depth]]),
                            torch.stack([inc_tensor(c, pt) for c in good])])
        res = torch.vmap(path)(incs)
        t.count('with_failed_neighbour')
        for i in range(depth):
            got = {k: v[1] for k, v in res[i][0].items()}
            st, tan = table[good[:i + 1]]
            compare(t, name, 'neighbour', st, tan, got, res[i][1][1], pt,
                    dict(model=name, failing=w, word=good), has_tangent)
    t.count('failed_updates', len(failed))
    t.sample(dict(model=name, problem_type=pt, batch=len(words),
                  regimes=len(reps)))


def compare(t, name, how, st, tan, st2, tan2, pt, rep, has_tangent,
            prev=None):
    if bool(st2['is_su_fail']) and not bool(st['is_su_fail']) and \
            set(rep['word']) & set('BX') and \
            np.isnan(plast.arr(st2['stress_mf'])).all():
        # the vectorised models stop after fewer iterations; a very large
        # increment may exceed them, which is flagged
        t.count('more_iterations_needed')
        return
    if prev is not None and abs(
            plast.num(st['acc_p_strain'])
            - plast.num(prev['acc_p_strain'])) < 1e-6 and \
            bool(st['is_plast']) != bool(st2['is_plast']):
        # trial state on the yield surface within the tolerance: either
        # branch is right and both give the same state
        t.count('on_the_surface')
        st2 = dict(st2, is_plast=st['is_plast'])
        if has_tangent:
            tan2 = tan
    unit = UNIT[0]
    d = differ(st, st2, pt, None, unit)
    if d is not None:
        t.fail(f'{name}:{how}:{d[0]}', f'{d[0]} is {d[1]}', rep)
    if has_tangent:
        x, y = plast.arr(tan), plast.arr(tan2)
        if x.shape != y.shape or not np.allclose(
                x, y, rtol=0, atol=2e-4*110e3*unit, equal_nan=True):
            t.fail(f'{name}:{how}:tangent', f'{x.tolist()} and '
                   f'{y.tolist()}', rep)


def items():
    out = []
    full = 'UuSHCGBsXZ'
    d = 3 if THOROUGH else 2
    dp = dict(set={'flow_pressure_parameter': torch.tensor(
        0.12, dtype=torch.float64)})
    for pt in (1, 4):
        for hard in ('linear', 'perfect', 'nadai_ludwik',
                     'piecewise_linear'):
            for n in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
                out.append((n, pt, dict(hard=hard), full, d))
        out.append(('von_mises_mixed', pt, dict(kin='nadai_ludwik'), full,
                    d))
        out.append(('drucker_prager', pt, dp, full, d))
        # stresses in GPa and in Pa
        for n in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
            out.append((n, pt, dict(unit=1e-3), full, d))
            out.append((n, pt, dict(unit=1e6, hard='linear'), full, d))
        out.append(('drucker_prager', pt, dict(dp, unit=1e-3,
                                               hard='linear'), full, d))
        out.append(('lou_zhang_yoon', pt, dict(unit=1e-3), 'USHGs', d))
        out.append(('lou_zhang_yoon', pt, {}, 'USHGBsZ', d))
        out.append(('lou_zhang_yoon', pt, dict(hard='linear', set={
            'is_associative_hardening': False}), 'USGB', d))
    return sorted(out, key=lambda o: not o[0].startswith('lou'))


def main(chk):
    chk.pmap(search, items())


chk.run('search', main)
chk.extra['alphabet'] = sorted(LETTERS)
chk.assumptions += ['agreement within the convergence tolerance of the state '
                    'updates (1e-6 of the yield stress)']
chk.finish()
