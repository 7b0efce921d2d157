"""C10: frame invariance and plane strain against three dimensions."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH
import numpy as np
import torch
from mc import mats, plast
from mc.increments import LETTERS

chk = Check('C10')
TENSORS = ('e_strain', 'stress', 'strain', 'back_stress')


def group(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1.0, -1.0), repeat=n):
            Q = np.eye(3)
            Q[:n, :n] = 0
            for i in range(n):
                Q[i, p[i]] = s[i]
            out.append(Q)
    return out


def angles():
    """Rotations about the axes by irregular angles."""
    out = []
    for a, x in itertools.product(range(3), (0.3, 2.0)):
        i, j = [k for k in range(3) if k != a]
        Q = np.eye(3)
        Q[i, i] = Q[j, j] = np.cos(x)
        Q[i, j], Q[j, i] = -np.sin(x), np.sin(x)
        out.append(Q)
    return out


def parts(name, kw):
    par = mats.parameters(name, **{k: v for k, v in kw.items()
                                   if k != 'set'})
    par.update(kw.get('set', {}))
    return par


def run(model, pt, incs):
    """States (plain views) and tangents along a path, up to a failure."""
    n = 2 if pt == 1 else 3
    st = model.state_init()
    out = []
    for e in incs:
        st, tan = model.state_update(torch.tensor(e[:n, :n].copy()), st)
        out.append((plast.view(st, pt), tan))
        if out[-1][0]['is_su_fail']:
            break
    return out


def fourth(tan):
    """Kelvin matrix to a fourth-order tensor."""
    M = plast.arr(tan)
    C = np.zeros((3,)*4)
    for (a, c), (b, d) in itertools.product(enumerate(plast.O3), repeat=2):
        i, j, k, m = (int(x) - 1 for x in c + d)
        v = M[a, b]/(plast.R2 if i != j else 1)/(plast.R2 if k != m else 1)
        for p in {(i, j), (j, i)}:
            for q in {(k, m), (m, k)}:
                C[p + q] = v
    return C


def compare(t, tag, a, b, Q, rep):
    """b must be a rotated by Q."""
    if len(a) != len(b):
        t.fail(f'{tag}:failure', 'one of the two paths fails', rep)
        return
    for i, ((x, tx), (y, ty)) in enumerate(zip(a, b)):
        if x['is_su_fail'] or y['is_su_fail']:
            if x['is_su_fail'] != y['is_su_fail']:
                t.fail(f'{tag}:failure', 'one of the two updates fails', rep)
            return
        for k in TENSORS:
            if k not in x and k not in y:
                continue
            want = Q@x[k]@Q.T
            sc = (500.0 + np.abs(x['stress']).max()) if 'stress' in k \
                else 0.05
            if np.abs(want - y[k]).max() > 3e-6*sc:
                t.fail(f'{tag}:{k}', f'step {i}: {k} {y[k].tolist()} '
                       f'expected {want.tolist()}', rep)
        if abs(x['acc'] - y['acc']) > 1e-7:
            t.fail(f'{tag}:acc', f'step {i}: {y["acc"]} expected '
                   f'{x["acc"]}', rep)
        for k in ('is_plast', 'is_apex_return'):
            if x[k] != y[k]:
                t.fail(f'{tag}:{k}', f'step {i}: {y[k]} expected {x[k]}',
                       rep)


def frame(item, t):
    name, pt, kw, letters, depth, Qs = item
    torch.set_default_dtype(torch.float64)
    model = mats.model_class(name)('infinitesimal', pt, parts(name, kw))
    n = 2 if pt == 1 else 3
    for w in itertools.product(letters, repeat=depth):
        incs = [LETTERS[c].copy() for c in w]
        if pt == 1:
            for e in incs:
                e[2, :] = e[:, 2] = 0.0
        base = run(model, pt, incs)
        t.state((name, pt, str(kw), w))
        for q, Q in enumerate(Qs):
            t.transition(len(w))
            got = run(model, pt, [Q@e@Q.T for e in incs])
            rep = dict(model=name, problem_type=pt, par=str(kw), word=w,
                       Q=Q)
            compare(t, f'{name}:frame', base, got, Q, rep)
            t.trace()
            if n == 3 and base[-1][1] is not None and len(got) == len(base) \
                    and not base[-1][0]['is_su_fail']:
                C = fourth(base[-1][1])
                D = np.einsum('ip,jq,kr,ls,pqrs->ijkl', Q, Q, Q, Q, C)
                if np.abs(D - fourth(got[-1][1])).max() > 2e-4*110e3:
                    t.fail(f'{name}:frame:tangent', 'tangent does not rotate',
                           rep)


def plane(item, t):
    name, kw, letters, depth = item
    torch.set_default_dtype(torch.float64)
    m2 = mats.model_class(name)('infinitesimal', 1, parts(name, kw))
    m3 = mats.model_class(name)('infinitesimal', 4, parts(name, kw))
    idx = [plast.O3.index(c) for c in plast.O2]
    for w in itertools.product(letters, repeat=depth):
        incs = [LETTERS[c].copy() for c in w]
        for e in incs:
            e[2, :] = e[:, 2] = 0.0
        a, b = run(m3, 4, incs), run(m2, 1, incs)
        t.state((name, 'plane', str(kw), w))
        t.transition(2*len(w))
        t.trace()
        rep = dict(model=name, par=str(kw), word=w)
        compare(t, f'{name}:plane', a, b, np.eye(3), rep)
        for (x, tx), (y, ty) in zip(a, b):
            if tx is None or x['is_su_fail'] or y['is_su_fail']:
                continue
            if not np.allclose(plast.arr(tx)[np.ix_(idx, idx)],
                               plast.arr(ty), rtol=0, atol=2e-4*110e3):
                t.fail(f'{name}:plane:tangent', f'{plast.arr(ty)} is not the '
                       f'in-plane part of {plast.arr(tx)}', rep)


def units(item, t):
    """The same history with stresses measured in another unit."""
    name, pt, kw, letters, depth, unit = item
    torch.set_default_dtype(torch.float64)
    m1 = mats.model_class(name)('infinitesimal', pt, parts(name, kw))
    m2 = mats.model_class(name)('infinitesimal', pt,
                                parts(name, dict(kw, unit=unit)))
    for w in itertools.product(letters, repeat=depth):
        incs = [LETTERS[c].copy() for c in w]
        if pt == 1:
            for e in incs:
                e[2, :] = e[:, 2] = 0.0
        a, b = run(m1, pt, incs), run(m2, pt, incs)
        t.state((name, 'unit', unit, pt, str(kw), w))
        t.transition(2*len(w))
        t.trace()
        rep = dict(model=name, problem_type=pt, par=str(kw), word=w,
                   unit=unit)
        tb = [y[1] for y in b]
        b = [({k: v/unit if 'stress' in k else v for k, v in y[0].items()},
              y[1]) for y in b]
        compare(t, f'{name}:units', a, b, np.eye(3), rep)
        for (x, tx), ty in zip(a, tb):
            if tx is None or x['is_su_fail']:
                continue
            if not np.allclose(plast.arr(tx), plast.arr(ty)/unit, rtol=0,
                               atol=2e-4*110e3):
                t.fail(f'{name}:units:tangent', f'{plast.arr(ty)/unit} '
                       f'expected {plast.arr(tx)}', rep)


def main(chk):
    G3, G2 = group(3), group(2)
    A = angles()
    d = 3 if THOROUGH else 2
    its = []
    variants = [('elastic', {}), ('von_mises', {}),
                ('von_mises', dict(hard='linear')), ('von_mises_mixed', {}),
                ('drucker_prager', {}),
                ('drucker_prager', dict(hard='linear', set={
                    'flow_pressure_parameter': torch.tensor(
                        0.12, dtype=torch.float64)}))]
    lou = [('lou_zhang_yoon', dict(hard='linear')),
           ('lou_zhang_yoon', dict(set={'is_associative_hardening':
                                        False}))]
    for name, kw in lou:
        for Q in range(0, 48, 6):
            its.append((name, 4, kw, 'UQG', d - 1, G3[Q:Q + 6]))
        its.append((name, 4, kw, 'QG', d - 1, A))
        its.append((name, 1, kw, 'UGB', d - 1, G2))
    for name, kw in variants:
        for c in range(0, 48, 12):
            its.append((name, 4, kw, 'USQHB', 2, G3[c:c + 12]))
        its.append((name, 4, kw, 'UQHGB', d, A))
        its.append((name, 1, kw, 'USHGBs', d, G2))
    for name in ('von_mises_vmap', 'von_mises_mixed_vmap',
                 'drucker_prager_vmap'):
        its.append((name, 4, {}, 'QHB', d - 1, G3))
        its.append((name, 1, {}, 'USHGB', d - 1, G2))
    chk.pmap(frame, its)
    its = []
    for name, kw in lou:
        its.append((name, kw, 'USGBs', d))
    for name, kw in variants + [('von_mises_vmap', {}),
                                ('von_mises_mixed_vmap', {}),
                                ('drucker_prager_vmap', {})]:
        if name != 'elastic':
            its.append((name, kw, 'USHGBs', d))
        else:
            its.append((name, kw, 'USHG', 1))
    chk.pmap(plane, its)
    its = []
    for unit in (1e-3, 1e6):
        for name, kw in variants + [('von_mises_vmap', {}),
                                    ('von_mises_mixed_vmap', {}),
                                    ('drucker_prager_vmap', {})]:
            for pt in (1, 4):
                its.append((name, pt, kw, 'USHGBs', d, unit))
        if THOROUGH:
            its += [(name, 4, kw, 'UGB', d - 1, unit) for name, kw in lou]
    chk.pmap(units, its)


chk.run('search', main)
chk.finish()
