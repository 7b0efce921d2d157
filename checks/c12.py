"""C12: tensor notations against index-wise definitions.

Every basis tensor (second- and fourth-order, with the symmetry of the storage)
is converted by the real functions, in two and three dimensions, for every
accepted component order, and compared entry by entry with the definition.
"""
import _path  # noqa
import itertools
import math
from mc.core import Check, THOROUGH
import numpy as np
import torch
from simulators.fetorch.math import matrixops as mo
from simulators.fetorch.math import tensorops as to
from simulators.fetorch.math import voigt_notation as vn

chk = Check('C12')
R2 = math.sqrt(2.0)


def idx(c):
    return int(c[0]) - 1, int(c[1]) - 1


def mf2_ref(A, order, kelvin):
    sym = len(order) != A.shape[0]**2
    return np.array([A[idx(c)]*(R2 if kelvin and sym and c[0] != c[1]
                                else 1.0) for c in order])


def mf4_ref(A, order, kelvin):
    sym = len(order) != A.shape[0]**2
    f = [R2 if kelvin and sym and c[0] != c[1] else 1.0 for c in order]
    return np.array([[A[idx(c) + idx(e)]*f[i]*f[j]
                      for j, e in enumerate(order)]
                     for i, c in enumerate(order)])


def basis2(n, sym):
    for i, j in itertools.product(range(n), repeat=2):
        if sym and j < i:
            continue
        A = np.zeros((n, n))
        A[i, j] = 1.0
        if sym:
            A[j, i] = 1.0
        yield A


def basis4(n, sym):
    pairs = [p for p in itertools.product(range(n), repeat=2)
             if not sym or p[0] <= p[1]]
    for p, q in itertools.product(pairs, repeat=2):
        A = np.zeros((n,)*4)
        for a in {p, p[::-1]} if sym else {p}:
            for b in {q, q[::-1]} if sym else {q}:
                A[a + b] = 1.0
        yield A


def generic2(n, sym):
    A = np.array([[0.5 + 1.37*i - 2.71*j + 0.11*i*j*j for j in range(n)]
                  for i in range(n)])
    return A + A.T if sym else A


def generic4(n, sym):
    A = np.arange(n**4).reshape((n,)*4)*1.0
    A = A*A % 97 - 31
    if sym:
        A = A + A.transpose(1, 0, 2, 3)
        A = A + A.transpose(0, 1, 3, 2)
    return A


def orders(n, sym, full):
    """Accepted component orders (all, or those near the documented)."""
    pt = {2: 1, 3: 4}[n]
    _, s, ns = mo.get_problem_type_parameters(pt)
    base = s if sym else ns
    out = [base]
    if full:
        for perm in itertools.permutations(base):
            if sym:
                off = [k for k, c in enumerate(perm) if c[0] != c[1]]
                for m in range(2**len(off)):
                    p = list(perm)
                    for b, k in enumerate(off):
                        if m >> b & 1:
                            p[k] = p[k][::-1]
                    out.append(tuple(p))
            else:
                out.append(perm)
    else:
        for i, j in itertools.combinations(range(len(base)), 2):
            p = list(base)
            p[i], p[j] = p[j], p[i]
            out.append(tuple(p))
        for k in range(1, len(base)):
            out.append(base[k:] + base[:k])
        out.append(base[::-1])
        if sym:
            off = [k for k, c in enumerate(base) if c[0] != c[1]]
            for m in range(1, 2**len(off)):
                p = list(base)
                for b, k in enumerate(off):
                    if m >> b & 1:
                        p[k] = p[k][::-1]
                out.append(tuple(p))
    return list(dict.fromkeys(out))


def eq(t, key, got, want, rep, tol=1e-6):
    t.transition()
    want = np.asarray(want)
    g = got.detach().numpy() if isinstance(got, torch.Tensor) \
        else np.asarray(got)
    if g.shape != want.shape or not np.allclose(
            g, want, rtol=1e-5, atol=tol*max(1.0, np.abs(want).max())):
        t.fail(key, f'{g.tolist()} expected {want.tolist()}'[:400], rep)
        return False
    return True


def convert(t, n, order, sym, kelvin, A, dtype, extra=False):
    k = 2 if A.ndim == 2 else 4
    name = f'order{k}-{"sym" if sym else "nsym"}-{n}d' + \
        ('' if kelvin else '-plain')
    rep = dict(n_dim=n, comp_order=order, kelvin=kelvin, tensor=A.tolist(),
               dtype=str(dtype))
    X = torch.tensor(A, dtype=dtype)
    keep = X.clone()
    M = (mf2_ref if k == 2 else mf4_ref)(A, order, kelvin)
    for fname, to_mf, from_mf in (
            ('plain', mo.get_tensor_mf, mo.get_tensor_from_mf),
            ('vec', mo.vget_tensor_mf, mo.vget_tensor_from_mf)):
        eq(t, f'to-mf-{fname}-{name}', to_mf(X, n, order,
                                             is_kelvin_notation=kelvin), M,
           rep)
        Mt = torch.tensor(M, dtype=dtype)
        kM = Mt.clone()
        eq(t, f'from-mf-{fname}-{name}', from_mf(
            Mt, n, order, is_kelvin_notation=kelvin), A, rep)
        if not torch.equal(Mt, kM) or not torch.equal(X, keep):
            t.fail(f'modified-{fname}', 'the input was modified', rep)
    if extra:
        # batches of tensors through the vectorised conversions
        B = torch.stack([X, 2*X, X - 1.0*(X != 0)])
        f = torch.vmap(lambda q: mo.vget_tensor_mf(
            q, n, order, is_kelvin_notation=kelvin))
        g = torch.vmap(lambda q: mo.vget_tensor_from_mf(
            q, n, order, is_kelvin_notation=kelvin))
        Z = f(B)
        eq(t, f'batch-{name}', Z, np.stack(
            [(mf2_ref if k == 2 else mf4_ref)(b.numpy(), order, kelvin)
             for b in B]), rep)
        eq(t, f'batch-back-{name}', g(Z), B.numpy(), rep)


def sweep(item, t):
    n, sym, kelvin, part = item
    full = n == 2 or sym
    os_ = orders(n, sym, full)
    dt = torch.float32
    for q, order in enumerate(os_):
        if q % 4 != part:
            continue
        t.state((n, sym, kelvin, order))
        documented = q == 0
        for A in (basis2(n, sym) if n == 2 or not full or documented
                  else [generic2(n, sym)]):
            convert(t, n, order, sym, kelvin, A, dt, extra=documented)
        convert(t, n, order, sym, kelvin, generic2(n, sym), dt)
        if documented or (n == 2 and sym):
            for A in basis4(n, sym):
                convert(t, n, order, sym, kelvin, A, dt)
        if n == 2 or not full or q % 24 == 0:
            convert(t, n, order, sym, kelvin, generic4(n, sym), dt,
                    extra=documented)
        t.trace()
        # products in matrix form equal the tensor ones (Kelvin)
        if kelvin or not sym:
            algebra(t, n, order, sym)
        for i in range(len(order)):
            want = R2 if sym and order[i][0] != order[i][1] else 1.0
            eq(t, 'kelvin-factor', mo.kelvin_factor(i, order), want,
               dict(idx=i, order=order))
            eq(t, 'kelvin-factor-np', mo.kelvin_factor(np.int64(i), order),
               want, dict(idx=i, order=order))
            for j in range(len(order)):
                w2 = want*(R2 if sym and order[j][0] != order[j][1] else 1.0)
                eq(t, 'kelvin-factor2', mo.kelvin_factor([i, j], order), w2,
                   dict(idx=[i, j], order=order))


def algebra(t, n, order, sym):
    A, B = generic2(n, sym), generic2(n, sym).T[::-1, ::-1].copy() + 1.0
    if sym:
        B = B + B.T
    C, D = generic4(n, sym), generic4(n, sym).transpose(2, 3, 0, 1)*0.5 - 1
    if sym:
        D = np.ascontiguousarray(D)
    tt = [torch.tensor(q, dtype=torch.float32) for q in (A, B, C, D)]
    for fname, f in (('plain', mo.get_tensor_mf), ('vec', mo.vget_tensor_mf)):
        if n == 3 and fname == 'plain' and order[0] != '11':
            continue
        a, b, c, d = (f(q, n, order) for q in tt)
        rep = dict(n_dim=n, order=order, conversion=fname)
        eq(t, f'ddot22-{fname}', torch.dot(a, b), (A*B).sum(), rep)
        eq(t, f'ddot42-{fname}', c@a, mf2_ref(np.einsum(
            'ijkl,kl->ij', C, A), order, True), rep)
        eq(t, f'ddot44-{fname}', c@d, mf4_ref(np.einsum(
            'ijmn,mnkl->ijkl', C, D), order, True), rep, tol=1e-5)


def voigt(chk):
    for n in (2, 3):
        for order in orders(n, True, True):
            chk.state(('voigt', n, order))
            for A in list(basis2(n, True)) + [generic2(n, True)]:
                rep = dict(n_dim=n, order=order, tensor=A.tolist())
                stress = np.array([A[idx(c)] for c in order])
                strain = np.array([A[idx(c)]*(2.0 if c[0] != c[1] else 1.0)
                                   for c in order])
                X = torch.tensor(A, dtype=torch.float32)
                V = torch.tensor(strain, dtype=torch.float32)
                kX, kV = X.clone(), V.clone()
                eq(chk, 'voigt-stress', vn.get_stress_vmf(X, n, order),
                   stress, rep)
                eq(chk, 'voigt-vstress', vn.vget_stress_vmf(X, n, order),
                   stress, rep)
                eq(chk, 'voigt-strain', vn.get_strain_from_vmf(V, n, order),
                   A, rep)
                eq(chk, 'voigt-vstrain', vn.vget_strain_from_vmf(V, n,
                                                                 order), A,
                   rep)
                if not torch.equal(X, kX) or not torch.equal(V, kV):
                    chk.fail('voigt-modified', 'input modified', rep)
                # conjugacy: stress . strain is the double contraction
                B = generic2(n, True)
                s = vn.get_stress_vmf(torch.tensor(B, dtype=torch.float32),
                                      n, order)
                eq(chk, 'voigt-power', torch.dot(s, V), (A*B).sum(), rep)
            vol, dev = vn.get_projection_tensors_vmf(n, order)
            A = generic2(n, True)
            tr = np.trace(A)/n*np.eye(n)
            v = torch.tensor([A[idx(c)] for c in order],
                             dtype=torch.float32)
            eq(chk, 'voigt-vol', vol@v, [tr[idx(c)] for c in order],
               dict(n_dim=n, order=order))
            eq(chk, 'voigt-dev', dev@v, [(A - tr)[idx(c)] for c in order],
               dict(n_dim=n, order=order))
            chk.trace()


def plane(chk):
    """2D/3D storage conversions on every basis vector and matrix."""
    _, s2, n2 = mo.get_problem_type_parameters(1)
    _, s3, n3 = mo.get_problem_type_parameters(4)
    if (s2, n2) != (('11', '22', '12'), ('11', '21', '12', '22')) or \
            (s3, n3) != (('11', '22', '33', '12', '23', '13'),
                         ('11', '21', '31', '12', '22', '32', '13', '23',
                          '33')):
        chk.fail('orders', 'component orders are not the documented ones',
                 {'orders': [s2, n2, s3, n3]})
    for o2, o3 in ((s2, s3), (n2, n3)):
        for i in range(len(o2) + 1):
            for c33 in (0.0, 7.0):
                v = np.zeros(len(o2))
                if i < len(o2):
                    v[i] = 3.0
                want = np.zeros(len(o3))
                for k, c in enumerate(o2):
                    want[o3.index(c)] = v[k]
                want[o3.index('33')] = c33
                rep = dict(mf=v.tolist(), comp_33=c33, order=o2)
                x = torch.tensor(v, dtype=torch.float32)
                for cc in (c33, torch.tensor(c33)):
                    eq(chk, '3d-from-2d', mo.get_state_3Dmf_from_2Dmf(
                        1, x, cc), want, rep)
                    eq(chk, '3d-from-2d-vec', mo.vget_state_3Dmf_from_2Dmf(
                        x, cc), want, rep)
                eq(chk, '3d-from-2d-input', x, v, rep)
                chk.state(('3d', rep['order'], i, c33))
        for i in range(len(o3)):
            v = np.zeros(len(o3))
            v[i] = 2.0
            x = torch.tensor(v, dtype=torch.float32)
            want = [v[o3.index(c)] for c in o2]
            eq(chk, '2d-from-3d', mo.get_state_2Dmf_from_3Dmf(1, x), want,
               dict(mf=v.tolist()))
            eq(chk, '2d-from-3d-vec', mo.vget_state_2Dmf_from_3Dmf(x), want,
               dict(mf=v.tolist()))
            for j in range(len(o3)):
                m = np.zeros((len(o3),)*2)
                m[i, j] = 2.0
                x = torch.tensor(m, dtype=torch.float32)
                want = [[m[o3.index(a), o3.index(b)] for b in o2]
                        for a in o2]
                eq(chk, '2d-from-3d-4', mo.get_state_2Dmf_from_3Dmf(1, x),
                   want, dict(i=i, j=j))
                eq(chk, '2d-from-3d-4-vec', mo.vget_state_2Dmf_from_3Dmf(x),
                   want, dict(i=i, j=j))
                chk.state(('2d', o2, i, j))


OPS = {  # operation: (left, right, result) indices
    'dyad11': ('i', 'j', 'ij'), 'dyad22_1': ('ij', 'kl', 'ijkl'),
    'dyad22_2': ('ik', 'jl', 'ijkl'), 'dyad22_3': ('il', 'jk', 'ijkl'),
    'dot21_1': ('ij', 'j', 'i'), 'dot12_1': ('i', 'ij', 'j'),
    'dot42_1': ('ijkm', 'lm', 'ijkl'), 'dot42_2': ('ipkl', 'jp', 'ijkl'),
    'dot42_3': ('ijkm', 'ml', 'ijkl'), 'dot24_1': ('im', 'mjkl', 'ijkl'),
    'dot24_2': ('jm', 'imkl', 'ijkl'), 'dot24_3': ('km', 'ijml', 'ijkl'),
    'dot24_4': ('lm', 'ijkm', 'ijkl'), 'ddot22_1': ('ij', 'ij', ''),
    'ddot42_1': ('ijkl', 'kl', 'ij'), 'ddot44_1': ('ijmn', 'mnkl', 'ijkl'),
    'ddot24_1': ('kl', 'klij', 'ij')}


def loops(n, a, b, r, A, B):
    """Index loops (no einsum)."""
    letters = sorted(set(a + b))
    out = np.zeros((n,)*len(r))
    for vals in itertools.product(range(n), repeat=len(letters)):
        m = dict(zip(letters, vals))
        x = A[tuple(m[c] for c in a)]*B[tuple(m[c] for c in b)]
        out[tuple(m[c] for c in r)] += x
    return out


def tensor_ops(name, t):
    a, b, r = OPS[name]
    for n in (2, 3):
        ga = (np.arange(n**len(a))*7 % 11 - 4.0).reshape((n,)*len(a))
        gb = (np.arange(n**len(b))*5 % 13 - 3.0).reshape((n,)*len(b))
        f = getattr(to, name)
        for A, B in ((ga, gb), (ga[..., ::-1].copy(), gb - 2.0)):
            eq(t, f'op-{name}', f(torch.tensor(A), torch.tensor(B)),
               loops(n, a, b, r, A, B), dict(op=name, n=n))
        # every basis pair for the small operations
        if len(a) + len(b) <= 4:
            for p in itertools.product(range(n), repeat=len(a)):
                for q in itertools.product(range(n), repeat=len(b)):
                    A = np.zeros((n,)*len(a))
                    B = np.zeros((n,)*len(b))
                    A[p] = 1.0
                    B[q] = 1.0
                    eq(t, f'op-{name}', f(torch.tensor(A), torch.tensor(B)),
                       loops(n, a, b, r, A, B), dict(op=name, n=n, p=p, q=q))
                    t.state((name, n, p, q))
        t.state((name, n))


def identities(chk):
    for n in (2, 3):
        soid, foid, fotr, fosym, fodt, fodev, fodevs = \
            to.get_id_operators(n)
        for A in list(basis2(n, False)) + [generic2(n, False)]:
            X = torch.tensor(A, dtype=torch.float32)
            tr = np.trace(A)*np.eye(n)
            sy = 0.5*(A + A.T)
            for nm, op, want in (
                    ('foid', foid, A), ('fotransp', fotr, A.T),
                    ('fosym', fosym, sy), ('fodiagtrace', fodt, tr),
                    ('fodevproj', fodev, A - tr/3),
                    ('fodevprojsym', fodevs, sy - tr/3)):
                eq(chk, f'id-{nm}', to.ddot42_1(op, X), want,
                   dict(n=n, tensor=A.tolist()))
            eq(chk, 'id-soid', soid@X, A, dict(n=n))
            chk.state(('id', n, A.tolist()))
        for i, j in itertools.product(range(1, 4), repeat=2):
            eq(chk, 'dd', to.dd(i, j), 1 if i == j else 0, dict(i=i, j=j))
        # derivative of the inverse of a symmetric tensor
        for A in ([[2.0, 0.3], [0.3, 1.0]], [[-1.0, 0.5], [0.5, 3.0]]) \
                if n == 2 else ([[2.0, 0.3, 0.1], [0.3, 1.5, -0.2],
                                 [0.1, -0.2, 3.0]],
                                [[1.0, 0.0, 0.4], [0.0, -2.0, 0.0],
                                 [0.4, 0.0, 1.0]]):
            A = np.array(A)
            inv = np.linalg.inv(A)
            D = to.fo_dinv_sym(torch.tensor(inv)).numpy()
            for k, m in itertools.product(range(n), repeat=2):
                E = np.zeros((n, n))
                E[k, m] += 0.5
                E[m, k] += 0.5
                h = 1e-5
                fd = (np.linalg.inv(A + h*E) - np.linalg.inv(A - h*E))/2/h
                chk.transition()
                if not np.allclose(D[:, :, k, m], fd, atol=1e-6):
                    chk.fail('dinv', f'{D[:, :, k, m]} expected {fd}',
                             dict(A=A.tolist(), k=k, m=m))


def rejects(chk):
    good2, good3 = ('11', '22', '12'), torch.ones(2, 2)
    cases = {
        'dims': lambda: mo.get_tensor_mf(torch.ones(3, 3), 2, good2),
        'rank': lambda: mo.get_tensor_mf(torch.ones(2, 2, 2), 2, good2),
        'dup': lambda: mo.get_tensor_mf(good3, 2, ('11', '22', '11')),
        'comp': lambda: mo.get_tensor_mf(good3, 2, ('11', '22', '13')),
        'len': lambda: mo.get_tensor_mf(good3, 2, ('11', '22')),
        'mf-len': lambda: mo.get_tensor_from_mf(torch.ones(5), 2, good2),
        'mf-sq': lambda: mo.get_tensor_from_mf(torch.ones(3, 4), 2, good2),
        'mf-rank': lambda: mo.get_tensor_from_mf(torch.ones(3, 3, 3), 2,
                                                 good2),
        'mf-dup': lambda: mo.get_tensor_from_mf(torch.ones(3), 2,
                                                ('11', '22', '22')),
        'pt': lambda: mo.get_problem_type_parameters(2),
        'voigt-dup': lambda: vn.get_stress_vmf(good3, 2,
                                               ('11', '22', '22')),
        'voigt-rank': lambda: vn.get_strain_from_vmf(good3, 2, good2)}
    for k, f in cases.items():
        chk.transition()
        try:
            f()
        except RuntimeError:
            continue
        chk.fail(f'accepts-{k}', 'invalid request was accepted', {'case': k})


def complex_(chk):
    for n in (2, 3):
        for sym in (True, False):
            order = orders(n, sym, False)[0]
            A = generic2(n, sym) + 1j*generic2(n, sym)[::-1, ::-1]
            if sym:
                A = A + A.T
            X = torch.tensor(A, dtype=torch.cfloat)
            M = np.array([A[idx(c)]*(R2 if sym and c[0] != c[1] else 1.0)
                          for c in order])
            rep = dict(n=n, order=order)
            eq(chk, 'complex-to', mo.get_tensor_mf(X, n, order), M, rep)
            eq(chk, 'complex-from', mo.get_tensor_from_mf(
                torch.tensor(M, dtype=torch.cfloat), n, order), A, rep)


chk.pmap(sweep, [(n, sym, kel, part) for n in (3, 2)
                 for sym in (True, False) for kel in (True, False)
                 for part in range(4)])
chk.pmap(tensor_ops, list(OPS))
for part in (voigt, plane, identities, rejects, complex_):
    chk.run(part.__name__, part)
chk.sample({'n_dim': 3, 'order': list(orders(3, True, False)[5])})
chk.extra['bounds'] = {
    'dimensions': [2, 3],
    'orders_2d': 'all accepted', 'orders_3d': 'all symmetric; for general: '
    'documented, transpositions, rotations, reversal'}
chk.assumptions += ['conversions are linear (checked additionally on a '
                    'generic tensor), so basis tensors decide']
chk.finish()
