"""C11: elasticity tensors and hardening laws against their definitions."""
import _path  # noqa
import itertools
import math
from mc.core import Check, THOROUGH
import numpy as np
import torch
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.hardening import (
    get_hardening_law, get_available_hardening_types)

chk = Check('C11')
O3 = ('11', '22', '33', '12', '23', '13')
R2 = math.sqrt(2.0)


def tensor(M):
    """Fourth-order tensor from the Kelvin matrix."""
    C = np.zeros((3,)*4)
    for (a, c), (b, d) in itertools.product(enumerate(O3), repeat=2):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        k, m = int(d[0]) - 1, int(d[1]) - 1
        v = M[a, b]/(R2 if i != j else 1)/(R2 if k != m else 1)
        for p in {(i, j), (j, i)}:
            for q in {(k, m), (m, k)}:
                C[p + q] = v
    return C


def rotate(C, Q):
    return np.einsum('ip,jq,kr,ls,pqrs->ijkl', Q, Q, Q, Q, C)


def rot(axis, angle):
    c, s = math.cos(angle), math.sin(angle)
    i, j = [k for k in range(3) if k != axis]
    Q = np.eye(3)
    Q[i, i] = Q[j, j] = c
    Q[i, j], Q[j, i] = -s, s
    return Q


def close(a, b, scale):
    return abs(a - b) <= 2e-5*scale


GROUP = {
    'isotropic': [rot(a, x) for a in range(3) for x in (0.3, 1.1, 2.5)],
    'transverse_isotropic': [rot(2, x) for x in (0.3, 1.1, 2.5)]
    + [rot(0, math.pi)],
    'orthotropic': [rot(a, math.pi) for a in range(3)],
    'monoclinic': [rot(2, math.pi), np.diag([1.0, 1.0, -1.0])],
    'triclinic': [-np.eye(3)]}


def isotropic(chk):
    Es = (1.0, 110e3, 2.5e-3)
    vs = (-0.9, -0.3, 0.0, 0.2, 0.33, 0.45, 0.49)
    for E, v in itertools.product(Es, vs):
        chk.state(('iso', E, v))
        rep = dict(E=E, v=v)
        M = Elastic.elastic_tangent_modulus({'E': E, 'v': v}).double()\
            .numpy()
        lam = E*v/((1 + v)*(1 - 2*v))
        mu = E/(2*(1 + v))
        scale = max(abs(lam), mu)
        if not np.allclose(M, M.T, atol=1e-6*scale):
            chk.fail('iso-symmetric', 'not symmetric', rep)
        if np.linalg.eigvalsh(M).min() <= 0:
            chk.fail('iso-positive', 'not positive definite', rep)
        C = tensor(M)
        for Q in GROUP['isotropic']:
            chk.transition()
            if not np.allclose(rotate(C, Q), C, atol=2e-5*scale):
                chk.fail('iso-invariant', 'not isotropic', rep)
        # uniaxial stress and shear tests
        S = np.linalg.inv(M)
        for a in range(3):
            s = np.zeros(6)
            s[a] = 1.0
            e = S@s
            for b in range(3):
                want = 1/E if a == b else -v/E
                if abs(e[b] - want) > 1e-3/E:
                    chk.fail('iso-uniaxial', f'strain {e[b]} expected '
                             f'{want}', rep)
        for a in range(3, 6):
            if not close(M[a, a], 2*mu, scale):
                chk.fail('iso-shear', f'{M[a, a]} expected {2*mu}', rep)
        # from moduli: same tensor, same technical constants
        mod = {'E1111': lam + 2*mu, 'E1122': lam}
        M2 = Elastic.elastic_tangent_modulus(dict(mod)).double().numpy()
        if not np.allclose(M, M2, atol=2e-5*scale):
            chk.fail('iso-moduli', 'E, v and moduli give different tensors',
                     rep)
        tc = Elastic.get_technical_from_elastic_moduli('isotropic',
                                                       dict(mod))
        if abs(tc['E'] - E) > 1e-6*E or abs(tc['v'] - v) > 1e-6:
            chk.fail('iso-technical', f'{tc} expected {rep}', rep)
        tc = Elastic.get_technical_from_elastic_moduli('isotropic',
                                                       {'E': E, 'v': v})
        if (tc['E'], tc['v']) != (E, v):
            chk.fail('iso-technical', f'{tc} expected {rep}', rep)
        # the model built from either description responds by the law
        for pt, par in itertools.product((1, 4), ({'E': E, 'v': v}, mod)):
            m = Elastic('infinitesimal', pt, dict(
                par, elastic_symmetry='isotropic',
                euler_angles=(0.0, 0.0, 0.0)))
            n = 2 if pt == 1 else 3
            for i, j in itertools.combinations_with_replacement(range(n), 2):
                e = np.zeros((3, 3))
                e[i, j] = e[j, i] = 1e-3
                st, _ = m.state_update(torch.tensor(
                    e[:n, :n], dtype=torch.float32), m.state_init())
                sig = lam*np.trace(e)*np.eye(3) + 2*mu*e
                order = O3 if pt == 4 else ('11', '22', '12')
                want = [sig[int(c[0]) - 1, int(c[1]) - 1]
                        * (R2 if c[0] != c[1] else 1) for c in order]
                chk.transition()
                if not np.allclose(st['stress_mf'].numpy(), want,
                                   atol=2e-5*scale*1e-3):
                    chk.fail('iso-response', f'{st["stress_mf"]} expected '
                             f'{want}', dict(rep, problem_type=pt))
        chk.trace()


def general(chk):
    """Anisotropic tensors: every modulus in its place, all symmetries."""
    sets = Elastic.get_available_elastic_symmetries()
    want_sets = {
        'isotropic': 2, 'transverse_isotropic': 5, 'orthotropic': 9,
        'monoclinic': 13, 'triclinic': 21}
    if {k: len(v) for k, v in sets.items()} != want_sets:
        chk.fail('symmetries', f'{ {k: len(v) for k, v in sets.items()} }',
                 {})
    for sym, req in sets.items():
        # unit moduli one at a time (linear map) and a generic set
        cases = [{m: (1.0 if m == one else 0.0) for m in req}
                 for one in req]
        cases.append({m: 3.0 + 1.37*i - 0.02*i*i
                      for i, m in enumerate(req)})
        for mod in cases:
            chk.state((sym, tuple(mod.values())))
            chk.transition()
            M = Elastic.elastic_tangent_modulus(
                dict(mod), elastic_symmetry=sym).double().numpy()
            C = tensor(M)
            full = dict(mod)
            if sym == 'isotropic':
                for a in ('E2222', 'E3333'):
                    full[a] = mod['E1111']
                for a in ('E1133', 'E2233'):
                    full[a] = mod['E1122']
                for a in ('E1212', 'E2323', 'E1313'):
                    full[a] = 0.5*(mod['E1111'] - mod['E1122'])
            elif sym == 'transverse_isotropic':
                full['E2222'] = mod['E1111']
                full['E2233'] = mod['E1133']
                full['E1313'] = mod['E2323']
                full['E1212'] = 0.5*(mod['E1111'] - mod['E1122'])
            rep = dict(symmetry=sym, moduli=mod)
            D = np.zeros((3,)*4)
            for k, v in full.items():
                i, j, p, q = (int(c) - 1 for c in k[1:])
                for a in {(i, j), (j, i)}:
                    for b in {(p, q), (q, p)}:
                        D[a + b] = D[b + a] = v
            if not np.allclose(M, M.T, atol=1e-6):
                chk.fail(f'{sym}-symmetric', 'not symmetric', rep)
            if not np.allclose(C, D, atol=1e-5):
                chk.fail(f'{sym}-moduli', 'a modulus is misplaced', rep)
            for Q in GROUP[sym]:
                if not np.allclose(rotate(C, Q), C, atol=1e-4):
                    chk.fail(f'{sym}-group', 'the tensor has not the '
                             'material symmetry', rep)
        for miss in req:
            mod = {m: 1.0 for m in req if m != miss}
            try:
                Elastic.elastic_tangent_modulus(mod, elastic_symmetry=sym)
                chk.fail(f'{sym}-missing', f'accepted without {miss}', mod)
            except RuntimeError:
                pass
            chk.transition()
    for bad in ('cubic', '', 'Isotropic'):
        try:
            Elastic.elastic_tangent_modulus({'E': 1.0, 'v': 0.3},
                                            elastic_symmetry=bad)
            chk.fail('unknown-symmetry', f'accepted {bad!r}', {})
        except RuntimeError:
            pass


def val(x):
    return float(torch.as_tensor(x).reshape(-1)[0])


def hardening(chk):
    if set(get_available_hardening_types()) != {
            'piecewise_linear', 'linear', 'nadai_ludwik'}:
        chk.fail('types', f'{get_available_hardening_types()}', {})
    P = (-0.1, 0.0, 1e-4, 0.003, 0.01, 0.05, 0.3, 2.0)
    D = torch.float64
    lin = get_hardening_law('linear')
    nad = get_hardening_law('nadai_ludwik')
    pwl = get_hardening_law('piecewise_linear')
    for s0, a, p in itertools.product((0.0, 100.0, 900.0),
                                      (-50.0, 0.0, 700.0), P):
        chk.state(('lin', s0, a, p))
        chk.transition()
        y, h = lin({'s0': s0, 'a': a}, torch.tensor(p, dtype=D))
        e = max(p, 0.0)
        if not close(val(y), s0 + a*e, 1000) or val(h) != a:
            chk.fail('linear', f'({y}, {h})', dict(s0=s0, a=a, p=p))
    for s0, a, b, e0, p in itertools.product(
            (0.0, 500.0), (0.0, 700.0), (0.2, 0.5, 1.0, 1.7),
            (1e-5, 1e-3, 0.02), P):
        chk.state(('nad', s0, a, b, e0, p))
        chk.transition()
        par = {'s0': s0, 'a': a, 'b': b, 'ep0': e0}
        y, h = nad(dict(par), torch.tensor(p, dtype=D))
        e = max(p, 0.0)
        wy, wh = s0 + a*(e0 + e)**b, a*b*(e0 + e)**(b - 1)
        if abs(val(y) - wy) > 1e-6*max(1.0, abs(wy)) or \
                abs(val(h) - wh) > 1e-6*max(1.0, abs(wh)):
            chk.fail('nadai', f'({val(y)}, {val(h)}) expected ({wy}, {wh})',
                     dict(par, p=p))
        if p > 0:
            d = 1e-3*(p + e0)*1e-2
            f = [val(nad(dict(par), torch.tensor(p + q, dtype=D))[0])
                 for q in (d, -d)]
            fd = (f[0] - f[1])/2/d
            if abs(fd - val(h)) > 1e-3*max(1.0, abs(fd)):
                chk.fail('nadai-slope', f'{val(h)} derivative {fd}',
                         dict(par, p=p))
    xs = (0.0, 0.01, 0.02, 0.1)
    tables = [t for n in (2, 3, 4)
              for t in itertools.combinations(xs, n)]
    ys_alpha = (100.0, 150.0, 90.0) if THOROUGH else (100.0, 150.0)
    probes = (-0.5, 0.0, 0.003, 0.01, 0.013, 0.02, 0.06, 0.1, 0.7)
    for t in tables:
        for ys in itertools.product(ys_alpha, repeat=len(t)):
            pts = torch.tensor(list(zip(t, ys)), dtype=D)
            keep = pts.clone()
            batch = torch.vmap(lambda q: torch.stack([
                r.reshape(()) for r in pwl({'hardening_points': pts}, q)]))(
                torch.tensor(probes, dtype=D))
            for i, p in enumerate(probes):
                chk.state(('pwl', t, ys, p))
                chk.transition()
                y, h = pwl({'hardening_points': pts},
                           torch.tensor(p, dtype=D))
                e = max(p, 0.0)
                wy = float(np.interp(e, t, ys))
                seg = [(ys[k + 1] - ys[k])/(t[k + 1] - t[k])
                       for k in range(len(t) - 1)]
                slopes = set()
                for k in range(len(t) - 1):
                    if t[k] <= e <= t[k + 1]:
                        slopes.add(seg[k])
                if e <= t[0] or e >= t[-1]:
                    slopes.add(0.0)
                rep = dict(points=list(zip(t, ys)), p=p)
                if not close(val(y), wy, 200):
                    chk.fail('piecewise-value', f'{val(y)} expected {wy}',
                             rep)
                if not any(abs(val(h) - s) < 1e-6*max(1, abs(s))
                           for s in slopes):
                    chk.fail('piecewise-slope', f'{val(h)} expected one of '
                             f'{slopes}', rep)
                if not (close(float(batch[i, 0]), val(y), 200)
                        and abs(float(batch[i, 1]) - val(h)) < 1e-6*max(
                            1, abs(val(h)))):
                    chk.fail('piecewise-batch', f'{batch[i].tolist()} '
                             f'expected ({val(y)}, {val(h)})', rep)
            if not torch.equal(pts, keep):
                chk.fail('piecewise-modified', 'points were modified',
                         dict(points=list(zip(t, ys))))
            chk.trace()
    # data checks
    neg = torch.tensor(-0.1)
    ok = torch.tensor([[0.0, 1.0], [0.1, 2.0]])
    bad = [lambda: lin({'s0': 1.0, 'a': 1.0}, neg, is_check_data=True),
           lambda: nad({'s0': 1.0, 'a': 1.0, 'b': 1.0, 'ep0': 0.1}, neg,
                       is_check_data=True),
           lambda: pwl({'hardening_points': ok}, neg, is_check_data=True),
           lambda: pwl({'hardening_points': ok.flip(0)}, -neg,
                       is_check_data=True),
           lambda: pwl({'hardening_points': ok - 0.05}, -neg,
                       is_check_data=True),
           lambda: get_hardening_law('swift')]
    for i, f in enumerate(bad):
        chk.transition()
        try:
            f()
            chk.fail(f'accepts-{i}', 'invalid data accepted', {'case': i})
        except RuntimeError:
            pass


for part in (isotropic, general, hardening):
    chk.run(part.__name__, part)
chk.sample({'symmetry': 'monoclinic', 'moduli': 'unit moduli one by one'})
chk.extra['bounds'] = {'isotropic': '3 x 7 lattice of (E, v)',
                       'anisotropic': 'unit moduli (the map is linear) and '
                       'a generic set', 'hardening': 'parameter lattices'}
chk.assumptions += ['at a break point of a tabulated law either one-sided '
                    'slope is accepted']
chk.finish()
