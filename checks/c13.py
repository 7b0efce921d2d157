"""C13: finite elements against the interpolants of their polynomial space."""
import _path  # noqa
import copy
import itertools
from mc.core import Check, THOROUGH, quiet
import numpy as np
import torch
from mc import fem, mats, plast
from simulators.fetorch.element.type.quadratures import gauss_quadrature
from simulators.fetorch.element.derivatives.gradients import (
    eval_shapefun_deriv, build_discrete_sym_gradient,
    vbuild_discrete_sym_gradient, build_discrete_gradient,
    vbuild_discrete_gradient, vexpand_grad_operator_sym_2d_to_3d,
    vreduce_grad_operator_sym_3d_to_2d)
from simulators.fetorch.element.derivatives.jacobian import eval_jacobian
from simulators.fetorch.element.integrations.internal_forces import (
    compute_element_internal_forces, compute_infinitesimal_inc_strain,
    compute_infinitesimal_strain)

chk = Check('C13')
NS = {2: ('11', '21', '12', '22'),
      3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}
SYM = {2: plast.O2, 3: plast.O3}


def T(x):
    return torch.tensor(np.asarray(x, dtype=float))


def shape_functions(name, t):
    torch.set_default_dtype(torch.float64)
    ref = fem.Ref(name)
    for g in (None,) + ref.gauss:
        el = fem.element(name, g)
        if (el.get_n_node(), el.get_n_dof_node()) != ref.nodes.shape:
            t.fail(f'{name}:size', f'{el.get_n_node()} nodes', {})
        if g is not None and el.get_n_gauss() != g:
            t.fail(f'{name}:gauss', f'{el.get_n_gauss()} points', {})
        pts = list(ref.nodes) + ref.lattice()
        vN = torch.vmap(el.eval_shapefun)(T(np.array(pts)))
        vD = torch.vmap(el.eval_shapefun_local_deriv)(T(np.array(pts)))
        for i, x in enumerate(pts):
            t.transition()
            t.state((name, g, tuple(x)))
            xt = T(x)
            N = plast.arr(el.eval_shapefun(xt))
            D = plast.arr(el.eval_shapefun_local_deriv(xt))
            rep = dict(element=name, n_gauss=g, local=x)
            if N.shape != (ref.n_node,) or D.shape != ref.nodes.shape:
                t.fail(f'{name}:shape', f'{N.shape} {D.shape}', rep)
                continue
            if np.abs(N - ref.N(x)).max() > 1e-6:
                t.fail(f'{name}:shapefun', f'{N} expected {ref.N(x)}', rep)
            if np.abs(D - ref.dN(x)).max() > 1e-6:
                t.fail(f'{name}:derivative', f'{D.tolist()} expected '
                       f'{ref.dN(x).tolist()}', rep)
            if np.abs(plast.arr(vN[i]) - N).max() > 1e-12 or \
                    np.abs(plast.arr(vD[i]) - D).max() > 1e-12:
                t.fail(f'{name}:batched', 'batched evaluation differs', rep)
            if not torch.equal(xt, T(x)):
                t.fail(f'{name}:input', 'local coordinates modified', rep)
        with quiet():
            try:
                el.check_shape_functions_properties()
            except RuntimeError as e:
                t.fail(f'{name}:self-check', f'the self-check of the element '
                       f'fails: {e}', dict(element=name, n_gauss=g))
    try:
        fem.element(name, 7)
        t.fail(f'{name}:quadrature-accepted', '7-point quadrature accepted',
               dict(element=name))
    except RuntimeError:
        pass
    t.trace()


ORDER = {('linear', 1): 1, ('linear', 2): 3, ('linear', 3): 5,
         ('quadrilateral', 1): 1, ('quadrilateral', 4): 3,
         ('quadrilateral', 9): 5, ('triangular', 1): 1, ('triangular', 3): 2,
         ('hexahedral', 1): 1, ('hexahedral', 8): 3, ('hexahedral', 27): 5,
         ('tetrahedral', 1): 1, ('tetrahedral', 4): 2}
DIM = {'linear': 1, 'quadrilateral': 2, 'triangular': 2, 'hexahedral': 3,
       'tetrahedral': 3}


def quadratures(chk):
    torch.set_default_dtype(torch.float64)
    for (dom, n), deg in ORDER.items():
        xs, ws = gauss_quadrature(n, dom)
        check_rule(chk, f'{dom}{n}', dom, n, deg, xs, ws)
    for name in fem.ELEMENTS:
        ref = fem.Ref(name)
        dom = {(2, True): 'triangular', (2, False): 'quadrilateral',
               (3, True): 'tetrahedral', (3, False): 'hexahedral'}[
                   ref.n_dim, ref.simplex]
        for g in ref.gauss:
            el = fem.element(name, g)
            xs, ws = el.get_gauss_integration_points()
            check_rule(chk, f'{name}:{g}', dom, g, ORDER[dom, g], xs, ws)
            bx, bw = el.get_batched_gauss_integration_points()
            if not torch.equal(bx, torch.stack([xs[str(i + 1)]
                                                for i in range(g)])) or \
                    not torch.equal(bw, torch.stack([
                        ws[str(i + 1)] for i in range(g)])):
                chk.fail('batched-points', f'{name} {g}', {})
            # handed out points are the caller's own
            keep = copy.deepcopy((xs, ws))
            for k in xs:
                xs[k] += 1.0
                ws[k] *= 2.0
            xs2, ws2 = el.get_gauss_integration_points()
            if any(not torch.equal(xs2[k], keep[0][k]) or
                   not torch.equal(ws2[k], keep[1][k]) for k in keep[0]):
                chk.fail('points-aliased', f'{name} {g}', {})
    for dom, n in (('linear', 4), ('quadrilateral', 3), ('triangular', 4),
                   ('hexahedral', 4), ('tetrahedral', 5), ('cube', 1)):
        try:
            gauss_quadrature(n, dom)
            chk.fail('unknown-quadrature', f'{dom} {n} accepted', {})
        except RuntimeError:
            pass


def check_rule(chk, tag, dom, n, deg, xs, ws):
    simplex = dom in ('triangular', 'tetrahedral')
    nd = DIM[dom]
    rep = dict(domain=dom, n=n)
    if set(xs) != {str(i + 1) for i in range(n)} or set(ws) != set(xs):
        chk.fail('rule-points', f'{tag}: {sorted(xs)}', rep)
        return
    P = np.array([plast.arr(xs[str(i + 1)]).reshape(-1) for i in range(n)])
    W = np.array([plast.num(ws[str(i + 1)]) for i in range(n)])
    inside = (P > 0).all() and (P.sum(1) < 1).all() if simplex else \
        (np.abs(P) < 1).all()
    if not inside or (W <= 0).any():
        chk.fail('rule-inside', f'{tag}: {P.tolist()} {W.tolist()}', rep)
    for p in itertools.product(range(deg + 1), repeat=nd):
        if simplex and sum(p) > deg:
            continue
        chk.transition()
        chk.state((tag, p))
        got = sum(w*fem.mono(p, x) for w, x in zip(W, P))
        if abs(got - fem.integral(p, simplex)) > 1e-6:
            chk.fail('rule-exact', f'{tag}: integral of monomial {p} is '
                     f'{got}, exactly {fem.integral(p, simplex)}', rep)


def geometries(ref):
    """Non-degenerate element geometries: affine maps and bent elements."""
    n = ref.n_dim
    A0 = np.eye(n)
    A1 = np.array([[2.0, 0.5, 0.1], [-0.3, 1.5, 0.2],
                   [0.2, -0.4, 0.8]])[:n, :n]
    c, s = np.cos(2.0), np.sin(2.0)
    A2 = np.eye(n)*0.01
    A2[:2, :2] = 0.01*np.array([[c, -s], [s, c]])
    out = [('affine', a, ref.nodes@A.T + 0.7) for a, A in
           enumerate((A0, A1, A2))]
    # other units, thin and long elements
    thin = np.diag([1.0, 1e-3, 1e-2][:n])
    for a, A in enumerate((1e-3*A1, 1e-4*A1, 1e3*A1, 0.1*thin,
                           thin[::-1, ::-1], A1@thin)):
        out.append(('affine', 3 + a, ref.nodes@A.T))
    moves = [v for v in itertools.product((-1, 0, 1), repeat=n)
             if any(v)]
    if not THOROUGH:
        moves = moves[::3]
    for k in range(ref.n_node):
        for v in moves:
            X = ref.nodes.copy()
            X[k] += 0.12*np.array(v)
            out.append(('bent', (k, v), X@A1.T))
    return out


def expanded(t, name, B, X, rep):
    """Plane strain operator in three dimensions, and back."""
    n = len(X)
    B3 = vexpand_grad_operator_sym_2d_to_3d(B)
    o3 = plast.order(4)
    if tuple(B3.shape) != (6, 3*n):
        t.fail(f'{name}:expand', f'{tuple(B3.shape)}', rep)
        return
    for i, j in itertools.product(range(3), repeat=2):
        A = np.zeros((3, 3))
        A[i, j] = 1.0
        u = np.c_[X, np.zeros(n)]@A.T
        E = 0.5*(A + A.T)
        E[2, :] = E[:, 2] = 0.0
        if 2 in (i, j):
            E[:] = 0.0
        want = np.array([E[int(c[0]) - 1, int(c[1]) - 1]
                         * (1 if c[0] == c[1] else 2) for c in o3])
        got = plast.arr(B3)@u.reshape(-1)
        if np.abs(got - want).max() > 1e-5:
            t.fail(f'{name}:expand', f'{got} expected {want}', rep)
    B2 = vreduce_grad_operator_sym_3d_to_2d(B3)
    if B2.shape != B.shape or (B2 - B).abs().max() > 1e-12:
        t.fail(f'{name}:reduce', 'expanded and reduced operator differs', rep)
    G = torch.arange(18.0*n).reshape(6, 3*n)
    R = plast.arr(vreduce_grad_operator_sym_3d_to_2d(G))
    want = np.array([[float(G[o3.index(c), 3*a + k]) for a in range(n)
                      for k in range(2)] for c in plast.order(1)])
    if R.shape != want.shape or np.abs(R - want).max() > 0:
        t.fail(f'{name}:reduce', 'other components of the operator', rep)


def geometry(item, t):
    name, part, nparts = item
    torch.set_default_dtype(torch.float64)
    ref = fem.Ref(name)
    n, o, ns = ref.n_dim, SYM[ref.n_dim], NS[ref.n_dim]
    el = fem.element(name)
    xs, ws = el.get_gauss_integration_points()
    pts = [plast.arr(xs[str(i + 1)]) for i in range(el.get_n_gauss())]
    pts += ref.lattice(2)
    for kind, g, X in geometries(ref)[part::nparts]:
        for x in pts:
            t.transition()
            t.state((name, kind, g, tuple(x)))
            rep = dict(element=name, nodes=X, local=x)
            Xt = T(X)
            D, J, det = eval_shapefun_deriv(el, Xt, T(x))
            Jw = ref.dN(x).T@X
            if np.abs(plast.arr(J) - Jw).max() > 1e-6*np.abs(X).max() or \
                    abs(plast.num(det) - np.linalg.det(Jw)) > 1e-5*abs(
                        np.linalg.det(Jw)):
                t.fail(f'{name}:jacobian', f'{plast.arr(J).tolist()} '
                       f'expected {Jw.tolist()}', rep)
                continue
            if np.linalg.det(Jw) <= 0:
                continue
            Dn = plast.arr(D)
            Bs = plast.arr(build_discrete_sym_gradient(D, o))
            Bv = plast.arr(vbuild_discrete_sym_gradient(D, o))
            Gs = plast.arr(build_discrete_gradient(D, ns))
            Gv = plast.arr(vbuild_discrete_gradient(D, ns))
            for tag, a, b in (('sym', Bs, Bv), ('full', Gs, Gv)):
                if a.shape != b.shape or np.abs(a - b).max() > 1e-12:
                    t.fail(f'{name}:vectorised-{tag}', 'vectorised gradient '
                           'operator differs', rep)
            dn = [f'{a + 1}{b + 1}' for b in range(n) for a in range(n)]
            for tag, a, b in (
                    ('', build_discrete_gradient(D, None),
                     build_discrete_gradient(D, dn)),
                    ('-batched', vbuild_discrete_gradient(D, None),
                     vbuild_discrete_gradient(D, dn))):
                if a.shape != b.shape or (a - b).abs().max() > 1e-12:
                    t.fail(f'{name}:order{tag}', 'the default component '
                           'order is not column-major', rep)
            if n == 2 and tuple(o) == plast.order(1):
                expanded(t, name, vbuild_discrete_sym_gradient(D, o), X, rep)
            scale = 1.0
            for i, j in itertools.product(range(n), repeat=2):
                A = np.zeros((n, n))
                A[i, j] = 1.0
                u = X@A.T + 0.3
                H = u.T@Dn       # displacement gradient
                if np.abs(H - A).max() > 1e-5*scale:
                    t.fail(f'{name}:affine', f'gradient {H.tolist()} of the '
                           f'affine field {A.tolist()}', rep)
                # operators act on the nodal displacements node by node
                uu = u.reshape(-1)
                e = plast.arr(compute_infinitesimal_strain(T(Bv), T(u)))
                e2 = plast.arr(compute_infinitesimal_inc_strain(T(Bs),
                                                                T(u)))
                E = 0.5*(A + A.T)
                want = np.array([E[int(c[0]) - 1, int(c[1]) - 1]
                                 * (1 if c[0] == c[1] else 2) for c in o])
                if np.abs(e - want).max() > 1e-5 or \
                        np.abs(e2 - want).max() > 1e-5:
                    t.fail(f'{name}:strain', f'{e} expected {want}', rep)
                full = Gv@uu
                want = np.array([A[int(c[0]) - 1, int(c[1]) - 1]
                                 for c in ns])
                if np.abs(full - want).max() > 1e-5:
                    t.fail(f'{name}:gradient', f'{full} expected {want}',
                           rep)
            # inverted elements are detected on request
            M = np.eye(n)
            M[0, 0] = -1
            for Y, ok in ((X, True), (X@M, False)):
                try:
                    eval_jacobian(el, T(Y), T(x), is_check_det=True)
                    res = True
                except RuntimeError:
                    res = False
                if res != ok:
                    t.fail(f'{name}:inverted', f'determinant check gives '
                           f'{res}', rep)
        t.trace()


def forces(item, t):
    name, g, kind, dtype = item
    torch.set_default_dtype(torch.float64)
    ref = fem.Ref(name)
    n = ref.n_dim
    pt = 1 if n == 2 else 4
    el = fem.element(name, g)
    xs, ws = el.get_gauss_integration_points()
    geos = geometries(ref)
    geos = geos[:9] + geos[9::max(1, len(geos)//(6 if THOROUGH else 3))]
    for _, gid, X in geos:
        model = mats.make(kind, pt)
        fields = []
        for i, j in itertools.product(range(n), repeat=2):
            A = np.zeros((n, n))
            A[i, j] = 0.004
            fields.append(X@A.T)
        # not affine: one node displaced
        for k in (0, ref.n_node - 1):
            u = np.zeros_like(X)
            u[k] = 0.01*np.arange(1, n + 1)*np.abs(X).max()
            fields.append(u)
        states = {str(i + 1): model.state_init()
                  for i in range(el.get_n_gauss())}
        total = np.zeros_like(X)
        for u in fields:
            t.transition()
            t.state((name, g, kind, gid, u.round(9).tolist()))
            rep = dict(element=name, n_gauss=g, model=kind, nodes=X,
                       increment=u)
            keep = copy.deepcopy(states)
            total = total + u
            f, new = compute_element_internal_forces(
                'infinitesimal', pt, el, model, states, T(X), T(total), T(u))
            for k in states:
                if any(isinstance(v, torch.Tensor)
                       and not torch.equal(v, keep[k][q])
                       for q, v in states[k].items()):
                    t.fail(f'{name}:old-state', 'last converged state '
                           'modified', rep)
            if set(new) != set(states):
                t.fail(f'{name}:points', f'{sorted(new)}', rep)
                break
            want = np.zeros(X.size)
            mag = 0.0
            for k in states:
                x, w = plast.arr(xs[k]), plast.num(ws[k])
                J = ref.dN(x).T@X
                Dn = ref.dN(x)@np.linalg.inv(J).T
                H = u.T@Dn
                e = 0.5*(H + H.T)
                # strain increment seen by the material point
                old = plast.view(keep[k], pt)['strain'][:n, :n]
                v = plast.view(new[k], pt)
                if np.abs(v['strain'][:n, :n] - old - e).max() > 1e-8:
                    t.fail(f'{name}:increment', f'point {k} sees strain '
                           f'increment {v["strain"][:n, :n] - old} expected '
                           f'{e}', rep)
                s = v['stress'][:n, :n]
                if abs(np.linalg.det(J)) > 0:
                    want += (w*np.linalg.det(J)*(Dn@s)).reshape(-1)
                    mag += w*abs(np.linalg.det(J))*np.abs(
                        Dn).max()*max(np.abs(s).max(), 1.0)
            got = plast.arr(f).reshape(-1)
            if got.shape != want.shape or \
                    np.abs(got - want).max() > 1e-5*mag:
                t.fail(f'{name}:forces', f'{got.tolist()} expected '
                       f'{want.tolist()}', rep)
                continue
            F = got.reshape(ref.n_node, n)
            size = np.abs(X).max()
            if np.abs(F.sum(0)).max() > 1e-6*mag:
                t.fail(f'{name}:resultant', f'{F.sum(0)}', rep)
            M = F.T@X
            if np.abs(M - M.T).max() > 1e-6*mag*size:
                t.fail(f'{name}:moment', f'{(M - M.T).tolist()}', rep)
            states = new
        t.trace()


def main(chk):
    chk.pmap(shape_functions, list(fem.ELEMENTS))
    nparts = 4
    chk.pmap(geometry, [(n, p, nparts) for n in reversed(fem.ELEMENTS)
                        for p in range(nparts)])
    its = []
    for n in reversed(fem.ELEMENTS):
        for g in reversed(fem.ELEMENTS[n]['gauss']):
            for kind in ('elastic', 'von_mises'):
                its.append((n, g, kind, None))
    chk.pmap(forces, its)


chk.run('quadratures', quadratures)
chk.run('elements', main)
chk.assumptions += ['infinitesimal strains; polynomial identities decided on '
                    'a lattice that separates the polynomials of each space']
chk.finish()
