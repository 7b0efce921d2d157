"""Specimens for model discovery and their reference evaluation (numpy)."""
import numpy as np
import torch

from mc import fem, mats, plast
from mc.recurrent import ORDER, apply_values

Q2 = [(0.0, 0.0), (1.0, 0.1), (2.1, 0.0), (0.1, 1.0), (1.1, 0.9), (2.0, 1.1)]
MESHES = {
    # name: (element, problem type, coordinates, connectivities (from 1))
    'quad4': ('quad4', 1, [(0.0, 0.0), (1.0, 0.1), (1.2, 1.0), (-0.1, 0.8)],
              [(1, 2, 3, 4)]),
    'quad4x2': ('quad4', 1, Q2, [(1, 2, 5, 4), (2, 3, 6, 5)]),
    'tri3x2': ('tri3', 1, [(0.0, 0.0), (1.0, 0.0), (1.1, 0.9), (0.0, 1.0)],
               [(1, 2, 3), (1, 3, 4)]),
    'tri6': ('tri6', 1, [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.5, -0.05),
                         (0.55, 0.5), (0.0, 0.5)], [(1, 2, 3, 4, 5, 6)]),
    'quad8': ('quad8', 1, [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0),
                           (0.5, -0.1), (1.05, 0.5), (0.5, 1.0),
                           (0.0, 0.55)], [(1, 2, 3, 4, 5, 6, 7, 8)]),
    'hexa8': ('hexa8', 4, [(0, 0, 0), (1.0, 0, 0), (1.1, 1.0, 0),
                           (0, 0.9, 0), (0, 0, 1.0), (1.0, 0.1, 1.0),
                           (1.0, 1.0, 1.2), (0, 1.0, 1.0)],
              [(1, 2, 3, 4, 5, 6, 7, 8)]),
    'tetra4x2': ('tetra4', 4, [(0, 0, 0), (1.0, 0, 0), (0, 1.0, 0),
                               (0.1, 0, 1.0), (1.0, 1.0, 1.0)],
                 [(1, 2, 3, 4), (2, 3, 4, 5)]),
}


def renumber(mesh, elems=None, nodes=None):
    """Same specimen, elements listed and nodes numbered differently."""
    name, pt, X, conn = mesh
    if nodes is not None:             # nodes[i]: new position of node i
        Y = [None]*len(X)
        for i, x in enumerate(X):
            Y[nodes[i]] = x
        X = Y
        conn = [tuple(nodes[n - 1] + 1 for n in c) for c in conn]
    if elems is not None:
        conn = [conn[i] for i in elems]
    return name, pt, X, conn


def field(mesh, letter, scale=1.0):
    """Nodal displacement increments of a letter (a function of position)."""
    X = np.array(mesh[2], float)
    nd = X.shape[1]
    G = {'a': [[1.0, 0.4, 0.1], [0.2, -0.5, 0.3], [0.0, 0.2, 0.6]],
         'b': [[-2.5, 0.7, 0.3], [1.0, 1.2, -0.6], [0.4, 0.1, 0.9]],
         'c': [[0.3, -3.0, 0.2], [0.5, 0.2, 0.1], [-0.4, 0.6, -1.0]],
         '0': np.zeros((3, 3))}[letter]
    G = np.array(G)[:nd, :nd]
    u = X@G.T
    if letter != '0':
        # not uniform: a quadratic part
        u = u + 0.5*np.stack([X[:, 0]*X[:, 1], X[:, -1]**2] + (
            [X[:, 0]*X[:, 2]] if nd == 3 else []), axis=1)*G[0, 0]
    return 2e-3*scale*u


def history(mesh, word, scale=1.0):
    u = [np.zeros_like(np.array(mesh[2], float))]
    for c in word:
        u.append(u[-1] + field(mesh, c, scale))
    return np.stack(u, axis=2)          # (n_node, n_dim, n_time)


def gauss(name, n_gauss=None):
    el = fem.element(name, n_gauss)
    c, w = el.get_gauss_integration_points()
    return el, [(np.array(c[k].tolist()), float(w[k])) for k in c]


def bmatrices(mesh, n_gauss=None):
    """[(element, B (n_comp, n_node, n_dim), weight*|J|)] per point."""
    name, pt, X, conn = mesh
    ref = fem.Ref(name)
    X = np.array(X, float)
    out = []
    _, pts = gauss(name, n_gauss)
    for e, c in enumerate(conn):
        xe = X[[n - 1 for n in c]]
        for xi, w in pts:
            dN = ref.dN(xi)
            J = xe.T@dN                 # dx/dxi
            g = dN@np.linalg.inv(J)     # (n_node, n_dim)
            out.append((e, g, w*np.linalg.det(J)))
    return out


def strain_paths(mesh, u, n_gauss=None):
    """Strain tensors (n_time, n_dim, n_dim) of each integration point."""
    out = []
    for e, g, _ in bmatrices(mesh, n_gauss):
        ue = u[[n - 1 for n in mesh[3][e]]]
        h = np.einsum('nit,nj->tij', ue, g)
        out.append(0.5*(h + h.transpose(0, 2, 1)))
    return out


def material_stress(base, pt, values):
    """Stress paths by stepping the per-point material model."""
    par = apply_values(base, mats.parameters(base), values)
    m = mats.model_class(base)('infinitesimal', pt, par)
    nd = 2 if pt == 1 else 3

    def run(path):
        st = m.state_init()
        out = [np.zeros((nd, nd))]
        for a, b in zip(path[:-1], path[1:]):
            st, _ = m.state_update(torch.tensor(b - a), st)
            assert not plast.view(st, pt)['is_su_fail']
            out.append(plast.from_mf(plast.arr(st['stress_mf']),
                                     pt)[:nd, :nd])
        return np.array(out)
    return run


def comps_of(t, pt):
    return np.array([[x[i, j] for i, j in ORDER[pt]] for x in t])


def tensor_of(rows, pt):
    nd = 2 if pt == 1 else 3
    out = np.zeros((len(rows), nd, nd))
    for k, (i, j) in enumerate(ORDER[pt]):
        out[:, i, j] = out[:, j, i] = np.asarray(rows)[:, k]
    return out


def internal_forces(mesh, stress_paths, n_gauss=None):
    """(n_node, n_dim, n_time) from the stresses at the points."""
    X = np.array(mesh[2], float)
    nt = len(stress_paths[0])
    f = np.zeros(X.shape + (nt,))
    for (e, g, w), s in zip(bmatrices(mesh, n_gauss), stress_paths):
        fe = w*np.einsum('tij,nj->nit', s, g)
        for k, n in enumerate(mesh[3][e]):
            f[n - 1] += fe[k]
    return f


def loss(f, r, bc, kind, weights, factor, scale=None):
    """Force equilibrium loss and its history."""
    f, r = np.array(f), np.array(r)
    res = f - np.where(bc[:, :, None] > 0, r, 0.0)
    if scale is not None:
        res = res*np.asarray(scale)[None, :, None]
    nt = f.shape[2]
    hist = np.zeros(nt)
    parts = np.zeros((2, nt))
    for t in range(nt):
        if kind == 'pointwise':
            hist[t] = np.sum(res[:, :, t]**2)
        else:
            parts[0, t] = np.sum(res[:, :, t][bc == 0]**2)
            for s in np.unique(bc[bc > 0]):
                parts[1, t] += np.sum(res[:, :, t][bc == s])**2
            hist[t] = parts[:, t].sum()
    w = np.ones(nt) if weights is None else np.asarray(weights)
    k = 1.0 if factor is None else factor
    return k*np.sum(w*hist), k*w*hist, k*w*parts
