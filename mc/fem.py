"""Reference finite elements: shape functions as the interpolants of the
polynomial space of each element (numpy, independent of the code)."""
import importlib
import itertools

import numpy as np

E = {}


def _grid(*rows):
    return np.array(rows, dtype=float)


def _mons(n, cond):
    return [p for p in itertools.product(range(4), repeat=n) if cond(p)]


def _superlinear(p):
    return sum(x for x in p if x > 1)


TRI = _grid((0, 0), (1, 0), (0, 1))
TET = _grid((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))
QUAD = _grid((-1, -1), (1, -1), (1, 1), (-1, 1))
HEX = _grid((-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
            (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1))


def _mid(x, pairs):
    return np.vstack([x] + [0.5*(x[a] + x[b]) for a, b in pairs])


ELEMENTS = {
    'tri3': dict(cls='FETri3', nodes=TRI, simplex=True, gauss=(1,),
                 mons=_mons(2, lambda p: sum(p) <= 1)),
    'tri6': dict(cls='FETri6', simplex=True, gauss=(1, 3),
                 nodes=_mid(TRI, [(0, 1), (1, 2), (2, 0)]),
                 mons=_mons(2, lambda p: sum(p) <= 2)),
    'quad4': dict(cls='FEQuad4', nodes=QUAD, simplex=False, gauss=(1, 4),
                  mons=_mons(2, lambda p: max(p) <= 1)),
    'quad8': dict(cls='FEQuad8', simplex=False, gauss=(4, 9),
                  nodes=_mid(QUAD, [(0, 1), (1, 2), (2, 3), (3, 0)]),
                  mons=_mons(2, lambda p: sum(p) <= 3 and max(p) <= 2)),
    'tetra4': dict(cls='FETetra4', nodes=TET, simplex=True, gauss=(1, 4),
                   mons=_mons(3, lambda p: sum(p) <= 1)),
    'tetra10': dict(cls='FETetra10', simplex=True, gauss=(4,),
                    nodes=_mid(TET, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3),
                                     (2, 3)]),
                    mons=_mons(3, lambda p: sum(p) <= 2)),
    'hexa8': dict(cls='FEHexa8', nodes=HEX, simplex=False, gauss=(1, 8),
                  mons=_mons(3, lambda p: max(p) <= 1)),
    'hexa20': dict(cls='FEHexa20', simplex=False, gauss=(8, 27),
                   nodes=_mid(HEX, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4),
                                    (1, 5), (2, 6), (3, 7), (4, 5), (5, 6),
                                    (6, 7), (7, 4)]),
                   mons=_mons(3, lambda p: _superlinear(p) <= 2
                              and max(p) <= 2)),
}


def mono(p, x):
    return float(np.prod([x[i]**k for i, k in enumerate(p)]))


def dmono(p, x):
    out = []
    for i, k in enumerate(p):
        q = list(p)
        if k == 0:
            out.append(0.0)
        else:
            q[i] -= 1
            out.append(k*mono(q, x))
    return np.array(out)


class Ref:

    def __init__(self, name):
        d = ELEMENTS[name]
        self.name, self.nodes, self.mons = name, d['nodes'], d['mons']
        self.simplex, self.gauss = d['simplex'], d['gauss']
        self.n_node, self.n_dim = self.nodes.shape
        assert len(self.mons) == self.n_node, name
        V = np.array([[mono(p, x) for p in self.mons] for x in self.nodes])
        self.coef = np.linalg.inv(V)

    def N(self, x):
        return np.array([mono(p, x) for p in self.mons])@self.coef

    def dN(self, x):
        """(n_node, n_dim) derivatives in local coordinates."""
        return (np.array([dmono(p, x) for p in self.mons]).T@self.coef).T

    def lattice(self, n=4):
        """Local points enough to tell polynomials of the space apart."""
        if self.simplex:
            pts = [p for p in itertools.product(
                np.linspace(0, 1, n + 1), repeat=self.n_dim)
                if sum(p) <= 1 + 1e-12]
        else:
            pts = itertools.product(np.linspace(-1, 1, n),
                                    repeat=self.n_dim)
        return [np.array(p) for p in pts]


def element(name, n_gauss=None):
    d = ELEMENTS[name]
    m = importlib.import_module('simulators.fetorch.element.type.' + name)
    c = getattr(m, d['cls'])
    return c() if n_gauss is None else c(n_gauss=n_gauss)


def integral(p, simplex):
    """Exact integral of a monomial over the reference domain."""
    from math import factorial
    if simplex:
        num = 1
        for k in p:
            num *= factorial(k)
        return num/factorial(sum(p) + len(p))
    out = 1.0
    for k in p:
        out *= 0.0 if k % 2 else 2.0/(k + 1)
    return out
