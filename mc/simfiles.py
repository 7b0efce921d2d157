"""Simulation files of small specimens."""
import os
import numpy as np
from mc import discover as dc, links as lk, specimen as sp

LINKS = {'tri3': ('TRI_3', 1), 'quad4': ('QUAD_4', 4),
         'tetra4': ('TETRA_4', 4), 'hexa8': ('HEXA_8', 8),
         'hexa20': ('HEXA_20', 8)}
ABAQUS = {'tri3': 'CPE3', 'quad4': 'CPE4', 'tetra4': 'C3D4',
          'hexa8': 'C3D8', 'hexa20': 'C3D20R'}
SIMPLE = dict(sp.MESHES)
SIMPLE['hexa20'] = ('hexa20', 4, [
    tuple(0.5*np.array(q) + 0.02*np.array([q[1]*q[2], q[0], q[0]*q[1]]))
    for q in lk.LOCAL['SHEXA20']], [tuple(range(1, 21))])
SIMPLE['hexa8x2'] = ('hexa8', 4, [
    (x + 0.1*y, y, z + 0.05*x) for z in (0.0, 1.0) for y in (0.0, 1.1)
    for x in (0.0, 1.0, 1.8)],
    [(1, 2, 5, 4, 7, 8, 11, 10), (2, 3, 6, 5, 8, 9, 12, 11)])
SIMPLE['quad4x4'] = ('quad4', 1, [
    (x + 0.1*y, y + 0.05*x*x) for y in range(3) for x in range(3)],
    [(1, 2, 5, 4), (2, 3, 6, 5), (4, 5, 8, 7), (5, 6, 9, 8)])


def make_dat(path, mesh, bc, upper=True, alias=False):
    """Simulation input file (the sections of the simulator's writer)."""
    name, pt, X, conn = mesh
    kind, ng = LINKS[name]
    if alias:
        kind = kind.replace('_', '')
    kw = (lambda s: s) if upper else str.lower
    out = ['TITLE', 'specimen', '', kw('ELEMENT_TYPES') + ' 1',
           f'1 {kw(kind)}', f'  {ng} GP', '', kw('ELEMENTS') +
           f' {len(conn)}']
    out += [f'{e + 1:>3d}  1  ' + ' '.join(map(str, c))
            for e, c in enumerate(conn)]
    out += ['', kw('NODE_COORDINATES') + f' {len(X)} CARTESIAN']
    out += [f'{i + 1:>3d} ' + ' '.join(f'{v:16.8e}' for v in x)
            for i, x in enumerate(X)]
    rows = [i for i in range(len(X)) if bc[i].any()]
    out += ['', kw('NODES_WITH_PRESCRIBED_DISPLACEMENTS') + f' {len(rows)}']
    for i in rows:
        c = list(bc[i]) + [0]*(3 - len(bc[i]))
        out.append(f' {i + 1:>3d} ' + ''.join('1' if v else '0' for v in c) +
                   ' '.join(f'{presc(i, j) if v else 0.0:16.8e}'
                            for j, v in enumerate(c)))
    open(path, 'w').write('\n'.join(out) + '\n')


def presc(i, j):
    return (-1)**(i + j)*(0.125*(i + 1) + j)


def node_rows(u, r, X, t):
    n, nd = X.shape
    for i in range(n):
        def three(v):
            return list(v) + [0.0]*(3 - nd)
        # internal and external forces: not those of the specimen
        yield [i + 1, 0.25*t, 7.0 + t] + three(X[i] + u[i, :, t]) + \
            three(u[i, :, t]) + [100.0 + i + t]*3 + [200.0 + i - t]*3 + \
            three(r[i, :, t])


def make_output(d, sim, steps, u, r, X):
    os.makedirs(os.path.join(d, 'NODE_DATA'))
    for t, s in reversed(list(enumerate(steps))):
        with open(os.path.join(d, 'NODE_DATA',
                               f'{sim}_tstep_{s}.nodedata'), 'w') as f:
            for row in node_rows(u, r, X, t):
                f.write(' '.join([f'{row[0]:5d}'] +
                                 [f'{v:24.16e}' for v in row[1:]]) + '\n')
    open(os.path.join(d, 'NODE_DATA', 'notes.txt'), 'w').write('x')


def bc_pattern(mesh, which):
    n, nd = np.array(mesh[2]).shape
    if isinstance(which, int):          # bit mask over the dofs
        return np.array([[which >> (i*nd + j) & 1 for j in range(nd)]
                         for i in range(n)])
    return dc.bc_of(mesh, which, 'pointwise')
