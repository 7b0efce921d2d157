"""Patches, simulation input files and their independent reading."""
import re
import numpy as np
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from data_generation.spdg.patch import FiniteElementPatch

DIMS = {2: (2.0, 3.5), 3: (1.0, 2.25, 3.0)}
# nodes of an element in the order of the simulator (grid of the element)
LOCAL = {
    'SQUAD4': [(0, 0), (1, 0), (1, 1), (0, 1)],
    'SQUAD8': [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2),
               (0, 1)],
    'SHEXA8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1),
               (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    'SHEXA20': [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2),
                (2, 0, 2), (2, 2, 2), (0, 2, 2), (1, 0, 0), (2, 1, 0),
                (1, 2, 0), (0, 1, 0), (0, 0, 1), (2, 0, 1), (2, 2, 1),
                (0, 2, 1), (1, 0, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2)]}
DEGREE = {'SQUAD4': 1, 'SQUAD8': 2, 'SHEXA8': 1, 'SHEXA20': 2}
TYPE = {'SQUAD4': ('QUAD4', 4), 'SQUAD8': ('QUAD8', 4),
        'SHEXA8': ('HEXA8', 8), 'SHEXA20': ('HEXA20', 8)}


def disp(label, j):
    """A displacement that is different for every degree of freedom."""
    return (-1)**(label + j)*(0.001*label + 0.1*(j + 1)) if label % 3 \
        else 0.0


def make_patch(elem, n):
    """Regular mesh with prescribed boundary displacements."""
    nd = len(n)
    gen = FiniteElementPatchGenerator(nd, DIMS[nd])
    _, p = gen.generate_deformed_patch(elem, n)
    u = {k: np.array([disp(int(k), j) for j in range(nd)])
         for k in p.get_mesh_boundary_nodes_disps()}
    return FiniteElementPatch(
        nd, DIMS[nd], elem, n, p.get_mesh_nodes_matrix(),
        p.get_mesh_nodes_coords_ref(), u), u


def cells(elem, n):
    """Elements as lists of node positions, first dimension fastest."""
    nd = len(n)
    h = np.array(DIMS[nd])/np.array(n)
    out = []
    for idx in np.ndindex(*n[::-1]):
        org = np.array(idx[::-1])
        out.append([(org + np.array(q)/DEGREE[elem])*h for q in LOCAL[elem]])
    return out


def number(s):
    return float(s)


def read(path):
    """Sections of an input file, by keyword."""
    lines = open(path).read().split('\n')
    out = {}
    k = 0
    while k < len(lines):
        f = lines[k].split()
        key = f[0].upper() if f else ''
        if key in ('ELEMENTS', 'NODE_COORDINATES', 'INCREMENTS',
                   'NODES_WITH_PRESCRIBED_DISPLACEMENTS', 'ELEMENT_GROUPS',
                   'ELEMENT_TYPES', 'MATERIALS', 'TITLE'):
            rows = []
            k += 1
            while k < len(lines) and lines[k].strip():
                rows.append(lines[k])
                k += 1
            out.setdefault(key, []).append((f[1:], rows))
        else:
            if f:
                out.setdefault(key, []).append((f[1:], []))
            k += 1
    return out


def floats(s):
    return [float(x) for x in re.findall(
        r'[+-]?\d+\.?\d*(?:[eE][+-]?\d+)?', s)]


def section(sec, key):
    """The only section of a keyword."""
    assert len(sec.get(key, [])) == 1, f'{key}: {len(sec.get(key, []))}'
    return sec[key][0]


def mesh_of(sec):
    """Nodes, elements with phase, prescribed displacements."""
    f, rows = section(sec, 'NODE_COORDINATES')
    nodes = {int(r.split()[0]): [float(x) for x in r.split()[1:]]
             for r in rows}
    assert int(f[0]) == len(rows) == len(nodes), 'number of nodes'
    f, rows = section(sec, 'ELEMENTS')
    elems = {}
    for r in rows:
        v = [int(x) for x in r.split()]
        elems[v[0]] = (v[1], v[2:])
    assert int(f[0]) == len(rows) == len(elems), 'number of elements'
    f, rows = section(sec, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
    bc = {}
    for r in rows:
        v = r.split()
        bc[int(v[0])] = (v[1], [float(x) for x in v[2:]])
    assert int(f[0]) == len(rows) == len(bc), 'number of fixed nodes'
    return nodes, elems, bc
