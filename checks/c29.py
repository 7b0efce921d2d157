"""C29: simulation input files describe exactly the patch."""
import _path  # noqa
import itertools
import math
import os
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
from mc import links as lk
from mc.choice import outcomes
from simulators.links.links import LinksSimulator
from simulators.fetorch.material.models.standard.hardening import \
    get_hardening_law

torch.set_default_dtype(torch.float64)
warnings.simplefilter('ignore')
chk = Check('C29')
KIND = {2: 'plane_strain', 3: 'tridimensional'}
CODE = {'plane_stress': '1', 'plane_strain': '2', 'axisymmetric': '3',
        'tridimensional': '6'}
HARD = ('linear', {'s0': 800.0, 'a': 550.0}), (
    'nadai_ludwik', {'s0': 700.0, 'a': 500.0, 'b': 0.5, 'ep0': 1e-3})


def material(name, k):
    d = {'name': name, 'density': 0.5 + k, 'young': 1e5 + 7*k,
         'poisson': 0.31 - 0.01*k}
    law, par = HARD[k % 2]
    if name != 'ELASTIC':
        d.update(n_hard_point=3 + k, hardening_law=get_hardening_law(law),
                 hardening_parameters=par)
    if name == 'DRUCKER_PRAGER':
        d.update(friction_angle_deg=12.0 + k, dilatancy_angle_deg=11.0 + k)
    if name == 'LOU':
        for i, c in enumerate('abcd'):
            d[f'yield_{c}_init'] = 1.0 + i + 0.1*k
            d[f'{c}_hard_slope'] = 0.25*i - 0.1*k
    return d


def yield_stress(k, e):
    law, p = HARD[k % 2]
    if law == 'linear':
        return p['s0'] + p['a']*e
    return p['s0'] + p['a']*((e + p['ep0'])**p['b'])


def near(a, b, tol=1e-8):
    return abs(a - b) <= tol*max(abs(a), abs(b)) + 1e-300


def nears(a, b, tol=1e-8):
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


def materials(t, name, sec, phases, descr, tr):
    """Each phase with its constitutive model and hardening points."""
    f, rows = lk.section(sec, 'MATERIALS')
    got, cur = {}, None
    for r in rows:
        v = r.split()
        if len(v) == 2 and v[1].isalpha() or (len(v) == 2 and '_' in v[1]):
            cur = int(v[0])
            got[cur] = [v[1]]
        else:
            got[cur].append([float(x) for x in v])
    t.check(int(f[0]) == len(got) and set(got) == set(phases), 'phases',
            f'{name}: materials {sorted(got)}, expected {sorted(phases)}',
            tr)
    for p, rows in got.items():
        if p not in phases:
            continue
        d = descr[str(p)]
        k = int(round(d['density'] - 0.5))
        want = [d['name'], [d['density']]]
        el = [d['young'], d['poisson']]
        if d['name'] == 'DRUCKER_PRAGER':
            el += [d['friction_angle_deg'], d['dilatancy_angle_deg'], 3.0]
        want.append(el)
        if d['name'] == 'LOU':
            want += [[d[f'yield_{c}_init'], d[f'{c}_hard_slope']]
                     for c in 'abcd']
        if d['name'] != 'ELASTIC':
            n = d['n_hard_point']
            want.append([float(n)])
            for i in range(n):
                e = 2.0*i/(n - 1)
                want.append([e, yield_stress(k, e)])
        ok = len(rows) == len(want) and rows[0] == want[0] and all(
            nears(a, b) for a, b in zip(rows[1:], want[1:]))
        t.check(ok, 'material', f'{name}: material {p} is {rows}, expected '
                f'{want}', tr)
    f, rows = lk.section(sec, 'ELEMENT_GROUPS')
    g = sorted([int(x) for x in r.split()] for r in rows)
    t.check(int(f[0]) == len(g) and g == [[p, 1, p] for p in sorted(phases)],
            'groups', f'{name}: element groups {g}', tr)


def increments(t, name, sec, tr):
    """Total load factors start at zero and stay within one."""
    f, rows = lk.section(sec, 'INCREMENTS')
    inc = [float(r.split()[1]) for r in rows]
    t.check(int(f[0]) == len(inc), 'increments', f'{name}: {len(inc)} '
            f'increments, declared {f[0]}', tr)
    tot = np.cumsum(inc)
    t.check(np.all(np.isfinite(tot)) and np.abs(tot).max() <= 1 + 1e-6,
            'load-factor', f'{name}: load factors reach '
            f'{np.abs(tot).max()}', tr)
    t.check(all(len(r.split()) == 4 for r in rows), 'increment-line',
            f'{name}: {rows[0]}', tr)
    return tot


def write(item, t):
    _, elem, n, phases, names, removed, options = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    opt = dict(options)
    nd = len(n)
    name = f'{elem} {n} phases {phases} {names} without {removed} {opt}'
    patch, u = lk.make_patch(elem, n)
    mat = np.zeros(n, dtype=int)
    for e, idx in enumerate(np.ndindex(*n[::-1])):
        mat[idx[::-1]] = phases[e]
    descr = {str(p): material(x, k) for k, (p, x) in enumerate(names)}
    cells = lk.cells(elem, n)
    bnd = set(u)
    pos = {tuple(np.round(x, 9)) for c in cells for x in c}
    kept = [k for k in range(len(cells)) if k + 1 not in removed]
    left = {tuple(np.round(x, 9)) for k in kept for x in cells[k]}

    def is_bnd(x):
        return any(abs(a) < 1e-9 or abs(a - b) < 1e-9
                   for a, b in zip(x, lk.DIMS[nd]))
    allowed = not any(is_bnd(x) for x in pos - left)
    sim = LinksSimulator('links', opt.get('form', 'infinitesimal'),
                         opt.get('kind', KIND[nd]))
    state = (mat.copy(), patch.get_mesh_nodes_coords_ref(),
             patch.get_mesh_boundary_nodes_disps())
    with Scratch() as d:
        dr = os.path.join(d, 'sim')
        if opt.get('exists'):
            os.mkdir(dr)
            open(os.path.join(dr, 'patch.dat'), 'w').write('previous')
        kw = {}
        if removed or opt.get('empty'):
            kw['remove_elements_labels'] = list(removed)
        if 'input' in opt:
            kw['links_input_params'] = dict(opt['input'])
        try:
            np.random.seed(3)
            fp = sim.generate_input_data_file(
                'patch', dr, patch, {'mesh_elem_material': mat,
                                     'mat_phases_descriptors': descr},
                is_overwrite_file=bool(opt.get('overwrite')), **kw)
        except RuntimeError:
            missing = set(phases) - {p for p, _ in names}
            t.check(not allowed or bool(missing), 'rejected',
                    f'{name}: valid patch rejected', tr)
            t.state((item, 'rejected'))
            return
        t.check(allowed, 'removal', f'{name}: boundary nodes removed', tr)
        t.check(set(phases) <= {p for p, _ in names}, 'missing-material',
                f'{name}: file without a material', tr)
        if not allowed:
            return
        t.state(item)
        if opt.get('exists') and not opt.get('overwrite'):
            t.check(open(os.path.join(dr, 'patch.dat')).read() == 'previous'
                    and os.path.basename(fp) != 'patch.dat', 'overwritten',
                    f'{name}: existing input file overwritten', tr)
        try:
            sec = lk.read(fp)
            nodes, elems, bc = lk.mesh_of(sec)
        except (AssertionError, ValueError, IndexError) as err:
            t.fail('format', f'{name}: {err}', tr)
            return
        # nodes: exactly the positions that are left, numbered from one
        t.check(sorted(nodes) == list(range(1, len(left) + 1)), 'labels',
                f'{name}: node labels {sorted(nodes)}', tr)
        at = {tuple(np.round(x, 6)): k for k, x in nodes.items()}
        t.check(set(at) == {tuple(np.round(x, 6)) for x in left}, 'nodes',
                f'{name}: nodes at {sorted(at)}', tr)
        # elements in order, each with the nodes of its cell
        t.check(sorted(elems) == list(range(1, len(kept) + 1)), 'elements',
                f'{name}: element labels {sorted(elems)}', tr)
        for lab, k in enumerate(kept, 1):
            if lab not in elems:
                continue
            ph, con = elems[lab]
            t.check(ph == phases[k], 'phase', f'{name}: element {lab} has '
                    f'phase {ph}, expected {phases[k]}', tr)
            x = [nodes.get(c) for c in con]
            ok = None not in x and len(x) == len(cells[k]) and np.allclose(
                x, cells[k], atol=1e-6)
            t.check(ok, 'connectivity', f'{name}: element {lab} has nodes '
                    f'at {x}, expected {[list(v) for v in cells[k]]}', tr)
        # prescribed displacements: every boundary node, its own value
        back = {}
        for lab, x in patch.get_mesh_nodes_coords_ref().items():
            back[tuple(np.round(x, 6))] = lab
        want = {at[tuple(np.round(patch.get_mesh_nodes_coords_ref()[b],
                                  6))]: u[b] for b in bnd
                if tuple(np.round(patch.get_mesh_nodes_coords_ref()[b], 6))
                in at}
        ok = set(bc) == set(want)
        t.check(ok, 'fixed', f'{name}: prescribed nodes {sorted(bc)}, '
                f'expected {sorted(want)}', tr)
        for k in set(bc) & set(want):
            code, v = bc[k]
            w = list(want[k]) + [0.0]*(3 - nd)
            t.check(code == '111' and np.allclose(v, w, rtol=1e-7,
                                                  atol=1e-12),
                    'displacement', f'{name}: node {k} at {nodes.get(k)} '
                    f'prescribed {code} {v}, expected {w}', tr)
        f, rows = lk.section(sec, 'ELEMENT_TYPES')
        t.check(f == ['1'] and rows[0].split() == ['1', lk.TYPE[elem][0]]
                and rows[1].split() == [str(lk.TYPE[elem][1]), 'GP'],
                'element-type', f'{name}: {f} {rows}', tr)
        materials(t, name, sec, set(mat.flatten().tolist()), descr, tr)
        increments(t, name, sec, tr)
        ip = dict(opt.get('input', ()))
        for key, val in (('ANALYSIS_TYPE', CODE[opt.get('kind', KIND[nd])]),
                         ('LARGE_STRAIN_FORMULATION',
                          'OFF' if opt.get('form', 'infinitesimal')
                          == 'infinitesimal' else 'ON'),
                         ('SOLVER', ip.get('solver', 'PARDISO'))):
            t.check([x[0] for x in sec.get(key, [])] == [[val]], 'options',
                    f'{name}: {key} {sec.get(key)}, expected {val}', tr)
        # inputs unchanged
        t.check(np.array_equal(state[0], mat) and all(
            np.array_equal(state[1][k], v) for k, v in
            patch.get_mesh_nodes_coords_ref().items()) and all(
                np.array_equal(state[2][k], v) for k, v in
                patch.get_mesh_boundary_nodes_disps().items()), 'inputs',
            f'{name}: patch modified', tr)


def loading(item, t):
    """Load factors for every outcome of the draws."""
    t.trace()
    tr = dict(item=str(item))
    sim = LinksSimulator('links', 'infinitesimal', 'plane_strain')

    def run():
        return ''.join(sim._get_links_loading_incrementation())
    for trail, text in outcomes(run, unit=(0.0, 0.5, 1.0)):
        t.state(trail)
        rows = text.strip().split('\n')
        inc = [float(r.split()[1]) for r in rows[1:]]
        t.check(rows[0].split() == ['INCREMENTS', str(len(inc))],
                'loading:number', f'{rows[0]}: {len(inc)}', tr)
        tot = np.concatenate([[0.0], np.cumsum(inc)])
        t.check(bool(np.all(np.isfinite(tot)))
                and np.abs(tot).max() <= 1 + 1e-6, 'loading:bounds',
                f'draws {trail}: load factor {np.abs(tot).max()}', tr)
        # a polynomial of at most degree four of the time
        x = np.linspace(0, 1, len(tot))
        fit = np.polyval(np.polyfit(x, tot, 4), x)
        t.check(np.abs(fit - tot).max() < 1e-5, 'loading:smooth',
                f'draws {trail}: load factors are not a polynomial', tr)


def results(item, t):
    """Results read back, in time order."""
    _, n_node, steps, sim_name, kinds = item
    t.trace()
    tr = dict(item=[str(x) for x in item])
    sim = LinksSimulator('links', 'infinitesimal', 'plane_strain')
    with Scratch() as d:
        out = os.path.join(d, sim_name)
        for kind, ext, nr in (('NODE_DATA', 'nodedata', n_node),
                              ('GLOBAL_DATA', 'globaldata', 1)):
            os.makedirs(os.path.join(out, kind))
            for s in steps:
                with open(os.path.join(
                        out, kind, f'{sim_name}_tstep_{s}.{ext}'), 'w') as f:
                    for i in range(nr):
                        f.write(' '.join(f'{v:.8e}' for v in row(i, s)) +
                                '\n')
            open(os.path.join(out, kind, 'notes.txt'), 'w').write('x')
        r = sim.read_links_simulation_results(out, kinds)
        t.state(item)
        t.check(set(r) == set(kinds), 'results:keys', f'{item}: {set(r)}',
                tr)
        order = sorted(steps)
        for kind, nr in (('node_data', n_node), ('global_data', 1)):
            if kind not in r:
                continue
            want = np.array([[row(i, s) for s in order]
                             for i in range(nr)]).transpose(0, 2, 1)
            t.check(r[kind].shape == want.shape and np.allclose(
                r[kind], want, rtol=1e-8), 'results:values',
                f'{item}: {kind} {r[kind].tolist()}', tr)


def row(i, s):
    return [i + 1.0] + [100.0*s + 10*i + c + 0.25 for c in range(5)]


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    items = []
    one = ((1, 'ELASTIC'),)
    two = ((1, 'VON_MISES'), (2, 'ELASTIC'))

    def add(elem, n, phases=None, names=one, removed=(), **opt):
        k = int(np.prod(n))
        items.append(('write', elem, n, phases or (1,)*k, names, removed,
                      tuple(opt.items())))
    sizes = {2: [(1, 1), (2, 1), (1, 3), (3, 2), (2, 4), (4, 4)],
             3: [(1, 1, 1), (2, 1, 1), (1, 2, 3), (3, 2, 2)]}
    if THOROUGH:
        sizes[2] += [(5, 3), (11, 11)]
        sizes[3] += [(3, 3, 3), (4, 2, 3)]
    for elem in lk.LOCAL:
        nd = len(lk.LOCAL[elem][0])
        for n in sizes[nd]:
            add(elem, n)
        # every assignment of two phases
        for n in ([(2, 2), (3, 1)] if nd == 2 else [(2, 1, 1), (1, 2, 2)]):
            k = int(np.prod(n))
            for ph in itertools.product((1, 2), repeat=k):
                add(elem, n, ph, two)
        # every removal
        n = (3, 3) if nd == 2 else (3, 3, 3)
        k = int(np.prod(n))
        inner = 5 if nd == 2 else 14
        sets = [(i,) for i in range(1, k + 1)] + [(), (inner, 1)]
        if nd == 2:
            sets += list(itertools.combinations(range(1, 10), 2))
        ph = tuple(1 + i % 2 for i in range(k))
        for r in sets:
            if nd == 3 and elem == 'SHEXA20' and not THOROUGH and r not in (
                    (1,), (inner,), ()):
                continue
            add(elem, n, ph, two, r, empty=True)
    inner = (6, 7, 10, 11)
    for r in range(1, 5):
        for s in itertools.permutations(inner, r):
            if THOROUGH or r < 3 or s == tuple(sorted(s)):
                add('SQUAD4', (4, 4), (1, 2)*8, two, s)
    # materials
    names = ('ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER', 'LOU')
    for a, b in itertools.product(names, repeat=2):
        add('SQUAD4', (2, 1), (1, 2), ((1, a), (2, b)))
        add('SQUAD4', (2, 2), (3, 7, 7, 3), ((3, a), (7, b)))
    for a in names:
        # a material that is not used, a material that is missing
        add('SQUAD4', (2, 1), (2, 2), ((1, a), (2, 'ELASTIC')))
        add('SQUAD4', (2, 1), (1, 2), ((1, a),))
    # options
    for form, (nd, kind) in itertools.product(
            ('infinitesimal', 'finite'),
            ((2, 'plane_strain'), (2, 'plane_stress'), (2, 'axisymmetric'),
             (3, 'tridimensional'))):
        add('SQUAD4' if nd == 2 else 'SHEXA8', (2,)*nd, form=form, kind=kind)
    for ex, ov in itertools.product((0, 1), repeat=2):
        add('SQUAD4', (2, 1), exists=ex, overwrite=ov,
            input=(('solver', 'PARDISO'),))
        add('SQUAD4', (2, 1), exists=ex, overwrite=ov,
            input=(('solver', 'OTHER'), ('unknown', 'x')))
    for steps in ((0,), (0, 1, 2), (2, 0, 1), (9, 10, 100), (0, 11, 2),
                  tuple(range(12))):
        for nn, nm in ((1 if False else 2, 'sim'), (3, 'random_specimen_1')):
            for kinds in (('node_data',), ('global_data',),
                          ('node_data', 'global_data')):
                items.append(('results', nn, steps, nm, kinds))
    items.append(('loading', 0))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('simulation files', main)
chk.finish()
