"""C30: specimen data are exactly those of the simulation files."""
import _path  # noqa
import csv
import itertools
import os
import re
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
from mc import discover as dc, fem, links as lk, mats, plast, specimen as sp
from mc.simfiles import (
    ABAQUS, LINKS, SIMPLE, bc_pattern, make_dat, make_output, presc)
from simulators.links.links import LinksSimulator
from simulators.links.utilities import (
    links_dat_to_inp, links_data_to_adimu, links_nodedata_to_csv,
    links_out_to_dataset, links_specimen_dirichlet)
from user_scripts.global_model_update.material_finder import (
    gen_specimen_data as gsd, gen_specimen_local_paths as gslp)
from user_scripts.global_model_update.utilities import (
    process_specimen_data as psd)
from user_scripts.synthetic_data import build_local_paths_dataset as blpd

torch.set_default_dtype(torch.float64)
warnings.simplefilter('ignore')
chk = Check('C30')
HEADER = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
          'DBC1', 'DBC2', 'DBC3']



# --------------------------------------------------------------------------
def read_inp(path):
    """Independent reading of a mesh file: nodes, elements, boundary."""
    sec, nodes, elems, bnd = None, {}, {}, []
    for ln in open(path):
        ln = ln.strip()
        if ln.startswith('*'):
            sec = [x.strip() for x in ln[1:].split(',')]
            continue
        if not ln or sec is None:
            continue
        v = [x.strip() for x in ln.split(',')]
        if sec[0].lower() == 'node':
            nodes[int(v[0])] = [float(x) for x in v[1:]]
        elif sec[0].lower() == 'element':
            elems[int(v[0])] = (sec[1].split('=')[1],
                                tuple(int(x) for x in v[1:]))
        elif sec[0].lower() == 'boundary':
            bnd.append((int(v[0]), int(v[1]), int(v[2]), float(v[3])))
    return nodes, elems, bnd


def read_csv(path):
    rows = list(csv.reader(open(path)))
    return rows[0], [[float(x) for x in r] for r in rows[1:]]


def check_inp(t, path, mesh, bc, name, tr, key):
    nodes, elems, bnd = read_inp(path)
    X = np.array(mesh[2], float)
    t.check(list(nodes) == list(range(1, len(X) + 1)) and np.allclose(
        np.array([nodes[k][:X.shape[1]] for k in nodes]), X, rtol=1e-7,
        atol=1e-9), key + ':nodes', f'{name}: nodes of the mesh file {nodes}',
        tr)
    t.check(elems == {e + 1: (ABAQUS[mesh[0]], tuple(c))
                      for e, c in enumerate(mesh[3])}, key + ':elements',
            f'{name}: elements of the mesh file {elems}', tr)
    want = {(i + 1, j + 1): presc(i, j) for i, j in np.argwhere(bc > 0)}
    got = {}
    for n, a, b, v in bnd:
        for j in range(a, b + 1):
            got[(n, j)] = v
    t.check(set(got) == set(want) and all(
        abs(got[k] - want[k]) < 1e-7 for k in want), key + ':boundary',
        f'{name}: boundary of the mesh file {got}, expected {want}', tr)


def chain(item, t):
    """Simulation files -> specimen files -> specimen data."""
    _, mname, nodes, elems, which, steps, opts = item
    opts = dict(opts)
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    mesh = sp.renumber(SIMPLE[mname], elems, nodes)
    name = f'{mname} nodes {nodes} elements {elems} bc {which} steps ' \
           f'{steps} {opts}'
    pt, X = mesh[1], np.array(mesh[2], float)
    n, nd = X.shape
    bc = bc_pattern(mesh, which)
    word = ''.join('ab0c'[k % 4] for k in range(len(steps) - 1))
    u = sp.history(mesh, word)
    ng = LINKS[mesh[0]][1]
    paths = sp.strain_paths(mesh, u, ng)
    stress = [sp.material_stress('von_mises', pt, dc.VALUES['von_mises'])(p)
              for p in paths]
    f = sp.internal_forces(mesh, stress, ng)
    # reactions everywhere (different in every degree of freedom)
    r = f + 0.25*np.cos(np.arange(f.size)).reshape(f.shape) \
        if opts.get('off') else f
    sim = opts.get('sim', 'specimen')
    with Scratch() as d:
        dat = os.path.join(d, sim + '.dat')
        out = os.path.join(d, sim)
        make_dat(dat, mesh, bc, not opts.get('lower'), opts.get('alias'))
        os.mkdir(out)
        make_output(out, sim, steps, u, r, X)
        save = os.path.join(d, 'adimu')
        os.makedirs(os.path.join(save, 'specimen_history_data'))
        open(os.path.join(save, 'specimen_history_data',
                          f'{sim}_tstep_77.csv'), 'w').write('stale')
        inp, hist = links_data_to_adimu.gen_adimu_data_from_links(
            dat, out, save)
        t.transition()
        check_inp(t, inp, mesh, bc, name, tr, 'inp')
        # time step files
        want = [f'{sim}_tstep_{k}.csv' for k in range(len(steps))]
        t.check(sorted(os.listdir(hist)) == sorted(want), 'steps:files',
                f'{name}: {sorted(os.listdir(hist))}', tr)
        files = gsd.get_specimen_history_paths(hist, sim)
        t.check([os.path.basename(x) for x in files] == want, 'steps:order',
                f'{name}: {files}', tr)
        check_csv(t, files, X, u, r, bc, name, tr)
        t.transition(len(files))
        if opts.get('sets'):
            labels = dc.bc_of(mesh, which, 'dirichlet_sets')
            full = np.zeros((n, 3), int)
            full[:, :nd] = labels
            links_data_to_adimu.update_adimu_mesh_hist_data_files_dirichlet(
                files, full)
            bc = labels
            check_csv(t, files, X, u, r, bc, name + ' updated', tr)
        if opts.get('lines'):
            shuffle(inp, files, opts['lines'])
        sets(t, sim, hist, nd, u, r, bc, name, tr)
        # specimen data
        td = os.path.join(d, 'training')
        md = os.path.join(td, 'models')
        os.makedirs(md)
        flags = opts.get('save', (True, True))
        kw = dc.rc_kwargs('von_mises_vmap', pt, md, False)
        p1, p2 = gsd.gen_specimen_dataset(
            sim, d, inp, files, 'infinitesimal', pt, nd, 'rc_von_mises_vmap',
            mats.parameters('von_mises'), kw, td,
            is_save_specimen_data=flags[0],
            is_save_specimen_material_state=flags[1])
        t.transition()
        t.check(os.path.isfile(os.path.join(td, 'specimen_data.pt')) ==
                flags[0] and os.path.isfile(os.path.join(
                    td, 'specimen_material_state.pt')) == flags[1],
                'data:files', f'{name}: {os.listdir(td)}', tr)
        if flags[0]:
            specimen(t, p1, mesh, ng, u, r, bc, name, tr)
        if flags[1]:
            state(t, p2, mesh, name, tr)
        if all(flags) and opts.get('local'):
            local(t, d, p1, p2, paths, stress, f, r, bc, name, tr, pt)


def shuffle(inp, files, order):
    """List the nodes (with their labels) in another order."""
    lines = open(inp).read().split('\n')
    at = [k for k, ln in enumerate(lines)
          if ln.strip().lower().startswith('*node')][0] + 1
    lines[at:at + len(order)] = [lines[at + k] for k in order]
    open(inp, 'w').write('\n'.join(lines))
    for fp in files:
        rows = open(fp).read().strip().split('\n')
        rows[1:] = [rows[1 + k] for k in order]
        open(fp, 'w').write('\n'.join(rows) + '\n')


def check_csv(t, files, X, u, r, bc, name, tr):
    n, nd = X.shape
    for k, fp in enumerate(files):
        head, rows = read_csv(fp)
        rows = np.array(rows)
        ok = head == HEADER and rows.shape == (n, 13)
        if ok:
            for c, v in ((1, X + u[:, :, k]), (4, u[:, :, k]),
                         (7, r[:, :, k]), (10, bc)):
                ok = ok and np.allclose(rows[:, c:c + nd], v, rtol=1e-10,
                                        atol=1e-14)
                ok = ok and not rows[:, c + nd:c + 3].any()
            ok = ok and rows[:, 0].tolist() == list(range(1, n + 1))
        t.check(ok, 'steps:data', f'{name}: step {k} {head} '
                f'{rows.tolist()[:4]}', tr)


def sets(t, sim, hist, nd, u, r, bc, name, tr):
    """Reaction force history of the boundary sets."""
    got, labels, disps, lists = psd.build_dirichlet_sets_reaction_history(
        sim, hist, nd)
    t.check(np.allclose(disps, u, atol=1e-14), 'sets:disps',
            f'{name}: displacements', tr)
    seen = {}
    for k, lb in enumerate(labels):
        m = re.fullmatch(r'dim_(\d+)_label_(\d+)', lb)
        seen[(int(m.group(1)) - 1, int(m.group(2)))] = (got[k, 0], lists[k])
    want = {(j, s) for j in range(nd) for s in set(bc[:, j].tolist())}
    t.check(set(seen) == want and len(labels) == len(want) == len(got),
            'sets:labels', f'{name}: sets {sorted(seen)}, expected '
            f'{sorted(want)}', tr)
    for (j, s), (g, ids) in seen.items():
        sel = bc[:, j] == s
        t.check(np.allclose(g, r[sel, j].sum(axis=0), rtol=1e-8,
                            atol=1e-8*(1 + np.abs(r).max())) and
                ids == [int(i) + 1 for i in np.flatnonzero(sel)],
                'sets:reaction', f'{name}: set {j, s} nodes {ids} reaction '
                f'{g.tolist()}', tr)


def same(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=1e-9)


def specimen(t, path, mesh, ng, u, r, bc, name, tr):
    X = np.array(mesh[2], float)
    n, nd = X.shape
    s = torch.load(path)
    m = s.specimen_mesh
    t.check(m.get_n_node_mesh() == n and m.get_n_elem() == len(mesh[3]) and
            s.get_n_dim() == nd, 'data:size', f'{name}: '
            f'{m.get_n_node_mesh()} nodes {m.get_n_elem()} elements', tr)
    coords, disps = m.get_mesh_configuration(time='init')
    t.check(same(coords, X) and not np.asarray(disps).any(), 'data:coords',
            f'{name}: {coords.tolist()}', tr)
    conn = {str(e + 1): tuple(c) for e, c in enumerate(mesh[3])}
    got = {k: tuple(int(x) for x in v)
           for k, v in m.get_connectivities().items()}
    t.check(got == conn, 'data:conn', f'{name}: {got}', tr)
    et = m.get_elements_type()
    ref = fem.element(mesh[0], ng)
    t.check(set(et) == set(conn) and all(
        type(e) is type(ref) and e.get_n_gauss() == ng for e in et.values()),
        'data:types', f'{name}: {et}', tr)
    # the nodes of every element are those of its local coordinates
    for e, c in conn.items():
        if e not in et:
            continue
        shape = np.array([np.ravel(et[e].eval_shapefun(
            torch.as_tensor(x, dtype=torch.float64)))
            for x in fem.Ref(mesh[0]).nodes])
        t.check(np.allclose(shape, np.eye(len(c)), atol=1e-9),
                'data:local-nodes', f'{name}: element {e}', tr)
    t.check(same(m.get_dirichlet_bool_mesh(), bc > 0), 'data:dirichlet',
            f'{name}: {m.get_dirichlet_bool_mesh().tolist()}', tr)
    nt = u.shape[2]
    for key, got, want in (
            ('disps', s.nodes_disps_mesh_hist, u),
            ('reactions', s.reaction_forces_mesh_hist, r),
            ('sets', s.dirichlet_bc_mesh_hist,
             np.repeat(bc[:, :, None], nt, axis=2)),
            ('time', s.time_hist, np.arange(nt))):
        t.check(same(got, want, 1e-10), 'data:' + key,
                f'{name}: {key} {np.asarray(got).tolist()}'[:600], tr)


def state(t, path, mesh, name, tr):
    st = torch.load(path)
    em = st.get_elements_material()
    ids = {str(e + 1) for e in range(len(mesh[3]))}
    t.check(set(em) == ids and len({id(m) for m in em.values()}) == 1,
            'state:elements', f'{name}: materials of elements {set(em)}', tr)


def local(t, d, p1, p2, paths, stress, f, r, bc, name, tr, pt):
    md = os.path.join(d, 'model')
    os.mkdir(md)
    ds, loss = gslp.gen_specimen_local_dataset(p1, p2, md)
    t.transition()
    se = max(np.abs(p).max() for p in paths) + 1e-12
    ss = max(np.abs(s).max() for s in stress) + 1e-12
    ok = len(ds) == len(paths)
    left = list(zip(paths, stress))
    for k in range(len(ds)):
        x = ds[k]
        t.check(all(tuple(x[c + '_comps_order']) == plast.order(pt)
                    for c in ('strain', 'stress')), 'local:components',
                f'{name}: {x["strain_comps_order"]}', tr)
        for q, (p, s) in enumerate(left):
            if same(x['strain_path']/se, sp.comps_of(p, pt)/se, 1e-6) and \
                    np.allclose(x['stress_path']/ss, sp.comps_of(s, pt)/ss,
                                atol=1e-6):
                del left[q]
                break
        else:
            ok = False
    t.check(ok and not left, 'local', f'{name}: {len(ds)} local paths, '
            f'{len(left)} of {len(paths)} missing', tr)
    fac = 1.0/(110000.0**2*40.0**4)
    want = sp.loss(f, r, bc, 'dirichlet_sets', None, fac)
    want = float(want[0] if isinstance(want, tuple) else want)
    scale = fac*float((f**2).sum())
    t.check(abs(float(loss) - want) <= 1e-5*scale + 1e-5*abs(want), 'loss',
            f'{name}: loss {float(loss)}, expected {want}', tr)


# --------------------------------------------------------------------------
def patch(item, t):
    """Files of the simulator's own writer."""
    _, elem, n, removed = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    nd = len(n)
    p, u = lk.make_patch(elem, n)
    sim = LinksSimulator('links', 'infinitesimal',
                         {2: 'plane_strain', 3: 'tridimensional'}[nd])
    base = {'SQUAD4': 'quad4', 'SHEXA8': 'hexa8', 'SHEXA20': 'hexa20',
            'SQUAD8': None}[elem]
    with Scratch() as d:
        kw = {'remove_elements_labels': list(removed)} if removed else {}
        try:
            fp = sim.generate_input_data_file(
                'patch', os.path.join(d, 'sim'), p,
                {'mesh_elem_material': np.ones(n, int),
                 'mat_phases_descriptors': {'1': {
                     'name': 'ELASTIC', 'density': 1.0, 'young': 1e5,
                     'poisson': 0.3}}}, **kw)
        except RuntimeError:
            t.check(bool(removed), 'patch:rejected', f'{item}', tr)
            return
        nodes, elems, bcs = lk.mesh_of(lk.read(fp))
        mesh = (base, None, [nodes[k][:nd] for k in sorted(nodes)],
                [tuple(elems[k][1]) for k in sorted(elems)])
        try:
            inp = links_dat_to_inp.links_dat_to_abaqus_inp(fp)
        except RuntimeError:
            t.check(base is None, 'patch:converted', f'{item}: rejected', tr)
            return
        t.check(base is not None, 'patch:converted',
                f'{item}: unknown element type converted', tr)
        got = gsd.get_specimen_mesh_from_inp_file(inp, nd)
        t.transition()
        t.check(same(got[0], mesh[2]), 'patch:coords', f'{item}', tr)
        t.check({k: tuple(v) for k, v in got[2].items()} ==
                {str(e + 1): c for e, c in enumerate(mesh[3])},
                'patch:conn', f'{item}: {got[2]}', tr)
        fixed = np.zeros((len(nodes), nd))
        for k in bcs:
            fixed[k - 1] = 1
        t.check(same(got[3], fixed), 'patch:dirichlet', f'{item}', tr)
        # volume of the specimen by its own elements
        X = np.array(mesh[2])
        vol, pos = 0.0, True
        for e, c in got[2].items():
            el = got[1][e]
            gp, gw = el.get_gauss_integration_points()
            xe = torch.tensor(X[[q - 1 for q in c]])
            for k in gp:
                j = torch.linalg.det(el.eval_shapefun_local_deriv(
                    gp[k]).reshape(len(c), -1).T@xe)
                pos = pos and float(j) > 0
                vol += float(j*gw[k])
        want = np.prod(lk.DIMS[nd])*(1 - len(removed)/np.prod(n))
        t.check(pos and abs(vol - want) < 1e-6*want, 'patch:volume',
                f'{item}: volume {vol} instead of {want}', tr)
        # and back
        links_dat_to_inp.abaqus_inp_to_links_dat(inp, nd)
        back = os.path.splitext(inp)[0] + '_links.dat'
        if not t.check(os.path.isfile(back), 'patch:back', f'{item}', tr):
            return
        n2, e2, b2 = lk.mesh_of(lk.read(back))
        t.transition()
        t.check(sorted(n2) == sorted(nodes) and all(
            same(n2[k][:nd], nodes[k][:nd]) for k in nodes) and
            {k: v[1] for k, v in e2.items()} ==
            {k: v[1] for k, v in elems.items()}, 'patch:round-trip',
            f'{item}: mesh differs', tr)
        t.check({k: (v[0][:nd], [round(x, 7) for x in v[1][:nd]])
                 for k, v in b2.items()} ==
                {k: (v[0][:nd], [round(x, 7) for x in v[1][:nd]])
                 for k, v in bcs.items()}, 'patch:boundary',
                f'{item}: prescribed displacements differ', tr)


# --------------------------------------------------------------------------
def mixed(item, t):
    """Mesh files with blocks of different elements, in any order."""
    _, kinds, order, style, bnd, nd = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    # cells of a 2x2 grid: a quadrilateral or two triangles (2 diagonals)
    X = [(x + 0.1*y, y - 0.2*x) for y in range(3) for x in range(3)]
    els = []
    for c, k in enumerate(kinds):
        a = (c // 2)*3 + c % 2 + 1
        q = (a, a + 1, a + 4, a + 3)
        if k == 'q':
            els.append(('CPE4', q))
        elif k == 't':
            els += [('CPE3', (q[0], q[1], q[2])), ('CPE3', (q[0], q[2],
                                                            q[3]))]
        elif k == 's':
            els += [('CPE3', (q[0], q[1], q[3])), ('CPE3', (q[1], q[2],
                                                            q[3]))]
    els = [(i + 1, a, c) for i, (a, c) in enumerate(els)]
    blocks = []
    if order == 'types':
        for a in ('CPE3', 'CPE4'):
            blocks.append((a, [e for e in els if e[1] == a]))
    elif order == 'types-reversed':
        for a in ('CPE4', 'CPE3'):
            blocks.append((a, [e for e in els if e[1] == a][::-1]))
    else:
        for e in els:
            blocks.append((e[1], [e]))
    kw = {'title': str.title, 'upper': str.upper}[style]
    z = ', 0.0' if nd == 3 else ''
    out = ['mesh', '', '*' + kw('node')]
    out += [f'{i + 1}, {x[0]:.8e}, {x[1]:.8e}{z}' for i, x in enumerate(X)]
    sep = [''] if style == 'title' else []
    for a, b in blocks:
        if b:
            out += sep + [f'*{kw("element")}, {"type"}={a}']
            out += [f'{e}, ' + ', '.join(map(str, c)) for e, _, c in b]
    out += sep + ['*' + kw('boundary')]
    out += [f'{i}, {a}, {b}, {v}' for i, a, b, v in bnd]
    out += sep + ['*' + kw('step'), 'end']
    with Scratch() as d:
        fp = os.path.join(d, 'm.inp')
        open(fp, 'w').write('\n'.join(out) + '\n')
        full = {i for _, _, c in els for i in c} == set(range(1, 10))
        try:
            got = gsd.get_specimen_mesh_from_inp_file(fp, 2)
        except RuntimeError:
            t.check(not full, 'mixed:rejected', f'{item}', tr)
            return
        t.check(full, 'mixed:orphan', f'{item}: node without element '
                'accepted', tr)
        t.check(same(got[0], X), 'mixed:coords', f'{item}', tr)
        t.check({k: tuple(v) for k, v in got[2].items()} ==
                {str(e): c for e, _, c in els}, 'mixed:conn',
                f'{item}: {got[2]}', tr)
        name = {'FETri3': 'CPE3', 'FEQuad4': 'CPE4'}
        t.check({k: name.get(type(v).__name__) for k, v in got[1].items()}
                == {str(e): a for e, a, _ in els}, 'mixed:types',
                f'{item}: {got[1]}', tr)
        want = np.zeros((9, 2))
        for i, a, b, _ in bnd:
            for j in range(a - 1, b):
                if j < 2:
                    want[i - 1, j] = 1
        t.check(same(got[3], want), 'mixed:boundary', f'{item}: '
                f'{got[3].tolist()}', tr)


def rejects(item, t):
    """Inconsistent files are refused."""
    _, what = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    mesh = SIMPLE['quad4x2']
    X = np.array(mesh[2], float)
    bc = bc_pattern(mesh, 'some')
    u = sp.history(mesh, 'ab')
    with Scratch() as d:
        dat = os.path.join(d, 's.dat')
        out = os.path.join(d, 's')
        os.mkdir(out)
        make_dat(dat, mesh, bc)
        make_output(out, 's', (0, 1, 2), u, u, X)
        save = os.path.join(d, 'a')
        os.mkdir(save)
        inp, hist = links_data_to_adimu.gen_adimu_data_from_links(
            dat, out, save)
        files = list(gsd.get_specimen_history_paths(hist, 's'))
        text = open(inp).read()

        def rewrite(a, b):
            assert a in text
            open(inp, 'w').write(text.replace(a, b, 1))
        try:
            if what == 'none':
                pass
            elif what == 'unknown-type':
                rewrite('CPE4', 'CPE8')
            elif what == 'node-range':
                rewrite('1, 2, 5, 4', '1, 2, 7, 4')
            elif what == 'node-zero':
                rewrite('1, 2, 5, 4', '0, 2, 5, 4')
            elif what == 'orphan':
                rewrite('2, 3, 6, 5', '2, 3, 5, 5')
            elif what == 'no-nodes':
                rewrite('*Node', '*Nodal')
            elif what.startswith('row'):
                fp = files[int(what[-1])]
                ls = open(fp).read().splitlines()
                open(fp, 'w').write('\n'.join(ls[:-1]) + '\n')
            elif what.startswith('col'):
                fp = files[int(what[-1])]
                ls = open(fp).read().splitlines()
                open(fp, 'w').write('\n'.join(
                    x.rsplit(',', 1)[0] for x in ls) + '\n')
            elif what == 'no-steps':
                for fp in files:
                    os.remove(fp)
                gsd.get_specimen_history_paths(hist, 's')
            elif what == 'other-name':
                gsd.get_specimen_history_paths(hist, 'spec')
            elif what == 'no-dir':
                gsd.get_specimen_history_paths(hist + 'x', 's')
            elif what == 'sim-columns':
                nd = os.path.join(out, 'NODE_DATA', 's_tstep_1.nodedata')
                ls = open(nd).read().splitlines()
                open(nd, 'w').write('\n'.join(
                    x.rsplit(' ', 1)[0] for x in ls) + '\n')
                links_data_to_adimu.gen_adimu_data_from_links(dat, out, save)
            elif what == 'two-types':
                s = open(dat).read()
                open(dat, 'w').write(s.replace('ELEMENT_TYPES 1',
                                               'ELEMENT_TYPES 2'))
                links_data_to_adimu.gen_adimu_data_from_links(dat, out, save)
            elif what == 'gauss':
                s = open(dat).read()
                open(dat, 'w').write(s.replace('4 GP', '1 GP'))
                links_data_to_adimu.gen_adimu_data_from_links(dat, out, save)
            gsd.get_specimen_mesh_from_inp_file(inp, 2)
            gsd.get_specimen_numerical_data(files, 2, 6)
        except (RuntimeError, ValueError, IndexError) as err:
            t.check(what != 'none', 'refused', f'valid files refused: {err}',
                    tr)
            return
        t.check(what == 'none', 'accepted', f'files with {what} accepted',
                tr)


def names(item, t):
    """Time step files among others, any subset of numbers."""
    _, sim, steps, others = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    with Scratch() as d:
        for s in steps:
            open(os.path.join(d, f'{sim}_tstep_{s}.csv'), 'w').write('x')
        for o in others:
            open(os.path.join(d, o), 'w').write('x')
        try:
            got = gsd.get_specimen_history_paths(d, sim)
        except RuntimeError:
            t.check(not steps, 'names:refused', f'{item}', tr)
            return
        t.check([os.path.basename(x) for x in got] ==
                [f'{sim}_tstep_{s}.csv' for s in sorted(steps)],
                'names:order', f'{item}: {got}', tr)


def nodecsv(item, t):
    """Nodal output to csv files."""
    _, mname, steps = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    mesh = SIMPLE[mname]
    X = np.array(mesh[2], float)
    nd = X.shape[1]
    u = sp.history(mesh, 'a'*(len(steps) - 1))
    r = u*3 + 1
    with Scratch() as d:
        out = os.path.join(d, 'spec')
        os.mkdir(out)
        make_output(out, 'spec', steps, u, r, X)
        old = os.path.join(out, 'NODE_DATA', 'specimen_history_data')
        os.mkdir(old)
        open(os.path.join(old, 'spec_tstep_9.csv'), 'w').write('stale')
        res = links_nodedata_to_csv.links_node_output_to_csv(out)
        want = [f'spec_tstep_{k}.csv' for k in range(len(steps))]
        t.check(sorted(os.listdir(res)) == sorted(want), 'nodecsv:files',
                f'{item}: {os.listdir(res)}', tr)
        for k, w in enumerate(want):
            if not os.path.isfile(os.path.join(res, w)):
                continue
            head, rows = read_csv(os.path.join(res, w))
            rows = np.array(rows)
            ok = head == HEADER[:10] and rows.shape == (len(X), 10)
            for c, v in ((1, X + u[:, :, k]), (4, u[:, :, k]),
                         (7, r[:, :, k])):
                ok = ok and np.allclose(rows[:, c:c + nd], v, rtol=1e-10)
            t.check(ok, 'nodecsv:data', f'{item}: step {k}', tr)


def copy_labels(item, t):
    """Boundary labels copied between specimens."""
    _, n_t, n_src = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    n = 3

    def write(d, nt, with_bc, off):
        os.mkdir(d)
        for k in range(nt):
            with open(os.path.join(d, f's_tstep_{k}.csv'), 'w') as f:
                f.write(','.join(HEADER if with_bc else HEADER[:10]) + '\n')
                for i in range(n):
                    row = [i + 1] + [off + 10*i + c + 0.5*k
                                     for c in range(9)]
                    if with_bc:
                        row += [(off + i + j + k) % 4 for j in range(3)]
                    f.write(','.join(map(str, row)) + '\n')
    for src_bc, dst_bc in itertools.product((True, False), repeat=2):
        with Scratch() as d:
            a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
            write(a, n_src, src_bc, 0)
            write(b, n_t, dst_bc, 5)
            before = [read_csv(os.path.join(b, f's_tstep_{k}.csv'))
                      for k in range(n_t)]
            valid = src_bc and n_src == n_t
            try:
                psd.copy_dbc_labels('s', a, b)
            except RuntimeError:
                t.check(not valid, 'copy:refused', f'{item}', tr)
                continue
            t.transition()
            t.check(valid, 'copy:accepted', f'{item} {src_bc}', tr)
            for k in range(n_t):
                if not valid:
                    break
                head, rows = read_csv(os.path.join(b, f's_tstep_{k}.csv'))
                t.check(head == HEADER and [x[:10] for x in rows] ==
                        [x[:10] for x in before[k][1]] and
                        [x[10:] for x in rows] ==
                        [[(i + j + k) % 4 for j in range(3)]
                         for i in range(n)], 'copy:labels',
                        f'{item}: step {k} {rows}', tr)


def dirichlet(item, t):
    """Boundary conditions of a specimen with symmetry planes."""
    _, label, top, disp = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    pts = list(itertools.product((0.0, 1.5, -2.0), (0.0, 3.0, top),
                                 (0.0, 0.5, 4.0)))
    X = np.array(pts)
    arr = links_specimen_dirichlet.build_specimen_dbc(label, top, disp, X)
    want = {}
    for i, (x, y, z) in enumerate(pts):
        code = [int(x == 0), int(y in (0.0, top)), int(z == 0)]
        if any(code):
            want[i + 1] = (code, [0.0, disp if y == top else 0.0, 0.0])
    got = {int(r[0]): ([int(v) for v in r[1:4]], [float(v) for v in r[4:]])
           for r in arr}
    t.transition(len(pts))
    t.check(got == want and len(arr) == len(want), 'dirichlet',
            f'{item}: {got}', tr)
    with Scratch() as d:
        links_specimen_dirichlet.write_links_dirichlet_bc_file(d, arr)
        lines = open(os.path.join(d, 'specimen_dirichlet_bc.dat')).read(
            ).split('\n')
        n = int(lines[0].split()[1])
        read = {}
        try:
            for ln in lines[1:1 + n]:
                v = ln.split()
                read[int(v[0])] = ([int(c) for c in v[1]],
                                   [float(x) for x in v[2:]])
        except ValueError as err:
            t.fail('dirichlet:format', f'{item}: {err}', tr)
            return
        t.check(lines[0].split()[0] ==
                'NODES_WITH_PRESCRIBED_DISPLACEMENTS' and set(read) ==
                set(want) and all(
                    read[k][0] == want[k][0] and len(read[k][1]) == 3 and
                    same(read[k][1], want[k][1], 1e-4) for k in read),
                'dirichlet:file', f'{item}: {read}', tr)
        rest = ' '.join(lines[1 + n:]).split()
        moved = [k for k in want if any(want[k][1])]
        t.check(rest[:4] == ['NODE_GROUPS', '1', '1', str(len(moved))] and
                [int(x) for x in rest[4:]] == moved, 'dirichlet:group',
                f'{item}: {rest}, expected {moved}', tr)
        fp = os.path.join(d, 's.dat')
        make_dat(fp, ('hexa8', 4, pts, []), np.zeros((len(pts), 3), int))
        t.check(same(links_specimen_dirichlet.read_links_nodes_coords_mesh(
            fp), X), 'dirichlet:coords', f'{item}', tr)


def outfile(item, t):
    """Integration point output to response paths."""
    _, n_t, n_f = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    with Scratch() as d:
        files = []
        for q in range(n_f):
            fp = os.path.join(d, f's_ELEM_1_GP_{q + 1}.out')
            with open(fp, 'w') as f:
                f.write('title\n' + ' '.join(f'C{c}' for c in range(60)) +
                        '\n')
                for k in range(n_t):
                    f.write(' '.join(f'{1000*q + 100*k + c + 0.5}'
                                     for c in range(60)) + '\n')
            files.append(fp)
        ds = links_out_to_dataset.build_dataset(files, 3)
        t.check(len(ds) == n_f, 'out:size', f'{item}: {len(ds)}', tr)
        for q in range(n_f):
            base = np.array([1000*q + 100*k for k in range(n_t)])
            x = ds[q]
            for key, c0, fac in (('strain', 53, (1, 1, 1, .5, .5, .5)),
                                 ('stress', 11, (1,)*6)):
                t.check(tuple(x[key + '_comps_order']) ==
                        ('11', '22', '33', '12', '23', '13') and same(
                            x[key + '_path'], np.array(
                                [(base + c0 + c + 0.5)*fac[c]
                                 for c in range(6)]).T), 'out:' + key,
                        f'{item}: {x[key + "_path"].tolist()}', tr)
            t.check(same(np.ravel(x['time_hist']), base + 0.5), 'out:time',
                    f'{item}', tr)


def patches(item, t):
    """Local paths of all simulated patches, in the order of the patches."""
    _, mname, name, ids = item
    t.trace()
    t.state(item)
    tr = dict(item=[str(x) for x in item])
    mesh = SIMPLE[mname]
    pt, X = mesh[1], np.array(mesh[2], float)
    ng = LINKS[mesh[0]][1]
    bc = bc_pattern(mesh, 'some')
    want = []
    with Scratch() as d:
        for q in ids:
            s = os.path.join(d, f'{name}_{q}', 'simulations')
            os.makedirs(os.path.join(s, name))
            u = sp.history(mesh, 'ab'[:1 + q % 2])*(1.0 + 0.05*q)
            paths = sp.strain_paths(mesh, u, ng)
            stress = [sp.material_stress('von_mises', pt, dc.VALUES[
                'von_mises'])(p) for p in paths]
            make_dat(os.path.join(s, name + '.dat'), mesh, bc)
            make_output(os.path.join(s, name), name, range(u.shape[2]), u,
                        sp.internal_forces(mesh, stress, ng), X)
            if q == sorted(ids)[0]:     # an older analysis of the patch
                os.makedirs(os.path.join(d, f'{name}_{q}', name, 'old'))
        for other in (f'x{name}_1', f'{name}_1a', f'{name}', f'{name}_',
                      f'{name}_2_plots'):
            os.makedirs(os.path.join(d, other))
        for q in sorted(ids):
            u = sp.history(mesh, 'ab'[:1 + q % 2])*(1.0 + 0.05*q)
            paths = sp.strain_paths(mesh, u, ng)
            want.append([(p, sp.material_stress('von_mises', pt, dc.VALUES[
                'von_mises'])(p)) for p in paths])
        orig = blpd.set_material_model_parameters
        blpd.set_material_model_parameters = lambda: (
            'infinitesimal', pt, X.shape[1], 'rc_von_mises_vmap',
            mats.parameters('von_mises'),
            dc.rc_kwargs('von_mises_vmap', pt, d, False))
        try:
            ds = blpd.build_local_paths_dataset(d, name)
        finally:
            blpd.set_material_model_parameters = orig
        t.transition(len(ids))
    t.check(len(ds) == sum(map(len, want)), 'patches:number',
            f'{item}: {len(ds)} local paths, expected '
            f'{sum(map(len, want))}', tr)
    k = 0
    for q, left in zip(sorted(ids), want):
        se = max(np.abs(p).max() for p, _ in left)
        ss = max(np.abs(s).max() for _, s in left)
        for _ in range(len(left)):
            if k >= len(ds):
                break
            x = ds[k]
            k += 1
            hit = [i for i, (p, s) in enumerate(left) if same(
                x['strain_path']/se, sp.comps_of(p, pt)/se, 1e-6) and
                same(x['stress_path']/ss, sp.comps_of(s, pt)/ss, 1e-6)]
            t.check(hit, 'patches:paths', f'{item}: path {k - 1} of the data '
                    f'set is not a local path of patch {q}', tr)
            if hit:
                del left[hit[0]]


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    items = []

    def add(m, nodes=None, elems=None, which='some', steps=(0, 1, 2), **o):
        items.append(('chain', m, nodes, elems, which, steps,
                      tuple(o.items())))
    kinds = ('quad4', 'quad4x2', 'tri3x2', 'hexa8', 'tetra4x2', 'hexa20',
             'hexa8x2', 'quad4x4')
    for m in kinds:
        for w in ('none', 'some', 'all'):
            add(m, which=w)
            add(m, which=w, off=True, local=True, sets=True)
        add(m, lower=True)
        add(m, alias=True)
        n = len(SIMPLE[m][2])
        add(m, nodes=tuple(range(n))[::-1], off=True)
    # every set of prescribed degrees of freedom
    for k in range(2**8):
        add('quad4', which=k, steps=(0, 1))
    if THOROUGH:
        for k in range(2**8):
            add('tri3x2', which=k, steps=(0, 1), off=True)
        for k in range(0, 2**15, 61):
            add('tetra4x2', which=k, steps=(0, 1))
    # every numbering
    for p in itertools.permutations(range(4)):
        add('tri3x2', nodes=p, off=True, sets=True, local=THOROUGH)
    for p in itertools.permutations(range(4)):
        add('quad4x4', elems=p, off=True, sets=True, local=THOROUGH)
    if THOROUGH:
        for p in itertools.permutations(range(5)):
            for e in ((0, 1), (1, 0)):
                add('tetra4x2', nodes=p, elems=e, off=True)
    # every order of the node lines
    for p in itertools.permutations(range(4)):
        add('quad4', lines=p, off=True, sets=True, local=True)
        add('tri3x2', lines=p, off=True)
    for m in kinds:
        n = len(SIMPLE[m][2])
        add(m, lines=tuple(range(n))[::-1], off=True)
        add(m, lines=tuple(range(1, n)) + (0,), off=True)
    # every set of time steps
    pool = (0, 1, 2, 9, 10, 11, 100) if not THOROUGH else \
        (0, 1, 2, 3, 9, 10, 11, 19, 100, 101)
    subsets = [c for k in range(2, len(pool) + 1)
               for c in itertools.combinations(pool, k)]
    for s in subsets:
        add('quad4', steps=s, off=True)
    add('quad4', steps=tuple(range(25)), sets=True, local=True)
    add('quad4x2', steps=(0, 1), sim='specimen_2')
    for f in itertools.product((True, False), repeat=2):
        add('quad4x2', steps=(0, 1), save=f)
    for elem, sizes in (('SQUAD4', [(1, 1), (2, 1), (3, 3)]),
                        ('SQUAD8', [(1, 1)]),
                        ('SHEXA8', [(1, 1, 1), (2, 1, 2), (3, 3, 3)]),
                        ('SHEXA20', [(1, 1, 1), (2, 1, 1), (3, 3, 3)])):
        for n in sizes:
            items.append(('patch', elem, n, ()))
    items += [('patch', 'SQUAD4', (3, 3), (5,)),
              ('patch', 'SHEXA8', (3, 3, 3), (14,)),
              ('patch', 'SHEXA20', (3, 3, 3), (14,))]
    for r in range(1, 10):
        items.append(('patch', 'SQUAD4', (3, 3), (r,)))
    bnds = [(), ((1, 1, 1, 0.0),), ((1, 1, 3, 0.0), (9, 2, 2, 0.1)),
            ((2, 1, 1, 0.5), (2, 2, 2, 0.5), (5, 3, 3, 0.0)),
            tuple((i, 2, 2, 0.0) for i in range(1, 10))]
    for ks in itertools.product('qts', repeat=4):
        for o in ('types', 'types-reversed', 'single'):
            items.append(('mixed', ks, o, 'title', bnds[2], 2))
    for ks in itertools.product('qt-', repeat=4):
        items.append(('mixed', ks, 'single', 'title', bnds[1], 2))
    for st in ('title', 'upper'):
        for b in bnds:
            for nd in (2, 3):
                items.append(('mixed', tuple('qtqs'), 'types', st, b, nd))
    for w in ('none', 'unknown-type', 'node-range', 'node-zero', 'orphan',
              'no-nodes', 'row0', 'row1', 'row2', 'col0', 'col1', 'col2',
              'no-steps', 'other-name', 'no-dir', 'sim-columns', 'two-types',
              'gauss'):
        items.append(('rejects', w))
    for sim in ('s', 'specimen_2', 'Ti_tstep'):
        for k in range(0, 5):
            for c in itertools.combinations((0, 1, 2, 10, 12, 100), k):
                items.append(('names', sim, c, (
                    'x' + sim + '_tstep_1.csv', sim + '_1.csv',
                    sim + '_tstep_a.csv', sim + '_tstep_1.txt',
                    sim + '2_tstep_3.csv')))
    for m in ('quad4', 'hexa8'):
        for s in ((0,), (0, 1), (2, 10, 1), (1, 2, 3, 20, 100)):
            items.append(('nodecsv', m, tuple(sorted(s))))
    for a, b in itertools.product((1, 2, 3, 12), repeat=2):
        items.append(('copy_labels', a, b))
    for lab in ('3d_tensile_double_notched', '3d_tensile_dogbone'):
        for top in (12.0, 40.0):
            for disp in (1.0, 10.0, -1.0, 0.25):
                items.append(('dirichlet', lab, top, disp))
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            items.append(('outfile', a, b))
    pool = (0, 1, 2, 10, 11) if not THOROUGH else (0, 1, 2, 3, 9, 10, 11)
    for k in range(1, len(pool) + 1):
        for c in itertools.combinations(pool, k):
            items.append(('patches', 'quad4', 'random_specimen', c))
    for c in itertools.permutations((10, 2, 1)):
        items.append(('patches', 'quad4', 'patch_3', c))
    for m in ('hexa8', 'tri3x2', 'quad4x4', 'hexa8x2'):
        items.append(('patches', m, 'specimen', (2, 10, 1)))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('specimen data', main)
chk.finish()
