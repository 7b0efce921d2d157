"""C18: force equilibrium loss of the material model finder."""
import _path  # noqa
import itertools
import os
import pickle
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure  # noqa
from mc import plast, specimen as sp
from mc.recurrent import bounds_of
from mc.discover import (VALUES, Specimen, reference, close, bc_of, reaction,
                         plain)
from time_series_data.time_dataset import load_dataset

torch.set_default_dtype(torch.float64)

chk = Check('C18')
# figures are not written (no latex)
matplotlib.figure.Figure.savefig = lambda *a, **k: None

def evaluate(spec, mode):
    spec.finder.zero_grad()
    out = spec.finder(sequential_mode=mode)
    return out


def item_loss(item, t):
    chk = t
    mesh_key, perm, mat, word, bcs, react, kind, opts, modes = item
    opts = dict(opts)
    mesh = sp.MESHES[mesh_key]
    if perm:
        mesh = sp.renumber(mesh, *perm)
    mat = list(mat) if isinstance(mat, tuple) else mat
    scale = opts.get('scale', 1.0)
    n_gauss = opts.get('n_gauss')
    u = sp.history(mesh, word, scale)
    nt = u.shape[2]
    bc = bc_of(mesh, bcs, kind)
    tr = dict(item=[str(x) for x in item])
    kw = {}
    weights = None
    if opts.get('weights'):
        weights = [0.5 + 0.75*k for k in range(nt)]
        weights[-1] = 2.5
        kw['loss_time_weights'] = torch.tensor(weights)
    factor = None
    if opts.get('factor'):
        factor = 3.5
        kw['loss_scaling_factor'] = torch.tensor(factor)
    with Scratch() as d:
        # material evaluated first: reactions depend on its forces
        probe = Specimen(d, mesh, mat, u, np.zeros_like(u), bc * 0,
                         'pointwise', n_gauss=n_gauss)
        paths, stress, f = reference(probe, mesh, mat, u, n_gauss)
        r = reaction(f, react)
        fscale = None
        if opts.get('norm'):
            lo, hi = ([-400.0, -300.0, -250.0], [400.0, 300.0, 250.0])
            if opts['norm'] == 'shift':
                lo, hi = ([-100.0, -300.0, 20.0], [400.0, 200.0, 250.0])
            nd = f.shape[1]
            kw.update(is_force_normalization=True,
                      force_minimum=torch.tensor(lo[:nd]),
                      force_maximum=torch.tensor(hi[:nd]))
            fscale = [2/(b - a) for a, b in zip(lo[:nd], hi[:nd])]
        if opts.get('store'):
            kw.update(is_store_force_equilibrium_loss_hist=True,
                      is_store_local_paths=True,
                      is_compute_sets_reaction_hist=kind != 'pointwise')
            if opts['store'] != 'all':
                kw['local_paths_elements'] = list(opts['store'])
        want, hist, parts = sp.loss(f, r, bc, kind, weights, factor, fscale)
        size = sp.loss(f, 0*r, bc, kind, weights, factor, fscale)[0] + 1e-12
        grads = {}
        for mode in modes:
            spec = Specimen(d, mesh, mat, u, r, bc, kind, n_gauss=n_gauss,
                            **kw)
            L = evaluate(spec, mode)
            chk.state((item, mode))
            v = float(L)
            if not chk.check(close(v, want, size), f'loss:{mode}',
                             f'{mesh_key} {perm} {mat} {word} {bcs} {react} '
                             f'{kind} {opts} {mode}: loss {v}, unbalanced '
                             f'forces give {want}', tr):
                continue
            ps = [p for p in spec.state.parameters() if p.requires_grad]
            if ps:
                L.backward()
                grads[mode] = [None if p.grad is None
                               else p.grad.detach().numpy().copy()
                               for p in ps]
            # evaluated again: same value
            v2 = float(evaluate(spec, mode))
            chk.check(close(v2, v, size, 1e-12), f'repeat:{mode}',
                      f'{mesh_key} {mat} {word} {mode}: loss {v} then '
                      f'{v2}', tr)
            if opts.get('store'):
                stored(chk, spec, mesh, item, mode, paths, stress, f, bc,
                       kind, hist, parts, size, opts, tr)
        ms = list(grads)
        for a in ms[1:]:
            for x, y in zip(grads[ms[0]], grads[a]):
                same = (x is None) == (y is None)
                if same and x is not None:
                    m = max(np.abs(x).max(), np.abs(y).max(), 1e-12)
                    same = np.abs(x - y).max() <= 1e-6*m or \
                        react == 'exact'
                chk.check(same, 'gradients',
                          f'{mesh_key} {mat} {word} {react}: gradients '
                          f'differ between {ms[0]} and {a}: {x} {y}', tr)
        if opts.get('fd') and ms:
            fd_gradient(chk, item, mesh, mat, u, r, bc, kind, weights,
                        factor, fscale, grads[ms[0]], n_gauss, tr)


def fd_gradient(chk, item, mesh, mat, u, r, bc, kind, weights, factor,
                fscale, grad, n_gauss, tr):
    """Gradients are the derivatives of the reference loss."""
    norm, base = mat.split(':')
    base = plain(base)
    vals = VALUES[base]
    for k, (name, v) in enumerate(vals.items()):
        ls = []
        for s in (-1, 1):
            q = dict(vals)
            h = 1e-5*v
            q[name] = v + s*h
            fn = sp.material_stress(base, mesh[1], q)
            st = [fn(p) for p in sp.strain_paths(mesh, u, n_gauss)]
            ff = sp.internal_forces(mesh, st, n_gauss)
            ls.append(sp.loss(ff, r, bc, kind, weights, factor, fscale)[0])
        dfd = (ls[1] - ls[0])/(2*h)
        if norm == 'rcn':
            lo, hi = bounds_of(v)
            dfd *= (hi - lo)/2
        g = float(np.asarray(grad[k]).reshape(-1)[0])
        # round-off of the differences
        noise = 1e-9*abs(ls[0])/h
        chk.check(abs(g - dfd) <= 1e-3*abs(dfd) + noise + 1e-12,
                  'derivative', f'{item[:4]}: gradient of {name} is {g}, '
                  f'differences of the loss give {dfd}', tr)


def stored(chk, spec, mesh, item, mode, paths, stress, f, bc, kind, hist,
           parts, size, opts, tr):
    """Files written next to the loss."""
    d = spec.dir
    name = f'{item[0]} {item[2]} {item[3]} {mode}'
    ld = os.path.join(d, 'local_response_dataset')
    files = [x for x in os.listdir(ld) if x.startswith('ss_paths_dataset')]
    ds = load_dataset(os.path.join(ld, files[0]))
    els = [e for e, _, _ in sp.bmatrices(mesh, opts.get('n_gauss'))]
    ids = range(1, len(mesh[3]) + 1) if opts['store'] == 'all' \
        else opts['store']
    want = [(p, s) for i in ids
            for e, p, s in zip(els, paths, stress) if e == i - 1]
    got = []
    ok = len(ds) == len(want)
    for k in range(min(len(ds), len(want))):
        x = ds[k]
        got.append((x['strain_path'].numpy(), x['stress_path'].numpy()))
        n = x['strain_path'].shape[0]
        ok = ok and torch.allclose(
            x['time_hist'].reshape(-1), torch.arange(
                n, dtype=x['time_hist'].dtype)) and all(
            tuple(x[k + '_comps_order']) == plast.order(mesh[1])
            for k in ('strain', 'stress'))
    chk.check(ok, f'paths:{mode}', f'{name}: {len(ds)} local paths, '
              f'expected {len(want)}', tr)
    se = max(np.abs(p).max() for p, _ in want) + 1e-12
    ss = max(np.abs(s).max() for _, s in want) + 1e-12
    if ok:
        # elements in the order of their labels or as requested
        def key(q):
            return tuple(np.round(q[0]/se, 6).reshape(-1))
        a = sorted(((sp.comps_of(p, mesh[1]), sp.comps_of(s, mesh[1]))
                    for p, s in want), key=key)
        b = sorted(got, key=key)
        for (p, s), (q, z) in zip(a, b):
            if not chk.check(
                    np.abs(p - q).max() <= 1e-8*se
                    and np.abs(s - z).max() <= 1e-6*ss, f'paths:{mode}',
                    f'{name}: stored local strain-stress path differs from '
                    f'that of the integration point', tr):
                break
    if mode != 'sequential_element_vmap':
        return
    with open(os.path.join(d, 'force_equilibrium_loss_components',
                           'force_equilibrium_loss_data.pkl'), 'rb') as fl:
        h = pickle.load(fl)['force_equilibrium_loss_components_hist']
    ok = h.shape == ((1 if kind == 'pointwise' else 3), len(hist))
    ok = ok and np.allclose(h[0], hist, rtol=1e-6, atol=1e-9*size)
    if kind != 'pointwise':
        ok = ok and np.allclose(h[1:], parts, rtol=1e-6, atol=1e-9*size)
    chk.check(ok, 'components', f'{name} {opts}: stored history of the loss '
              f'{h.tolist()}, expected {hist.tolist()} {parts.tolist()}', tr)
    if kind != 'pointwise':
        with open(os.path.join(d, 'dirichlet_sets_reaction_forces',
                               'dirichlet_sets_data.pkl'), 'rb') as fl:
            h = pickle.load(fl)['dirichlet_sets_reaction_hist']
        labs = np.unique(bc)
        w = np.array([f[bc == s].sum(axis=0) for s in labs])
        chk.check(h.shape[0] == len(labs) and np.allclose(
            h[:, 0, :], w, rtol=1e-6, atol=1e-6*np.abs(f).max() + 1e-12),
            'reactions', f'{name}: reactions of the sets differ', tr)


def item_mixed(item, t):
    """Different materials: vectorised evaluation refused or right."""
    chk = t
    mats_, word = item
    mesh = sp.MESHES['quad4x2']
    u = sp.history(mesh, word)
    bc = bc_of(mesh, 'some', 'pointwise')
    tr = dict(item=[str(x) for x in item])
    with Scratch() as d:
        spec = Specimen(d, mesh, list(mats_), u, np.zeros_like(u), bc)
        _, _, f = reference(spec, mesh, list(mats_), u)
        want = sp.loss(f, 0*u, bc, 'pointwise', None, None)[0]
        for mode in ('sequential_element', 'sequential_element_vmap'):
            try:
                v = float(spec.finder(sequential_mode=mode))
            except RuntimeError:
                chk.check(mode.endswith('vmap'), 'mixed:refused',
                          f'{mats_} {word} {mode}: refused', tr)
                continue
            chk.state((item, mode))
            chk.check(close(v, want, want), 'mixed',
                      f'elements of materials {mats_}, {word}, {mode}: loss '
                      f'{v}, unbalanced forces give {want}', tr)


HIST = {'A': ('quad4x2', None, 'ab', 'some', {}),
        'B': ('quad4x2', ((1, 0), (3, 0, 4, 1, 5, 2)), 'ab', 'some', {}),
        'C': ('quad4x2', None, 'bca', 'all', dict(weights=1)),
        'D': ('tri3x2', None, 'b', 'none', dict(factor=2.5))}


def item_history(item, t):
    """One finder used for one specimen after the other."""
    chk = t
    kind, word = item
    tr = dict(item=[str(x) for x in item])
    vals = dict(VALUES['von_mises'])
    with Scratch() as d:
        finder, cur, spec = None, None, None
        for k, op in enumerate(word):
            t.transition()
            if op in HIST:
                key, perm, w, bcs, o = HIST[op]
                mesh = sp.MESHES[key]
                if perm:
                    mesh = sp.renumber(mesh, *perm)
                u = sp.history(mesh, w)
                bc = bc_of(mesh, bcs, kind)
                wt = [0.5 + 0.75*i for i in range(u.shape[2])] \
                    if 'weights' in o else None
                r = 3.0*np.cos(np.arange(u.size)).reshape(u.shape)
                spec = Specimen(d, mesh, 'rc:von_mises_vmap', u, r, bc, kind)
                if finder is None:
                    finder = spec.finder
                kw = {}
                if wt:
                    kw['loss_time_weights'] = torch.tensor(wt)
                if 'factor' in o:
                    kw['loss_scaling_factor'] = torch.tensor(o['factor'])
                finder.set_specimen_data(spec.data, spec.state, **kw)
                vals = dict(VALUES['von_mises'])
                cur = (mesh, u, r, bc, wt, o.get('factor'))
            elif op == 'p':
                # the parameters move on
                model = spec.state.get_elements_material()['1']
                for name, par in zip(vals, model.parameters()):
                    vals[name] *= 1.07
                    with torch.no_grad():
                        par.fill_(vals[name])
            else:
                mesh, u, r, bc, wt, fac = cur
                fn = sp.material_stress('von_mises', mesh[1], vals)
                f = sp.internal_forces(mesh, [
                    fn(p) for p in sp.strain_paths(mesh, u)])
                want = sp.loss(f, r, bc, kind, wt, fac)[0]
                with torch.no_grad():
                    v = float(finder(sequential_mode=EL if op == 'e'
                                     else VM))
                chk.state((item, k))
                if not chk.check(close(v, want, want), 'history',
                                 f'{kind} {word[:k + 1]}: loss {v}, '
                                 f'unbalanced forces give {want}', tr):
                    return


def dispatch(item, t):
    t.trace()
    return globals()[item[0]](item[1:], t)


EL, VM = 'sequential_element', 'sequential_element_vmap'


def main(chk):
    items = []

    def add(mesh, mat, word, perm=None, bcs='some', react='zero',
            kind='pointwise', opts=(), modes=(EL, VM)):
        if mat == 'rc:elastic':
            # not vectorised
            modes = tuple(m for m in modes if m != VM)
            if not modes:
                return
        items.append(('item_loss', mesh, perm, mat, word, bcs, react, kind,
                      tuple(dict(opts).items()), modes))
    L = 4 if THOROUGH else 3
    words = [''.join(w) for k in range(1, L + 1)
             for w in itertools.product('abc', repeat=k)]
    words += ['a0b', '0']
    # every word on a two-element specimen
    for w in words:
        for mat in ('rc:von_mises_vmap', 'gru:min-max'):
            add('quad4x2', mat, w, react='off', opts=dict(fd=mat[0] == 'r'))
    # meshes, boundary conditions and reactions
    for mesh in sp.MESHES:
        three = sp.MESHES[mesh][1] == 4
        for mat in ('rc:elastic', 'rc:von_mises_vmap'):
            if three and mat != 'rc:elastic' and not THOROUGH:
                continue
            for bcs, react in itertools.product(('none', 'some', 'all'),
                                                ('zero', 'exact', 'off')):
                if not THOROUGH and mat == 'rc:von_mises_vmap' and (
                        bcs, react) not in (('some', 'off'),
                                            ('all', 'exact')):
                    continue
                add(mesh, mat, 'ab', bcs=bcs, react=react)
            add(mesh, mat, 'ac', bcs='all', react='exact',
                kind='dirichlet_sets', modes=(VM,))
            add(mesh, mat, 'ac', bcs='some', react='off',
                kind='dirichlet_sets', modes=(VM,), opts=dict(weights=1))
    # numbering
    for el in itertools.permutations(range(2)):
        for k in range(6 if THOROUGH else 3):
            nodes = tuple((i*5 + k) % 6 for i in range(6))
            add('quad4x2', 'rc:von_mises_vmap', 'ab', perm=(el, nodes),
                react='off')
    for nodes in itertools.islice(itertools.permutations(range(4)), 0, None,
                                  1 if THOROUGH else 5):
        add('tri3x2', 'rc:elastic', 'ba', perm=((1, 0), nodes), react='off')
        add('quad4', 'gru:min-max', 'ba', perm=(None, nodes), react='off')
    # options
    for mat, kind in itertools.product(
            ('rc:von_mises_vmap', 'gru:min-max', 'gru:mean-std',
             'gru:plain', 'hyb:plain', 'rcn:von_mises_vmap',
             'rc:drucker_prager_vmap'), ('pointwise', 'dirichlet_sets')):
        modes = (EL, VM) if kind == 'pointwise' else (VM,)
        for bcs in ('some', 'all'):
            for o in (dict(weights=1), dict(factor=1),
                      dict(weights=1, factor=1, norm='sym'),
                      dict(norm='shift'), dict(store='all', weights=1),
                      dict(store=(2,), norm='shift', factor=1)):
                for react in ('off', 'exact') if 'norm' in o else ('off',):
                    o = dict(o, fd=mat[:2] == 'rc' and react == 'off')
                    add('quad4x2', mat, 'ab', bcs=bcs, react=react,
                        kind=kind, opts=o, modes=modes)
    for n_gauss in (1, 4):
        add('quad4x2', 'rc:von_mises_vmap', 'ab', opts=dict(n_gauss=n_gauss))
    # incremental materials, evaluated in time order as well
    for base in ('elastic', 'von_mises'):
        for w in words:
            add('quad4x2', 'plain:' + base, w, react='off',
                modes=('sequential_time', EL))
    # one finder, several specimens and parameters
    for kind, ev in (('pointwise', 'v'), ('pointwise', 'e'),
                     ('dirichlet_sets', 'v')):
        for ops in itertools.product('ABCDp', repeat=3 if THOROUGH else 2):
            if ops[0] == 'p':
                continue
            items.append(('item_history', kind, ''.join(
                o + ev for o in ops) + ('pv' if ev == 'v' else 'pev')))
    for a, b in (('rc:elastic', 'rc:von_mises_vmap'),
                 ('rc:von_mises_vmap', 'rc:drucker_prager_vmap'),
                 ('rc:elastic', 'gru:plain')):
        items.append(('item_mixed', (a, b), 'ab'))
        items.append(('item_mixed', (b, a), 'b'))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('finder', main)
chk.finish()
