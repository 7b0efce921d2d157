"""C39: figures of specimens, patches, load factors, metrics and pruning.

Every input within the bounds is drawn with the real code; what the figures
and text files show is read back and compared with the data given.
"""
import _path  # noqa
import itertools
import os
import pickle
import tempfile
import warnings
from mc.core import Check, THOROUGH, quiet
import numpy as np
import torch
from mc.figs import Figures, lines, same
from data_generation.spdg.patch import FiniteElementPatch
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from miscellaneous.pruning import pruning_dataset as prd
from simulators.links.utilities import links_plot_tfact as lpt
from user_scripts.global_model_update.utilities import (
    process_specimen_data as psd)
from utilities import output_prediction_metrics as opm

warnings.simplefilter('ignore')
torch.set_default_dtype(torch.float64)
chk = Check('C39')


class Saved:
    """Keeps the names under which the figures of a module are saved."""

    def __init__(self, module):
        self.module, self.names = module, []

    def __enter__(self):
        self.real = self.module.save_figure

        def save(figure, filename, *a, **k):
            self.names.append((figure, filename, k.get('save_dir')))
        self.module.save_figure = save
        return self

    def __exit__(self, *a):
        self.module.save_figure = self.real
        return False


# --------------------------------------------------------------------------
def rounded(p):
    return {tuple(np.round(np.array(x, dtype=float), 9) + 0.0) for x in p}


def segments_of(fig, nd):
    """Drawn segments (ends) and lone points of a figure, by colour."""
    out = {}
    for ax in fig.axes:
        for ln in ax.lines:
            d = ln.get_data_3d() if nd == 3 else ln.get_data(orig=True)
            p = np.stack([np.array(v, dtype=float).reshape(-1) for v in d],
                         axis=1)
            if len(p):
                key = ln.get_color() if ln.get_marker() == 'o' else 'marker'
                out.setdefault(key, []).append(p)
    return out


def patch(item, t):
    _, nd, elem, n, kind, faces = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    dims = (1.0, 1.4, 0.8)[:nd]
    gen = FiniteElementPatchGenerator(nd, dims)
    np.random.seed(3)
    with quiet():
        ok, real = gen.generate_deformed_patch(elem, n)
    ref = {k: np.array(v, dtype=float)
           for k, v in real.get_mesh_nodes_coords_ref().items()}
    rim = [k for k, x in ref.items() if any(
        min(abs(x[i]), abs(x[i] - dims[i])) < 1e-9 for i in range(nd))]
    deep = {k: sum(min(abs(ref[k][i]), abs(ref[k][i] - dims[i])) < 1e-9
                   for i in range(nd)) for k in rim}
    edge = [k for k in rim if deep[k] >= nd - 1]
    # Displacements: no two alike; some free directions in partial cases
    disp = {}
    for a, k in enumerate(rim):
        disp[k] = np.array([0.03*np.sin(2.0*a + i) + 0.1*ref[k][(i + 1) % nd]
                            for i in range(nd)])
    if kind == 'fixed':
        for k in rim:
            if abs(ref[k][0]) < 1e-9:
                disp[k][:] = 0.0
    given = {k: tuple(float(v) for v in x) for k, x in disp.items()}
    if kind == 'partial':
        k = edge[-1]
        given[k] = given[k][:-1] + (None,)
    elif kind == 'none':
        given = {}
    elif kind == 'face':
        for k in rim:
            if k not in edge:
                given[k] = given[k][:-1] + (None,)
    elif kind == 'edges':
        given = {k: v for k, v in given.items() if k in edge}
    obj = FiniteElementPatch(nd, dims, elem, n, real.get_mesh_nodes_matrix(),
                             {k: v for k, v in ref.items()}, given)
    with Figures() as figs:
        with quiet():
            obj.plot_deformed_patch(is_show_fixed_dof=kind == 'fixed',
                                    is_hide_deformed_faces=not faces)
    if not t.check(len(figs.seen) == 1, 'patch:figure',
                   f'{len(figs.seen)} figures', rep):
        return
    got = segments_of(figs.seen[0], nd)
    marks = got.pop('marker', [])
    whole = kind in ('all', 'fixed') or (kind in ('edges', 'face') and (
        nd == 3 or set(edge) == set(rim)))
    show_faces = nd == 2 or (faces and kind in ('all', 'fixed'))
    moved = [k for k in rim if show_faces or k in edge] if whole else []
    t.transition(1 + len(got))
    if not t.check(len(got) == 1 + bool(moved), 'patch:sets',
                   f'{len(got)} sets of segments', rep):
        return
    at_rest = rounded([ref[k] for k in rim])
    at_move = rounded([ref[k] + disp[k] for k in moved])
    sets = {c: rounded([x for p in s for x in p]) for c, s in got.items()}
    t.check(any(v == at_rest for v in sets.values()), 'patch:reference',
            'boundary nodes not at their reference positions', rep)
    if moved:
        t.check(any(v == at_move for v in sets.values()), 'patch:deformed',
                'boundary nodes not at their deformed positions', rep)
    # Segments join neighbours
    where = {tuple(np.round(ref[k], 9) + 0.0): k for k in rim}
    there = {tuple(np.round(ref[k] + disp[k], 9) + 0.0): k for k in moved}
    for c, s in got.items():
        pos = where if sets[c] == at_rest else there
        for p in s:
            names = [pos.get(tuple(np.round(x, 9) + 0.0)) for x in p]
            ok = len(p) == 2 and None not in names and \
                np.sum(np.abs(ref[names[0]] - ref[names[1]]) > 1e-9) == 1
            if not t.check(ok, 'patch:segment',
                           f'segment joins nodes {names}', rep):
                return
    if kind == 'fixed':
        want = [ref[k] for k in given for i in range(nd)
                if abs(given[k][i]) < 1e-8]
        t.check(len(marks) == len(want) and rounded(
            [x for p in marks for x in p]) == rounded(want), 'patch:fixed',
            f'{len(marks)} marks of {len(want)} fixed directions', rep)


# --------------------------------------------------------------------------
def specimen_files(d, n_node, n_t, nd, bc):
    """Time step files; displacements (node, dim, step) and reactions."""
    a = np.arange(n_node*3*n_t).reshape(n_node, 3, n_t)
    u = np.sin(1.1*a)*(np.arange(n_t) > 0)
    r = 10.0*np.cos(1.7*a)
    u[:, nd:], r[:, nd:] = 0.0, 0.0
    for k in range(n_t):
        with open(os.path.join(d, f's_tstep_{k}.csv'), 'w') as f:
            f.write('NODE,X1,X2,X3,U1,U2,U3,RF1,RF2,RF3,DBC1,DBC2,DBC3\n')
            for i in range(n_node):
                f.write(','.join(map(str, [i + 1] + [1.0*i, 2.0*i, 3.0]
                                     + u[i, :, k].tolist()
                                     + r[i, :, k].tolist()
                                     + bc[i].tolist())) + '\n')
    return u, r


def history(item, t):
    _, nd, n_t, labels, pattern, node = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    n_node = 4
    bc = np.zeros((n_node, 3), dtype=int)
    for i, v in enumerate(pattern):
        bc[i, :nd] = [v, (v*2) % 3, (v + i) % 2][:nd]
    with tempfile.TemporaryDirectory() as d:
        u, r = specimen_files(d, n_node, n_t, nd, bc)
        given = list(labels) if isinstance(labels, tuple) else labels
        with Figures() as figs, Saved(psd) as s, quiet():
            psd.plot_nodes_displacement_history('s', d, given, n_dim=nd,
                                                save_dir=d)
        want = (labels if isinstance(labels, tuple) else
                (labels,) if isinstance(labels, int) else range(1, 5))
        t.transition(len(s.names))
        t.check(len(s.names) == len(want), 'history:figures',
                f'{len(s.names)} figures for nodes {list(want)}', rep)
        for k, (f, name, _) in zip(want, s.names):
            found = lines(f)
            ok = str(k) in name and len(found) == nd and all(
                lab.endswith(str(i + 1)) and same(rows, np.stack(
                    [np.arange(n_t), u[k - 1, i]], axis=1))
                for i, (lab, rows) in enumerate(found))
            t.check(ok, 'history:curve', f'displacements of node {k} are '
                    f'not those shown in {name}', rep)
        with Figures() as figs, Saved(psd) as s, quiet():
            psd.plot_reaction_forces_history(
                's', d, n_dim=nd, reference_displacement_node=node,
                save_dir=d)
        x = np.arange(n_t) if node is None else u[node[0] - 1, node[1]]
        sets = [(i, v) for i in range(nd) for v in np.unique(bc[:, i])]
        t.transition(len(s.names))
        t.check(len(s.names) == len(sets), 'reaction:figures',
                f'{len(s.names)} figures for sets {sets}', rep)
        names = {name: f for f, name, _ in s.names}
        t.check(len(names) == len(s.names), 'reaction:names',
                'two figures have the same name', rep)
        for i, v in sets:
            y = r[bc[:, i] == v, i].sum(axis=0)
            hit = [f for k, f in names.items() if f'dim_{i + 1}_' in k
                   and float(k.split('_')[-1]) == v]
            rows = np.stack([x, y], axis=1)
            t.check(len(hit) == 1 and len(lines(hit[0])) == 1 and
                    np.allclose(lines(hit[0])[0][1], rows), 'reaction:curve',
                    f'reaction of set {i, v} is not shown', rep)


def compare(item, t):
    _, n, n_t, labels = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    a = np.sin(np.arange(n*n_t)).reshape(n, 1, n_t)
    given = None if labels is None else [f'set {i}' for i in range(labels)]
    with Figures() as figs, Saved(psd) as s, quiet():
        try:
            psd.compare_reaction_forces_history(a.copy(), given, save_dir='.')
        except RuntimeError:
            t.check(labels is not None and labels != n, 'compare:refused',
                    'refused', rep)
            return
    t.check(labels is None or labels == n, 'compare:accepted',
            f'{labels} labels accepted for {n} sets', rep)
    t.transition()
    found = [x for f, _, _ in s.names for x in lines(f)]
    t.check(len(found) == n and all(
        same(rows, np.stack([np.arange(n_t), a[i, 0]], axis=1))
        and (labels is None or lab == given[i])
        for i, (lab, rows) in enumerate(found)), 'compare:curves',
        f'{len(found)} curves do not show the sets', rep)


# --------------------------------------------------------------------------
def tfact(item, t):
    _, form, facts, tail, head = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    n = len(facts)
    text = ['TITLE', 'specimen', ''] if head else ['']
    if form == 'number':
        text += [f'Number_of_Increments {n}', '', 'CONVERGENCE_TOLERANCE',
                 '1e-6']
        d = np.full(n, 1.0/n)
    else:
        word = 'INCREMENTS' if form.isupper() else 'increments'
        text += [f'{word} {n}']
        cols = (lambda v: f'{v:.8e} 1e-6 20') if form.endswith('3') \
            else (lambda v: f'1.0 {v:.8e} 1e-6 20')
        text += [cols(v) for v in facts]
        d = np.array(facts)
    text += {'none': [], 'blank': ['', '0.5 1e-6 20'],
             'keyword': ['*END', '0.5 1e-6 20']}[tail]
    want = np.stack([np.linspace(0, 1, n + 1),
                     np.concatenate([[0.0], np.cumsum(d)])], axis=1)
    with tempfile.TemporaryDirectory() as where:
        path = os.path.join(where, 'sim.dat')
        with open(path, 'w') as f:
            f.write('\n'.join(text) + '\n')
        with Figures() as figs, quiet():
            lpt.plot_links_tfact_hist(path)
        with open(os.path.join(where, 'tfact_hist.dat')) as f:
            out = f.read()
        with open(path) as f:
            t.check(f.read() == '\n'.join(text) + '\n', 'tfact:input',
                    'input file changed', rep)
    t.transition(n)
    found = [x for f in figs.seen for x in lines(f)]
    t.check(len(found) == 1 and same(found[0][1], want), 'tfact:curve',
            'curve is not the accumulated load factor', rep)
    rows = [x.split() for x in out.splitlines()]
    rows = [x for x in rows if len(x) == 2 and all(
        c in '0123456789.e+-' for c in ''.join(x))]
    t.check(np.allclose(np.array(rows, dtype=float), want, atol=1e-7)
            if len(rows) == n + 1 else False, 'tfact:file',
            f'{len(rows)} rows for {n} increments', rep)
    total = [x for x in out.splitlines() if 'accumulated' in x]
    t.check(len(total) == 1 and np.isclose(
        float(total[0].split('=')[1]), np.abs(d).sum()), 'tfact:total',
        f'{total}', rep)
    got = want.copy()
    scaled = lpt.scale_tfact_hist(got, scale_factor=2.5)
    t.check(np.array_equal(got, want) and np.allclose(
        scaled, want*[1.0, 2.5]), 'tfact:scale', 'wrong scaling', rep)


# --------------------------------------------------------------------------
def metrics(item, t):
    _, sizes, dims, labelled, other = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    names = ('rmse', 'nrmse')[:len(dims)]
    val = {m: {s: torch.tensor(np.cos(0.01*s + np.arange(k) + i))
               for s in sizes} for i, (m, k) in enumerate(zip(names, dims))}
    res = {f'n{s}': dict(n_sample=3, mean_metrics_results={
        m: val[m][s].clone() for m in names}) for s in sizes}
    if other:
        res['reference'] = dict(n_sample=3, mean_metrics_results={
            m: torch.zeros(k) for m, k in zip(names, dims)})
    labels = {m: [f'{m} {i}' for i in range(k)]
              for m, k in zip(names, dims)} if labelled else None
    with tempfile.TemporaryDirectory() as d, Figures() as figs:
        with quiet():
            opm.plot_prediction_metrics_convergence(
                res, names, metric_features_labels=labels, save_dir=d,
                is_save_plot_data=True)
        data = {}
        for m in names:
            p = os.path.join(d, 'plot_data', f'mean_{m}_convergence_data.pkl')
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    data[m] = pickle.load(f)['data_xy']
    order = sorted(sizes)
    t.check(len(figs.seen) == len(names), 'metrics:figures',
            f'{len(figs.seen)} figures for {len(names)} metrics', rep)
    for m, k, f in zip(names, dims, figs.seen):
        t.transition()
        want = np.stack([val[m][s].numpy() for s in order])
        found = lines(f)
        t.check(len(found) == k and all(same(
            rows, np.stack([order, want[:, i]], axis=1)) and
            (not labelled or lab == labels[m][i])
            for i, (lab, rows) in enumerate(found)), 'metrics:curve',
            f'curves of {m} are not its means over the sizes', rep)
        t.check(m in data and np.allclose(data[m][:, 1::2], want) and
                np.allclose(data[m][:, ::2], np.array(order)[:, None]),
                'metrics:data', f'saved plot data of {m}', rep)


def pruning(item, t):
    _, sizes, types, threshold = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    full = 40
    data, nrmse = {}, {}
    for i, (a, b) in enumerate(sizes):
        nrmse[i] = {k: 0.1*(j + 1) + 0.03*np.sin(i + j)
                    for j, k in enumerate(types)}
        data[str(i)] = dict(
            n_dev=a + b, n_train=a, n_valid=b, n_unused=full - a - b,
            testing_types_avg_nrmse=dict(nrmse[i]),
            testing_types_loss={k: 100.0*v for k, v in nrmse[i].items()})
    with Figures() as figs, Saved(prd) as s, quiet():
        prd.plot_pruning_iterative_data(
            'x', dict(n_full=full), types, data, save_dir='.',
            performance_threshold_ratio=0.2,
            is_plot_performance_threshold=threshold, is_save_fig=True)
    t.transition(len(s.names))
    it = np.arange(len(sizes))
    pc = 100.0*np.array([[a + b, a, b, full - a - b] for a, b in sizes])/full
    hit = [f for f, n, _ in s.names if 'sizes' in n]
    ok = hit and len(lines(hit[-1])) == 4 and all(
        same(rows, np.stack([it, pc[:, i]], axis=1)) and lab == want
        for i, ((lab, rows), want) in enumerate(zip(
            lines(hit[-1]), ('Training + Validation', 'Training',
                             'Validation', 'Unused'))))
    t.check(ok, 'pruning:sizes', 'data set sizes are not shown', rep)
    curve = {k: np.stack([pc[:, 0], [nrmse[i][k] for i in it]], axis=1)
             for k in types}
    for k in types:
        hit = [f for f, n, _ in s.names if n.endswith('_' + k)]
        if not t.check(len(hit) == 1, 'pruning:figure',
                       f'{len(hit)} figures of {k}', rep):
            continue
        found = lines(hit[0])
        t.check(any(same(rows, curve[k]) for _, rows in found),
                'pruning:curve', f'convergence of {k} is not shown', rep)
        flat = [rows for lab, rows in found if 'hreshold' in lab]
        need = threshold and k != 'unused_data'
        t.check(len(flat) == need and all(np.allclose(
            rows[:, 1], 1.2*nrmse[0][k]) for rows in flat),
            'pruning:threshold', f'threshold of {k}', rep)
    hit = [f for f, n, _ in s.names if n.endswith('convergence')]
    name = dict(in_distribution='In-distribution', unused_data='Unused',
                out_distribution='Out-of-distribution')
    t.check(len(hit) == 1 and len(lines(hit[0])) == len(types) and all(
        lab == name[k] and same(rows, curve[k])
        for k, (lab, rows) in zip(types, lines(hit[0]))), 'pruning:all',
        'common convergence figure', rep)


# --------------------------------------------------------------------------
def items():
    out = []
    m = 3 if THOROUGH else 2
    for nd, elems in ((2, ('SQUAD4', 'SQUAD8')), (3, ('SHEXA8', 'SHEXA20'))):
        for e in elems:
            for n in itertools.product(range(1, m + 1), repeat=nd):
                for k in ('all', 'fixed', 'partial', 'edges', 'face',
                          'none'):
                    for f in (False, True) if nd == 3 else (False,):
                        out.append(('patch', nd, e, n, k, f))
    for nd in (2, 3):
        for n_t in (1, 2, 4, 12):
            for lab in (1, 4, 'all', (2,), (3, 1), (1, 2, 4)):
                out.append(('history', nd, n_t, lab, (0, 1, 2, 1), None))
        for p in itertools.product((0, 1, 2), repeat=4 if THOROUGH else 3):
            p = (p + (0,))[:4]
            for node in (None, (2, 0), (4, nd - 1)):
                out.append(('history', nd, 3, 1, p, node))
    for n in (1, 2, 3, 5):
        for n_t in (1, 2, 5):
            for lab in (None, 0, 1, 2, 3, 5):
                out.append(('compare', n, n_t, lab))
    for n in (1, 2, 3, 4):
        for facts in itertools.product((-0.5, 0.0, 0.25), repeat=n):
            for form in ('LIST3', 'LIST4', 'list4'):
                for tail in ('none', 'blank', 'keyword'):
                    for h in (False, True):
                        out.append(('tfact', form, facts, tail, h))
        for tail in ('none', 'blank', 'keyword'):
            out.append(('tfact', 'number', (0.0,)*n, tail, True))
    sizes = (5, 10, 20, 160)
    for n in (1, 2, 3):
        for c in itertools.permutations(sizes, n):
            for dims in ((1,), (3,), (1, 6)):
                for lab in (False, True):
                    for o in (False, True):
                        out.append(('metrics', c, dims, lab, o))
    pairs = ((24, 6), (16, 4), (8, 2))
    kinds = ('in_distribution', 'out_distribution', 'unused_data')
    for n in (1, 2, 3):
        for c in itertools.permutations(pairs, n):
            for k in (1, 2, 3):
                for ty in itertools.permutations(kinds, k):
                    for th in (False, True):
                        out.append(('pruning', c, ty, th))
    return out


def dispatch(item, t):
    dict(patch=patch, history=history, compare=compare, tfact=tfact,
         metrics=metrics, pruning=pruning)[item[0]](item, t)


def main(chk):
    chk.pmap(dispatch, items())


chk.run('figures', main)
chk.finish()
