"""C38: figures that compare material models.

Every combination of models, parameters, component orders and options within
the bounds is drawn with the real code; the curves are read back from the
figures and compared with hardening laws evaluated directly, with stresses of
step by step state updates, with the given predictions, and with the yield
condition in closed form.  The yield functions of the figures are also
compared with the stresses that the material models return while yielding.
"""
import _path  # noqa
import itertools
import os
import tempfile
import warnings
from mc.core import Check, THOROUGH, quiet
import numpy as np
import torch
from mc import mats
from mc.figs import Figures, lines, same
from miscellaneous.materials import (
    compare_hardening_laws as chl, compare_material_models as cmm,
    plot_yield_surface as pys)
from miscellaneous.file_processing import plot_prediction_files as ppf
from simulators.fetorch.material.models.standard.lou import LouZhangYoon

warnings.simplefilter('ignore')
torch.set_default_dtype(torch.float64)
chk = Check('C38')
ORDERS = {1: ('11', '22', '12'), 4: ('11', '22', '33', '12', '23', '13')}
LAWS = ('linear', 'perfect', 'nadai_ludwik', 'piecewise_linear')


def law_value(kind, p):
    """Yield stress of the laws of mc.mats in closed form."""
    if kind in ('linear', 'perfect'):
        return 500.0 + (800.0 if kind == 'linear' else 0.0)*p
    if kind == 'nadai_ludwik':
        return 500.0 + 700.0*(p + 1e-5)**0.5
    return np.interp(p, [0.0, 0.004, 0.012, 0.05], [500., 560., 600., 620.])


def hard(item, t):
    _, laws, display, save = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    given = {}
    for k in laws:
        f, par = mats.hardening(k)
        given[k.replace('_', ' ')] = dict(hardening_law=f,
                                          hardening_parameters=par)
    with tempfile.TemporaryDirectory() as d, Figures() as figs:
        with quiet():
            chl.compare_hardening_laws(given, save_dir=d, is_save_fig=save,
                                       is_stdout_display=display)
        files = os.listdir(d)
    if save:
        t.check(len(files) == 1, 'hard:file', f'saved files {files}', rep)
    else:
        t.check(not files, 'hard:file', f'unexpected files {files}', rep)
    if not (display or save):
        return
    if not t.check(len(figs.seen) == 1, 'hard:figure',
                   f'{len(figs.seen)} figures', rep):
        return
    found = dict(lines(figs.seen[0]))
    for k in laws:
        t.transition()
        rows = found.get(k.replace('_', ' '))
        t.check(rows is not None and len(rows) > 100
                and rows[0, 0] == 0.0 and np.all(np.diff(rows[:, 0]) > 0)
                and np.allclose(rows[:, 1], law_value(k, rows[:, 0]),
                                rtol=1e-9),
                'hard:curve', f'curve of {k} is not its yield stress', rep)
    t.check(len(found) == len(laws), 'hard:extra', 'extra curves', rep)


# --------------------------------------------------------------------------
def tensors(order, n, scale=4e-3):
    """A strain path, loading and unloading, no two components alike."""
    e = np.zeros((n, 3, 3))
    for i in range(1, n):
        for a, c in enumerate(sorted(order)):
            v = scale*np.sin(0.7*i + a)*(1 + 0.2*a)
            e[i, int(c[0]) - 1, int(c[1]) - 1] = v
            e[i, int(c[1]) - 1, int(c[0]) - 1] = v
    return e


def column(path, c):
    return path[:, int(c[0]) - 1, int(c[1]) - 1]


def walk(model, order, e):
    """Stresses of step by step state updates of the tensor path."""
    nd = 2 if len(order) == 3 else 3
    state = model.state_init()
    out = np.zeros((len(e), 3, 3))
    for i in range(1, len(e)):
        inc = torch.tensor(e[i] - e[i - 1])[:nd, :nd]
        new, _ = model.state_update(inc, state)
        state = new
        s = new['stress_mf']
        for k, c in enumerate(order):
            v = float(s[k])/(1.0 if c[0] == c[1] else np.sqrt(2.0))
            out[i, int(c[0]) - 1, int(c[1]) - 1] = v
            out[i, int(c[1]) - 1, int(c[0]) - 1] = v
    return out


def models(item, t):
    _, pt, names, which, ref = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    order = ORDERS[pt]
    given = order if which == 'standard' else order[2:] + order[:2]
    e = tensors(order, 5)
    strain = np.stack([column(e, c) for c in given], axis=1)
    times = np.array([0.0, 0.5, 1.5, 1.75, 3.0])
    made = {f'm{i} {n}'.replace('_', ' '): mats.make(n, pt)
            for i, n in enumerate(names)}
    refs = None
    if ref:
        s = tensors(order, 5, 300.0)
        refs = np.stack([column(s, c) for c in given], axis=1)
    with Figures() as figs:
        with quiet():
            cmm.compare_material_model_response(
                'infinitesimal', pt, given, times, strain.copy(),
                constitutive_models=made, ref_stress_path=refs)
    for i, n in enumerate(names):
        label = f'm{i} {n}'.replace('_', ' ')
        want = walk(mats.make(n, pt), order, e)
        for c in order:
            t.transition()
            rows = np.stack([times, column(want, c)], axis=1)
            t.check(any(f.axes[0].get_ylabel().endswith(c) and
                        any(a == label and b.shape == rows.shape and
                            np.allclose(b, rows, rtol=1e-6, atol=1e-6)
                            for a, b in lines(f)) for f in figs.seen),
                    'models:curve', f'no figure shows stress {c} of {n}',
                    rep)
    if ref:
        for k, c in enumerate(given):
            rows = np.stack([times, refs[:, k]], axis=1)
            t.check(any(f.axes[0].get_ylabel().endswith(c) and
                        any(a == 'reference' and same(b, rows)
                            for a, b in lines(f)) for f in figs.seen),
                    'models:reference',
                    f'no figure shows stress {c} of the reference', rep)


# --------------------------------------------------------------------------
def prediction(item, t):
    _, nd, which, n, truth = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    order = ORDERS[{2: 1, 3: 4}[nd]]
    order = order if which == 'standard' else order[::-1]
    times = torch.tensor([[0.0], [1.0], [2.5], [3.0]])
    true = torch.tensor(np.sin(np.arange(4*len(order))).reshape(4, -1)*100)
    sets = {f'model {m}': dict(features_out=true*(1.1 + m) + m)
            for m in range(n)}
    path = dict(time_hist=times, stress_comps_order=order,
                stress_path=true.clone())
    if not truth and not n:
        return
    with Figures() as figs:
        with quiet():
            ppf.plot_models_stress_prediction(
                path, sets, is_plot_ground_truth=truth)
    if not t.check(len(figs.seen) == len(order), 'prediction:figures',
                   f'{len(figs.seen)} figures for {len(order)} components',
                   rep):
        return
    for k in range(len(order)):
        t.transition()
        want = {m: v['features_out'][:, k] for m, v in sets.items()}
        if truth:
            want['Ground-truth'] = true[:, k]
        want = {m: np.stack([times.reshape(-1), v], axis=1)
                for m, v in want.items()}
        found = lines(figs.seen[k])
        t.check(len(found) == len(want) and all(
            any(a == m and same(b, w) for a, b in found)
            for m, w in want.items()), 'prediction:curve',
            f'figure {k} does not show the predictions of {order[k]}', rep)


# --------------------------------------------------------------------------
LOU = {'isotropic': (np.sqrt(3.0), 0.0, 0.0, 0.0),
       'pressure': (1.2, 0.1, 0.0, 0.0), 'lode': (1.3, 0.0, 1.5, 0.5),
       'all': (1.1, 0.05, -1.5, 0.7), 'negative': (1.4, 0.08, 2.0, -0.6)}


def effective(name, par, s):
    """Effective stress over yield stress of principal stresses (rows)."""
    i1 = s.sum(axis=-1)
    d = s - i1[..., None]/3.0
    j2 = 0.5*(d*d).sum(axis=-1)
    j3 = d[..., 0]*d[..., 1]*d[..., 2]
    if name.startswith('von_mises'):
        return np.sqrt(3.0*j2)
    if name.startswith('drucker_prager'):
        return np.sqrt(j2) + np.sqrt(3.0)*np.sin(par['friction_angle'])*i1/3
    return par['yield_a']*(par['yield_b']*i1 + np.cbrt(
        np.sqrt(j2**3 - par['yield_c']*j3**2) - par['yield_d']*j3))


def principal(p):
    """Principal stresses of points of the pi-stress space."""
    ax = np.array([[2.0, -1.0, -1.0], [0.0, 1.0, -1.0], [1.0, 1.0, 1.0]])
    ax = ax/np.linalg.norm(ax, axis=1)[:, None]
    return p @ ax


class Scene:
    """Stand-in for the rendering window: keeps the meshes."""

    def __init__(self, *a, **k):
        Scene.meshes = []

    def add_mesh(self, mesh, *a, **k):
        Scene.meshes.append((k.get('label'), np.array(mesh.points)))

    def __getattr__(self, name):
        return lambda *a, **k: None


def surface_models(case):
    out = {}
    for name, arg in case:
        if name.startswith('von_mises'):
            out[name] = {}
        elif name.startswith('drucker_prager'):
            out[name] = dict(friction_angle=np.deg2rad(arg))
        else:
            a, b, c, d = LOU[arg]
            out[name] = dict(yield_a=a, yield_b=b, yield_c=c, yield_d=d)
    return out


def surface(item, t):
    _, case, sys, labelled, plane = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    pars = surface_models(case)
    names = tuple(pars)
    sy = dict(zip(names, sys))
    label = {n: f'surface {i}' for i, n in enumerate(names)} \
        if labelled else None
    real = pys.pv.Plotter, pys.pv.Light
    with Figures() as figs:
        try:
            pys.pv.Plotter, pys.pv.Light = Scene, Scene
            with quiet():
                pys.plot_yield_surface(names, pars, sy, models_labels=label,
                                       is_null_planes=plane == 'null',
                                       is_pi_plane_only=plane == 'only')
        finally:
            pys.pv.Plotter, pys.pv.Light = real
    found = [x for f in figs.seen for x in lines(f)]
    if not t.check(len(found) == len(names), 'surface:curves',
                   f'{len(found)} curves for {len(names)} models', rep):
        return
    for i, n in enumerate(names):
        t.transition()
        lab, p = found[i]
        if labelled:
            t.check(lab == label[n], 'surface:label', f'curve {i} is {lab}',
                    rep)
        s = principal(np.column_stack([p, np.zeros(len(p))]))
        phi = effective(n, pars[n], s)/sy[n]
        t.check(np.max(np.abs(phi - 1)) < 1e-2, 'surface:curve',
                f'curve of {n} does not satisfy the yield condition '
                f'({np.min(phi):.4f}..{np.max(phi):.4f})', rep)
        a = np.sort(np.arctan2(p[:, 1], p[:, 0]))
        gap = np.diff(np.append(a, a[0] + 2*np.pi)).max()
        turn = np.diff(np.unwrap(np.arctan2(p[:, 1], p[:, 0])))
        t.check(gap < 0.2 and np.allclose(p[0], p[-1])
                and abs(abs(turn.sum()) - 2*np.pi) < 1e-6
                and np.abs(turn).max() < 0.2, 'surface:closed',
                f'curve of {n} is not one closed loop', rep)
        if plane != 'only':
            q = [m for m in Scene.meshes if not labelled or m[0] == lab]
            q = q[0 if labelled else i][1]
            phi = effective(n, pars[n], principal(q))/sy[n]
            t.check(len(q) > 500 and np.max(np.abs(phi - 1)) < 5e-2,
                    'surface:mesh', f'surface of {n} does not satisfy the '
                    'yield condition', rep)


def condition(item, t):
    """Yield functions of the figures against the material models."""
    _, name, pt, load, hk = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    par = {}
    if name == 'drucker_prager':
        par = dict(friction_angle=np.deg2rad(10.0))
    elif name == 'lou_zhang_yoon':
        par = dict(yield_a=1.0, yield_b=0.05, yield_c=1.0, yield_d=0.5)
    model = mats.make(name, pt, hard=hk)
    state = model.state_init()
    e = np.zeros((3, 3))
    nd = 2 if pt == 1 else 3
    for v, (i, j) in zip(load, ((0, 0), (1, 1), (0, 1), (2, 2), (1, 2))):
        if max(i, j) < nd:
            e[i, j] = e[j, i] = v
    for k in range(3):
        new, _ = model.state_update(torch.tensor(4e-3*e)[:nd, :nd], state)
        t.transition()
        if new['is_su_fail']:
            t.count('failed')
            return
        s = np.zeros((3, 3))
        for v, c in zip(new['stress_mf'], ORDERS[pt]):
            v = float(v)/(1.0 if c[0] == c[1] else np.sqrt(2.0))
            s[int(c[0]) - 1, int(c[1]) - 1] = v
            s[int(c[1]) - 1, int(c[0]) - 1] = v
        if nd == 2:
            s[2, 2] = float(new['stress_33'])
        p = np.linalg.eigvalsh(s)
        acc = float(new['acc_p_strain'])
        old = float(state['acc_p_strain'])
        sy = law_value(hk, acc)
        phi = pys.yield_function(*p, sy, name, par)
        nrm = pys.yield_function(*p, sy, name, par, is_normalize_sy=True)
        t.check(abs(nrm*sy - phi) <= 1e-9*sy, 'condition:normalised',
                'normalised yield function differs', rep)
        if acc > old + 1e-9:
            t.count('yielding')
            t.check(abs(phi) < 1e-4*sy, 'condition:yielding',
                    f'yield function {phi} at a yielding stress', rep)
        else:
            t.check(phi < 1e-4*sy, 'condition:elastic',
                    f'yield function {phi} at an elastic stress', rep)
        state = new


# --------------------------------------------------------------------------
def convexity(item, t):
    _, paths, legend, arrows, box = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    b = torch.tensor([[0.0, 1.0], [1.0, 0.0], [0.5, -1.0]])
    given = {f'path {i}': torch.tensor(np.cos(np.arange(2*k) + i).reshape(
        k, 2)) for i, k in enumerate(paths)} if paths is not None else None
    with Figures() as figs:
        with quiet():
            LouZhangYoon.plot_convexity_boundary(
                b, parameters_paths=given, is_path_arrows=arrows,
                rect_search_domain=((-3.5, 2.5), (-1.5, 1.0)) if box
                else None, is_plot_legend=legend)
    if not t.check(len(figs.seen) == 1, 'convexity:figure', 'no figure',
                   rep):
        return
    found = lines(figs.seen[0])
    t.check(any(same(r, b.numpy()) for _, r in found), 'convexity:boundary',
            'boundary not shown', rep)
    for k, v in (given or {}).items():
        t.transition()
        t.check(any(a == k and same(r, v.numpy()) for a, r in found),
                'convexity:path', f'{k} not shown', rep)
    t.check(len(found) == 1 + len(given or {}), 'convexity:extra',
            f'{len(found)} curves', rep)
    got = [(p.get_x(), p.get_y(), p.get_width(), p.get_height())
           for p in figs.seen[0].axes[0].patches]
    t.check(len(got) == box and all(
        np.allclose(g, (-3.5, -1.5, 6.0, 2.5)) for g in got),
        'convexity:box', f'search domain {got}', rep)


# --------------------------------------------------------------------------
def items():
    out = []
    sizes = (1, 2, 3, 4) if THOROUGH else (1, 2)
    for n in sizes:
        for c in itertools.permutations(LAWS, n):
            for f in ((False, True), (True, False), (True, True),
                      (False, False)) if n == 1 else ((True, True),):
                out.append(('hard', c) + f)
    names = ('elastic', 'von_mises', 'von_mises_mixed', 'drucker_prager')
    for pt in (1, 4):
        for n in (1, 2):
            for c in itertools.product(names, repeat=n):
                if pt == 1 and 'von_mises_mixed' in c:
                    continue
                for w in ('standard', 'rotated'):
                    for r in (False, True):
                        out.append(('models', pt, c, w, r))
    for nd in (2, 3):
        for w in ('standard', 'reversed'):
            for n in (0, 1, 2, 3):
                for tr in (False, True):
                    out.append(('prediction', nd, w, n, tr))
    one = [('von_mises', None)] + [('drucker_prager', a) for a in
                                   ((5.0, 20.0) if THOROUGH else (10.0,))]
    one += [('lou_zhang_yoon', k) for k in
            (LOU if THOROUGH else ('lode', 'all', 'negative'))]
    for m in one:
        out.append(('surface', (m,), (500.0,), True, 'no'))
    two = list(itertools.permutations(one[:3], 2))
    for c in two:
        if len({x[0] for x in c}) == 2:
            out.append(('surface', c, (500.0, 300.0), True, 'only'))
    out.append(('surface', tuple(one[:2]), (300.0, 500.0), False, 'null'))
    loads = [x for x in itertools.product((-1.0, 0.0, 1.0), repeat=5)
             if any(x)]
    if not THOROUGH:
        loads = loads[::3]
    for name in ('von_mises', 'drucker_prager', 'lou_zhang_yoon'):
        for pt in (1, 4):
            if name == 'lou_zhang_yoon' and pt == 1:
                continue
            for x in loads:
                if pt == 1 and any(x[3:]):
                    continue
                for hk in LAWS[:3] if THOROUGH else ('linear',):
                    if name == 'drucker_prager' and hk != 'linear':
                        continue
                    out.append(('condition', name, pt, x, hk))
    for p in (None, (1,), (2,), (3, 1), (2, 2, 3)):
        for f in itertools.product((False, True), repeat=3):
            out.append(('convexity', p) + f)
    return out


def dispatch(item, t):
    dict(hard=hard, models=models, prediction=prediction, surface=surface,
         condition=condition, convexity=convexity)[item[0]](item, t)


def main(chk):
    chk.pmap(dispatch, sorted(items(), key=lambda x: x[0] != 'surface'))


chk.run('figures', main)
chk.finish()
