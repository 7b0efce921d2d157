"""C16: recurrent constitutive model against step-by-step updates."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from mc.increments import LETTERS
from mc.recurrent import ORDER, Oracle, batch_of, bounds_of, build

chk = Check('C16')
# values of the learnable parameters, different from the material ones
LEARN = {
    'none': {},
    'elastic': {'E': 90e3, 'v': 0.25},
    'von_mises': {'E': 90e3, 'v': 0.25, 's0': 420.0, 'a': 650.0, 'b': 0.45},
    'von_mises_mixed': {'E': 90e3, 'v': 0.25, 's0': 420.0, 'a': 650.0,
                        'b': 0.45, 'kin_s0': 0.0, 'kin_a': 700.0},
    'drucker_prager': {'E': 90e3, 'v': 0.25, 's0': 420.0, 'a': 650.0,
                       'b': 0.45, 'yield_cohesion_parameter': 1.1,
                       'yield_pressure_parameter': 0.4,
                       'flow_pressure_parameter': 0.3},
    'drucker_prager:friction': {'friction_angle': 0.2, 's0': 420.0},
    'lou_zhang_yoon': {'E': 90e3, 'v': 0.25, 's0': 420.0, 'a': 650.0,
                       'b': 0.45, 'yield_a_s0': 1.05, 'yield_b_s0': 0.03,
                       'yield_c_s0': 0.8, 'yield_d_s0': 0.4},
}
FEATS = ('acc_p_strain', 'e_strain_mf', 'strain_mf')


def close(got, want, n, tol, base):
    """Stress columns and feature columns against the reference."""
    if got.shape != want.shape:
        return f'shape {got.shape} expected {want.shape}'
    bad = np.abs(got - want)
    lim = np.full(got.shape, 0.05*tol)
    lim[..., :n] = 500.0*tol + tol*np.abs(want[..., :n])
    i = np.argwhere(~(bad <= lim))
    if i.size:
        i = tuple(i[0])
        return f'{got[i]} expected {want[i]} at {[int(x) for x in i]}'
    return None


def explore(item, t):
    name, pt, key, feats, norm, letters, depth = item[:7]
    mat = dict(item[7]) if len(item) > 7 else {}
    torch.set_default_dtype(torch.float64)
    base = name.replace('_vmap', '')
    values = LEARN[key]
    n = len(ORDER[pt])
    ref = Oracle(base, pt, values, **mat)
    tol = 4e-6 if name.endswith('_vmap') else 1e-9
    with Scratch() as d:
        m = build(name, pt, values, d, feats, norm, **mat)
        ident = dict(model=name, problem_type=pt, learn=values, material=mat,
                     features=feats, normalized=norm)

        def evaluate(x, how):
            x0 = x.clone()
            y = m(x)
            if not torch.equal(x, x0):
                t.fail(f'{base}:input', 'strain paths modified', ident)
            t.trace(1 if x.dim() == 2 else x.shape[1])
            return y.detach().numpy()

        def compare(ws, y, how):
            for b, w in enumerate(ws):
                t.transition(len(w))
                msg = close(y[:, b], ref.path(w, feats), n, tol, base)
                if msg:
                    t.fail(f'{base}:{how}', f'{name} {how}: path {w}: {msg}',
                           dict(ident, word=w, batch=len(ws)))
                    return False
            return True

        ws = [w for w in itertools.product(letters, repeat=depth)
              if ref.ok(w)]
        for w in ws:
            t.state((name, pt, key, w))
        # all paths of full length in one batch, both orders
        full = evaluate(batch_of(ws, pt), 'batch')
        compare(ws, full, 'batch')
        compare(ws[::-1], evaluate(batch_of(ws[::-1], pt), 'reversed'),
                'reversed batch')
        # shorter paths: what came earlier does not depend on the rest
        for k in range(0, depth):
            short = sorted({w[:k] for w in ws})
            compare(short, evaluate(batch_of(short, pt), 'prefix'), 'prefix')
        # paths that start at a nonzero strain
        few = ws[::max(1, len(ws)//9)]
        compare(few, evaluate(batch_of(few, pt, 0.02), 'offset'), 'offset')
        # alone: unbatched and batch of one
        alone = list(ws if not name.endswith('_vmap') and depth < 3
                     or THOROUGH else few)
        for w in [ws[0][:k] for k in range(depth)] + alone:
            y = evaluate(batch_of([w], pt)[:, 0], 'unbatched')
            if y.ndim != 2:
                t.fail(f'{base}:unbatched-shape', f'shape {y.shape}', ident)
                break
            if not compare([w], y[:, None], 'unbatched'):
                break
            compare([w], evaluate(batch_of([w], pt), 'single'), 'single')
        # every pair of some paths, with repetitions
        for a, b in itertools.product(few[:5], repeat=2):
            compare([a, b], evaluate(batch_of([a, b], pt), 'pair'), 'pair')


def resync(item, t):
    """Parameter updates between evaluations."""
    name, pt, key, norm, auto = item
    torch.set_default_dtype(torch.float64)
    base = name.replace('_vmap', '')
    values = dict(LEARN[key])
    n = len(ORDER[pt])
    tol = 4e-6 if name.endswith('_vmap') else 1e-9
    ws = [('G', 'H'), ('U', 'S')]
    x = batch_of(ws, pt)

    def expect(vals):
        r = Oracle(base, pt, vals)
        if not all(r.ok(w) for w in ws):
            return None
        return np.array([r.path(w, ()) for w in ws]).transpose(1, 0, 2)
    with Scratch() as d:
        m = build(name, pt, values, d, (), norm, auto)
        current = dict(values) if auto else {}
        for k, f, sync in itertools.product(sorted(values), (1.2, 0.9),
                                            (True, False)):
            values[k] = LEARN[key][k]*f
            raw = values[k]
            if norm:
                lo, hi = bounds_of(LEARN[key][k])
                raw = -1.0 + 2.0*(raw - lo)/(hi - lo)
            with torch.no_grad():
                m.get_model_parameters()[k].fill_(raw)
            if sync:
                m.sync_material_model_parameters()
            if auto or sync:
                current = dict(values)
            want = expect(current)
            if want is None:
                continue
            got = m(x).detach().numpy()
            t.transition()
            t.trace(2)
            t.state((name, pt, norm, auto, tuple(sorted(current.items()))))
            msg = close(got, want, n, max(tol, 1e-8), base)
            if msg:
                t.fail(f'{base}:parameters', f'after setting {k}: {msg}',
                       dict(model=name, problem_type=pt, values=values,
                            normalized=norm, auto_sync=auto, synced=sync))
                return


def gradients(item, t):
    """Parameter gradients of every stress component."""
    name, pt, key, norm, ws = item
    torch.set_default_dtype(torch.float64)
    base = name.replace('_vmap', '')
    values = LEARN[key]
    n = len(ORDER[pt])
    with Scratch() as d:
        m = build(name, pt, values, d, (), norm)
        x = batch_of(ws, pt)
        wgt = torch.tensor(np.cos(np.arange(x.numel())*1.7)).reshape(x.shape)
        for k in range(len(ws)):
            m.zero_grad()
            y = m(x)
            (y*wgt)[:, k].sum().backward()
            t.transition()
            for p, v in m.get_model_parameters().items():
                g = float(v.grad) if v.grad is not None else 0.0
                h = 1e-5*max(abs(values[p]), 0.1)
                s = []
                for sg in (1, -1):
                    vals = dict(values)
                    vals[p] += sg*h
                    r = Oracle(base, pt, vals)
                    if not r.ok(ws[k]):
                        break
                    s.append(float((r.path(ws[k], ())
                                    * wgt[:, k].numpy()).sum()))
                if len(s) < 2:
                    continue
                want = (s[0] - s[1])/(2*h)
                if norm:
                    lo, hi = bounds_of(values[p])
                    want *= (hi - lo)/2
                t.trace()
                t.state((name, pt, p, ws[k], norm))
                scale = 3000.0/max(abs(values[p]), 0.1)
                if norm:
                    scale *= (hi - lo)/2
                if not abs(g - want) <= 2e-3*abs(want) + 1e-3*scale:
                    t.fail(f'{base}:gradient', f'gradient of {p} is {g} '
                           f'expected {want}',
                           dict(model=name, problem_type=pt, word=ws[k],
                                parameter=p, normalized=norm))


def failures(item, t):
    """A path on which the update fails."""
    name, pt = item
    torch.set_default_dtype(torch.float64)
    base = name.replace('_vmap', '')
    values = {}
    ref = Oracle(base, pt, values)
    n = len(ORDER[pt])
    # no update converges from an undefined strain
    LETTERS['N'] = np.full((3, 3), np.nan)
    bad = [w for w in itertools.product('NGU', repeat=2) if not ref.ok(w)]
    good = [w for w in itertools.product('GHU', repeat=2) if ref.ok(w)][:4]
    tol = 4e-6 if name.endswith('_vmap') else 1e-9
    for w, check in itertools.product(bad, (True, False)):
        with Scratch() as d:
            m = build(name, pt, values, d, (), False, True, check)
            t.transition()
            t.state((name, pt, w, check))
            t.count('failing_paths')
            ident = dict(model=name, problem_type=pt, word=w, check=check)
            try:
                y = m(batch_of([good[0], w, good[1]], pt)).detach().numpy()
            except RuntimeError:
                if not check:
                    t.fail(f'{base}:raised', 'failure raised', ident)
                continue
            t.trace(3)
            if check and not name.endswith('_vmap'):
                t.fail(f'{base}:not-raised', 'failed update not reported',
                       ident)
                continue
            k = next(i for i in range(1, 3) if not ref.ok(w[:i]))
            if not np.isnan(y[k:, 1]).all():
                t.fail(f'{base}:not-nan', f'failed update returns {y[k:, 1]}',
                       ident)
            want = [ref.path(g, ()) for g in good[:2]]
            for j, g in ((0, 0), (2, 1)):
                msg = close(y[:, j], want[g], n, tol, base)
                if msg:
                    t.fail(f'{base}:failed-neighbour', msg, ident)


def single(item, t):
    """Default (single) precision."""
    name, pt = item
    base = name.replace('_vmap', '')
    ws = list(itertools.product('UGH', repeat=2))
    torch.set_default_dtype(torch.float64)
    ref = Oracle(base, pt, {})
    ws = [w for w in ws if ref.ok(w)]
    n = len(ORDER[pt])
    torch.set_default_dtype(torch.float32)
    try:
        with Scratch() as d:
            m = build(name, pt, {}, d, ())
            y = m(batch_of(ws, pt).to(torch.float32)).detach()
            if y.dtype != torch.float32 or \
                    torch.get_default_dtype() != torch.float32:
                t.fail(f'{base}:dtype', f'{y.dtype}', dict(model=name))
            y = y.to(torch.float64).numpy()
            torch.set_default_dtype(torch.float64)
            for b, w in enumerate(ws):
                t.trace()
                t.transition(len(w))
                msg = close(y[:, b], ref.path(w, ()), n, 2e-3, base)
                if msg:
                    t.fail(f'{base}:single', f'path {w}: {msg}',
                           dict(model=name, problem_type=pt, word=w))
    finally:
        torch.set_default_dtype(torch.float64)


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    bases = ('von_mises', 'von_mises_mixed', 'drucker_prager',
             'lou_zhang_yoon')
    items = []
    for pt in (1, 4):
        for b in bases:
            for nm in (b, b + '_vmap'):
                lou = b == 'lou_zhang_yoon'
                dep = (2 if lou else 3) + (1 if THOROUGH and not (
                    lou or pt == 4) else 0)
                let = 'UGHSZ' if pt == 1 else 'UGHQ'
                if lou:
                    let = 'UGS' if pt == 1 else 'UQ'
                items.append(('explore', nm, pt, b, FEATS if pt == 1 else (),
                              pt == 4, let, dep))
                if not lou:
                    items.append(('explore', nm, pt, b,
                                  FEATS[:2] if pt == 4 else (),
                                  pt == 1, 'GHu', 2))
                if not (lou and pt == 4):
                    for norm, auto in itertools.product((False, True),
                                                        repeat=2):
                        if (lou or pt == 4) and norm == auto:
                            continue
                        items.append(('resync', nm, pt, b, norm, auto))
                for norm in ((False, True) if pt == 1 else (False,)):
                    if lou and (pt == 4 or norm):
                        continue
                    items.append(('gradients', nm, pt, b, norm,
                                  [('G', 'U'), ('u', 'S')]
                                  + ([('H', 'H')] if b == 'drucker_prager'
                                     else [])))
                if not (lou and pt == 4):
                    items.append(('failures', nm, pt))
                items.append(('single', nm, pt))
        for v in ('', '_vmap'):
            for b, mat in (('von_mises', {'hard': 'piecewise_linear'}),
                           ('von_mises', {'hard': 'linear', 'v': 0.2}),
                           ('von_mises_mixed', {'kin': 'nadai_ludwik'}),
                           ('drucker_prager', {'hard': 'piecewise_linear',
                                               'friction': 20.0})):
                items.append(('explore', b + v, pt, 'none', (), False, 'UGHS',
                              2, tuple(mat.items())))
        items.append(('explore', 'elastic', pt, 'elastic',
                      FEATS[1:], False, 'UGHSZ', 3))
        items.append(('resync', 'elastic', pt, 'elastic', True, True))
        items.append(('gradients', 'elastic', pt, 'elastic', True,
                      [('G', 'U')]))
        for nm in ('drucker_prager', 'drucker_prager_vmap'):
            items.append(('explore', nm, pt, 'drucker_prager:friction', (),
                          True, 'GHu', 2))
            items.append(('gradients', nm, pt, 'drucker_prager:friction',
                          False, [('G', 'U'), ('H', 'H')]))
    items.sort(key=lambda i: ('lou' not in i[1], i[0] != 'explore'))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('paths', main)
chk.finish()
