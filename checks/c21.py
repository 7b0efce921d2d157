"""C21: generated strain paths for every outcome of the random draws."""
import _path  # noqa
import itertools
import random
from mc.core import Check, THOROUGH, quiet
import numpy as np
from mc.choice import controlled, outcomes, Chooser  # noqa
from data_generation.strain_paths.random_path import \
    RandomStrainPathGenerator
from data_generation.strain_paths.proportional_path import \
    ProportionalStrainPathGenerator

chk = Check('C21')
ORD = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
BOUNDS = ((-1.0, 1.0), (-1.0, 10.0), (-8.0, 0.5), (0.0, 2.0), (-3.0, 0.0),
          (-0.02, 0.05))
ZERO = (0.0, 0.0)


def norms(path, order):
    """Tensor norm of every increment."""
    d = np.diff(path, axis=0)
    w = np.array([1.0 if c[0] == c[1] else 2.0 for c in order])
    return np.sqrt((d*d*w).sum(axis=1))


def judge(t, kind, res, n_dim, bounds, n_time, times, n_cycle, inc, noise,
          ident):
    order, hist, path = res
    t.trace()
    hist, path = np.asarray(hist), np.asarray(path)
    scale = max(max(abs(a), abs(b)) for a, b in bounds.values()) or 1.0

    def bad(key, msg):
        t.fail(f'{kind}:{key}', msg, ident)
    if tuple(order) != ORD[n_dim]:
        return bad('order', f'{order}')
    if path.shape != (n_time, len(order)) or hist.reshape(-1).shape != \
            (n_time,):
        return bad('shape', f'{path.shape} {hist.shape} for {n_time} steps')
    if not np.allclose(hist.reshape(-1), np.linspace(*times, n_time)):
        return bad('time', f'{hist}')
    if not np.all(np.isfinite(path)):
        return bad('finite', f'{path.tolist()}')
    loose = 2e-2 if ident.get('gp') else 1e-9
    if np.abs(path[0]).max() > loose*scale:
        return bad('start', f'starts at {path[0].tolist()}')
    if noise is None and inc is None:
        for j, c in enumerate(order):
            lo, hi = bounds[c]
            if path[:, j].min() < lo - 1e-9*scale or \
                    path[:, j].max() > hi + 1e-9*scale:
                return bad('bounds', f'component {c} in '
                           f'[{path[:, j].min()}, {path[:, j].max()}], bounds'
                           f' {lo}, {hi}')
    if inc is not None and noise is None:
        n = norms(path, order)
        if n.max(initial=0.0) > inc*(1 + 1e-6):
            return bad('increment', f'increment norm {n.max()} above {inc}')
        # every increment has the prescribed norm, unless there is nothing
        # to follow or the final state is being replicated
        move = n[n > 1e-12]
        if move.size and move.min() < inc*(1 - 1e-6):
            return bad('increment', f'increment norm {move.min()} below '
                       f'{inc}')
    if kind == 'proportional' and noise is None:
        k = int(np.argmax(np.abs(path).max(axis=1)))
        d = path[k]
        if np.abs(d).max() > 0:
            f = path @ d/(d @ d)
            if np.abs(path - f[:, None]*d).max() > 1e-8*np.abs(d).max():
                return bad('direction', 'path leaves its direction')
            if inc is None and n_cycle is None and \
                    np.diff(f).min(initial=0.0) < -1e-12:
                return bad('monotone', 'path is not monotonic')
            if inc is None and n_cycle is None and n_time > 2 and \
                    np.ptp(np.diff(f)) > 1e-9:
                return bad('uniform', 'increments are not uniform')
    if n_cycle:
        if np.abs(path[-1] - path[0]).max() > 1e-12*scale:
            return bad('return', f'ends at {path[-1].tolist()}')
        nf = (n_time - 1)//(2*n_cycle) + 1
        one = np.concatenate((path[:nf], path[nf - 2::-1]))
        for c in range(n_cycle):
            a = c*2*(nf - 1)
            if not np.allclose(path[a:a + 2*nf - 1], one, rtol=0,
                               atol=1e-12*scale):
                return bad('cycle', f'cycle {c} is not the reversed forward '
                           'path')
        if np.abs(path[n_cycle*2*(nf - 1):] - path[0]).max() > 1e-12*scale:
            return bad('replicated', 'remaining steps not at the initial '
                       'state')
    t.state((kind, n_dim, np.round(path, 10).tobytes()))


def generator(kind, n_dim):
    return (RandomStrainPathGenerator if kind == 'random' else
            ProportionalStrainPathGenerator)('infinitesimal', n_dim)


def explore(item, t):
    kind, n_dim, active, ctrl, n_time, n_cycle, inc, noise, limit = item
    order = ORD[n_dim]
    bounds = {c: ZERO for c in order}
    bounds.update(active)
    times = (0.0, 1.0) if n_time % 2 else (0.5, 3.0)
    g = generator(kind, n_dim)
    kw = dict(strain_bounds=dict(bounds), n_time=n_time, time_init=times[0],
              time_end=times[1], inc_strain_norm=inc, strain_noise_std=noise,
              n_cycle=n_cycle)
    if kind == 'random':
        kw['n_control'] = ctrl
    unit = (0.0, 0.3, 0.65, 1.0) if THOROUGH else (0.0, 0.3, 1.0)
    for choices, res in outcomes(lambda: g.generate_strain_path(**kw),
                                 limit=limit, unit=unit):
        t.transition()
        judge(t, kind, res, n_dim, bounds, n_time, times, n_cycle, inc,
              noise, dict(kind=kind, dim=n_dim, bounds=bounds, n_control=ctrl,
                          n_time=n_time, n_cycle=n_cycle, inc=inc,
                          noise=noise, choices=choices))
        if t.fails:
            return


def gaussian(item, t):
    """Gaussian process paths (interpolate control points up to noise)."""
    n_dim, comp, b, ctrl, n_time, n_cycle, first = item
    bounds = {c: ZERO for c in ORD[n_dim]}
    bounds[comp] = b
    g = generator('random', n_dim)
    for choices, res in outcomes(lambda: g.generate_strain_path(
            n_control=ctrl, strain_bounds=dict(bounds), n_time=n_time,
            n_cycle=n_cycle, generative_type='gaussian_process'),
            unit=(0.0, 0.3, 1.0)):
        t.transition()
        judge(t, 'random', res, n_dim, bounds, n_time, (0.0, 1.0), n_cycle,
              None, None, dict(gp=True, dim=n_dim, bounds=bounds,
                               n_control=ctrl, n_time=n_time,
                               n_cycle=n_cycle, choices=choices))


def seeds(item, t):
    kind, n_dim, seed, kw = item
    g = generator(kind, n_dim)
    kw = dict(kw)
    bounds = {c: BOUNDS[i % len(BOUNDS)] for i, c in enumerate(ORD[n_dim])}
    kw.update(strain_bounds=bounds, random_seed=seed)
    if kind == 'random':
        kw.setdefault('n_control', (2, 5))
    res = []
    for k in range(2):
        # whatever was drawn before
        random.seed(100 + k)
        np.random.seed(200 + k)
        np.random.rand(k*3)
        b0 = dict(bounds)
        res.append(g.generate_strain_path(**kw))
        t.transition()
        if bounds != b0:
            t.fail(f'{kind}:input', 'bounds modified', dict(item=item))
        judge(t, kind, res[-1], n_dim, bounds, kw['n_time'], (0.0, 1.0),
              kw.get('n_cycle'), kw.get('inc_strain_norm'),
              kw.get('strain_noise_std'), dict(item=item))
    if not np.array_equal(res[0][2], res[1][2]):
        t.fail(f'{kind}:seed', 'same seed, different path', dict(item=item))


def rejected(chk):
    for kind in ('random', 'proportional'):
        for n_dim in (2, 3):
            g = generator(kind, n_dim)
            ok = {c: (-1.0, 1.0) for c in ORD[n_dim]}
            base = dict(strain_bounds=ok, n_time=5)
            if kind == 'random':
                base['n_control'] = 3
            missing = {k: v for k, v in ok.items() if k != '12'}
            for kw in (dict(strain_bounds=missing),
                       dict(strain_bounds=dict(ok, **{'44': (0.0, 1.0)})),
                       dict(strain_bounds=dict(ok, **{'12': (1.0, -1.0)})),
                       dict(n_cycle=3), dict(inc_strain_norm=-1.0),
                       dict(strain_noise_std=-1.0)):
                chk.transition()
                try:
                    g.generate_strain_path(**dict(base, **kw))
                    chk.fail(f'{kind}:accepted', f'accepted {kw}', kw)
                except RuntimeError:
                    pass


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    rejected(chk)
    items = []
    for n_dim in (2, 3):
        for k, b in enumerate(BOUNDS):
            c1 = ORD[n_dim][k % len(ORD[n_dim])]
            for n_time in (1, 2, 4, 7):
                for ctrl in (1, 2, 3, 4, (1, 3), (4, 5)):
                    if n_time == 1 and ctrl != 3:
                        continue
                    items.append(('explore', 'random', n_dim, ((c1, b),),
                                  ctrl, n_time, None, None, None, None))
            for n_time, n_cycle in ((3, 1), (5, 2), (6, 1), (8, 2), (9, 1),
                                    (11, 3), (14, 2)):
                items.append(('explore', 'random', n_dim, ((c1, b),), 3,
                              n_time, n_cycle, None, None, None))
                items.append(('explore', 'random', n_dim, ((c1, b),), 3,
                              n_time, n_cycle, 0.01, None, None))
        for b1, b2 in itertools.product(BOUNDS[:4], repeat=2):
            act = (('11', b1), ('12', b2))
            for n_time, n_cycle, inc in itertools.product(
                    (2, 5, 8), (None, 1), (None, 0.05, 2.0)):
                if n_cycle and n_time < 3:
                    continue
                items.append(('explore', 'proportional', n_dim, act, None,
                              n_time, n_cycle, inc, None, None))
                items.append(('explore', 'random', n_dim, act, 3, n_time,
                              n_cycle, inc, None, None))
        every = tuple((c, BOUNDS[i % 6]) for i, c in enumerate(ORD[n_dim]))
        for inc, n_cycle, noise in itertools.product(
                (None, 0.03, 0.7), (None, 1, 2), (None, 0.1)):
            items.append(('explore', 'proportional', n_dim, every, None, 9,
                          n_cycle, inc, noise, 6))
            items.append(('explore', 'random', n_dim, every, (3, 4), 9,
                          n_cycle, inc, noise, 8 if THOROUGH else 6))
        # no component moves
        items.append(('explore', 'proportional', n_dim, (), None, 5, None,
                      0.1, None, None))
        items.append(('explore', 'random', n_dim, (), 3, 5, 1, 0.1, None,
                      None))
        for seed in range(40 if THOROUGH else 10):
            for kw in (dict(n_time=6), dict(n_time=9, n_cycle=2),
                       dict(n_time=7, inc_strain_norm=0.02),
                       dict(n_time=7, strain_noise_std=0.1)):
                for kind in ('random', 'proportional'):
                    items.append(('seeds', kind, n_dim, seed, kw))
    for k, b in enumerate(BOUNDS[:6 if THOROUGH else 3]):
        for ctrl in (2, 3) if THOROUGH else (2 + k % 2,):
            items.append(('gaussian', 2 + k % 2, '11' if k % 2 else '12', b,
                          ctrl, 6, None if k % 2 else 1, 0))
    items.sort(key=lambda i: i[0] != 'gaussian')
    chk.pmap(dispatch, items)


with quiet():
    chk.run('paths', main)
chk.finish()
