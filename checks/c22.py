"""C22: noise generators for every outcome of the draws; denoisers."""
import _path  # noqa
import itertools
import os
import random
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from mc.choice import outcomes
from data_generation.strain_paths.noise_generator import NoiseGenerator
from miscellaneous.noisy_data import (
    denoise_disp_noise_csv as dedisp, inject_disp_noise_csv as inject)
from utilities.data_denoisers import Denoiser

chk = Check('C22')
UNIT = (0.0, 0.35, 1.0)
NORM = (-2.0, 0.0, 0.5)


def make(dist, par):
    g = NoiseGenerator()
    g.set_noise_distribution(dist)
    g.set_noise_parameters(dict(par))
    return g


def expected(dist, par, weight):
    """Possible values of one entry of the noise (weight: of its step)."""
    if dist == 'uniform':
        a = abs(par['amp'])
        base = [a*(q - 0.5) for q in UNIT]
    else:
        base = [par['std']*z for z in NORM]
    vals = set(base) if weight is None else {
        x + weight*y for x in base for y in base}
    if dist == 'spiked_gaussian':
        p, s = par['p_spike'], par['spike']
        ks = (0,) if p == 0 else (1,) if p == 1 else (0, 1)
        vals = {v + k*s for v in vals for k in ks}
    return vals


def close_sets(a, b):
    """Same set of values up to round-off."""
    a, b = sorted(a), sorted(b)

    def inside(x, y):
        y = np.array(y)
        return all(np.abs(y - v).min() < 1e-9*(1 + abs(v)) for v in x)
    return inside(a, b) and inside(b, a)


def noise(item, t):
    dist, par, shape, weights = item
    par = dict(par)
    g = make(dist, par)
    base = np.arange(np.prod(shape), dtype=float).reshape(shape)
    kw = {}
    ws = [None]*shape[0]
    if weights is not None:
        kw['noise_variability'] = 'heteroscedastic'
        ws = [1.0]*shape[0]
        if weights != 'default':
            ws = list(weights)
            kw['heteroscedastic_weights'] = np.array(weights)
    seen = set()
    for choices, res in outcomes(
            lambda: g.generate_noise_path(base.copy(), **kw), unit=UNIT,
            normal=NORM):
        t.transition()
        t.trace()
        ident = dict(distribution=dist, par=par, shape=shape, weights=weights,
                     choices=choices)
        if np.shape(res) != shape:
            t.fail('noise:shape', f'{np.shape(res)} for {shape}', ident)
            return
        seen.add(tuple(np.round(np.asarray(res).reshape(-1), 12).tolist()))
    t.state((dist, str(par), shape, str(weights)))
    # support and scale of every entry, entries independent of each other
    n = 1
    for k, (i, j) in enumerate(np.ndindex(*shape)):
        want = expected(dist, par, ws[i])
        got = {v[k] for v in seen}
        if not close_sets(got, want):
            t.fail(f'noise:{dist}', f'entry {i},{j} takes {sorted(got)[:6]} '
                   f'expected {sorted(want)[:6]}',
                   dict(distribution=dist, par=par, shape=shape,
                        weights=weights))
            return
        n *= len(got)
    if len(seen) != n:
        t.fail('noise:independent', f'{len(seen)} outcomes of {n}: entries '
               'are not independent',
               dict(distribution=dist, par=par, shape=shape, weights=weights))


def reproducible(chk):
    for dist, par in (('uniform', {'amp': 0.4}), ('gaussian', {'std': 0.2}),
                      ('spiked_gaussian', {'std': 0.1, 'spike': 3.0,
                                           'p_spike': 0.3})):
        for shape, het, seed in itertools.product(
                ((5, 3), (1, 1), (7, 6)), (False, True), range(5)):
            kw = dict(noise_variability='heteroscedastic',
                      heteroscedastic_weights=np.linspace(0, 2, shape[0])) \
                if het else {}
            res = []
            path = np.ones(shape)
            for _ in range(2):
                np.random.seed(seed)
                random.seed(seed)
                res.append(make(dist, par).generate_noise_path(path, **kw))
                chk.transition()
            if not np.array_equal(*res) or res[0].shape != shape:
                chk.fail('noise:seed', f'{dist} differs for the same seed',
                         dict(distribution=dist, seed=seed))
            if not np.all(path == 1.0):
                chk.fail('noise:input', 'path modified', {})
    for f in (lambda: NoiseGenerator().set_noise_distribution('poisson'),
              lambda: NoiseGenerator.get_required_parameters('poisson'),
              lambda: make('uniform', {'std': 1.0}),
              lambda: make('gaussian', {'amp': 1.0}),
              lambda: make('spiked_gaussian', {'std': 1.0, 'spike': 1.0})):
        chk.transition()
        try:
            f()
            chk.fail('noise:accepted', 'invalid configuration accepted', {})
        except RuntimeError:
            pass


# --- denoisers -----------------------------------------------------------

def average(x, w):
    n = len(x)
    out = []
    for t in range(n):
        idx = [min(max(k, 0), n - 1)
               for k in range(t - w//2, t - w//2 + w)]
        out.append(np.mean([x[k] for k in idx], axis=0))
    return np.array(out)


def golay(x, w, p):
    """Least-squares polynomial over the window, at its centre."""
    n = len(x)
    k = np.arange(w) - w//2
    V = np.vander(k, p + 1, increasing=True).astype(float)
    c = np.linalg.pinv(V)[0]
    out = []
    for t in range(n):
        idx = [min(max(t + j, 0), n - 1) for j in k]
        out.append(sum(cj*x[i] for cj, i in zip(c, idx)))
    return np.array(out)


def lowpass(x, fc):
    """Sum of the harmonics of frequency up to the cutoff."""
    n = len(x)
    ts = np.arange(n)
    out = np.zeros_like(x)
    for m in range(n):
        f = min(m, n - m)/n
        if f > fc + 1e-12:
            continue
        a = (x*np.exp(-2j*np.pi*m*ts/n)[:, None]).sum(axis=0)/n
        out = out + (a[None]*np.exp(2j*np.pi*m*ts/n)[:, None]).real
    return out


FUN = {'moving_average': average, 'savitzky_golay': golay,
       'frequency_low_pass': lowpass}


def denoise(item, t):
    method, args, T, n_feat, cycles, dtype, full = item
    keys = {'moving_average': ('window_size',),
            'savitzky_golay': ('window_size', 'poly_order'),
            'frequency_low_pass': ('cutoff_frequency',)}[method]
    dn = Denoiser()
    tol = 1e-10 if dtype == 'float64' else 2e-4
    dt = getattr(torch, dtype)
    if full:
        # every signal over the alphabet (linear maps: sums of deltas too)
        sigs = itertools.product((-1.0, 0.0, 2.0), repeat=T)
    else:
        sigs = [tuple(1.5 if i == k else 0.0 for i in range(T))
                for k in range(T)]
        sigs += [tuple([0.7]*T), tuple(float(i) for i in range(T)),
                 tuple((-1.0)**i for i in range(T))]
    for s in sigs:
        x = np.zeros((T, n_feat))
        for j in range(n_feat):
            x[:, j] = np.roll(s, j)*(1 + 0.5*j)
        X = torch.tensor(x, dtype=dt)
        X0 = X.clone()
        y = dn.denoise(X, method, dict(zip(keys, args)),
                       n_denoise_cycle=cycles)
        t.transition()
        t.trace()
        ident = dict(method=method, parameters=args, signal=s, cycles=cycles,
                     n_features=n_feat, dtype=dtype)
        want = x
        for _ in range(cycles):
            want = FUN[method](want, *args)
        if not torch.equal(X, X0):
            t.fail(f'{method}:input', 'input modified', ident)
            return
        if y.shape != X.shape or y.dtype != X.dtype:
            t.fail(f'{method}:shape', f'{y.shape} {y.dtype}', ident)
            return
        if not np.allclose(y.numpy(), want, rtol=0, atol=tol):
            t.fail(f'{method}:value', f'{y.tolist()} expected '
                   f'{want.tolist()}', ident)
            return
        t.state((method, args, cycles, s, n_feat))


def invariants(chk):
    """Constant and polynomial signals."""
    torch.set_default_dtype(torch.float32)
    dn = Denoiser()
    for T in range(1, 13):
        c = torch.full((T, 2), 1.7, dtype=torch.float64)
        for m, kw in [('moving_average', dict(window_size=w))
                      for w in range(1, 8)] + \
                [('savitzky_golay', dict(window_size=w, poly_order=p))
                 for w in (1, 3, 5, 7) for p in range(w)] + \
                [('frequency_low_pass', dict(cutoff_frequency=f))
                 for f in (0.0, 0.1, 0.5)]:
            chk.transition()
            if not torch.allclose(dn.denoise(c, m, kw), c, rtol=0,
                                  atol=1e-9):
                chk.fail(f'{m}:constant', f'constant changed {kw} {T}', kw)
        for w, p in ((3, 1), (3, 2), (5, 2), (5, 3), (7, 4)):
            if T < w:
                continue
            for d in range(p + 1):
                x = torch.arange(T, dtype=torch.float64).reshape(-1, 1)**d
                y = dn.denoise(x, 'savitzky_golay',
                               dict(window_size=w, poly_order=p))
                chk.transition()
                i, j = w//2, T - w//2
                if not torch.allclose(y[i:j], x[i:j], rtol=1e-8, atol=1e-8):
                    chk.fail('savitzky_golay:polynomial',
                             f'degree {d} polynomial changed', dict(
                                 window=w, order=p))
    for bad in (np.zeros((3, 2)), torch.zeros(3), torch.zeros(2, 2, 2)):
        try:
            dn.denoise(bad, 'moving_average', dict(window_size=3))
            chk.fail('denoise:accepted', f'accepted {type(bad)}', {})
        except RuntimeError:
            pass
    try:
        dn.denoise(torch.zeros(3, 1), 'median')
        chk.fail('denoise:accepted', 'accepted unknown method', {})
    except RuntimeError:
        pass


COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
        'DBC1', 'DBC2', 'DBC3']


def write_steps(d, steps, n, ncol):
    """Time step files of a specimen; returns all the values."""
    data = {}
    for k, step in enumerate(steps):
        rows = 0.37*np.cos(1.3*np.arange(n*ncol) + 7*k).reshape(n, ncol)
        rows[:, 0] = np.arange(1, n + 1)
        rows[:, 10:] = np.arange(n*(ncol - 10)).reshape(n, -1) % 2
        if k == 0:
            rows[:, 4:10] = 0.0
        data[step] = rows
        with open(os.path.join(d, f's_1_tstep_{step}.csv'), 'w') as f:
            f.write(','.join(COLS[:ncol]) + '\n')
            for r in rows:
                f.write(','.join(repr(float(v)) for v in r) + '\n')
    for name in ('notes.txt', 's_tstep_x.csv', 's_tstep_1.csv.bak'):
        open(os.path.join(d, name), 'w').write('other')
    return data


def read_steps(d):
    out = {}
    for f in os.listdir(d):
        if os.path.isfile(os.path.join(d, f)):
            rows = open(os.path.join(d, f)).read().split('\n')
            out[f] = (rows[0].split(','), np.array(
                [[float(v) for v in r.split(',')] for r in rows[1:] if r]))
    return out


def files(item, t):
    """Noise and denoising of the displacements in specimen files."""
    mode, steps, n, ncol, par, again = item
    torch.set_default_dtype(torch.float64)
    t.trace()
    t.state(item)
    rep = dict(item=[str(x) for x in item])
    with Scratch() as d:
        data = write_steps(d, steps, n, ncol)
        raw = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
        if again:
            # results of an earlier run
            os.makedirs(os.path.join(d, 'out'))
            for f in (f's_1_tstep_{steps[0]}.csv', 's_1_tstep_99.csv'):
                open(os.path.join(d, 'out', f), 'w').write('stale')
        with quiet():
            if mode == 'noise':
                np.random.seed(3)
                inject.inject_displacements_noise(
                    d, dict(distribution='uniform', amp=par, dirname='out'))
            else:
                method, dp, cyc = par
                dedisp.denoise_displacements_noise(d, dict(
                    denoise_method=method, denoiser_parameters=dict(dp),
                    n_denoise_cycle=cyc, denoise_dirname='out'))
        t.transition(len(steps)*n)
        t.check({f: open(os.path.join(d, f)).read() for f in raw} == raw and
                set(os.listdir(d)) == set(raw) | {'out'}, 'files:source',
                f'{item}: source files modified', rep)
        got = read_steps(os.path.join(d, 'out'))
        if not t.check(set(got) == {f's_1_tstep_{k}.csv' for k in steps} and
                       all(h == COLS[:ncol] and x.shape == (n, ncol)
                           for h, x in got.values()), 'files:set',
                       f'{item}: {sorted(got)}', rep):
            return
        new = [got[f's_1_tstep_{k}.csv'][1] for k in steps]
        old = [data[k] for k in steps]
        keep = [0, 1, 2, 3, *range(7, ncol)]
        t.check(all(np.allclose(a[:, keep], b[:, keep], rtol=1e-12, atol=0)
                    for a, b in zip(new, old)), 'files:other',
                f'{item}: other columns than the displacements differ', rep)
        t.check(np.array_equal(new[0][:, 4:7], old[0][:, 4:7]),
                'files:initial', f'{item}: initial displacements '
                f'{new[0][:, 4:7].tolist()}', rep)
        if mode == 'noise':
            diff = np.array([a[:, 4:7] - b[:, 4:7]
                             for a, b in zip(new[1:], old[1:])])
            if not diff.size:
                return
            t.check(np.abs(diff).max() <= 0.5*abs(par)*(1 + 1e-9) + 1e-12,
                    'files:support', f'{item}: noise {np.abs(diff).max()}',
                    rep)
            if par:
                t.check(np.abs(diff).min() > 0 and len(np.unique(
                    diff.round(14))) == diff.size, 'files:noise',
                    f'{item}: some displacements have no noise of their own',
                    rep)
        else:
            for i in range(n):
                u = np.array([b[i, 4:7] for b in old])
                w = u
                for _ in range(cyc):
                    w = (average if method == 'moving_average' else golay)(
                        w, *dict(dp).values())
                w = np.array(w)
                w[0] = 0.0
                g = np.array([a[i, 4:7] for a in new])
                t.check(np.allclose(g, w, rtol=1e-10, atol=1e-12),
                        'files:denoised', f'{item}: node {i + 1}: '
                        f'{g.tolist()[:3]}, expected {w.tolist()[:3]}', rep)


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    reproducible(chk)
    invariants(chk)
    items = []
    shapes = ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)) if THOROUGH else (
        (1, 1), (2, 1), (1, 3), (2, 2))
    for shape in shapes:
        n = shape[0]*shape[1]
        pars = [('uniform', (('amp', a),)) for a in (0.4, -2.0, 0.0)]
        pars += [('gaussian', (('std', a),)) for a in (0.3, 0.0)]
        pars += [('spiked_gaussian', (('std', a), ('spike', s),
                                      ('p_spike', p)))
                 for a, s, p in ((0.3, 5.0, 0.5), (0.0, -1.5, 0.5),
                                 (0.3, 5.0, 0), (0.3, 5.0, 1))]
        for d, p in pars:
            if n > 4 and d == 'spiked_gaussian':
                continue
            items.append(('noise', d, p, shape, None))
            if n <= (4 if THOROUGH and d != 'spiked_gaussian' else 3):
                w = tuple([0.0, 0.5, 2.0][:shape[0]])
                if n < 3 or d != 'spiked_gaussian':
                    items.append(('noise', d, p, shape, w))
                    items.append(('noise', d, p, shape, 'default'))
                    if shape[0] > 1:
                        items.append(('noise', d, p, shape, w[::-1]))
    T5 = (1, 2, 3, 5, 6) if not THOROUGH else (1, 2, 3, 4, 5, 6, 7)
    for T, nf, cyc in itertools.product(T5, (1, 3), (0, 1, 2, 3)):
        for dt in ('float64', 'float32'):
            full = dt == 'float64' and cyc < 3
            for w in (1, 2, 3, 4, 5, 9):
                items.append(('denoise', 'moving_average', (w,), T, nf, cyc,
                              dt, full and w < 6))
            for w, p in ((1, 0), (3, 0), (3, 1), (3, 2), (5, 2), (5, 3),
                         (7, 2)):
                items.append(('denoise', 'savitzky_golay', (w, p), T, nf,
                              cyc, dt, full and w in (3, 5) and p > 0))
            for f in (0.0, 0.13, 0.22, 0.3, 0.42, 0.5):
                items.append(('denoise', 'frequency_low_pass', (f,), T, nf,
                              cyc, dt, full))
    for ncol in (10, 13):
        for k in range(1, 5):
            for steps in itertools.combinations((0, 1, 2, 9, 10, 100), k):
                for n in (1, 3):
                    for amp in (0.02, 0.0):
                        items.append(('files', 'noise', steps, n, ncol, amp,
                                      n == 3))
        for T in (2, 5, 11):
            for m, dp in (('moving_average', (('window_size', 3),)),
                          ('savitzky_golay', (('window_size', 5),
                                              ('poly_order', 2)))):
                for cyc in (1, 2):
                    for n in (1, 3):
                        items.append(('files', 'denoise', tuple(range(T)), n,
                                      ncol, (m, dp, cyc), n == 3))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('noise', main)
chk.finish()
