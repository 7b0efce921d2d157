"""C25: losses and prediction metrics against rational definitions.

All predictions/targets over a small alphabet (every value exactly
representable) are pushed through the real metric and loss functions, and all
sequences of writing metric files are read back.
"""
import _path  # noqa
import itertools
import math
import os
import pickle
from fractions import Fraction as Fr
from mc.core import Check, Scratch, THOROUGH, quiet
import torch
from utilities.prediction_metrics import (
    compute_prediction_metrics)
from utilities.loss_functions import get_pytorch_loss
from utilities.output_prediction_metrics import (
    compute_mean_prediction_metrics, compute_directory_prediction_metrics,
    compute_processes_prediction_metrics, get_samples_prediction_files,
    write_mean_metrics_results_file, read_mean_metrics_results_file)
from model_architectures.procedures.model_prediction import (
    save_sample_predictions, write_prediction_summary_file)

chk = Check('C25')
METRICS = ['mse', 'rmse', 'mav', 'mav_gt']
VALS = (-2.0, 0.0, 0.5, 1.0)


def close(a, b, tol=2e-6):
    if math.isnan(b) or math.isinf(b):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= tol*max(1.0, abs(b))


def metric(label, y, x):
    """Definition on lists of floats: y prediction, x ground truth."""
    n = len(y)
    y, x = [Fr(v) for v in y], [Fr(v) for v in x]
    if label in ('mse', 'rmse'):
        v = sum((a - b)**2 for a, b in zip(y, x))/n
        return math.sqrt(v) if label == 'rmse' else float(v)
    return float(sum(map(abs, y if label == 'mav' else x))/n)


def columns(chk, n_time, dtype):
    """All columns of one length as features of a single sample."""
    cols = list(itertools.product(VALS, repeat=2*n_time))
    with Scratch() as d:
        out = torch.tensor([c[:n_time] for c in cols], dtype=dtype).T
        tgt = torch.tensor([c[n_time:] for c in cols], dtype=dtype).T
        path = os.path.join(d, 'prediction_sample_0.pkl')
        with open(path, 'wb') as f:
            pickle.dump({'features_out': out, 'targets': tgt}, f)
        for sel in ([m] for m in METRICS):
            res = compute_prediction_metrics(path, sel)
            if list(res) != sel:
                chk.fail('keys', f'{list(res)}', sel)
            got = res[sel[0]].tolist()
            if len(got) != len(cols):
                chk.fail('n-features', f'{len(got)} for {len(cols)}', sel)
                continue
            for c, g in zip(cols, got):
                chk.transition()
                chk.state(('col', n_time, c, sel[0]))
                want = metric(sel[0], c[:n_time], c[n_time:])
                if not close(g, want):
                    chk.fail(f'{sel[0]}-value', f'prediction {c[:n_time]} '
                             f'truth {c[n_time:]}: {g} expected {want}', c)
                if sel[0] in ('mse', 'rmse') and \
                        (g == 0.0) != (c[:n_time] == c[n_time:]):
                    chk.fail(f'{sel[0]}-zero', f'{c}: {g}', c)
        chk.trace()


def samples(item, t):
    """Sets of samples: mean metrics over files, order, neighbours."""
    combos = item
    cells = list(itertools.product((0.0, 1.0, -2.0), repeat=2))
    for combo in combos:
        with Scratch() as d, quiet():
            recs, paths = [], []
            for i, (a, b) in enumerate(combo):
                y = torch.tensor([[a[0], b[1]], [a[1], 1.0]])
                x = torch.tensor([[b[0], a[1]], [0.5, b[1]]])
                recs.append((y, x))
                sid = (7, 10, 1)[i]
                save_sample_predictions(d, sid, {
                    'features_out': y, 'targets': x, 'time_hist': None})
                paths.append(os.path.join(d, f'prediction_sample_{sid}.pkl'))
            for junk in ('prediction_sample_x.pkl', 'summary.dat',
                         'prediction_sample_3.pkl.bak',
                         'my_prediction_sample_4.pkl'):
                with open(os.path.join(d, junk), 'w') as f:
                    f.write('x')
            want = {}
            for m in ('rmse', 'nrmse'):
                vals = []
                for k in range(2):
                    acc = []
                    for y, x in recs:
                        r = metric('rmse', y[:, k].tolist(), x[:, k].tolist())
                        if m == 'nrmse':
                            g = metric('mav_gt', y[:, k].tolist(),
                                       x[:, k].tolist())
                            r = r/g if g else (math.nan if r == 0
                                               else math.inf)
                        acc.append(r)
                    vals.append(sum(acc)/len(acc))
                want[m] = vals
            rep = {'samples': combo}
            for order in itertools.permutations(paths):
                for sel in (['rmse'], ['nrmse'], ['nrmse', 'rmse']):
                    t.transition()
                    got = compute_mean_prediction_metrics(list(order), sel)
                    for m in sel:
                        if not all(close(g, w) for g, w in
                                   zip(got[m].tolist(), want[m])) or \
                                len(got[m]) != 2:
                            t.fail(f'mean-{m}', f'{got[m].tolist()} expected '
                                   f'{want[m]} for {combo}', rep)
            t.state(('samples', combo))
            found, ids = get_samples_prediction_files(d)
            if sorted(found) != sorted(paths) or \
                    [f'prediction_sample_{i}.pkl' for i in ids] != \
                    [os.path.basename(p) for p in found]:
                t.fail('files', f'{found} {ids}', rep)
            # Twice with saving: the second must not see the first's output
            for k in range(2):
                t.transition()
                n, got = compute_directory_prediction_metrics(
                    d, ['rmse', 'nrmse'], process_label='p',
                    is_save_file=True)
                back = read_mean_metrics_results_file(os.path.join(
                    d, 'prediction_metrics', 'mean_prediction_metrics.dat'))
                if n != len(combo):
                    t.fail('n-sample', f'{n} for {len(combo)}', rep)
                for m in ('rmse', 'nrmse'):
                    if not all(close(g, w) for g, w in
                               zip(got[m].tolist(), want[m])) or \
                            not all(close(g, w, 1e-6) for g, w in
                                    zip(back[m].tolist(), got[m].tolist())):
                        t.fail(f'directory-{m}', f'{got} read back {back} '
                               f'expected {want}', rep)
            t.trace()


FILEVALS = (0.0, 1.0, -2.5, 1.23456789e-9, 9.99999999e12, math.nan, math.inf)


def files(chk):
    """All sequences of up to three blocks written to one file."""
    blocks = []
    for vals in itertools.chain(
            ((v,) for v in FILEVALS),
            itertools.product((0.0, 1.23456789e-9, math.nan), repeat=2)):
        blocks.append(vals)
    with Scratch() as d:
        path = os.path.join(d, 'mean_prediction_metrics.dat')
        for n in (1, 2, 3):
            for seq in itertools.product(range(0, len(blocks), n), repeat=n):
                for over in (False, True):
                    if os.path.exists(path):
                        os.remove(path)
                    for i, b in enumerate(seq):
                        write_mean_metrics_results_file(
                            d, 10 + i, {'rmse': torch.tensor(blocks[b]),
                                        'nrmse': torch.tensor(
                                            [7.0 + i])},
                            process_label=f'p{i}', is_overwrite=over)
                    chk.transition()
                    chk.state(('file', seq, over))
                    alive = range(len(seq)) if not over else [len(seq) - 1]
                    for i in list(alive) + [None]:
                        got = read_mean_metrics_results_file(
                            path, None if i is None else 10 + i)
                        j = alive[0] if i is None else i
                        want = blocks[seq[j]]
                        g = got['rmse'].tolist()
                        if list(got) != ['rmse', 'nrmse'] or \
                                got['nrmse'].tolist() != [7.0 + j] or \
                                len(g) != len(want) or not all(
                                    close(a, b, 1e-6) and
                                    (b == 0 or not math.isfinite(b) or
                                     abs(a/b - 1) < 1e-6)
                                    for a, b in zip(g, want)):
                            chk.fail('read-back', f'wrote {want} read {got}',
                                     {'blocks': [blocks[b] for b in seq],
                                      'overwrite': over, 'read': i})
                    if over and len(seq) > 1:
                        try:
                            read_mean_metrics_results_file(path, 10)
                            chk.fail('stale', 'overwritten block is read',
                                     seq)
                        except RuntimeError:
                            pass
            chk.trace()
        # processes: appended in one file, each read by its size
        dirs = {}
        for k, n in (('n1', 1), ('n3', 3)):
            dd = os.path.join(d, k)
            os.makedirs(dd)
            for s in range(n):
                save_sample_predictions(dd, s, {
                    'features_out': torch.tensor([[1.0 + s]]),
                    'targets': torch.tensor([[0.5*n]])})
            dirs[k] = dd
        os.remove(path)
        with quiet():
            res = compute_processes_prediction_metrics(
                dirs, ['rmse'], save_dir=d, is_save_file=True,
                is_display_results=True)
        for k, n, w in (('n1', 1, 0.5), ('n3', 3, (0.5 + 0.5 + 1.5)/3)):
            chk.transition()
            back = read_mean_metrics_results_file(path, n)['rmse'].tolist()
            if res[k]['n_sample'] != n or not close(back[0], w) or \
                    not close(res[k]['mean_metrics_results']['rmse'].item(),
                              w):
                chk.fail('processes', f'{res[k]} {back} expected {w}', k)
    with Scratch() as d:
        for loss in (0.0, 1.5, 1e-30, 2e10, None):
            write_prediction_summary_file(
                d, 'cpu', None, d, 'best', 'mse', {}, True, None, [1, 2],
                loss, 1.0, 0.5)
            with open(os.path.join(d, 'summary.dat')) as f:
                line = [x for x in f
                        if 'Avg. prediction loss per sample' in x][0]
            chk.transition()
            want = 'None' if loss is None else loss
            got = line.split()[-1]
            if (loss is None and got != 'None') or \
                    (loss is not None and (got == 'None' or
                                           abs(float(got) - loss) >
                                           1e-7*abs(loss))):
                chk.fail('summary-loss', f'loss {want} reported as {got}',
                         loss)


def losses(chk):
    for small, targets in ((None, (0.0, 5e-6, 2e-5, -5e-6, -2e-5, 1.0, -4.0,
                                   100.0)),
                           (0.25, (0.0, 0.25, -0.25, 0.125, 0.5, -1.0))):
        s = 1e-5 if small is None else small
        for mode in ('absolute', 'clip', 'regularizer', None):
            kw = {} if mode is None else {'zero_handling': mode}
            if small is not None:
                kw['small'] = small
            loss = get_pytorch_loss('mre', **kw)
            m = mode or 'absolute'
            for dtype in (torch.float32, torch.float64):
                for n in (1, 2):
                    for tg in itertools.product(targets, repeat=n):
                        for df in itertools.product((0.0, 0.5, -2.0),
                                                    repeat=n):
                            T = torch.tensor(tg, dtype=dtype)
                            X = (T + torch.tensor(df, dtype=dtype)
                                 ).requires_grad_(True)
                            chk.transition()
                            chk.state(('mre', small, mode, str(dtype), tg,
                                       df))
                            L = loss(X, T)
                            L.backward()
                            den = []
                            for v in tg:
                                a = abs(v)
                                den.append((1.0 if a < s else a)
                                           if m == 'absolute' else
                                           max(a, s) if m == 'clip'
                                           else a + s)
                            err = (X - T).detach().tolist()
                            w = sum(abs(e)/q for e, q in zip(err, den))/n
                            rep = {'mode': mode, 'small': small,
                                   'target': tg, 'input': X.tolist()}
                            if not abs(L.item() - w) <= 1e-5*max(1e-9, w):
                                chk.fail(f'mre-{m}', f'target {tg} input '
                                         f'{X.tolist()}: {L.item()} expected'
                                         f' {w}', rep)
                            g = X.grad.tolist()
                            gw = [(e > 0) - (e < 0) for e in err]
                            gw = [a/q/n for a, q in zip(gw, den)]
                            if not all(abs(a - b) <= 1e-5*max(1e-9, abs(b))
                                       for a, b in zip(g, gw)):
                                chk.fail(f'mre-{m}-gradient', f'target {tg} '
                                         f'input {X.tolist()}: {g} expected '
                                         f'{gw}', rep)
    mse = get_pytorch_loss('mse')
    for n in (1, 2, 3):
        for c in itertools.product(VALS, repeat=2*n):
            chk.transition()
            got = mse(torch.tensor(c[:n]), torch.tensor(c[n:])).item()
            if not close(got, metric('mse', c[:n], c[n:])):
                chk.fail('mse-loss', f'{c}: {got}', c)
    for bad in (lambda: get_pytorch_loss('xyz'),
                lambda: get_pytorch_loss('mre', zero_handling='x')):
        try:
            bad()
            chk.fail('unknown-loss', 'accepted', None)
        except RuntimeError:
            pass


def rejects(chk):
    with Scratch() as d:
        p = os.path.join(d, 'prediction_sample_0.pkl')
        for rec, metrics in (
                ({'features_out': torch.ones(2, 1)}, ['mse']),
                ({'features_out': torch.ones(2, 1), 'targets': None},
                 ['rmse']),
                ({'targets': torch.ones(2, 1)}, ['mse']),
                ([1], ['mse']),
                ({'features_out': torch.ones(2, 1), 'targets':
                  torch.ones(2, 1)}, ['zzz'])):
            with open(p, 'wb') as f:
                pickle.dump(rec, f)
            chk.transition()
            try:
                r = compute_prediction_metrics(p, metrics)
                chk.fail('reject', f'metrics {metrics} from {rec}: {r}', None)
            except RuntimeError:
                pass


chk.run('losses', losses)
for dt in (torch.float32, torch.float64):
    for n in ((1, 2, 3, 4) if THOROUGH and dt == torch.float64
              else (1, 2, 3)):
        chk.run('columns', columns, n, dt)
chk.run('files', files)
chk.run('rejects', rejects)
pairs = list(itertools.product(
    itertools.product((0.0, -2.0), repeat=2),
    itertools.product((0.0, 1.0), repeat=2)))
combos = []
for n in ((1, 2, 3) if THOROUGH else (1, 2)):
    combos += list(itertools.product(pairs, repeat=n))
chk.pmap(samples, [combos[i:i + 16] for i in range(0, len(combos), 16)])
chk.extra['bounds'] = {'alphabet': VALS, 'time steps': 4 if THOROUGH else 3,
                       'samples': 3 if THOROUGH else 2}
chk.sample(combos[-1])
chk.finish()
