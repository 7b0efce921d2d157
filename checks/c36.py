"""C36: hyper-parameter optimisation jobs.

Three explorations:
* local: every history of optimisation jobs (configurations, one after another
  in the same process) of the recurrent network model, against direct training
  and prediction with the same configuration;
* specimen: every history of jobs of the material parameters of a specimen,
  against the force equilibrium loss of the specimen;
* progress: every sequence of job objectives of one or more optimisation
  processes, against the figure and the report of the best job.
"""
import _path  # noqa
import contextlib
import io
import itertools
import os
import pickle
import re
import warnings
from mc.core import Check, THOROUGH, Scratch, quiet
import hydra
import numpy as np
import torch
from hydra.core.hydra_config import HydraConfig
from omegaconf import OmegaConf
from mc import discover as dc, mats, plast, specimen as sp
from mc.figs import Figures, dots, has, lines
from mc.simfiles import LINKS, SIMPLE, bc_pattern, make_dat, make_output
from ioput.iostandard import write_summary_file
from model_architectures.procedures.model_data_scaling import (
    data_scaler_transform)
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rnn_base_model.optimization import (
    hydra_optimization as local_opt, hydra_optimization_plots as plots)
from model_architectures.rnn_base_model.train.training import train_model
from simulators.links.utilities import links_data_to_adimu
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, save_dataset)
from user_scripts.global_model_update.material_finder import (
    gen_specimen_data as gsd)
from user_scripts.global_model_update.optimization import (
    hydra_optimization as global_opt)

torch.set_default_dtype(torch.float64)
warnings.simplefilter('ignore')
chk = Check('C36')
ORDER = ('11', '22', '33', '12', '23', '13')
SWEEPERS = {
    'basic': ({'_target_': 'hydra._internal.core_plugins.basic_sweeper.'
               'BasicSweeper'}, 'BasicSweeper', 'None'),
    'optuna': ({'_target_': 'hydra_plugins.optuna_sweeper.OptunaSweeper',
                'sampler': {'_target_': 'optuna.samplers.TPESampler'}},
               'OptunaSweeper', 'optuna.samplers.TPESampler'),
    'nevergrad': ({'_target_': 'hydra_plugins.NevergradSweeper',
                   'optim': {'optimizer': 'OnePlusOne'}},
                  'NevergradSweeper', 'OnePlusOne')}


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as s:
                out[os.path.relpath(os.path.join(d, f), root)] = s.read()
    return out


def job(wrapper, args, cfg, job_id, job_dir, sweeper):
    """Run an optimisation job the way the launcher does."""
    out = []
    os.makedirs(job_dir)
    main, conf = hydra.main, HydraConfig.instance().cfg
    HydraConfig.instance().cfg = OmegaConf.create({'hydra': dict(
        job=dict(id=str(job_id), num=job_id, name='job'),
        sweeper=SWEEPERS[sweeper][0], runtime=dict(output_dir=job_dir))})
    hydra.main = lambda *a, **k: (
        lambda f: (lambda *b: out.append(f(OmegaConf.create(cfg)))))
    try:
        wrapper(*args)
    finally:
        hydra.main, HydraConfig.instance().cfg = main, conf
    return out


def summary(path):
    """Entries of a summary file."""
    if not os.path.isfile(path):
        return None
    return dict(re.findall(r'^"(.*?)": *(.*)$', open(path).read(), re.M))


def reported(t, item, rep, job_dir, cfg, sweeper, value):
    s = summary(os.path.join(job_dir, 'job_summary.dat'))
    t.check(s is not None, 'summary', f'{item}: no job summary', rep)
    if s is None:
        return
    want = {k: str(OmegaConf.create(cfg)[k]) for k in cfg}
    want.update(sweeper=SWEEPERS[sweeper][1],
                sweeper_optimizer=SWEEPERS[sweeper][2])
    bad = {k: (s.get(k), v) for k, v in want.items() if s.get(k) != v}
    t.check(not bad, 'summary:parameters', f'{item}: {bad}', rep)
    try:
        ok = abs(float(s.get('objective')) - value) <= 1e-7*abs(value)
    except (TypeError, ValueError):
        ok = False
    t.check(ok, 'summary:objective', f'{item}: objective {s.get("objective")}'
            f' in the summary, {value} returned', rep)


# ----------------------------------------------------------- network models
BASE = dict(
    n_features_in=6, n_features_out=6, hidden_layer_size=3,
    n_recurrent_layers=1, dropout=0, n_max_epochs=2, batch_size=2,
    is_sampler_shuffle=False, loss_nature='features_out', loss_type='mse',
    loss_kwargs={}, lr_init=1e-2, lr_scheduler_type='explr',
    lr_scheduler_kwargs={'gamma': 0.5}, is_early_stopping=True,
    early_stopping_kwargs={'validation_frequency': 1, 'trigger_tolerance': 20,
                           'improvement_tolerance': 1e-2},
    opt_algorithm='adam')
VARIANTS = {
    'base': {}, 'hidden': dict(hidden_layer_size=5),
    'layers': dict(n_recurrent_layers=2), 'epochs': dict(n_max_epochs=4),
    'batch': dict(batch_size=1), 'shuffle': dict(is_sampler_shuffle=True),
    'lr': dict(lr_init=0.3), 'gamma': dict(lr_scheduler_kwargs={
        'gamma': 0.05}, n_max_epochs=3),
    'linlr': dict(lr_scheduler_type='linlr', lr_scheduler_kwargs={
        'start_factor': 1.0, 'end_factor': 0.1, 'total_iters': 3}),
    'noscheduler': dict(lr_scheduler_type=None, lr_scheduler_kwargs=None),
    'nostop': dict(is_early_stopping=False),
    # The last epoch is not the best one
    'worse': dict(lr_init=1.0, n_max_epochs=3, batch_size=1,
                  lr_scheduler_type=None, lr_scheduler_kwargs=None,
                  early_stopping_kwargs={
                      'validation_frequency': 1, 'trigger_tolerance': 20,
                      'improvement_tolerance': 0.01}),
    'worse_nostop': dict(lr_init=1.0, n_max_epochs=3, batch_size=1,
                         lr_scheduler_type=None, lr_scheduler_kwargs=None,
                         is_early_stopping=False),
    'stop': dict(n_max_epochs=6, lr_init=1.0, early_stopping_kwargs={
        'validation_frequency': 1, 'trigger_tolerance': 1,
        'improvement_tolerance': 0.5})}


def samples(n, seed):
    out = []
    for i in range(n):
        x = np.cumsum(np.sin(1.3*np.arange(24) + seed + 7*i).reshape(4, 6),
                      axis=0)
        e = torch.tensor(2e-3*x)
        out.append(dict(
            strain_path=e, stress_path=(1e5 + 1e3*i)*e,
            strain_comps_order=ORDER, stress_comps_order=ORDER,
            time_hist=torch.arange(4.0).reshape(-1, 1)))
    return out


def features(raw, cfg):
    h = torch.zeros(cfg['n_recurrent_layers'], cfg['hidden_layer_size'])
    return TimeSeriesDatasetInMemory([dict(
        features_in=s['strain_path'].clone(),
        features_out=s['stress_path'].clone(), hidden_features_in=h.clone(),
        **{k: s[k] for k in s if k not in ('strain_path', 'stress_path')})
        for s in raw])


def direct(d, cfg, raw, process):
    """The configuration, trained and tested without the job."""
    os.makedirs(d)
    kw = dict(cfg['early_stopping_kwargs']) if cfg['is_early_stopping'] \
        else {}
    if cfg['is_early_stopping']:
        kw['validation_dataset'] = features(raw['validation'], cfg)
    torch.manual_seed(3)
    _, best, _ = train_model(
        cfg['n_max_epochs'], features(raw['training'], cfg),
        dict(n_features_in=6, n_features_out=6,
             hidden_layer_size=cfg['hidden_layer_size'], model_directory=d,
             model_name='gru_material_model', is_model_in_normalized=True,
             is_model_out_normalized=True,
             n_recurrent_layers=cfg['n_recurrent_layers'], dropout=0),
        cfg['lr_init'], opt_algorithm='adam',
        lr_scheduler_type=cfg['lr_scheduler_type'],
        lr_scheduler_kwargs=cfg['lr_scheduler_kwargs'],
        loss_nature='features_out', loss_type='mse', loss_kwargs={},
        batch_size=cfg['batch_size'],
        is_sampler_shuffle=cfg['is_sampler_shuffle'],
        is_early_stopping=cfg['is_early_stopping'],
        early_stopping_kwargs=kw)
    model = best_model(d)
    if process == 'training':
        return float(best), model
    err = []
    for s in raw['testing']:
        with torch.no_grad():
            x = data_scaler_transform(model, s['strain_path'], 'features_in',
                                      'normalize')
            y = model(x)
            y = y[0] if isinstance(y, tuple) else y
            y = data_scaler_transform(model, y, 'features_out',
                                      'denormalize')
        err.append(float(((y - s['stress_path'])**2).mean()))
    return float(np.mean(err)), model


def best_model(d):
    model = GRURNNModel.init_model_from_file(model_directory=d)
    best = [f for f in os.listdir(d) if re.search(r'-best.*\.pt$', f)
            and '_optim' not in f]
    if len(best) != 1:
        return None
    model.load_state_dict(torch.load(os.path.join(d, best[0]),
                                     weights_only=False))
    model.eval()
    return model


def history_of(d):
    with open(os.path.join(d, 'loss_history_record.pkl'), 'rb') as f:
        r = pickle.load(f)
    return [(k, np.array(r[k], float).tolist()) for k in sorted(r)
            if 'history' in k and r[k] is not None]


def local(item, t):
    _, process, hist, sweeper, figures = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    raw = dict(training=samples(3, 0), validation=samples(2, 5),
               testing=samples(3, 11))
    log = []
    names = ('generate_standard_training_plots', 'generate_prediction_plots')
    old = [getattr(local_opt, n) for n in names]

    def seen(*a):
        # the predictions must be there when they are plotted
        if len(a) == 2:
            log.append(len([f for f in os.listdir(a[1])
                            if f.startswith('prediction_sample_')]))
    with Scratch() as d:
        paths = {}
        for k, v in raw.items():
            os.makedirs(os.path.join(d, 'data', k))
            paths[k] = save_dataset(
                TimeSeriesDatasetInMemory(v), 'ss_paths_dataset',
                os.path.join(d, 'data', k), is_append_n_sample=True)
        data = tree(os.path.join(d, 'data'))
        done = {}
        for i, name in enumerate(hist):
            cfg = dict(BASE, **VARIANTS[name])
            jd = os.path.join(d, 'jobs', str(i))
            ident = f'{process} jobs {hist[:i + 1]}'
            try:
                if not figures:
                    for n in names:
                        setattr(local_opt, n, seen)
                torch.manual_seed(3)
                got = job(local_opt.hydra_wrapper, (process, dict(paths)),
                          cfg, i, jd, sweeper)
            finally:
                for n, f in zip(names, old):
                    setattr(local_opt, n, f)
            t.transition()
            want, model = direct(os.path.join(d, 'direct', str(i)), cfg, raw,
                                 process)
            ok = len(got) == 1 and got[0] is not None and np.isclose(
                float(got[0]), want, rtol=1e-6, atol=0.0)
            t.check(ok, 'local:objective', f'{ident}: objective {got}, '
                    f'expected {want}', rep)
            if len(got) != 1 or got[0] is None:
                return
            reported(t, ident, rep, jd, cfg, sweeper, float(got[0]))
            md = os.path.join(jd, 'model')
            mine = best_model(md) if os.path.isdir(md) else None
            a = mine.state_dict() if mine else {}
            b = model.state_dict()
            t.check(set(a) == set(b) and all(
                a[k].shape == b[k].shape and torch.allclose(a[k], b[k])
                for k in b), 'local:model', f'{ident}: the best model of the '
                'job is not the one of its configuration', rep)
            t.check(os.path.isdir(md) and history_of(md) == history_of(
                os.path.join(d, 'direct', str(i))), 'local:history',
                f'{ident}: other training history', rep)
            left = [f for _, _, fs in os.walk(jd) for f in fs
                    if f.startswith('prediction_sample_')]
            t.check(not left, 'local:left', f'{ident}: {left} left', rep)
            if process != 'training' and not figures:
                t.check(log[-1:] == [3], 'local:plots', f'{ident}: {log} '
                        'predictions when plotted', rep)
            t.check(tree(os.path.join(d, 'data')) == data, 'local:data',
                    f'{ident}: data set files changed', rep)
            for j, files in done.items():
                t.check(tree(os.path.join(d, 'jobs', str(j))) == files,
                        'local:other', f'{ident}: job {j} changed', rep)
            done[i] = tree(jd)


def local_items():
    out = []
    names = list(VARIANTS)
    for p in ('training', 'training-testing'):
        for h in itertools.product(names, repeat=2):
            if not THOROUGH and 'base' not in h and p == 'training':
                continue
            out.append(('local', p, h, 'basic', False))
        for s in SWEEPERS:
            out.append(('local', p, ('lr', 'base', 'lr'), s, False))
        out.append(('local', p, ('base', 'hidden'), 'basic', True))
        if THOROUGH:
            for h in itertools.permutations(names[:8], 3):
                out.append(('local', p, h, 'basic', False))
    return out


# ------------------------------------------------------ specimen parameters
GRID = dict(E=(100e3, 123456.75), v=(0.3, 0.25), s0=(300.0, 620.5),
            a=(500.0, 900.0), b=(0.4, 0.7))


def stress_of(cfg):
    par = mats.parameters('von_mises', E=cfg['E'], v=cfg['v'])
    hp = dict(par['hardening_parameters'])
    hp.update(s0=cfg['s0'], a=cfg['a'], b=cfg['b'], ep0=1e-5)
    par['hardening_parameters'] = hp
    m = mats.model_class('von_mises')('infinitesimal', 4, par)

    def run(path):
        st = m.state_init()
        out = [np.zeros((3, 3))]
        for a, b in zip(path[:-1], path[1:]):
            st, _ = m.state_update(torch.tensor(b - a), st)
            out.append(plast.from_mf(plast.arr(st['stress_mf']), 4))
        return np.array(out)
    return run


def specimen(item, t):
    _, mname, hist, sweeper = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    mesh = SIMPLE[mname]
    X = np.array(mesh[2], float)
    ng = LINKS[mesh[0]][1]
    u = sp.history(mesh, 'abc')
    paths = sp.strain_paths(mesh, u, ng)
    cfgs = [dict(zip(GRID, h)) for h in hist]
    forces = [sp.internal_forces(mesh, [stress_of(c)(p) for p in paths], ng)
              for c in cfgs]
    f0 = sp.internal_forces(mesh, [stress_of({k: v[0] for k, v in GRID.items(
        )})(p) for p in paths], ng)
    r = f0 + 0.05*np.abs(f0).max()*np.cos(np.arange(f0.size)).reshape(
        f0.shape)
    bc = dc.bc_of(mesh, 'some', 'dirichlet_sets')
    fac = 1.0/(110000.0**2*40.0**4)
    with Scratch() as d:
        dat, out = os.path.join(d, 'sp.dat'), os.path.join(d, 'sp')
        src = os.path.join(d, 'source')
        os.makedirs(out)
        os.makedirs(src)
        make_dat(dat, mesh, bc_pattern(mesh, 'some'))
        make_output(out, 'sp', range(u.shape[2]), u, r, X)
        _, hd = links_data_to_adimu.gen_adimu_data_from_links(dat, out, src)
        links_data_to_adimu.update_adimu_mesh_hist_data_files_dirichlet(
            gsd.get_specimen_history_paths(hd, 'sp'), bc)
        data = tree(src)
        done = {}
        for i, cfg in enumerate(cfgs):
            jd = os.path.join(d, 'jobs', str(i))
            ident = f'{mname} jobs {hist[:i + 1]}'
            got = job(global_opt.hydra_wrapper, ('sp', src), cfg, i, jd,
                      sweeper)
            t.transition()
            want = sp.loss(forces[i], r, bc, 'dirichlet_sets', None, fac)
            want = float(want[0] if isinstance(want, tuple) else want)
            ok = len(got) == 1 and got[0] is not None and abs(
                float(got[0]) - want) <= 1e-5*want
            t.check(ok, 'specimen:objective', f'{ident}: objective {got}, '
                    f'expected {want}', rep)
            if len(got) != 1 or got[0] is None:
                return
            reported(t, ident, rep, jd, cfg, sweeper, float(got[0]))
            t.check(tree(src) == data, 'specimen:data', f'{ident}: '
                    'simulation data changed', rep)
            for j, files in done.items():
                t.check(tree(os.path.join(d, 'jobs', str(j))) == files,
                        'specimen:other', f'{ident}: job {j} changed', rep)
            done[i] = tree(jd)


def specimen_items():
    grid = list(itertools.product(*GRID.values()))
    out = [('specimen', 'hexa8', (g,), 'basic') for g in grid]
    out += [('specimen', 'hexa8', h, 'optuna')
            for h in itertools.product(grid[::11], repeat=3)]
    out += [('specimen', m, (grid[0], grid[-1], grid[5]), s)
            for m in ('tetra4x2', 'hexa8x2') for s in SWEEPERS]
    if THOROUGH:
        out += [('specimen', m, h, 'basic') for m in ('hexa8', 'tetra4x2')
                for h in itertools.product(grid[::5], repeat=2)]
    return out


# ---------------------------------------------------------------- progress
def progress(item, t):
    _, procs, log, labels, fault = item
    rep = dict(item=[str(x) for x in item])
    t.trace()
    t.state(item)
    with Scratch() as d:
        dirs = {}
        for i, vals in enumerate(procs):
            p = os.path.join(d, f'2025-01-2{i}', '18-56-06')
            dirs[f'process {i}'] = p
            os.makedirs(os.path.join(p, 'plots'))
            os.makedirs(os.path.join(p, '1_old'))
            open(os.path.join(p, 'multirun.yaml'), 'w').write('a: 1\n')
            for j, v in reversed(list(enumerate(vals))):
                q = os.path.join(p, str(j))
                os.makedirs(q)
                write_summary_file(q, 'job_summary', 'Job', sweeper='Basic',
                                   lr_init=1e-3, loss_kwargs={'a': {'b': 2}},
                                   objective=f'{v:.8e}')
            last = os.path.join(p, str(len(vals) - 1))
            if i == len(procs) - 1 and fault == 'gap':
                os.rename(last, os.path.join(p, str(len(vals))))
            elif i == len(procs) - 1 and fault == 'summary':
                os.remove(os.path.join(last, 'job_summary.dat'))
            elif i == len(procs) - 1 and fault == 'metric':
                write_summary_file(last, 'job_summary', 'Job', lr_init=1.0)
            elif i == len(procs) - 1 and fault == 'directory':
                os.rename(p, p + '_moved')
            elif i == len(procs) - 1 and fault == 'empty':
                for j in range(len(vals)):
                    os.remove(os.path.join(p, str(j), 'job_summary.dat'))
                    os.rmdir(os.path.join(p, str(j)))
        save = os.path.join(d, 'figures')
        os.makedirs(save)
        out = io.StringIO()
        err = None
        with Figures() as F, contextlib.redirect_stdout(out):
            try:
                plots.plot_optimization_history(
                    dirs, 'objective', is_log_metric=log,
                    is_data_labels=labels, save_dir=save, is_save_fig=True,
                    is_latex=False, is_verbose=True)
            except RuntimeError as e:
                if fault is None:
                    raise
                err = e
        t.transition(len(procs))
        files = os.listdir(save)
    if fault is not None:
        t.check(err is not None and not files, 'progress:accepted',
                f'{item}: jobs with a fault shown', rep)
        return
    t.check(len(F.seen) == 1 and len(files) == 1, 'progress:figure',
            f'{item}: {len(F.seen)} figures, {files}', rep)
    g = np.log if log else np.asarray
    for f in F.seen:
        for i, vals in enumerate(procs):
            v = g(np.array(vals, float))
            rows = np.stack((np.arange(len(v), dtype=float), v), axis=1)
            t.check(has(dots(f), f'process {i}' if labels else None, rows) or
                    has(lines(f), f'process {i}' if labels else None, rows),
                    'progress:objectives', f'{item}: process {i} is not '
                    f'shown by its objectives {v.tolist()}', rep)
        v = np.minimum.accumulate(g(np.array(procs[0], float)))
        rows = np.stack((np.arange(len(v), dtype=float), v), axis=1)
        t.check(has(lines(f), 'Best-so-far', rows), 'progress:best',
                f'{item}: no line shows the best so far {v.tolist()}', rep)
    best = re.findall(r'Best performance: *(\S+) *\(job #(\d+)\)',
                      out.getvalue())
    ok = len(best) == len(procs) and all(
        np.isclose(float(b), min(v)) and v[int(j)] == min(v)
        for (b, j), v in zip(best, procs))
    t.check(ok, 'progress:report', f'{item}: best jobs reported {best}', rep)


def progress_items():
    seqs = [s for n in (1, 2, 3) for s in itertools.product(
        (3.0, 0.5, 12.25), repeat=n)]
    out = [('progress', (s,), lg, lb, None) for s in seqs
           for lg in (False, True) for lb in (False, True)]
    two = [s for n in (1, 2, 3) for s in itertools.product(
        (7.5, 0.5), repeat=n)]
    out += [('progress', (a, tuple(x + 0.25 for x in b)), False, True, None)
            for a in two for b in two]
    long = tuple(20.0 - k if k != 10 else 1.0 for k in range(12))
    out += [('progress', p, lg, True, None) for lg in (False, True)
            for p in ((long,), (long, (3.0,)), ((3.0,), long),
                      ((1.0, 2.0), (3.0,), (4.0, 0.5, 6.0)))]
    out += [('progress', p, False, lb, f)
            for p in ((long,), ((3.0, 2.0),), ((3.0, 1.0), (2.0, 4.0)))
            for lb in (False, True)
            for f in ('gap', 'summary', 'metric', 'directory', 'empty')]
    if THOROUGH:
        out += [('progress', (a, b, c), False, True, None)
                for a in seqs[:12] for b in two[:6] for c in two[:6]]
        out += [('progress', (s,), False, False, None)
                for s in itertools.permutations((1.0, 2.0, 3.0, 4.0, 5.0))]
    return out


def dispatch(item, t):
    with quiet():
        globals()[item[0]](item, t)


def main(chk):
    chk.pmap(dispatch, progress_items())
    chk.pmap(dispatch, specimen_items())
    chk.pmap(dispatch, local_items())


with quiet():
    chk.run('optimisation jobs', main)
chk.finish()
