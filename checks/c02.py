"""C02: crash-point and torn-write enumeration on the real save functions."""
import builtins
import io
import itertools
import os
import shutil
import _path  # noqa
from mc.core import Check, Scratch, THOROUGH, quiet
import torch
from mc.ckpt import Net, optim, decode, fname
from model_architectures.procedures.model_state_files import (
    save_model_state, load_model_state)
from model_architectures.procedures.model_training import save_training_state

chk = Check('C02')
chk.extra['rule'] = (
    'one evaluation = one final save run in a child process that dies at one '
    'file operation (or inside one write, leaving one torn prefix); distinct '
    'non-trivial = distinct (files before, files after the crash) pairs')
TORN = (0.0, 0.01, 0.5, 0.99)


class Injector:
    """Ends the process at the k-th file operation; torn writes included.

    Operations counted: every removal/rename/truncation and every write of a
    file below `root`, made through os, shutil, open() or torch.save."""

    def __init__(self, root, stop):
        self.root, self.stop, self.n = root, stop, 0

    def step(self, do, torn=None):
        """One atomic operation, preceded by a crash point; a torn write has
        one more crash point for each prefix length."""
        if self.n == self.stop:
            os._exit(7)
        self.n += 1
        if torn:
            for frac in TORN:
                if self.n == self.stop:
                    torn(frac)
                    os._exit(7)
                self.n += 1
        return do()

    def inside(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def install(self):
        inj = self
        real_open = builtins.open
        for mod, names in ((os, ('remove', 'unlink', 'rename', 'replace',
                                 'truncate', 'rmdir', 'link', 'symlink')),
                           (shutil, ('rmtree',))):
            for n in names:
                f = getattr(mod, n)

                def g(*a, _f=f, **k):
                    if any(inj.inside(x) for x in a[:2]):
                        return inj.step(lambda: _f(*a, **k))
                    return _f(*a, **k)
                setattr(mod, n, g)
        real_save = torch.save

        def save(obj, f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and inj.inside(f):
                b = io.BytesIO()
                real_save(obj, b, *a, **k)
                data = b.getvalue()

                def torn(frac):
                    with real_open(f, 'wb') as h:
                        h.write(data[:int(frac * len(data))])

                def do():
                    with real_open(f, 'wb') as h:
                        h.write(data)
                return inj.step(do, torn)
            return real_save(obj, f, *a, **k)
        torch.save = save

        class W(io.RawIOBase):
            """Unbuffered file whose writes are crash points."""

            def __init__(self, path, mode):
                self.h = inj.step(lambda: real_open(path, mode, buffering=0))

            def writable(self):
                return True

            def seekable(self):
                return True

            def seek(self, *a):
                return self.h.seek(*a)

            def tell(self):
                return self.h.tell()

            def write(self, b):
                b = bytes(b)
                inj.step(lambda: self.h.write(b),
                         lambda fr: self.h.write(b[:int(fr * len(b))]))
                return len(b)

            def fileno(self):
                return self.h.fileno()

            def close(self):
                if not self.closed:
                    self.h.close()
                    super().close()

        def wopen(file, mode='r', *a, **k):
            if isinstance(file, (str, os.PathLike)) and inj.inside(file) \
                    and any(c in mode for c in 'wxa+'):
                w = W(file, mode.replace('t', '').replace('b', '') + 'b')
                return w if 'b' in mode else io.TextIOWrapper(
                    w, write_through=True)
            return real_open(file, mode, *a, **k)
        builtins.open = wopen


def do_save(net, op):
    training, kind, epoch, val = op
    net.set(val)
    if training:
        save_training_state(net, optim(net, val + 0.5), state_type=kind,
                            epoch=epoch)
    else:
        save_model_state(net, state_type=kind, epoch=epoch)


def snap(d):
    return {n: decode(os.path.join(d, n)) for n in os.listdir(d)}


def run_history(item, t):
    name, hist, final = item
    with Scratch() as d, quiet():
        d = os.path.join(os.path.realpath(d), 'x')
        os.makedirs(d)
        net = Net(name, d)
        for op in hist:
            do_save(net, op)
        before = snap(d)
        keep = os.path.join(os.path.dirname(d), 'keep')
        shutil.copytree(d, keep)
        training, kind, epoch, val = final
        point = 0
        while True:
            shutil.rmtree(d)
            shutil.copytree(keep, d)
            pid = os.fork()
            if pid == 0:
                code = 9
                try:
                    Injector(d, point).install()
                    do_save(net, final)
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            rc = os.waitstatus_to_exitcode(status)
            if rc not in (0, 7):
                raise RuntimeError(f'child failed rc={rc} {item}')
            after = snap(d)
            t.transition()
            t.state((sorted(before.items()), sorted(after.items())))
            rep = {'model_name': name, 'history': hist, 'final_save': final,
                   'crash_point': point, 'before': sorted(before),
                   'after': sorted(after)}
            check(t, name, before, after, final, rep, d)
            if rc == 0:
                break
            point += 1
        t.trace()
        t.sample({'history': hist, 'final': final, 'crash_points': point})
        t.count('crash_points', point)


def check(t, name, before, after, final, rep, d):
    training, kind, epoch, val = final
    for prefix, what, new in ((name, 'model', ('model', float(val))),
                              (name + '_optim', 'optim',
                               ('optim', val + 0.5, epoch))):
        complete = after.get(fname(prefix, kind, epoch)) == new
        # Earlier and unrelated states survive unmodified
        for n, v in before.items():
            if not n.startswith(prefix + '-') and n != prefix + '.pt':
                continue
            if what == 'model' and n.startswith(name + '_optim'):
                continue
            stem = n[len(prefix):-3]
            ep = stem.replace('-best', '').lstrip('-')
            is_best = stem.endswith('-best')
            if is_best and kind == 'best' and complete:
                continue          # replaced by a complete newer best state
            if after.get(n) != v:
                t.fail(f'lost-{what}-{"best" if is_best else "state"}-on-'
                       f'{kind}', f'crash at operation {rep["crash_point"]} '
                       f'of saving {final} after {rep["history"]}: {n} was '
                       f'{v} and is now {after.get(n)}', rep)
            del ep
    # Some complete state of every kind can still be loaded
    if kind == 'best' and any(n.endswith('-best.pt') and '_optim' not in n
                              for n in before):
        ok = [n for n, v in after.items() if n.endswith('-best.pt')
              and '_optim' not in n and v[0] == 'model']
        if not ok:
            t.fail('no-best-left', f'{rep}', rep)
    for n, v in before.items():
        if '_optim' in n or '-best' in n or v[0] != 'model':
            continue
        stem = n[len(name):-3].lstrip('-')
        what = int(stem) if stem.isdigit() else (stem or 'default')
        if n not in after:
            continue
        probe = Net(name, d, 99)
        try:
            load_model_state(probe, model_load_state=what,
                             is_remove_posterior=False)
            got = probe.get()
        except Exception as exc:
            got = repr(exc)
        if got != v[1]:
            t.fail('not-loadable', f'{what} gives {got} instead of {v[1]} '
                   f'after crash: {rep}', rep)


jobs = []
n_hist = 3 if THOROUGH else 2
for name in ('m', 'a.b') if THOROUGH else ('m',):
    for training in (False, True):
        kinds = [('init', None), ('epoch', 0), ('epoch', 1), ('best', 0),
                 ('best', 1)]
        for L in range(n_hist + 1):
            for h in itertools.product(kinds, repeat=L):
                eps = [e for _, e in h if e is not None]
                if eps != sorted(eps):
                    continue
                hist = tuple((training, k, e, 1 + i)
                             for i, (k, e) in enumerate(h))
                top = max(eps) if eps else -1
                for kind in ('epoch', 'best'):
                    for ep in (top + 1, top + 9):
                        jobs.append((name, hist, (training, kind, ep, 50)))
chk.pmap(run_history, jobs, chunk=4)
chk.assumptions += [
    'completed file operations survive the crash in program order',
    'a crash inside a write leaves a prefix of the new content '
    f'(fractions {TORN})']
chk.finish()
