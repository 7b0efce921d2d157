"""C01: checkpoint store, explicit-state BFS over the real functions."""
import os
import itertools
import _path  # noqa
from mc.core import Check, Scratch, THOROUGH, quiet
import torch
from mc.ckpt import Net, optim, decode, fname
from model_architectures.procedures.model_state_files import (
    save_model_state, load_model_state)
from model_architectures.procedures.model_training import save_training_state

chk = Check('C01')
EPOCHS = (0, 2, 10)
TARGETS = [('init', None), ('default', None), ('epoch', None)] + \
    [('epoch', e) for e in EPOCHS] + [('best', None)] + \
    [('best', e) for e in EPOCHS]


def neighbours(name):
    """Files of other models/tools that must never be touched."""
    names = [fname(name + s, k, e) for s in ('1', '2', 'x', '.b', '-v2', '_b')
             for k, e in (('epoch', 10), ('best', 10), ('best', None),
                          ('init', None), ('epoch', None))]
    names += [fname(p + name, k, e) for p in ('a', 'a-')
              for k, e in (('epoch', 10), ('best', 10))]
    names += [f'{name}-10.pt.bak', f'{name}-10.ptx', f'{name}-10-best.pt.tmp',
              f'{name}-best.pth', f'{name}-10-best.ptx', f'{name}-10x.pt',
              f'{name}-x10.pt', f'{name}-10-bestx.pt', 'loss_history_record'
              '.pkl', 'parameters.pt', 'other_optim-10.pt',
              f'{name}2_optim-10.pt', f'{name}2_optim-10-best.pt',
              f'{name}_optim-10.pt.bak', f'{name}_optim-10-best.pt.bak']
    if '.' in name:
        alt = name.replace('.', 'X')
        names += [fname(alt, k, e) for k, e in
                  (('epoch', 10), ('best', 10), ('best', None))]
        names += [f'{alt}_optim-10.pt', f'{alt}_optim-10-best.pt']
    return {n: n.encode() for n in names}


def snapshot(d):
    out = {}
    for n in os.listdir(d):
        out[n] = decode(os.path.join(d, n))
    return out


CACHE = {}


def bytes_for(val):
    """File bytes holding a decoded value (as the real functions write it)."""
    if val not in CACHE:
        with Scratch() as d:
            net = Net('q', d)
            if val[0] == 'raw':
                CACHE[val] = val[1]
            elif val[0] == 'model':
                net.set(val[1])
                torch.save(net.state_dict(), os.path.join(d, 'f'))
                CACHE[val] = open(os.path.join(d, 'f'), 'rb').read()
            else:
                torch.save(dict(state=optim(net, val[1]).state_dict(),
                                epoch=val[2]), os.path.join(d, 'f'))
                CACHE[val] = open(os.path.join(d, 'f'), 'rb').read()
    return CACHE[val]


def materialise(d, state):
    have = set(os.listdir(d))
    for n in have - set(state):
        os.remove(os.path.join(d, n))
    for n, v in state.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(bytes_for(v))


def ref_save(own, name, kind, epoch, val, removep, training):
    """Reference model of a save; `own` is {file name: value}."""
    new = dict(own)

    def put(prefix, v):
        if kind == 'best':
            for e in (None,) + EPOCHS:
                new.pop(fname(prefix, 'best', e), None)
        new[fname(prefix, kind, epoch)] = v
        if epoch is not None and removep and kind != 'init':
            for e in EPOCHS:
                if e > epoch:
                    new.pop(fname(prefix, 'epoch', e), None)
    put(name, ('model', float(val)))
    if training and kind != 'init':
        put(name + '_optim', ('optim', float(val) + 0.5, epoch))
    return new


def ref_load(own, name, what, removep):
    """Reference model of a load: (new own, value, epoch) or None."""
    if what in ('init', 'default', None):
        f = fname(name, 'init' if what == 'init' else 'default', None)
        if f not in own:
            return None
        ep = 0 if what == 'init' else None
    elif what == 'best':
        c = [e for e in (None,) + EPOCHS if fname(name, 'best', e) in own]
        if len(c) != 1:
            return None
        ep, f = c[0], fname(name, 'best', c[0])
    elif what == 'last':
        c = [e for e in EPOCHS if fname(name, 'epoch', e) in own]
        if not c:
            return None
        ep = max(c)
        f = fname(name, 'epoch', ep)
    else:
        ep, f = what, fname(name, 'epoch', what)
        if f not in own:
            return None
    new = dict(own)
    if removep and ep is not None:
        for e in EPOCHS:
            if e > ep:
                new.pop(fname(name, 'epoch', e), None)
    return new, own[f][1], ep


def ops(training):
    vals = (1, 2)
    for (k, e), v in itertools.product(TARGETS, vals):
        for r in ((True, False) if e is not None else (True,)):
            if training and v == 2 and not THOROUGH and k == 'init':
                continue
            yield ('save', k, e, v, r)
    for w in ('init', 'default', None, 'best', 'last') + EPOCHS + (7,):
        for r in (True, False):
            yield ('load', w, r)


def freeze(own):
    return tuple(sorted(own.items()))


def run_space(item, t):
    name, training, depth, first, with_neigh = item
    opl = list(ops(training))
    neigh = {n: ('raw', b) for n, b in neighbours(name).items()} \
        if with_neigh else {}
    with Scratch() as d, quiet():
        net = Net(name, d)
        frontier = [({}, ())]
        seen = set()
        for level in range(depth):
            nxt = []
            for own, hist in frontier:
                for op in (opl if level else opl[first::8]):
                    pre = {**neigh, **own}
                    materialise(d, pre)
                    t.transition()
                    h = hist + (op,)
                    rep = {'model_name': name, 'training_state': training,
                           'history': h}
                    if op[0] == 'save':
                        _, k, e, v, r = op
                        net.set(v)
                        want = ref_save(own, name, k, e, v, r, training)
                        if training:
                            save_training_state(
                                net, optim(net, v + 0.5), state_type=k,
                                epoch=e, is_remove_posterior=r)
                        else:
                            save_model_state(net, state_type=k, epoch=e,
                                             is_remove_posterior=r)
                        if net.get() != v:
                            t.fail('save-changes-model', f'{name} {h}', rep)
                    else:
                        _, w, r = op
                        net.set(99)
                        ref = ref_load(own, name, w, r)
                        try:
                            ep = load_model_state(net, model_load_state=w,
                                                  is_remove_posterior=r)
                            got = (net.get(), ep)
                        except RuntimeError as exc:
                            got = exc
                        if ref is None:
                            want = own
                            if not isinstance(got, Exception):
                                t.fail(f'load-missing-{w}', 'loading a state '
                                       f'that does not exist returned {got};'
                                       f' history {h}', rep)
                            elif net.get() != 99:
                                t.fail('failed-load-changes-model', str(h),
                                       rep)
                        else:
                            want, val, ep = ref
                            if got != (val, ep):
                                t.fail(f'load-{w}', f'expected value {val} '
                                       f'epoch {ep}, got {got!r}; history '
                                       f'{h}', rep)
                    post = snapshot(d)
                    gone = [n for n in neigh if post.get(n) != neigh[n]]
                    if gone:
                        t.fail(f'{op[0]}-{op[1]}-touches-foreign',
                               f'model {name!r} op {op} changed files of '
                               f'others: {gone}; history {h}', rep)
                    mine = {n: v for n, v in post.items() if n not in neigh}
                    if mine != want:
                        t.fail(f'{op[0]}-{op[1]}-{op[2]}-dir',
                               f'directory {sorted(mine)} expected '
                               f'{sorted(want)} after {h}', rep)
                    best = [n for n in mine if n.endswith('-best.pt')
                            and '_optim' not in n]
                    if len(best) > 1:
                        t.fail('two-best', f'{best} after {h}', rep)
                    key = freeze(want)
                    t.state((name, training, key))
                    if key not in seen:
                        seen.add(key)
                        nxt.append((want, h))
                    if len(t.fails) > 20:
                        return
                    if level == depth - 1 and op == opl[-1]:
                        t.trace()
                        t.sample({'model': name, 'history': h})
            frontier = nxt


def damaged(item, t):
    """Loads that must fail: damaged target or two best states."""
    name, what, removep, extra = item
    with Scratch() as d, quiet():
        net = Net(name, d)
        pre = {fname(name, 'init', None): ('model', 1.0),
               fname(name, 'default', None): ('model', 2.0)}
        pre.update({fname(name, 'epoch', e): ('model', 3.0 + e)
                    for e in EPOCHS})
        pre[fname(name, 'best', 2)] = ('model', 4.0)
        if extra == 'twobest':
            pre[fname(name, 'best', 0)] = ('model', 6.0)
        else:
            target = {'init': fname(name, 'init', None),
                      'best': fname(name, 'best', 2),
                      'last': fname(name, 'epoch', 10),
                      'default': fname(name, 'default', None)}.get(
                          what, fname(name, 'epoch', what))
            good = bytes_for(pre[target])
            pre[target] = ('raw', good[:int(extra * len(good))])
        materialise(d, pre)
        before = snapshot(d)
        net.set(99)
        t.transition()
        t.state(('damaged', item))
        rep = {'item': item, 'files': sorted(pre)}
        try:
            load_model_state(net, model_load_state=what,
                             is_remove_posterior=removep)
            t.fail(f'damaged-load-{what}-{extra}', 'loading a damaged or '
                   'ambiguous state succeeded', rep)
        except Exception:
            pass
        if snapshot(d) != before:
            t.fail(f'failed-load-{what}-deletes', f'failed load of {what} '
                   f'({extra}) changed the directory from {sorted(before)} '
                   f'to {sorted(snapshot(d))}', rep)


for name in ('m', 'gru.v1'):
    for r in (True, False):
        for extra in (0.0, 0.5):
            for w in ('init', 'best', 'last', 'default') + EPOCHS:
                chk.run('damaged', lambda c, i=(name, w, r, extra):
                        damaged(i, c))
        chk.run('damaged', lambda c, i=(name, 'best', r, 'twobest'):
                damaged(i, c))

jobs = []
for name in ('m', 'gru.v1'):
    for training in (False, True):
        depth = 3 if THOROUGH else 2
        for first in range(8):
            jobs.append((name, training, depth, first, True))
# Deeper without neighbours
for training in (False, True):
    for first in range(8):
        jobs.append(('m', training, 4 if THOROUGH else 3, first, False))
chk.pmap(run_space, jobs)
chk.extra['bounds'] = {
    'epochs': EPOCHS, 'values': 2, 'depth_with_foreign_files':
    3 if THOROUGH else 2, 'depth_without': 4 if THOROUGH else 3,
    'foreign_files': len(neighbours('gru.v1'))}
chk.assumptions += ['single process uses the model directory']
chk.finish()
