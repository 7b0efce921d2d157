"""C24: output directories and files, explicit-state BFS over the real
functions in a scratch directory against a tree model."""
import _path  # noqa
import itertools
import os
import re
import shutil
from mc.core import Check, Scratch, THOROUGH, quiet, where_raised
import numpy as np
import torch
from ioput.iostandard import (make_directory, new_file_path_with_int,
                              write_summary_file,
                              find_unique_file_with_regex)
from model_architectures.procedures.model_prediction import (
    make_predictions_subdir, save_sample_predictions,
    load_sample_predictions)

chk = Check('C24')


def snap(root):
    """Tree as {relative path: None for a directory, bytes for a file}."""
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d))] = None
        for f in files:
            with open(os.path.join(base, f), 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def restore(root, tree):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for p in sorted(tree):
        q = os.path.join(root, p)
        if tree[p] is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f:
                f.write(tree[p])


DIRS = ('r', 'r_1', 'r_1_1', 's/t', 'a.b')
FILES = ('f.pkl', 'f_1.pkl', 'noext', 'g.tar.gz', 'a.b/f', 'r/f.dat')
OPS = ([('mk', d, o) for d in DIRS for o in (False, True)]
       + [('mk', 'r/', False), ('mk', 'r/', True), ('mk', 'r', None),
          ('rel', 'r', False), ('rel', 'r', True)]
       + [('new', f) for f in FILES]
       + [('pred',), ('sample', 0), ('sample', 10), ('summary', 'summary'),
          ('rm', 'r'), ('rm', 'prediction_set_0'), ('rm', 'f.pkl')])


def under(tree, d):
    return {p: v for p, v in tree.items()
            if p == d or p.startswith(d + '/')}


def step(root, tree, op, n, t, hist):
    """Apply one operation on the real tree and the model; new tree."""
    rep = {'history': hist, 'tree': sorted(tree)}
    mark = f'm{n}'.encode()

    def bad(key, msg):
        t.fail(f'{op[0]}:{key}', f'{msg}; history {hist}', rep)

    if op[0] in ('mk', 'rel'):
        name = op[1].rstrip('/')
        kw = {} if op[2] is None else {'is_overwrite': op[2]}
        over = bool(op[2])
        path = os.path.join(root, op[1])
        cwd = os.getcwd()
        try:
            if op[0] == 'rel':
                os.chdir(root)
                path = op[1]
            try:
                out = make_directory(path, **kw)
            finally:
                os.chdir(cwd)
        except OSError:
            # Only acceptable when a file is in the way, without effects
            blocked = any(tree.get(p) is not None for p in
                          [name, name.split('/')[0]]
                          + [f'{name}_{i}' for i in range(1, 12)])
            if not blocked:
                bad('raise', f'make_directory({op}) raised')
            if snap(root) != tree:
                bad('raise-effect', 'failed creation changed the tree')
            return tree
        rel = os.path.relpath(out, root)
        if not os.path.isabs(out):
            bad('abs', f'returned {out}')
        want = dict(tree)
        if over:
            if rel != name:
                bad('name', f'overwrite returned {rel} for {name}')
            for p in under(tree, name):
                want.pop(p)
        else:
            if rel in tree:
                bad('not-fresh', f'{rel} existed before')
            if name not in tree:
                exp = name
            else:
                i = 1
                while f'{name}_{i}' in tree:
                    i += 1
                exp = f'{name}_{i}'
            if rel != exp:
                bad('name', f'returned {rel} expected {exp}')
        parts = rel.split('/')
        for i in range(1, len(parts) + 1):
            want['/'.join(parts[:i])] = None
        got = snap(root)
        if got != want:
            bad('tree', f'tree {sorted(got)} expected {sorted(want)}')
            return want
        # Caller writes a result there
        with open(os.path.join(out, 'x'), 'wb') as f:
            f.write(mark)
        want[f'{rel}/x'] = mark
        return want
    if op[0] == 'new':
        d = os.path.dirname(op[1])
        if d and tree.get(d, 0) is not None:
            return tree
        out = new_file_path_with_int(os.path.join(root, op[1]))
        if snap(root) != tree:
            bad('effect', 'asking for a new path changed the tree')
        rel = os.path.relpath(out, root)
        if rel in tree:
            bad('not-fresh', f'{rel} existed before')
        base, ext = os.path.splitext(op[1])
        exp, i = op[1], 1
        while exp in tree:
            exp, i = f'{base}_{i}{ext}', i + 1
        if rel != exp:
            bad('name', f'returned {rel} expected {exp}')
            return tree
        with open(out, 'wb') as f:
            f.write(mark)
        return {**tree, rel: mark}
    if op[0] == 'pred':
        out = make_predictions_subdir(root)
        rel = os.path.relpath(out, root)
        if rel in tree:
            bad('not-fresh', f'{rel} existed before')
        if not re.fullmatch(r'prediction_set_\d+(_\d+)?', rel):
            bad('name', rel)
        want = {**tree, rel: None}
        if snap(root) != want:
            bad('tree', f'{sorted(snap(root))} expected {sorted(want)}')
        with open(os.path.join(out, 'x'), 'wb') as f:
            f.write(mark)
        want[f'{rel}/x'] = mark
        return want
    if op[0] == 'sample':
        rec = {'id': op[1], 'n': n, 'x': torch.tensor([0.1, float(n)]),
               'none': None}
        save_sample_predictions(root, op[1], rec)
        rel = f'prediction_sample_{op[1]}.pkl'
        got = snap(root)
        if {k: v for k, v in got.items() if k != rel} != \
                {k: v for k, v in tree.items() if k != rel}:
            bad('tree', 'other files changed')
        if rel not in got:
            bad('missing', rel)
            return tree
        back = load_sample_predictions(os.path.join(root, rel))
        if list(back) != list(rec) or back['n'] != n or \
                back['id'] != op[1] or not torch.equal(back['x'], rec['x']):
            bad('content', f'{back} expected {rec}')
        for other in (0, 10):
            r2 = f'prediction_sample_{other}.pkl'
            if r2 in tree and r2 != rel and load_sample_predictions(
                    os.path.join(root, r2))['id'] != other:
                bad('other', r2)
        return got
    if op[0] == 'summary':
        vals = {'alpha': 1.5, 'nested': {'k1': {'deep': 7}, 'k2': 'v'},
                'arr': np.array([1, 2]), 'text': 'l1\nl2', 'none': None,
                'n': n}
        write_summary_file(root, filename=op[1], summary_title='Title',
                           **vals)
        rel = op[1] + '.dat'
        got = snap(root)
        if {k: v for k, v in got.items() if k != rel} != \
                {k: v for k, v in tree.items() if k != rel}:
            bad('tree', 'other files changed')
        text = got.get(rel, b'').decode()
        pos = [text.find(s) for s in
               ('Title', '"alpha":', '1.5', '"nested":', '"k1":', '"deep":',
                '7', '"k2":', 'v', '"arr":', '[1 2]', '"text":', 'l1\nl2',
                '"none":', 'None', '"n":', str(n))]
        if -1 in pos:
            bad('content', text)
        return got
    if op[0] == 'rm':
        want = {p: v for p, v in tree.items() if p not in under(tree, op[1])}
        restore(root, want)
        return want


STARTS = {
    'empty': {}, 'files': {'r': b'1', 'f.pkl': b'2', 'prediction_set_0':
                           b'3'},
    'blocked': {'r': None, 'r/a': b'0', 'r_1': b'1', 'f.pkl': b'2',
                'f_1.pkl': b'3', 'f_2.pkl': b'4', 'noext': b'5'},
    'gaps': {'r': None, 'r/b': b'0', 'r_2': None, 'r_2/c': b'1',
             'prediction_set_0': None, 'prediction_set_0/y': b'9',
             'prediction_set_2': None, 'prediction_set_2/y': b'8',
             'g.tar.gz': b'6'},
    'many': {**{f'r_{i}': None for i in range(1, 12)}, 'r': None,
             **{f'f_{i}.pkl': b'%d' % i for i in range(1, 12)},
             'f.pkl': b'0',
             **{f'prediction_set_{i}': None for i in range(0, 12)}},
}


def canon(tree):
    return tuple((p, None if v is None else (v if len(v) < 9 else b'L'))
                 for p, v in sorted(tree.items()))


def bfs(item, t):
    start, first, depth = item
    with Scratch() as d, quiet():
        root = os.path.join(d, 'root')
        frontier = [(STARTS[start], ())]
        seen = set()
        n = 0
        for level in range(depth):
            nxt = []
            for tree, hist in frontier:
                for op in (OPS if level else OPS[first::8]):
                    restore(root, tree)
                    n += 1
                    h = hist + (op,)
                    t.transition()
                    try:
                        new = step(root, tree, op, level, t, h)
                    except Exception as exc:
                        inr, desc = where_raised(exc)
                        if not inr:
                            raise
                        t.fail(f'{op[0]}:exception', f'{desc}; history {h}',
                               {'start': start, 'history': h})
                        continue
                    key = canon(new)
                    t.state((start, key))
                    if key not in seen:
                        seen.add(key)
                        nxt.append((new, h))
                    if len(t.fails) > 12:
                        return
            frontier = nxt
        t.trace(len(frontier))
        if frontier:
            t.sample({'start': start, 'history': frontier[-1][1]})


NAMES = ('a.pkl', 'aa.pkl', 'b_n1.pkl', 'b_n10.pkl', 'xb_n1.pkl',
         'a.pkl.bak')
PATTERNS = ('^a.pkl$', r'^b_n[0-9]+\.pkl$', r'^b_n1\.', 'zzz', r'\.pkl$',
            ('zzz', '^a'), ('^b', '^a'), ('^a', '^b'), 'n1', ())


def find(chk):
    with Scratch() as d:
        for k in range(len(NAMES) + 1):
            for sub in itertools.combinations(NAMES, k):
                restore(d, {s: b'1' for s in sub})
                for pat in PATTERNS:
                    chk.transition()
                    chk.state(('find', sub, pat))
                    ok, path = find_unique_file_with_regex(d, pat)
                    pats = (pat,) if isinstance(pat, str) else pat
                    hits = [[s for s in sub if re.search(p, s)]
                            for p in pats]
                    hits = next((h for h in hits if h), [])
                    rep = {'files': sub, 'pattern': pat}
                    if ok != bool(hits):
                        chk.fail('find:found', f'{sub} {pat}: found={ok}',
                                 rep)
                    elif ok and (os.path.basename(path) not in hits or
                                 os.path.dirname(path) != d):
                        chk.fail('find:path', f'{sub} {pat}: {path}', rep)
                    elif not ok and path is not None:
                        chk.fail('find:none', f'{sub} {pat}: {path}', rep)
                    if snap(d) != {s: b'1' for s in sub}:
                        chk.fail('find:effect', f'{sub} {pat}', rep)


def missing(chk):
    with Scratch() as d:
        for f in (lambda: make_predictions_subdir(d + '/no'),
                  lambda: save_sample_predictions(d + '/no', 0, {}),
                  lambda: load_sample_predictions(d + '/no.pkl'),
                  lambda: write_summary_file(d + '/no'),
                  lambda: find_unique_file_with_regex(d + '/no', 'x'),
                  lambda: find_unique_file_with_regex(d, 3),
                  lambda: find_unique_file_with_regex(d, '(')):
            chk.transition()
            try:
                f()
                chk.fail('missing', 'operation on a missing directory '
                         'succeeded', None)
            except RuntimeError:
                pass
            if os.listdir(d):
                chk.fail('missing-effect', str(os.listdir(d)), None)


chk.run('find', find)
chk.run('missing', missing)
depth = 4 if THOROUGH else 3
chk.pmap(bfs, [(s, i, depth) for s in STARTS for i in range(8)])
chk.extra['bounds'] = {'depth': depth, 'start trees': len(STARTS),
                       'operations': len(OPS)}
chk.finish()
