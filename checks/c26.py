"""C26: nested dictionary conversions against a structural model.

Every dictionary tree up to a size over a leaf alphabet is built, converted by
the real functions (in place and not, also twice in a row) and compared leaf
by leaf with the definition.
"""
import _path  # noqa
from mc.core import Check, THOROUGH
import numpy as np
import torch
from utilities.type_conversion import (
    convert_dict_to_tensor, convert_dict_to_float32, convert_dict_to_float64,
    convert_tensor_to_float32, convert_tensor_to_float64)

chk = Check('C26')


class Opaque:
    pass


OPAQUE = Opaque()
LEAVES = {
    'int': lambda: 3, 'negint': lambda: -7, 'float': lambda: 0.1,
    'true': lambda: True, 'false': lambda: False, 'zero': lambda: 0,
    'none': lambda: None, 'str': lambda: 'x',
    'f32': lambda: torch.tensor([[0.1, 2.0]], dtype=torch.float32),
    'f64': lambda: torch.tensor([0.1, 1e-12], dtype=torch.float64),
    'f64s': lambda: torch.tensor(0.1, dtype=torch.float64),
    'f16': lambda: torch.tensor([0.5], dtype=torch.float16),
    'i64': lambda: torch.tensor([1, 2]),
    'bool': lambda: torch.tensor(True),
    'list': lambda: [1.0, 2], 'tuple': lambda: (0.0, 1),
    'array': lambda: np.array([0.1, 0.2]),
    'obj': lambda: OPAQUE,
    'grad': lambda: torch.tensor([0.25], requires_grad=True),
}
FEW = ('int', 'float', 'true', 'f32', 'f64', 'i64', 'str')


def trees(size, leaves):
    """All trees (as nested tuples of (key, subtree)) with `size` entries."""
    def forests(n, keys):
        if n == 0:
            yield ()
            return
        if not keys:
            return
        k = keys[0]
        for m in range(1, n + 1):
            for sub in subtrees(m):
                for rest in forests(n - m, keys[1:]):
                    yield ((k, sub),) + rest

    def subtrees(m):
        if m == 1:
            yield from leaves
            yield ()
        else:
            yield from forests(m - 1, ('a', 'b', 'c'))
    yield from forests(size, ('a', 'b', 'c'))


def build(tree):
    return {k: (LEAVES[v]() if isinstance(v, str) else build(v))
            for k, v in tree}


def convert(fname, x):
    if fname == 'tensor':
        if isinstance(x, (bool, int, float)):
            return torch.tensor(x)
        return x
    dt = torch.float32 if fname == 'float32' else torch.float64
    if isinstance(x, torch.Tensor) and x.is_floating_point():
        return x.to(dt)
    return x


def expect(fname, d):
    return {k: expect(fname, v) if isinstance(v, dict) else convert(fname, v)
            for k, v in d.items()}


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and \
            torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def ids(d):
    """Identity of every node and leaf."""
    return {k: (id(v), ids(v) if isinstance(v, dict) else None)
            for k, v in d.items()}


FUNCS = {'tensor': convert_dict_to_tensor,
         'float32': convert_dict_to_float32,
         'float64': convert_dict_to_float64}


def one(item, t):
    for tree in item:
        for f1, func in FUNCS.items():
            for inplace in (True, False, None):
                d = build(tree)
                nodes = []

                def collect(x):
                    nodes.append(x)
                    for v in x.values():
                        if isinstance(v, dict):
                            collect(v)
                collect(d)
                before = build(tree)
                idb = ids(d)
                want = expect(f1, before)
                rep = {'tree': tree, 'function': f1, 'inplace': inplace}
                t.transition()
                t.state((tree, f1, inplace))
                kw = {} if inplace is None else {'is_inplace': inplace}
                out = func(d, **kw)
                if not same(out, want):
                    t.fail(f'{f1}-{inplace}-result', f'{out} expected {want}',
                           rep)
                if inplace is False:
                    if not same(d, before) or ids(d) != idb:
                        t.fail(f'{f1}-modifies-input', f'input became {d}',
                               rep)
                    out_nodes = []

                    def coll(x):
                        out_nodes.append(id(x))
                        for v in x.values():
                            if isinstance(v, dict):
                                coll(v)
                    coll(out)
                    if set(out_nodes) & {id(x) for x in nodes}:
                        t.fail(f'{f1}-shares-nested', 'converted dictionary '
                               'shares a nested dictionary with the input',
                               rep)
                else:
                    if out is not d or not same(d, want):
                        t.fail(f'{f1}-not-in-place', f'{d} expected {want}',
                               rep)
                # second conversion
                for f2, func2 in FUNCS.items():
                    t.transition()
                    want2 = expect(f2, want)
                    out2 = func2(out, is_inplace=False)
                    if not same(out2, want2):
                        t.fail(f'{f1}-{f2}-result', f'{out2} expected '
                               f'{want2}', rep)
        t.trace()


def leaf_funcs(chk):
    for dflt in (torch.float32, torch.float64):
        torch.set_default_dtype(dflt)
        for name, mk in LEAVES.items():
            for f, func in (('float32', convert_tensor_to_float32),
                            ('float64', convert_tensor_to_float64)):
                x = mk()
                chk.transition()
                if not same(func(x), convert(f, mk())) or not same(x, mk()):
                    chk.fail(f'tensor-{f}-{name}', str(func(x)), name)
            d = {'p': {'q': mk()}}
            chk.transition()
            want = expect('tensor', d)
            if not same(convert_dict_to_tensor(d, is_inplace=False), want):
                chk.fail(f'default-dtype-{name}', str(d), name)
    torch.set_default_dtype(torch.float32)


chk.run('leaf', leaf_funcs)
items = [[t for t in trees(n, tuple(LEAVES))] for n in (0, 1, 2)]
big = list(trees(3, tuple(LEAVES) if THOROUGH else FEW))
big += list(trees(4, FEW if THOROUGH else ('float', 'f64', 'str')))
if THOROUGH:
    big += list(trees(5, ('float', 'f64', 'str')))
items += [big[i:i + 200] for i in range(0, len(big), 200)]
chk.sample(big[-1])
chk.pmap(one, items)
chk.extra['bounds'] = {'entries': '<= %d' % (5 if THOROUGH else 4),
                       'leaf kinds': len(LEAVES), 'trees': sum(map(len,
                                                                   items))}
chk.finish()
