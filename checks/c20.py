"""C20: hybrid models against the declared composition."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, Scratch, quiet
from mc import nets
import numpy as np
import torch
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.model.hybridized_model import \
    set_hybridized_model
from model_architectures.hybrid_base_model.model import hybridized_layers
from model_architectures.hybrid_base_model.model import transfer_learning
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.procedures.model_state_files import \
    load_model_state, save_model_state
from utilities.data_scalers import TorchStandardScaler, TorchMinMaxScaler

chk = Check('C20')
N = 2


class Affine(torch.nn.Module):
    """Distinct nonlinear map per tag; optionally returns a tuple."""

    def __init__(self, tag, n_in=N, is_tuple=False):
        super().__init__()
        self.tag, self.is_tuple = tag, is_tuple
        a = np.sin(np.arange(N*n_in)*1.7 + tag)
        self.w = torch.nn.Parameter(torch.tensor(a.reshape(N, n_in)))

    def forward(self, x):
        y = torch.tanh(x @ self.w.T) + 0.1*self.tag
        return (y, x) if self.is_tuple else y


class Pass(Affine):
    """Hands its input on, or one output of its own every time."""

    def forward(self, x):
        if self.tag < 0:
            return (x, x) if self.is_tuple else x
        if not hasattr(self, 'kept'):
            self.kept = super().forward(x)
        return self.kept


class Scaled(Affine):
    """Model trained on normalised data."""

    def __init__(self, tag, n_in=N, is_tuple=False, norm_in=False,
                 norm_out=False):
        super().__init__(tag, n_in, is_tuple)
        self.is_model_in_normalized = norm_in
        self.is_model_out_normalized = norm_out
        self._data_scalers = None
        self._is_save_model_init_file = False


def affine(tag, x, n_in=N):
    a = np.sin(np.arange(N*n_in)*1.7 + tag).reshape(N, n_in)
    return np.tanh(x @ a.T) + 0.1*tag


def scaler(n, kind, k):
    i = np.arange(n)
    if kind == 'std':
        s = TorchStandardScaler(n, torch.tensor(0.3*i + 0.1*k),
                                torch.tensor(0.5 + 0.2*i + 0.1*k))
        return s, lambda x: (x - (0.3*i + 0.1*k))/(0.5 + 0.2*i + 0.1*k), \
            lambda x: x*(0.5 + 0.2*i + 0.1*k) + (0.3*i + 0.1*k)
    lo, hi = -1.0 - 0.1*i - 0.1*k, 2.0 + 0.3*i
    s = TorchMinMaxScaler(n, torch.tensor(lo), torch.tensor(hi))
    return s, lambda x: -1.0 + 2*(x - lo)/(hi - lo), \
        lambda x: lo + (x + 1.0)*(hi - lo)/2


def data(batched, n=N):
    x = np.cos(np.arange(3*4*n)*0.37).reshape(3, 4, n)
    return x if batched else x[:, 1]


def evaluate(m, x, t, ident):
    X = torch.tensor(x)
    X0 = X.clone()
    with torch.no_grad():
        y = m(X)
    if isinstance(y, torch.Tensor):
        y = y.numpy().copy()
    if not torch.equal(X, X0):
        t.fail('input', 'input modified by evaluation', ident)
    t.trace()
    return y


def same(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and \
        np.allclose(a, b, rtol=0, atol=1e-10)


def assignments(item, t):
    """All declaration orders, rules and residual flags of a placement."""
    places = item
    torch.set_default_dtype(torch.float64)
    n = len(places)
    xs = {b: data(b) for b in (True, False)}
    with Scratch() as d:
        for perm in itertools.permutations(range(n)):
            for res in itertools.product((False, True), repeat=n):
                # residual only on one model or on all
                if sum(res) not in (0, 1, n) or (
                        n > 2 and sum(res) == n and perm != tuple(range(n))):
                    continue
                decl = {}
                for i in perm:
                    decl[f'm{i}'] = set_hybridized_model(
                        Affine, places[i],
                        model_init_args=dict(tag=i, n_in=2*N if res[i] else N,
                                             is_tuple=bool(i % 2)),
                        is_input_residual=res[i])
                for rule in ('identity', 'additive'):
                    t.transition()
                    t.state((places, perm, res, rule))
                    ident = dict(places=places, order=perm, residual=res,
                                 rule=rule)
                    dup = len(set(places)) < n
                    try:
                        m = HybridModel(N, N, decl, d, 'hyb', rule,
                                        is_save_model_init_file=False)
                    except RuntimeError:
                        if not dup:
                            t.fail('rejected', 'valid declaration rejected',
                                   ident)
                        continue
                    if dup:
                        t.fail('accepted', 'two models in one place accepted',
                               ident)
                        continue
                    for b, x in xs.items():
                        want = compose(places, res, rule, x)
                        if not same(evaluate(m, x, t, ident), want):
                            t.fail('composition', 'output is not the declared'
                                   ' composition', dict(ident, batched=b))
                            return
                    for i in range(n):
                        if getattr(m.get_hybridized_model(f'm{i}'), 'tag',
                                   None) != i:
                            t.fail('name', 'wrong model under name', ident)
        # parts that hand on their input or keep their output
        for mask in itertools.product((0, 1, 2), repeat=n):
            if len(set(places)) < n or not any(mask):
                continue
            for rule in ('identity', 'additive'):
                decl = {f'm{i}': set_hybridized_model(
                    Pass if k else Affine, places[i], model_init_args=dict(
                        tag=-1 if k == 1 else i,
                        is_tuple=bool(i % 2) and k < 2))
                    for i, k in enumerate(mask)}
                ident = dict(places=places, rule=rule, passing=mask)
                t.transition()
                t.state((places, rule, mask))
                m = HybridModel(N, N, decl, d, 'hyb', rule,
                                is_save_model_init_file=False)
                want = compose(places, (False,)*n, rule, xs[True], mask)
                for _ in range(3):
                    if not same(evaluate(m, xs[True], t, ident), want):
                        t.fail('composition', 'output is not the declared'
                               ' composition', ident)
                        return
        # batch independence and saved model, on the first declaration
        decl = {f'm{i}': set_hybridized_model(
            Affine, places[i], model_init_args=dict(tag=i))
            for i in range(n)}
        if len(set(places)) < n:
            return
        for rule in ('identity', 'additive'):
            m = HybridModel(N, N, decl, d, 'hyb', rule)
            x = data(True)
            full = evaluate(m, x, t, {})
            for j in range(4):
                a = evaluate(m, x[:, j:j + 1], t, {})
                if not same(a[:, 0], full[:, j]):
                    t.fail('batch', 'sample depends on its batch',
                           dict(places=places))
            rev = evaluate(m, x[:, ::-1].copy(), t, {})
            if not same(rev[:, ::-1].copy(), full):
                t.fail('batch', 'sample depends on its position',
                       dict(places=places))
            # prefix of the sequence
            if not same(evaluate(m, x[:2], t, {}), full[:2]):
                t.fail('causal', 'earlier outputs change', dict(
                    places=places))
            save_model_state(m)
            # the models of the file are its own
            with torch.no_grad():
                for p in m.parameters():
                    p += 1.0
            new = HybridModel.init_model_from_file(model_directory=d)
            load_model_state(new)
            if not same(evaluate(new, x, t, {}), full):
                t.fail('loaded', 'loaded model differs',
                       dict(places=places, rule=rule))
            with torch.no_grad():
                for p in m.parameters():
                    p -= 1.0


def compose(places, res, rule, x, mask=()):
    channels = {}
    for i, (r, c) in enumerate(places):
        channels.setdefault(r, []).append((c, i))
    outs = []
    for r in sorted(channels):
        y = x
        for _, i in sorted(channels[r]):
            if mask and mask[i] == 1:
                pass
            elif res[i]:
                y = affine(i, np.concatenate((y, x), -1), 2*N)
            else:
                y = affine(i, y)
        outs.append(y)
    return outs[0] if rule == 'identity' else sum(outs)


def normalised(item, t):
    """Parts (and the whole) trained on normalised data."""
    flags, kinds, own, residual = item
    torch.set_default_dtype(torch.float64)
    with Scratch() as d:
        x = data(True)
        decl = {}
        y = x
        for i, ((ni, no), kind) in enumerate(zip(flags, kinds)):
            n_in = 2*N if residual and i == 1 else N
            si, fi, _ = scaler(n_in, kind, i)
            so, _, go = scaler(N, kind, i + 5)
            decl[f'm{i}'] = set_hybridized_model(
                Scaled, (0, i), model_init_args=dict(
                    tag=i, n_in=n_in, norm_in=ni, norm_out=no,
                    is_tuple=bool(i)),
                is_input_residual=residual and i == 1,
                data_scalers={'features_in': si, 'features_out': so})
            if residual and i == 1:
                y = np.concatenate((y, x), -1)
            y = affine(i, fi(y) if ni else y, n_in)
            y = go(y) if no else y
        m = HybridModel(N, N, decl, d, 'hyb', 'identity',
                        is_model_out_normalized=own,
                        is_save_model_init_file=False)
        if own:
            so, f, _ = scaler(N, 'std', 9)
            m._data_scalers = {'features_in': so, 'features_out': so}
            y = f(y)
        t.transition()
        t.state(item)
        if not same(evaluate(m, x, t, dict(item=item)), y):
            t.fail('normalised', 'normalised parts are composed wrongly',
                   dict(item=item))
        # a normalised part without scaler is rejected
        for i, (ni, no) in enumerate(flags):
            for drop in ('features_in', 'features_out', None):
                part = decl[f'm{i}']['hyb_model']
                keep = part._data_scalers
                part._data_scalers = None if drop is None else {
                    k: v for k, v in keep.items() if k != drop}
                bad = (ni or no) if drop is None else (
                    ni if drop == 'features_in' else no)
                t.transition()
                try:
                    HybridModel(N, N, decl, d, 'hyb',
                                is_save_model_init_file=False)
                    if bad:
                        t.fail('scaler', f'{drop} scaler missing, accepted',
                               dict(item=item))
                except RuntimeError:
                    if not bad:
                        t.fail('scaler', f'{drop} scaler not needed, '
                               'rejected', dict(item=item))
                part._data_scalers = keep


def declarations(chk):
    """Inconsistent declarations."""
    bad = [dict(hyb_indices=[0, 0]), dict(hyb_indices=(0,)),
           dict(hyb_indices=(0, 0, 0)), dict(hyb_indices=(0, 0.5)),
           dict(hyb_indices=(0, 0), is_input_residual=1),
           dict(hyb_indices=(0, 0), model_init_args=None),
           dict(hyb_indices=(0, 0), model_state_file_path='/nonexistent/x'),
           dict(hyb_indices=(0, 0), data_scalers={'features_in': None}),
           dict(hyb_indices=(0, 0), model_init_args=None,
                model_init_file_path='/nonexistent/y')]
    for kw in bad:
        chk.transition()
        kw = dict(dict(model_init_args=dict(tag=0)), **kw)
        try:
            set_hybridized_model(Affine, **kw)
            chk.fail('declaration', f'accepted {kw}', {})
        except RuntimeError:
            pass
    with Scratch() as d:
        decl = {'m': set_hybridized_model(Affine, (0, 0), dict(tag=0))}
        for args in ((N, N, decl, d, 'hyb', 'product'),
                     (N, N, decl, d + '/none', 'hyb', 'identity'),
                     (N, N, decl, d, 3, 'identity')):
            try:
                HybridModel(*args, is_save_model_init_file=False)
                chk.fail('declaration', f'accepted {args[3:]}', {})
            except RuntimeError:
                pass
        m = HybridModel(N, N, decl, d, 'hyb', is_save_model_init_file=False)
        for f in (lambda: m.get_hybridized_model('x'), lambda: m([1.0]),):
            try:
                f()
                chk.fail('declaration', 'unknown request accepted', {})
            except RuntimeError:
                pass
        # stored state of a part
        a = Affine(4)
        torch.save(a.state_dict(), d + '/a.pt')
        b = set_hybridized_model(Affine, (0, 0), dict(tag=7),
                                 model_state_file_path=d + '/a.pt')
        if not torch.equal(b['hyb_model'].w, a.w):
            chk.fail('state-file', 'state not loaded', {})


def layers(item, t):
    """Elastic and volumetric/deviatoric layers alone and in a hybrid."""
    kind, batched, double = item
    torch.set_default_dtype(torch.float64)
    order = {'1': ((0, 0), (1, 1), (0, 1)), '4': (
        (0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))}
    E, v = 200.0, 0.3
    if kind.startswith('poly'):
        deg, bias = int(kind[4]), kind[5] == 'b'
        n = 3
        x = data(batched, n)
        m = transfer_learning.PolynomialLinearRegressor(n, deg, bias)
        with torch.no_grad():
            for k, p in enumerate(m.parameters()):
                p.copy_(torch.sin(torch.arange(p.numel())*1.0 + k).reshape(
                    p.shape))
        want = np.zeros_like(x)
        for i, p in enumerate(m.parameters()):
            c = p.detach().numpy().reshape(-1)
            want[..., i] = sum(ck*x[..., i]**(k + (0 if bias else 1))
                               for k, ck in enumerate(c))
    elif kind == 'voldev':
        m = hybridized_layers.VolDevCompositionModel()
        x = data(batched, 7)
        want = x[..., 1:].copy()
        want[..., :3] += x[..., :1]
    else:
        pt, mod = kind[2], kind[0]
        od = order[pt]
        n = len(od)
        cls = (hybridized_layers if mod == 'h' else
               transfer_learning).BatchedElasticModel
        m = cls(int(pt), {'E': E, 'v': v}, 'isotropic')
        x = data(batched, n*(2 if double else 1))
        e = x
        if double:
            e = (x[..., n:] - x[..., :n]) if mod == 'h' else (
                x[..., :n] - x[..., n:])
        lam, mu = E*v/((1 + v)*(1 - 2*v)), E/(2*(1 + v))
        tr = sum(e[..., k] for k, (i, j) in enumerate(od) if i == j)
        want = np.stack([2*mu*e[..., k] + (lam*tr if i == j else 0.0)
                         for k, (i, j) in enumerate(od)], -1)
    t.state(item)
    t.transition()
    if not same(evaluate(m, x, t, dict(layer=item)), want):
        t.fail(f'layer:{kind}', 'wrong layer output', dict(layer=item))
    if kind == 'voldev':
        # as a part of a hybrid model: twice the same result
        with Scratch() as d:
            hyb = HybridModel(7, 6, {'vd': dict(
                hyb_model=m, hyb_indices=(0, 0), is_input_residual=False),
                'vd2': dict(hyb_model=m, hyb_indices=(1, 0),
                            is_input_residual=False)},
                d, 'hyb', 'additive', is_save_model_init_file=False)
            if not same(evaluate(hyb, x, t, dict(layer=item)), 2*want):
                t.fail('layer:hybrid', 'parts influence each other',
                       dict(layer=item))


def gru_part(item, t):
    """GRU followed by an elastic layer fed with the residual input."""
    batched, src, L = item
    torch.set_default_dtype(torch.float64)
    with Scratch() as d:
        g = set_hybridized_model(
            GRURNNModel, (0, 0), dict(
                n_features_in=3, n_features_out=3, hidden_layer_size=4,
                model_directory=d, n_recurrent_layers=L,
                gru_model_source=src))
        el = set_hybridized_model(
            hybridized_layers.BatchedElasticModel, (0, 1),
            dict(problem_type=1, elastic_properties={'E': 100.0, 'v': 0.2},
                 elastic_symmetry='isotropic'), is_input_residual=True)
        x = data(batched, 3)
        m = HybridModel(3, 3, {'el': el, 'gru': g}, d, 'hyb',
                        is_save_model_init_file=False)
        y = evaluate(m, x, t, dict(item=item))
        X = torch.tensor(x)
        with torch.no_grad():
            p = g['hyb_model'](X)[0]
            w = el['hyb_model'](X - p).numpy()
        t.state(item)
        t.transition()
        if not same(y, w):
            t.fail('gru', 'hybrid of GRU and elastic layer', dict(item=item))


def parameters(item, t):
    """Parameters and bounds of a hybrid model are those of its parts."""
    order, norms, auto = item
    torch.set_default_dtype(torch.float64)
    rep = dict(item=[str(x) for x in item])
    with Scratch() as d:
        lb = {'a': {'E': (90e3, 130e3), 's0': (500.0, 900.0)},
              'b': {'E': (20e3, 80e3)}, 'c': {'E': (95e3, 125e3)}}
        start = {'a': {'E': 100e3, 's0': 800.0}, 'b': {'E': 60e3},
                 'c': {'E': 110e3}}
        parts = {k: nets.rc(
            d, 'von_mises', 1, learnable={
                p: {'initial_value': start[k][p], 'bounds': b}
                for p, b in lb[k].items()}, name=k, save=False,
            is_normalized_parameters=nm, is_auto_sync_parameters=auto)
            for k, nm in zip('abc', norms)}
        parts['g'] = nets.gru(d, 3, 3, hidden=2, save=False)
        m = nets.hybrid(d, [(k, parts[k], (i, 0), False)
                            for i, k in enumerate(order)], 3, 3,
                        kind='additive', save=False)
        x = 0.02*data(True, 3)
        X = torch.tensor(x)
        for step in range(3):
            if step:
                for k in order:
                    if k == 'g':
                        continue
                    for p, v in parts[k].get_model_parameters().items():
                        f = (0.2, -0.5)[step - 1]
                        lo, hi = lb[k][p]
                        start[k][p] = 0.5*(lo + hi) + 0.5*f*(hi - lo)
                        with torch.no_grad():
                            v.copy_(torch.tensor(
                                f if norms['abc'.index(k)] else start[k][p]))
            if step or not auto:
                m.sync_material_model_parameters()
            want = {f'{k}_{p}': v for k in order if k != 'g'
                    for p, v in start[k].items()}
            got = {k: float(v) for k, v in
                   m.get_detached_model_parameters().items()}
            t.state((item, step))
            t.check(list(got) == list(want) and all(
                abs(got[k] - want[k]) <= 1e-9*want[k] for k in want),
                'parameters', f'{item} {step}: parameters {got}, expected '
                f'{want}', rep)
            wb = {f'{k}_{p}': b for k in order if k != 'g'
                  for p, b in lb[k].items()}
            gb = {k: tuple(float(z) for z in v) for k, v in
                  m.get_model_parameters_bounds().items()}
            t.check(gb == wb, 'parameters', f'{item} {step}: bounds {gb}, '
                    f'expected {wb}', rep)
            # the response is that of models built with these values
            ref = 0.0
            with torch.no_grad():
                for k in order:
                    if k == 'g':
                        y = parts[k](X)[0]
                    else:
                        y = nets.rc(d, 'von_mises', 1, learnable={
                            p: {'initial_value': v, 'bounds': lb[k][p]}
                            for p, v in start[k].items()}, name='ref',
                            save=False)(X)
                        y = y[0] if isinstance(y, tuple) else y
                    ref = ref + y
            y = evaluate(m, x, t, dict(item=item))
            t.transition()
            t.check(np.allclose(y, ref.numpy(), rtol=1e-8, atol=1e-8),
                    'parameters', f'{item} {step}: response is not that of '
                    f'the parameters {want}', rep)


def dispatch(item, t):
    return globals()[item[0]](item[1], t)


def main(chk):
    declarations(chk)
    grid = list(itertools.product((0, 1, 3), (0, 1, 2)))
    items = []
    for n in (1, 2, 3):
        for pl in itertools.product(grid, repeat=n):
            # placements up to relabelling are covered by permutations
            if n == 3 and not THOROUGH and list(pl) != sorted(pl):
                continue
            items.append(('assignments', pl))
    if THOROUGH:
        items += [('assignments', pl) for pl in
                  itertools.combinations_with_replacement(grid[:6], 4)]
    fl = list(itertools.product((False, True), repeat=2))
    for a, b in itertools.product(fl, fl):
        for kinds in itertools.product(('std', 'mm'), repeat=2):
            for own, res in itertools.product((False, True), repeat=2):
                items.append(('normalised', ((a, b), kinds, own, res)))
    for k in ('h-1', 'h-4', 't-1', 't-4', 'voldev', 'poly1b', 'poly2b',
              'poly3n', 'poly1n'):
        for b, dbl in itertools.product((True, False), repeat=2):
            items.append(('layers', (k, b, dbl)))
    items += [('gru_part', i) for i in itertools.product(
        (True, False), ('torch', 'custom'), (1, 2))]
    for n in (1, 2, 3):
        for order in itertools.permutations('abgc'[:n + 1]):
            for norms in itertools.product((True, False), repeat=3):
                if any(norms['abc'.index(k)] for k in 'abc'
                       if k not in order):
                    continue
                items += [('parameters', (order, norms, auto))
                          for auto in (True, False)]
    chk.pmap(dispatch, items)


with quiet():
    chk.run('hybrid', main)
chk.finish()
