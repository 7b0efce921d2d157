"""C19: vectorisable GRU against the defining equations and torch's GRU."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, Scratch, quiet
import numpy as np
import torch
from model_architectures.rnn_base_model.custom.gru_vmap import GRU, GRUCell
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.procedures.model_state_files import \
    load_model_state, save_model_state

chk = Check('C19')
TOL = 1e-10


def fill(module):
    """Deterministic, distinct weights."""
    with torch.no_grad():
        for k, p in enumerate(module.parameters()):
            i = torch.arange(p.numel(), dtype=p.dtype)
            p.copy_((torch.sin(1.3*i + 0.7*k + 0.2)*0.9).reshape(p.shape))


def weights(gru, n_layers, bias):
    """Weights per layer, in the usual order (input, hidden, biases)."""
    ps = [p.detach().numpy() for p in gru.parameters()]
    n = 4 if bias else 2
    if len(ps) != n*n_layers:
        return None
    return [ps[n*i:n*i + n] for i in range(n_layers)]


def sig(x):
    return 1.0/(1.0 + np.exp(-x))


def reference(ws, x, h0):
    """Gated recurrent unit, equation by equation."""
    H = h0.shape[1]
    h = [h0[i].copy() for i in range(len(ws))]
    out = []
    for xt in x:
        v = xt
        for i, w in enumerate(ws):
            bi = w[2] if len(w) == 4 else np.zeros(3*H)
            bh = w[3] if len(w) == 4 else np.zeros(3*H)
            gi = w[0] @ v + bi
            gh = w[1] @ h[i] + bh
            r = sig(gi[:H] + gh[:H])
            z = sig(gi[H:2*H] + gh[H:2*H])
            n = np.tanh(gi[2*H:] + r*gh[2*H:])
            h[i] = (1 - z)*n + z*h[i]
            v = h[i]
        out.append(v)
    return np.array(out).reshape(len(x), H), np.array(h)


def letters(n_in):
    return [np.array([0.8*(-1)**j for j in range(n_in)]),
            np.array([0.3*(j + 1) for j in range(n_in)]), np.zeros(n_in)]


def hidden(L, B, H, kind):
    if kind == 'zero':
        return np.zeros((L, B, H))
    return np.cos(np.arange(L*B*H)*1.1).reshape(L, B, H)*0.7


def explore(item, t):
    n_in, H, L, bias = item
    torch.set_default_dtype(torch.float64)
    g = GRU(n_in, H, num_layers=L, bias=bias)
    std = max(abs(float(p.detach().abs().max())) for p in g.parameters())
    if std > 1/np.sqrt(H) + 1e-12:
        t.fail('init', f'initial weight {std}', dict(item=item))
    fill(g)
    ws = weights(g, L, bias)
    if ws is None:
        t.fail('parameters', 'unexpected number of parameters',
               dict(item=item))
        return
    ref_gru = torch.nn.GRU(n_in, H, num_layers=L, bias=bias)
    with torch.no_grad():
        for p, q in zip(ref_gru.parameters(), g.parameters()):
            p.copy_(q)
    A = letters(n_in)
    T = 4 if THOROUGH else 3
    table = {}
    ident = dict(n_in=n_in, hidden=H, layers=L, bias=bias)

    def compare(got, want, how, **kw):
        t.trace()
        for a, b, nm in zip(got, want, ('output', 'hidden')):
            a = a.detach().numpy()
            if a.shape != b.shape or not np.allclose(a, b, rtol=0, atol=TOL):
                t.fail(f'{how}:{nm}', f'{how}: {nm} differs',
                       dict(ident, **kw))
                return False
        return True

    for n in range(1, T + 1):
        words = list(itertools.product(range(3), repeat=n))
        for w in words:
            x = np.array([A[c] for c in w])
            for kind in ('zero', 'given'):
                h0 = hidden(L, 1, H, kind)
                o, h = reference(ws, x, h0[:, 0])
                table[w, kind] = (o, h)
                t.state((item, w, kind))
                t.transition(n)
                hx = torch.tensor(h0[:, 0])
                X = torch.tensor(x)
                compare(g(X, hx), (o, h), 'unbatched', word=w, hx=kind)
                compare(g(X[:, None], hx[:, None]), (o[:, None], h[:, None]),
                        'batch of one', word=w, hx=kind)
                if kind == 'zero':
                    compare(g(X), (o, h), 'default state', word=w)
                    compare(g(X[:, None]), (o[:, None], h[:, None]),
                            'default state batched', word=w)
                # in two parts
                for k in range(1, n):
                    o1, h1 = g(X[:k], hx)
                    o2, h2 = g(X[k:], h1)
                    compare((torch.cat((o1, o2)), h2), (o, h), 'two parts',
                            word=w, hx=kind, split=k)
        # all words of this length in one batch, different initial states
        B = len(words)
        x = np.array([[A[c] for c in w] for w in words]).transpose(1, 0, 2)
        X = torch.tensor(x)
        X0 = X.clone()
        h0 = hidden(L, B, H, 'given')
        want = [reference(ws, x[:, b], h0[:, b]) for b in range(B)]
        want = (np.stack([o for o, _ in want], 1),
                np.stack([h for _, h in want], 1))
        HX = torch.tensor(h0)
        HX0 = HX.clone()
        compare(g(X, HX), want, 'batched', length=n)
        rev = g(X.flip(1), HX.flip(1))
        compare((rev[0].flip(1), rev[1].flip(1)), want, 'batch reversed',
                length=n)
        compare(g(X), (np.stack([table[w, 'zero'][0] for w in words], 1),
                       np.stack([table[w, 'zero'][1] for w in words], 1)),
                'batched default', length=n)
        compare(torch.vmap(g, in_dims=(1, 1), out_dims=(1, 1))(X, HX), want,
                'vmap', length=n)
        if not torch.equal(X, X0) or not torch.equal(HX, HX0):
            t.fail('input', 'input modified', ident)
        # torch's own implementation, with gradients
        res = []
        for net in (g, ref_gru):
            net.zero_grad()
            xx = X.clone().requires_grad_(True)
            hh = HX.clone().requires_grad_(True)
            o, h = net(xx, hh)
            (torch.sin(o).sum() + (h*h).sum()).backward()
            res.append((o, h, xx.grad, hh.grad)
                       + tuple(p.grad for p in net.parameters()))
        for a, b in zip(*res):
            if a is None or a.shape != b.shape or \
                    not torch.allclose(a, b, rtol=0, atol=1e-9):
                t.fail('torch', 'differs from the standard GRU', ident)
                break
        t.trace(2)
    # single cell
    cell = GRUCell(n_in, H, bias=bias)
    fill(cell)
    ps = [p.detach().numpy() for p in cell.parameters()]
    h0 = hidden(1, 3, H, 'given')[0]
    want = [reference([ps], [a], h[None])[1][0] for a, h in zip(A, h0)]
    zero = [reference([ps], [a], 0*h[None])[1][0] for a, h in zip(A, h0)]
    X, HX = torch.tensor(np.array(A)), torch.tensor(h0)
    compare((cell(X, HX),), (np.array(want),), 'cell')
    compare((cell(X),), (np.array(zero),), 'cell default')
    for i in range(3):
        compare((cell(X[i], HX[i]),), (want[i],), 'cell alone')
        compare((cell(X[i]),), (zero[i],), 'cell alone default')


def model(item, t):
    """GRU model: both sources agree, also after saving and loading."""
    n_in, n_out, H, L, batched, given = item
    torch.set_default_dtype(torch.float64)
    x = torch.tensor(np.sin(np.arange(5*4*n_in)*0.9).reshape(5, 4, n_in))
    h = torch.tensor(hidden(L, 4, H, 'given')) if given else None
    if not batched:
        x = x[:, 1]
        h = None if h is None else h[:, 1]
    outs = {}
    with Scratch() as d:
        for src in ('torch', 'custom'):
            for how in ('new', 'loaded', 'file'):
                if how == 'new':
                    m = GRURNNModel(n_in, n_out, H, d, model_name='gru-x',
                                    n_recurrent_layers=L,
                                    gru_model_source=src)
                    fill(m)
                    save_model_state(m)
                elif how == 'loaded':
                    m = GRURNNModel.init_model_from_file(model_directory=d)
                    load_model_state(m)
                else:
                    m = GRURNNModel.init_model_from_file(
                        model_init_file_path=f'{d}/model_init_file.pkl')
                    load_model_state(m)
                m.eval()
                t.transition()
                o, hn = m(x.clone()) if h is None else m(x.clone(), h.clone())
                outs[src, how] = (o.detach().numpy(), hn.detach().numpy())
                t.trace()
                t.state(item + (src, how))
        ws = weights(m._gru_rnn_model, L, True) if hasattr(
            m, '_gru_rnn_model') else None
        base = outs['torch', 'new']
        want_shape = ((5, 4, n_out), (L, 4, H)) if batched else (
            (5, n_out), (L, H))
        if (base[0].shape, base[1].shape) != want_shape:
            t.fail('model:shape', f'{base[0].shape} {base[1].shape}',
                   dict(item=item))
        for k, v in outs.items():
            if any(a.shape != b.shape or not np.allclose(a, b, atol=TOL)
                   for a, b in zip(v, base)):
                t.fail('model:' + '-'.join(k), 'model output differs',
                       dict(item=item, which=k))
        # independent evaluation
        if ws is not None:
            lin = [p for k, p in m.named_parameters() if 'linear' in k]
            W, b = (p.detach().numpy() for p in lin)
            X = x.numpy() if batched else x.numpy()[:, None]
            H0 = np.zeros((L, X.shape[1], H)) if h is None else (
                h.numpy() if batched else h.numpy()[:, None])
            for j in range(X.shape[1]):
                o, hn = reference(ws, X[:, j], H0[:, j])
                a = base[0][:, j] if batched else base[0]
                c = base[1][:, j] if batched else base[1]
                if not np.allclose(o @ W.T + b, a, atol=TOL) or \
                        not np.allclose(hn, c, atol=TOL):
                    t.fail('model:value', 'model output is not the GRU '
                           'followed by the linear layer', dict(item=item))
                    break


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    items = [('explore',) + i for i in itertools.product(
        (1, 2, 3), (1, 2, 3), (1, 2, 3), (True, False))]
    items += [('model',) + i for i in itertools.product(
        (1, 3), (1, 2), (1, 4), (1, 2, 3), (True, False), (True, False))]
    chk.pmap(dispatch, items)


with quiet():
    chk.run('gru', main)
chk.finish()
