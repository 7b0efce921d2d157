"""Small models of the three architectures used by the checks."""
import torch

from mc import mats


def fill(model, seed):
    """Deterministic, distinct parameter values (no random numbers)."""
    k = 0
    with torch.no_grad():
        for p in model.parameters():
            n = p.numel()
            v = torch.tensor([(((k + i)*7919 + seed*104729) % 1009)/1009
                              - 0.5 for i in range(n)], dtype=p.dtype)
            p.copy_(v.reshape(p.shape))
            k += n
    return model


def gru(directory, n_in=2, n_out=1, hidden=3, layers=1, seed=1, norm=(0, 0),
        source='torch', name='net', save=True):
    from model_architectures.rnn_base_model.model.gru_model import \
        GRURNNModel
    m = GRURNNModel(n_in, n_out, hidden, directory, model_name=name,
                    is_model_in_normalized=bool(norm[0]),
                    is_model_out_normalized=bool(norm[1]),
                    n_recurrent_layers=layers, gru_model_source=source,
                    is_save_model_init_file=save)
    return fill(m, seed)


def learnable_E(value=100e3, lo=80e3, hi=140e3):
    return {'E': {'initial_value': value, 'bounds': (lo, hi)}}


def rc(directory, material='von_mises', problem_type=4, learnable=None,
       name='net', save=True, mat_kw=None, state=None, **kw):
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    n = {1: 3, 4: 6}[problem_type]
    state = dict(state or {})
    return RecurrentConstitutiveModel(
        n, n + sum(state.values()),
        learnable_E() if learnable is None else learnable,
        'infinitesimal', problem_type, material,
        mats.parameters(material, **(mat_kw or {})), directory,
        model_name=name, state_features_out=state,
        is_save_model_init_file=save, **kw)


def hybrid(directory, parts, n_in, n_out, kind='identity', name='net',
           norm=(0, 0), save=True):
    """parts: list of (name, model, (channel, layer), residual)."""
    from model_architectures.hybrid_base_model.model.hybrid_model import \
        HybridModel
    d = {}
    for nm, mod, idx, res in parts:
        d[nm] = {'hyb_model': mod, 'hyb_indices': idx,
                 'is_input_residual': res}
    return HybridModel(n_in, n_out, d, directory, model_name=name,
                       hybridization_type=kind,
                       is_model_in_normalized=bool(norm[0]),
                       is_model_out_normalized=bool(norm[1]),
                       is_save_model_init_file=save)


def scaler(spec):
    """spec: (kind, parameter a, parameter b), lists per feature."""
    from utilities.data_scalers import (TorchMinMaxScaler,
                                        TorchStandardScaler)
    kind, a, b = spec
    a, b = torch.tensor(a), torch.tensor(b)
    if kind == 'min-max':
        return TorchMinMaxScaler(len(a), a, b)
    return TorchStandardScaler(len(a), a, b)


def set_scalers(model, spec_in, spec_out):
    from model_architectures.procedures.model_data_scaling import \
        set_data_scalers
    set_data_scalers(model, scaler(spec_in), scaler(spec_out))


def scale(spec, x):
    kind, a, b = spec
    a, b = (torch.tensor(q, dtype=x.dtype) for q in (a, b))
    if kind == 'min-max':
        return (x - a)/(b - a)*2 - 1
    return (x - a)/b


def unscale(spec, x):
    kind, a, b = spec
    a, b = (torch.tensor(q, dtype=x.dtype) for q in (a, b))
    if kind == 'min-max':
        return (x + 1)/2*(b - a) + a
    return x*b + a
