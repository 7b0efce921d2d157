"""Recurrent constitutive models and their step-by-step reference."""
import numpy as np
import torch

from mc import mats, plast
from mc.increments import LETTERS

ORDER = {1: ((0, 0), (1, 1), (0, 1)),
         4: ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))}


def apply_values(base, par, values):
    """Material parameters with the given learnable values."""
    for k, v in values.items():
        if k in ('s0', 'a', 'b'):
            par['hardening_parameters'][k] = v
        elif k.startswith('kin_'):
            par['kinematic_hardening_parameters'][k[4:]] = v
        elif k.startswith('yield_') and base == 'lou_zhang_yoon':
            par[f'{k[6]}_hardening_parameters'][k[8:]] = v
        elif k == 'friction_angle':
            par['yield_cohesion_parameter'] = 2/np.sqrt(3)*np.cos(v)
            par['yield_pressure_parameter'] = np.sqrt(3)*np.sin(v)
            par['flow_pressure_parameter'] = np.sqrt(3)*np.sin(v)
        else:
            par[k] = v
    return par


def comps(t, pt):
    t = np.asarray(t)
    return [float(t[i, j]) for i, j in ORDER[pt]]


class Oracle:
    """Words evaluated one increment at a time by the per-point model."""

    def __init__(self, base, pt, values, **mat):
        par = apply_values(base, mats.parameters(base, **mat), values)
        self.m = mats.model_class(base)('infinitesimal', pt, par)
        self.pt = pt
        self.state = {(): self.m.state_init()}
        self.out = {(): self.row(None)}

    def row(self, st):
        n = len(ORDER[self.pt])
        if st is None:
            return np.zeros(n), {'acc_p_strain': np.zeros(1),
                                 'e_strain_mf': np.zeros(n),
                                 'strain_mf': np.zeros(n)}

        def tens(v):
            return np.array(comps(plast.from_mf(plast.arr(v), self.pt),
                                  self.pt))
        f = {'e_strain_mf': tens(st['e_strain_mf']),
             'strain_mf': tens(st['strain_mf'])}
        if 'acc_p_strain' in st:
            f['acc_p_strain'] = np.array([plast.num(st['acc_p_strain'])])
        return tens(st['stress_mf']), f

    def step(self, w):
        if w in self.state:
            return self.state[w] is not None
        if not self.step(w[:-1]):
            return False
        n = 2 if self.pt == 1 else 3
        inc = torch.tensor(LETTERS[w[-1]][:n, :n])
        st, _ = self.m.state_update(inc, self.state[w[:-1]])
        if plast.view(st, self.pt)['is_su_fail']:
            self.state[w] = None
            return False
        self.state[w] = st
        self.out[w] = self.row(st)
        return True

    def ok(self, w):
        return self.step(w) and self.state[w] is not None

    def path(self, w, feats):
        rows = []
        for i in range(len(w) + 1):
            s, f = self.out[w[:i]]
            rows.append(np.concatenate([s] + [f[k] for k in feats]))
        return np.array(rows)


def strains(w, pt, start=0.0):
    """Strain path of a word (one more row than letters)."""
    n = 2 if pt == 1 else 3
    e = np.full((n, n), start)
    e[0, 0] = -start
    rows = [comps(e, pt)]
    for c in w:
        e = e + LETTERS[c][:n, :n]
        rows.append(comps(e, pt))
    return rows


def batch_of(ws, pt, start=0.0):
    return torch.tensor([strains(w, pt, start) for w in ws]).permute(
        1, 0, 2).contiguous()


def bounds_of(v):
    return (0.5*v - 0.01, 1.5*v + 0.02)


def build(name, pt, values, d, feats=(), norm=False, auto=True, check=True,
          bounds=None, init_file=False, **mat):
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    n = len(ORDER[pt])
    size = {'acc_p_strain': 1, 'e_strain_mf': n, 'strain_mf': n}
    par = mats.parameters(name, **mat)
    return RecurrentConstitutiveModel(
        n, n + sum(size[k] for k in feats),
        {k: {'initial_value': v,
             'bounds': bounds[k] if bounds else bounds_of(v)}
         for k, v in values.items()},
        'infinitesimal', pt, name, par, d, 'model',
        is_auto_sync_parameters=auto, is_check_su_fail=check,
        state_features_out={k: size[k] for k in feats},
        is_normalized_parameters=norm, is_save_model_init_file=init_file)
