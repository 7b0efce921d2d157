"""Specimens of the material model finder with reference forces."""
import os
import numpy as np
import torch
from mc import specimen as sp, nets, mats, fem
from mc.recurrent import bounds_of
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from material_model_finder.data.specimen_data import SpecimenNumericalData
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState

VALUES = {'elastic': {'E': 90e3, 'v': 0.29},
          'von_mises': {'E': 100e3, 's0': 800.0, 'a': 600.0},
          'drucker_prager': {'E': 105e3, 's0': 750.0}}
SPEC = {'min-max': (([-0.05, -0.03, -0.06], [0.04, 0.05, 0.02]),
                    ([-70.0, -40.0, -50.0], [80.0, 60.0, 55.0])),
        'mean-std': (([0.001, -0.003, 0.002], [0.01, 0.02, 0.015]),
                     ([5.0, -3.0, 1.0], [40.0, 25.0, 30.0]))}
KEYS = {'min-max': ('minimum', 'maximum'), 'mean-std': ('mean', 'std')}


def scaler_kw(kind):
    return dict(scaling_type=kind, scaling_parameters={
        f: {k: torch.tensor(v) for k, v in zip(KEYS[kind], SPEC[kind][i])}
        for i, f in enumerate(('features_in', 'features_out'))})


def to_unit(x, kind):
    a, b = (np.array(v) for v in SPEC[kind][0])
    return -1 + 2*(x - a)/(b - a) if kind == 'min-max' else (x - a)/b


def from_unit(y, kind):
    a, b = (np.array(v) for v in SPEC[kind][1])
    return a + (y + 1)*(b - a)/2 if kind == 'min-max' else a + b*y


def plain(base):
    return base[:-5] if base.endswith('_vmap') else base


def rc_kwargs(base, pt, d, norm):
    n = {1: 3, 4: 6}[pt]
    return dict(
        n_features_in=n, n_features_out=n,
        learnable_parameters={k: {'initial_value': v, 'bounds': bounds_of(v)}
                              for k, v in VALUES[plain(base)].items()},
        material_model_name=base, state_features_out={},
        is_auto_sync_parameters=True, is_check_su_fail=False,
        model_directory=d, is_normalized_parameters=norm,
        is_model_in_normalized=False, is_model_out_normalized=False,
        device_type='cpu')


class Specimen:
    """A finder with its specimen, and the reference forces."""

    def __init__(self, d, mesh, mat, u, r, bc, kind='pointwise', **kw):
        name, pt, X, conn = mesh
        self.mesh, self.pt = mesh, pt
        n_el = len(conn)
        n_gauss = kw.pop('n_gauss', None)
        st = StructureMaterialState('infinitesimal', pt, n_el)
        etypes = {str(i + 1): fem.element(name, n_gauss)
                  for i in range(n_el)}
        ids = list(range(1, n_el + 1))
        os.makedirs(os.path.join(d, 'm'), exist_ok=True)
        md = os.path.join(d, 'm')
        mats_ = mat if isinstance(mat, list) else [mat]
        groups = [ids] if len(mats_) == 1 else [[i] for i in ids]
        self.stress = []
        separate = kw.pop('separate', False)
        for i, (m, g) in enumerate(zip(mats_, groups)):
            if separate:
                md = os.path.join(d, f'm{i + 1}')
                os.makedirs(md, exist_ok=True)
            self.add(st, m, g, etypes, md)
        data = SpecimenNumericalData()
        data.set_specimen_mesh(
            torch.tensor(np.array(X, float)), etypes,
            {str(i + 1): tuple(c) for i, c in enumerate(conn)},
            torch.tensor((bc > 0).astype(int)))
        nt = u.shape[2]
        data.set_specimen_data(
            torch.tensor(u), torch.tensor(r),
            torch.tensor(np.repeat(bc[:, :, None], nt, axis=2)),
            torch.arange(nt, dtype=torch.get_default_dtype()))
        keys = ('force_minimum', 'force_maximum', 'loss_scaling_factor',
                'loss_time_weights')
        set_kw = {k: kw.pop(k) for k in keys if k in kw}
        fd = os.path.join(d, 'f')
        os.makedirs(fd, exist_ok=True)
        self.finder = MaterialModelFinder(
            fd, force_equilibrium_loss_type=kind, **kw)
        self.finder.set_specimen_data(data, st, **set_kw)
        self.state, self.dir, self.data = st, fd, data

    def add(self, st, mat, ids, etypes, md):
        kind = mat.split(':')[0]
        pt = self.pt
        n = {1: 3, 4: 6}[pt]
        if kind in ('rc', 'rcn'):
            base = mat.split(':')[1]
            st.init_elements_model('rc_' + base, mats.parameters(plain(base)),
                                   ids, etypes, rc_kwargs(base, pt, md,
                                                     kind == 'rcn'))
        elif kind == 'gru':
            scal = mat.split(':')[1]
            norm = scal != 'plain'
            st.init_elements_model(
                'gru_material_model', {}, ids, etypes, dict(
                    n_features_in=n, n_features_out=n, hidden_layer_size=4,
                    n_recurrent_layers=1, dropout=0.0, model_directory=md,
                    is_model_in_normalized=norm,
                    is_model_out_normalized=norm,
                    gru_model_source='custom', device_type='cpu',
                    **scaler_kw(scal if norm else 'min-max')))
            m = st.get_elements_material()[str(ids[0])]
            nets.fill(m, 3)
            if not norm:
                # larger inputs, so that the network is not at its bias
                with torch.no_grad():
                    for k, p in m.named_parameters():
                        if 'ih' in k and p.ndim == 2:
                            p *= 30.0
        elif kind == 'hyb':
            scal = mat.split(':')[1]
            norm = scal != 'plain'
            rc = nets.rc(md, 'von_mises_vmap', pt, learnable={
                'E': {'initial_value': 95e3, 'bounds': (50e3, 150e3)}},
                save=False, is_check_su_fail=False)
            gru = nets.gru(md, n, n, hidden=3, seed=5, source='custom',
                           save=False)
            st.init_elements_model(
                'hybrid_material_model', {}, ids, etypes, dict(
                    n_features_in=n, n_features_out=n, hyb_models_dict={
                        'rc': {'hyb_model': rc, 'hyb_indices': (0, 0),
                               'is_input_residual': False},
                        'gru': {'hyb_model': gru, 'hyb_indices': (1, 0),
                                'is_input_residual': False}},
                    hybridization_type='additive', model_directory=md,
                    is_model_in_normalized=norm,
                    is_model_out_normalized=norm, device_type='cpu'))
            if norm:
                from model_architectures.procedures.model_data_scaling \
                    import set_fitted_data_scalers
                kw = scaler_kw(scal)
                set_fitted_data_scalers(
                    st.get_elements_material()[str(ids[0])],
                    kw['scaling_type'], kw['scaling_parameters'])
        elif kind == 'hyb2':
            # two constitutive models, normalised parameters or not
            norms = [c == 'n' for c in mat.split(':')[1]]
            a = nets.rc(md, 'von_mises_vmap', pt, learnable={
                'E': {'initial_value': 95e3, 'bounds': (90e3, 110e3)},
                's0': {'initial_value': 790.0, 'bounds': (750.0, 800.0)}},
                name='a', save=False, is_check_su_fail=False,
                is_normalized_parameters=norms[0])
            b = nets.rc(md, 'drucker_prager_vmap', pt, learnable={
                'E': {'initial_value': 60e3, 'bounds': (20e3, 61e3)}},
                name='b', save=False, is_check_su_fail=False,
                is_normalized_parameters=norms[1])
            g = nets.gru(md, n, n, hidden=3, seed=5, source='custom',
                         save=False)
            st.init_elements_model(
                'hybrid_material_model', {}, ids, etypes, dict(
                    n_features_in=n, n_features_out=n, hyb_models_dict={
                        k: {'hyb_model': m, 'hyb_indices': (c, 0),
                            'is_input_residual': False}
                        for c, (k, m) in enumerate(
                            (('b', b), ('gru', g), ('a', a)))},
                    hybridization_type='additive', model_directory=md,
                    is_model_in_normalized=False,
                    is_model_out_normalized=False, device_type='cpu'))
        elif kind == 'plain':
            base = mat.split(':')[1]
            if '_material_models' in st._modules:
                # documented alternative storage of the material models
                del st._modules['_material_models']
                object.__setattr__(st, '_material_models', {})
            par = mats.parameters(base)
            from mc.recurrent import apply_values
            st.init_elements_model(base, apply_values(base, par,
                                                      VALUES[base]),
                                   ids, etypes)

    def refs(self, mat, elem=1):
        """Reference stress function of a material."""
        kind, arg = mat.split(':')
        if kind not in ('gru', 'hyb'):
            return sp.material_stress(plain(arg), self.pt, VALUES[plain(arg)])
        m = self.state.get_elements_material()[str(elem)]
        pt = self.pt

        def run(path):
            x = sp.comps_of(path, pt)
            if arg != 'plain':
                x = to_unit(x, arg)
            with torch.no_grad():
                y = m(torch.tensor(x))
            y = (y[0] if isinstance(y, tuple) else y).numpy()
            return sp.tensor_of(y if arg == 'plain' else from_unit(y, arg),
                                pt)
        return run


def reference(spec, mesh, mat, u, n_gauss=None):
    paths = sp.strain_paths(mesh, u, n_gauss)
    els = [e for e, _, _ in sp.bmatrices(mesh, n_gauss)]
    if isinstance(mat, list):
        fn = [spec.refs(m, k + 1) for k, m in enumerate(mat)]
        s = [fn[e](p) for e, p in zip(els, paths)]
    else:
        fn = spec.refs(mat)
        s = [fn(p) for p in paths]
    return paths, s, sp.internal_forces(mesh, s, n_gauss)


def close(a, b, scale, tol=1e-7):
    return abs(a - b) <= tol*(abs(scale) + abs(b))


def bc_of(mesh, which, kind):
    n, nd = np.array(mesh[2]).shape
    bc = np.zeros((n, nd), int)
    if which == 'some':
        for i in range(n):
            for j in range(nd):
                if (2*i + j) % 3 == 0:
                    bc[i, j] = 1
    elif which == 'all':
        bc[:] = 1
    if kind == 'dirichlet_sets':
        # sets: per dimension, two sets (labels not contiguous)
        for i in range(n):
            for j in range(nd):
                if bc[i, j]:
                    bc[i, j] = 1 + 3*j + (i % 2)
    return bc


def reaction(f, which):
    r = np.zeros_like(f)
    if which == 'zero':
        return r
    r = f.copy()
    if which == 'off':
        n = np.arange(f.size).reshape(f.shape)
        r = r + 0.1*np.abs(f).max()*np.cos(1.0 + n)
    return r
