"""Materials used by the constitutive checks."""
import numpy as np
import math

import torch


def hardening(kind, scale=1.0):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    law = get_hardening_law('linear' if kind == 'perfect' else kind)
    if kind == 'linear':
        par = {'s0': 500.0*scale, 'a': 800.0*scale}
    elif kind == 'perfect':
        par = {'s0': 500.0*scale, 'a': 0.0}
    elif kind == 'nadai_ludwik':
        par = {'s0': 500.0*scale, 'a': 700.0*scale, 'b': 0.5, 'ep0': 1e-5}
    else:
        par = {'hardening_points': torch.tensor(
            [[0.0, 500.0*scale], [0.004, 560.0*scale],
             [0.012, 600.0*scale], [0.05, 620.0*scale]])}
    return law, par


def elastic_parameters(E=110e3, v=0.33):
    return {'elastic_symmetry': 'isotropic', 'E': E, 'v': v,
            'euler_angles': (0.0, 0.0, 0.0)}


def parameters(name, hard='nadai_ludwik', E=110e3, v=0.33, friction=10.0,
               kin='linear', unit=1.0):
    """Material parameters of a model (fresh objects on every call), with
    the stresses measured in MPa (unit=1) or another unit (GPa: 1e-3)."""
    base = name.replace('_vmap', '')
    p = elastic_parameters(E*unit, v)
    if base == 'elastic':
        return p
    if base == 'von_mises':
        p['hardening_law'], p['hardening_parameters'] = hardening(hard,
                                                                  unit)
    elif base == 'von_mises_mixed':
        p['hardening_law'], p['hardening_parameters'] = hardening(hard,
                                                                  unit)
        from simulators.fetorch.material.models.standard.hardening import \
            get_hardening_law
        if kin == 'linear':
            p['kinematic_hardening_law'] = get_hardening_law('linear')
            p['kinematic_hardening_parameters'] = {'s0': 0.0,
                                                   'a': 900.0*unit}
        else:
            p['kinematic_hardening_law'] = get_hardening_law('nadai_ludwik')
            p['kinematic_hardening_parameters'] = {
                's0': 0.0, 'a': 400.0*unit, 'b': 0.6, 'ep0': 1e-5}
    elif base == 'drucker_prager':
        fr = math.radians(friction)
        coh = (2.0/math.sqrt(3))*math.cos(fr)
        p['yield_cohesion_parameter'] = coh
        p['yield_pressure_parameter'] = (3.0/math.sqrt(3))*math.sin(fr)
        p['flow_pressure_parameter'] = (3.0/math.sqrt(3))*math.sin(fr)
        p['hardening_law'], p['hardening_parameters'] = hardening(
            hard, unit/coh)
    elif base == 'lou_zhang_yoon':
        from simulators.fetorch.material.models.standard.hardening import \
            get_hardening_law
        p['hardening_law'], p['hardening_parameters'] = hardening(hard,
                                                                  unit)
        for k, s0 in (('a', 1.0), ('b', 0.05), ('c', 1.0), ('d', 0.5)):
            p[f'{k}_hardening_law'] = get_hardening_law('linear')
            p[f'{k}_hardening_parameters'] = {'s0': s0, 'a': 0.0}
        p['is_associative_hardening'] = True
    else:
        raise ValueError(name)
    return p


def model_class(name):
    if name == 'elastic':
        from simulators.fetorch.material.models.standard.elastic import \
            Elastic as C
    elif name == 'von_mises':
        from simulators.fetorch.material.models.standard.von_mises import \
            VonMises as C
    elif name == 'von_mises_mixed':
        from simulators.fetorch.material.models.standard.von_mises_mixed \
            import VonMisesMixed as C
    elif name == 'drucker_prager':
        from simulators.fetorch.material.models.standard.drucker_prager \
            import DruckerPrager as C
    elif name == 'lou_zhang_yoon':
        from simulators.fetorch.material.models.standard.lou import \
            LouZhangYoon as C
    elif name == 'von_mises_vmap':
        from simulators.fetorch.material.models.vmap.von_mises import \
            VonMisesVMAP as C
    elif name == 'von_mises_mixed_vmap':
        from simulators.fetorch.material.models.vmap.von_mises_mixed \
            import VonMisesMixedVMAP as C
    elif name == 'drucker_prager_vmap':
        from simulators.fetorch.material.models.vmap.drucker_prager \
            import DruckerPragerVMAP as C
    elif name == 'lou_zhang_yoon_vmap':
        from simulators.fetorch.material.models.vmap.lou import \
            LouZhangYoonVMAP as C
    else:
        raise ValueError(name)
    return C


def make(name, problem_type, **kw):
    return model_class(name)('infinitesimal', problem_type,
                             parameters(name, **kw))


def lou_convex(c, d):
    """Convexity of the Lou surface: g + g'' >= 0 on the deviatoric plane.

    Returns a margin (positive: convex).
    """
    th = np.linspace(0.0, 2*np.pi, 20001)
    x = np.cos(3*th)
    a2 = 4.0/27.0
    with np.errstate(all='ignore'):
        u = np.sqrt(1.0 - a2*c*x**2) - d*np.sqrt(a2)*x
        g = np.cbrt(u)
    if not np.all(np.isfinite(g)) or u.min() <= 0.0:
        return -1.0
    h = th[1] - th[0]
    g2 = (np.roll(g[:-1], -1) - 2*g[:-1] + np.roll(g[:-1], 1))/h**2
    return float((g[:-1] + g2).min())
