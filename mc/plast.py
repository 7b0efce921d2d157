"""Reference semantics of the constitutive models (numpy, independent of the
code under test) and conversions of its state variables.

The reference does not solve anything: it states what a converged update has
to satisfy (yield condition, flow rule, hardening, elastic law), which makes
the update unique, and is evaluated on the states returned by the real code.
"""
import math

import numpy as np
import torch

O3 = ('11', '22', '33', '12', '23', '13')
O2 = ('11', '22', '12')
R2 = math.sqrt(2.0)
I3 = np.eye(3)


def order(problem_type):
    return O2 if problem_type == 1 else O3


def from_mf(v, problem_type, v33=0.0):
    """3x3 tensor from Kelvin components."""
    v = np.asarray(v, dtype=float).reshape(-1)
    t = np.zeros((3, 3))
    for x, c in zip(v, order(problem_type)):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        t[i, j] = t[j, i] = x if i == j else x/R2
    if problem_type == 1:
        t[2, 2] = v33
    return t


def to_mf(t, problem_type):
    return np.array([t[int(c[0]) - 1, int(c[1]) - 1]
                     * (1.0 if c[0] == c[1] else R2)
                     for c in order(problem_type)])


def num(x):
    if isinstance(x, torch.Tensor):
        return float(x.detach().reshape(-1)[0])
    return float(x)


def arr(x):
    return x.detach().double().numpy() if isinstance(x, torch.Tensor) \
        else np.asarray(x, dtype=float)


def view(state, problem_type):
    """Plain 3D view of a state variables dictionary."""
    s33 = {k: num(state[k + '_33']) if k + '_33' in state else 0.0
           for k in ('e_strain', 'stress', 'back_stress')}
    out = {k: from_mf(arr(state[k + '_mf']), problem_type, s33[k])
           for k in ('e_strain', 'stress', 'back_stress')
           if k + '_mf' in state}
    out['strain'] = from_mf(arr(state['strain_mf']), problem_type)
    out['acc'] = num(state['acc_p_strain']) if 'acc_p_strain' in state \
        else 0.0
    for k in ('is_plast', 'is_su_fail', 'is_apex_return'):
        out[k] = bool(state[k]) if k in state else False
    return out


def dev(t):
    return t - np.trace(t)/3*I3


class Law:

    def __init__(self, kind, par):
        self.kind = 'linear' if kind == 'perfect' else kind
        self.par = {k: v if k == 'hardening_points' else num(v)
                    for k, v in par.items()}

    def __call__(self, p):
        p = max(p, 0.0)
        q = self.par
        if self.kind == 'linear':
            return q['s0'] + q['a']*p
        if self.kind == 'nadai_ludwik':
            return q['s0'] + q['a']*(p + q['ep0'])**q['b']
        pts = arr(q['hardening_points'])
        return float(np.interp(p, pts[:, 0], pts[:, 1]))


class Reference:
    """What an update of a model must satisfy."""

    def __init__(self, name, par, hard='nadai_ludwik', kin='linear'):
        self.name = name.replace('_vmap', '')
        self.par = par
        E, v = num(par['E']), num(par['v'])
        self.K, self.G = E/3/(1 - 2*v), E/2/(1 + v)
        if 'hardening_parameters' in par:
            self.hard = Law(hard, par['hardening_parameters'])
        if self.name == 'von_mises_mixed':
            self.kin = Law(kin, par['kinematic_hardening_parameters'])
        if self.name == 'drucker_prager':
            self.xi = num(par['yield_cohesion_parameter'])
            self.etay = num(par['yield_pressure_parameter'])
            self.etaf = num(par['flow_pressure_parameter'])
        if self.name == 'lou_zhang_yoon':
            self.yl = [Law('linear', par[f'{k}_hardening_parameters'])
                       for k in 'abcd']
            self.assoc = par['is_associative_hardening']

    def elastic(self, e):
        return self.K*np.trace(e)*I3 + 2*self.G*dev(e)

    def lou_abcd(self, acc):
        return [y(acc) for y in self.yl]

    def lou_w5(self, s, acc):
        a, b, c, d = self.lou_abcd(acc)
        t = dev(s)
        j2, j3 = 0.5*np.sum(t*t), np.linalg.det(t)
        return math.sqrt(max(j2**3 - c*j3**2, 0.0)) - d*j3, j2, j3, t

    def yield_value(self, s, acc, back=None):
        """Yield function relative to the current strength."""
        sy = self.hard(acc)
        if self.name.startswith('von_mises'):
            t = dev(s) - (0 if back is None else back)
            return (math.sqrt(1.5)*np.linalg.norm(t) - sy)/sy
        if self.name == 'drucker_prager':
            t = dev(s)
            return (np.linalg.norm(t)/R2 + self.etay*np.trace(s)/3
                    - self.xi*sy)/sy
        a, b, c, d = self.lou_abcd(acc)
        w5 = self.lou_w5(s, acc)[0]
        return (a*(b*np.trace(s) + max(w5, 0.0)**(1/3)) - sy)/sy

    def flow(self, s, acc, back=None):
        """Plastic flow direction (unit multiplier) at a stress."""
        if self.name.startswith('von_mises'):
            t = dev(s) - (0 if back is None else back)
            return math.sqrt(1.5)*t/np.linalg.norm(t)
        if self.name == 'drucker_prager':
            t = dev(s)
            return t/(R2*np.linalg.norm(t)) + self.etaf/3*I3
        a, b, c, d = self.lou_abcd(acc)
        w5, j2, j3, t = self.lou_w5(s, acc)
        dj3 = t@t - 2/3*j2*I3
        w4 = j2**3 - c*j3**2
        dw5 = 0.5/math.sqrt(w4)*(3*j2**2*t - 2*c*j3*dj3) - d*dj3
        return a*(b*I3 + dw5/3*w5**(-2/3))

    def hardening_rate(self, n):
        """Increase of accumulated plastic strain for a unit multiplier."""
        if self.name == 'drucker_prager':
            return self.xi
        if self.name == 'lou_zhang_yoon' and not self.assoc:
            return math.sqrt(2/3)*np.linalg.norm(n)
        return 1.0


def check_update(ref, old, inc, new, tol=None):
    """List of (what, detail) in which an update old -> new under the strain
    increment (3x3) breaks the reference; both states as given by view()."""
    t = dict(yield_=3e-6, stress=1e-9, strain=1e-9, flow=2e-6)
    t.update(tol or {})
    bad = []
    e_tr = old['e_strain'] + inc
    scale = max(np.abs(e_tr).max(), 1e-4)
    s_scale = 2*ref.G*scale + ref.K*abs(np.trace(e_tr)) + 1.0

    def differ(a, b, tol, sc):
        d = np.abs(np.asarray(a) - np.asarray(b)).max()
        return not d <= tol*sc

    total = old['strain'] + inc
    if differ(new['strain'], total, t['strain'],
              max(np.abs(total).max(), scale)):
        bad.append(('total-strain', f'{new["strain"]} expected {total}'))
    if new['is_su_fail']:
        ok = all(np.isnan(new[k]).any() for k in ('stress', 'e_strain'))
        if not ok or not math.isnan(new['acc']):
            bad.append(('failure-not-marked', 'failed update returns a '
                        'usable state'))
        return bad
    for k in ('stress', 'e_strain', 'acc', 'strain', 'back_stress'):
        if k in new and not np.all(np.isfinite(new[k])):
            bad.append(('not-finite', f'{k} = {new[k]} without failure flag'))
            return bad
    if differ(new['stress'], ref.elastic(new['e_strain']), t['stress'],
              s_scale):
        bad.append(('elastic-law', f'stress {new["stress"]} is not the '
                    'elastic stress of the elastic strain '
                    f'{ref.elastic(new["e_strain"])}'))
    if ref.name == 'elastic':
        if differ(new['e_strain'], e_tr, t['strain'], scale):
            bad.append(('elastic-strain', f'{new["e_strain"]} vs {e_tr}'))
        return bad
    back = new.get('back_stress')
    back_old = old.get('back_stress')
    f_tr = ref.yield_value(ref.elastic(e_tr), old['acc'], back_old)
    f = ref.yield_value(new['stress'], new['acc'], back)
    d_acc = new['acc'] - old['acc']
    d_p = e_tr - new['e_strain']
    if f > t['yield_']:
        bad.append(('yield', f'stress outside the yield surface by {f:.3e}'))
    if d_acc < -1e-10 - t['flow']*scale:
        bad.append(('acc-decreases', f'accumulated plastic strain changes by '
                    f'{d_acc:.3e}'))
    # a trial state at the yield surface within the tolerance may go either way
    if f_tr < 1e-6 - t.get('band', 5e-8) and new['is_plast']:
        bad.append(('plastic-inside', f'plastic step for a trial state inside '
                    f'the yield surface ({f_tr:.3e})'))
    if f_tr > 1e-6 + t.get('band', 5e-8) and not new['is_plast']:
        bad.append(('elastic-outside', 'no plastic flow for a trial state '
                    f'outside the yield surface ({f_tr:.3e})'))
    if not new['is_plast']:
        if differ(d_p, 0*d_p, t['strain'], scale):
            bad.append(('elastic-step', f'elastic strain moved by {d_p}'))
        if abs(d_acc) > 1e-12 + t['strain']*max(old['acc'], scale):
            bad.append(('elastic-step', f'accumulated plastic strain moved '
                        f'by {d_acc:.3e}'))
        if back is not None and differ(back, back_old, t['stress'], s_scale):
            bad.append(('elastic-step', 'back stress moved'))
        return bad
    if abs(f) > t['yield_']:
        bad.append(('consistency', f'plastic step ends off the yield surface '
                    f'by {f:.3e}'))
    apex = np.abs(dev(new['stress'])).max() <= 1e-7*s_scale and \
        ref.name in ('drucker_prager', 'lou_zhang_yoon')
    if apex:
        if ref.name == 'drucker_prager':
            alpha = ref.xi/ref.etaf
            s_tr = ref.elastic(e_tr)
            g = np.trace(d_p)/ref.etaf
            if np.linalg.norm(dev(s_tr))/R2 > ref.G*g*(1 + 1e-4) + 1e-6:
                bad.append(('apex-domain', 'apex return of a state that '
                            'returns to the cone'))
            if new['is_apex_return'] is False:
                bad.append(('apex-flag', 'apex return not flagged'))
        else:
            a, b = ref.lou_abcd(0.0)[:2]
            etay = 3*a*b
            alpha = 2*math.sqrt(3)/3*math.sqrt(1 - etay**2/3)/etay
        if abs(d_acc - alpha*np.trace(d_p)) > t['flow']*max(
                abs(d_acc), scale):
            bad.append(('apex-hardening', f'{d_acc} expected '
                        f'{alpha*np.trace(d_p)}'))
        return bad
    if new['is_apex_return']:
        bad.append(('apex-flag', 'apex return flagged off the apex'))
    n = ref.flow(new['stress'], new['acc'], back)
    mult = d_acc/ref.hardening_rate(n)
    if differ(d_p, mult*n, t['flow'], scale):
        bad.append(('flow', f'plastic strain increment {d_p.tolist()} is not '
                    f'{mult*n}'))
    if back is not None:
        want = back_old + 2/3*(ref.kin(new['acc'])
                               - ref.kin(old['acc']))*n
        if differ(back, want, t['flow'], s_scale):
            bad.append(('back-stress', f'{back.tolist()} expected {want}'))
    return bad


def root(f, hi):
    """Smallest-bracket root of a decreasing function on [0, hi]."""
    lo, a = 0.0, f(0.0)
    b = f(hi)
    while b > 0:
        lo, hi = hi, 2*hi
        b = f(hi)
    x = lo
    for _ in range(200):
        mid = 0.5*(lo + hi)
        y = f(mid)
        if y > 0:
            lo = mid
        else:
            hi = mid
        if hi - lo <= 1e-17 + 2e-16*abs(hi):
            break
    return 0.5*(lo + hi)


def solve(ref, old, inc, force=None):
    """Exact update (von Mises and Drucker-Prager families): the stress and
    the branch taken.  `old` as given by view()."""
    e_tr = old['e_strain'] + inc
    s_tr = ref.elastic(e_tr)
    if ref.name == 'elastic':
        return s_tr, 'elastic'
    acc = old['acc']
    back = old.get('back_stress')
    f = ref.yield_value(s_tr, acc, back)
    if (f <= 1e-6 if force is None else force == 'elastic'):
        return s_tr, 'elastic'
    if ref.name.startswith('von_mises'):
        t = dev(s_tr) - (0 if back is None else back)
        q = math.sqrt(1.5)*np.linalg.norm(t)
        kin = getattr(ref, 'kin', None)
        k0 = kin(acc) if kin else 0.0
        g = root(lambda x: q - 3*ref.G*x - ref.hard(acc + x)
                 - ((kin(acc + x) - k0) if kin else 0.0), q/ref.G)
        n = math.sqrt(1.5)*t/np.linalg.norm(t)
        return s_tr - 2*ref.G*g*n, 'plastic'
    t = dev(s_tr)
    sj = np.linalg.norm(t)/R2
    p = np.trace(s_tr)/3
    g = root(lambda x: sj - ref.G*x + ref.etay*(p - ref.K*ref.etaf*x)
             - ref.xi*ref.hard(acc + ref.xi*x), 1e-3)
    if sj - ref.G*g >= 0:
        return (1 - ref.G*g/sj)*t + (p - ref.K*ref.etaf*g)*I3, 'cone'
    al, be = ref.xi/ref.etaf, ref.xi/ref.etay
    v = root(lambda x: (p - ref.K*x) - ref.hard(acc + al*x)*be, 1e-3)
    return (p - ref.K*v)*I3, 'apex'
