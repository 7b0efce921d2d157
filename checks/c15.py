"""C15: trial and converged material states of a structure."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, Scratch, quiet
import torch
from mc import fem, mats
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState

chk = Check('C15')


def state(tag, n=2):
    """Element state: integration points with distinct tensors."""
    return {str(i): {'e_strain_mf': torch.full((3,), 10.0*tag + i),
                     'acc_p_strain': torch.tensor(1.0*tag + 0.1*i),
                     'is_plast': bool(tag % 2)}
            for i in range(1, n + 1)}


def frozen(st):
    if isinstance(st, dict):
        return tuple(sorted((k, frozen(v)) for k, v in st.items()))
    if isinstance(st, torch.Tensor):
        return tuple(st.reshape(-1).tolist())
    return st


def spoil(st):
    """Modify a state dictionary at every level."""
    if st is None:
        return
    for k in list(st):
        for q, v in st[k].items():
            if isinstance(v, torch.Tensor):
                v += 1000.0
        st[k]['extra'] = 1
    st['99'] = {}


def rc_kwargs(directory):
    return dict(n_features_in=3, n_features_out=3, learnable_parameters={},
                material_model_name='elastic', state_features_out={},
                is_auto_sync_parameters=True, is_check_su_fail=False,
                model_directory=directory, is_normalized_parameters=False,
                is_model_in_normalized=False, is_model_out_normalized=False,
                device_type='cpu')


def structure(directory):
    s = StructureMaterialState('infinitesimal', 1, 2)
    types = {'1': fem.element('tri3'), '2': fem.element('quad4')}
    s.init_elements_model('rc_elastic', mats.parameters('elastic'),
                          (1, '2'), types, rc_kwargs(directory))
    return s


def ops():
    out = []
    for e, tag, tm, cp in itertools.product(
            (1, 2), (1, 2), ('current', 'last'), (True, False)):
        if cp is False and (tag == 2 or tm == 'last'):
            continue
        out.append(('set', e, tag, tm, cp))
    return out + [('commit', True), ('commit', False), ('inplace', 1)]


def look(s, model, t, rep):
    for (tm, e), want in model.items():
        got = s.get_element_state(e, time=tm, is_copy=False)
        if frozen(got) != want:
            t.fail(f'{tm}', f'{tm} state of element {e} is '
                   f'{frozen(got)} expected {want}', rep)


def histories(first, t):
    depth = 5 if THOROUGH else 4
    O = ops()
    with Scratch() as d, quiet():
        for rest in itertools.chain.from_iterable(
                itertools.product(O, repeat=k) for k in range(depth)):
            word = (first,) + rest
            s = structure(d)
            model = {('current', 1): None, ('current', 2): None,
                     ('last', 1): None, ('last', 2): None}
            rep = dict(word=word)
            edited = {}
            shared = False
            for op in word:
                if op[0] == 'inplace':
                    # trial update in place, unless it was asked to share
                    if shared or model['current', 1] is None:
                        break
                    now = edited.get('current', state(0))
                    spoil(now)
                    edited['current'] = now
                    spoil(s.get_element_state(op[1], is_copy=False))
                    model['current', 1] = frozen(now)
                    t.transition()
                    look(s, model, t, rep)
                    continue
                t.transition()
                if op[0] == 'set':
                    _, e, tag, tm, cp = op
                    arg = state(tag)
                    # identifiers are accepted as numbers and as strings
                    s.update_element_state(e if tag == 1 else str(e), arg,
                                           time=tm, is_copy=cp)
                    model[tm, e] = frozen(state(tag))
                    if e == 1 and tm == 'current':
                        edited['current'] = state(tag)
                        shared = False
                    elif e == 1:
                        shared = False
                    if cp:
                        spoil(arg)
                else:
                    s.update_converged_elements_state(is_copy=op[1])
                    for e in (1, 2):
                        model['last', e] = model['current', e]
                    shared = not op[1]
                look(s, model, t, rep)
            # copies handed out are the caller's own
            for tm, e in model:
                spoil(s.get_element_state(str(e), time=tm))
            for (tm, e), want in model.items():
                if frozen(s.get_element_state(e, time=tm)) != want:
                    t.fail('aliased', f'{tm} state of element {e} changed '
                           'through a copy', rep)
            if frozen(s.get_element_state(1)) != model['current', 1]:
                t.fail('default', 'default is not the current time', rep)
            t.state(tuple(sorted(model.items(), key=str)))
            t.trace()


def initial(chk):
    """Initial states of conventional models: one per integration point."""
    for name, pt in itertools.product(
            ('elastic', 'von_mises', 'von_mises_mixed', 'drucker_prager'),
            (1, 4)):
        s = StructureMaterialState('infinitesimal', pt, 3)
        # as the class says, needed for models that are not modules
        if hasattr(s, '_material_models'):
            del s._material_models
            s._material_models = {}
        els = ('tri3', 'quad4', 'quad8') if pt == 1 else (
            'tetra4', 'hexa8', 'tetra10')
        types = {str(i + 1): fem.element(x) for i, x in enumerate(els)}
        try:
            s.init_elements_model(name, mats.parameters(name), (1, 2), types)
            s.init_elements_model('elastic', mats.parameters('elastic'),
                                  ('3',), types)
        except RuntimeError:
            # conventional models are not accepted by this version
            chk.count('conventional_rejected')
            continue
        chk.state((name, pt))
        rep = dict(model=name, problem_type=pt)
        mat = s.get_elements_material()
        if mat['1'] is not mat['2'] or mat['3'] is mat['1']:
            chk.fail('material', 'wrong element materials', rep)
        want = frozen(mats.make(name, pt).state_init())
        for e in (1, 2):
            st = s.get_element_state(e)
            n = types[str(e)].get_n_gauss()
            if set(st) != {str(i + 1) for i in range(n)} or any(
                    frozen(v) != want for v in st.values()):
                chk.fail('initial', f'element {e}', rep)
            if s.get_element_model_recurrency(e):
                chk.fail('recurrency', f'element {e}', rep)
            # one point changed in place: nothing else changes
            raw = s.get_element_state(e, is_copy=False)
            for v in raw['1'].values():
                if isinstance(v, torch.Tensor) and v.is_floating_point():
                    v += 7.0
            chk.transition()
            others = [s.get_element_state(x, time=tm)[k]
                      for x in (1, 2) for tm in ('current', 'last')
                      for k in s.get_element_state(x)
                      if not (x == e and tm == 'current' and k == '1')]
            if any(frozen(o) != want for o in others):
                chk.fail('initial-shared', 'points share state', rep)
            for v in raw['1'].values():
                if isinstance(v, torch.Tensor) and v.is_floating_point():
                    v -= 7.0
    with Scratch() as d:
        s = structure(d)
        if not all(s.get_element_model_recurrency(e) for e in (1, '2')):
            chk.fail('recurrency', 'recurrent model not reported', {})
        if any(s.get_element_state(e, time=tm) is not None
               for e in (1, 2) for tm in ('current', 'last')):
            chk.fail('recurrent-state', 'recurrent model has a state', {})
        for f in (lambda: s.get_element_state(1, time='init'),
                  lambda: s.update_element_state(1, {}, time='init'),
                  lambda: s.init_elements_model('steel', {}, (1,), {})):
            try:
                f()
                chk.fail('accepted', 'unknown request accepted', {})
            except RuntimeError:
                pass


def main(chk):
    initial(chk)
    chk.pmap(histories, ops())


with quiet():
    chk.run('states', main)
chk.finish()
