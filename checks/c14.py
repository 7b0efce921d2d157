"""C14: mesh assembly, extraction and configuration updates."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, quiet
import numpy as np
import torch
from mc import fem, plast
from simulators.fetorch.structure.structure_mesh import StructureMesh

chk = Check('C14')


def mesh_of(conn, types, n_node, n_dim):
    X = torch.tensor([[0.5*i + 0.1*d*i*i + d for d in range(n_dim)]
                      for i in range(n_node)])
    return StructureMesh(X, {k: fem.element(t) for k, t in types.items()},
                         conn, torch.zeros(n_node, n_dim, dtype=torch.int))


def assembly(item, t):
    """One mesh: operators against dense incidence matrices."""
    conn, types, n_node, n_dim = item
    mesh = mesh_of(conn, types, n_node, n_dim)
    rep = dict(connectivities=conn, types=types, n_node=n_node)
    uniform = len(set(types.values())) == 1
    for dpn in ((n_dim, 1) if uniform else (n_dim,)):
        size = n_node*dpn
        P = {}
        for e, nodes in conn.items():
            M = np.zeros((len(nodes)*dpn, size))
            for a, nd in enumerate(nodes):
                for d in range(dpn):
                    M[a*dpn + d, (nd - 1)*dpn + d] = 1.0
            P[e] = M
        t.state((str(conn), str(types), n_node, dpn))
        # extraction of a vector with distinct entries is a basis of all
        v = torch.tensor([float(3 + 7*i) for i in range(size)])
        for e in conn:
            t.transition()
            for eid in (e, int(e)):
                got = mesh.element_extractor(v.clone(), eid)
                if not np.array_equal(plast.arr(got), P[e]@plast.arr(v)):
                    t.fail('extract', f'element {e}: {got.tolist()} expected '
                           f'{(P[e]@plast.arr(v)).tolist()}', rep)
        # assembly in every order of the elements and of each subset
        arrays = {}
        c = 1.0
        for e in conn:
            arrays[e] = torch.tensor([float(c + 2**(i % 11))
                                      for i in range(P[e].shape[0])])
            c *= 3.0
        keys = list(conn)
        subsets = [keys, keys[::-1]] + [[k] for k in keys[:3]]
        if len(keys) <= 3:
            subsets += list(itertools.permutations(keys))
        for order in subsets:
            t.transition()
            part = {e: arrays[e].clone() for e in order}
            got = plast.arr(mesh.element_assembler(part))
            want = sum(P[e].T@plast.arr(arrays[e]) for e in order)
            if not np.array_equal(got, want):
                t.fail('assemble', f'{got.tolist()} expected '
                       f'{want.tolist()}', dict(rep, order=order))
            if any(not torch.equal(part[e], arrays[e]) for e in order):
                t.fail('assemble-input', 'element arrays modified', rep)
        if uniform:
            ct = mesh.get_connectivities_tensor()
            want = np.array([conn[k] for k in sorted(conn, key=int)])
            if not np.array_equal(ct.numpy(), want):
                t.fail('connectivities-tensor', f'{ct.tolist()} expected '
                       f'{want.tolist()}', rep)
            idx = mesh.build_elements_mesh_indexing(dpn)
            for i, k in enumerate(sorted(conn, key=int)):
                want = P[k]@np.arange(size)
                if not np.array_equal(idx[i].numpy(), want):
                    t.fail('indexing', f'{idx[i].tolist()} expected '
                           f'{want.tolist()}', rep)
                one = StructureMesh.build_element_mesh_indexing(
                    torch.tensor(conn[k]), dpn)
                if not np.array_equal(one.numpy(), want):
                    t.fail('indexing-one', f'{one.tolist()} expected '
                           f'{want.tolist()}', rep)
    if (mesh.get_n_dim(), mesh.get_n_node_mesh(), mesh.get_n_elem(),
            mesh.get_n_element_type()) != (n_dim, n_node, len(conn),
                                           len(set(types.values()))):
        t.fail('counts', 'wrong mesh counts', rep)
    t.trace()


def meshes():
    out = []
    tri = list(itertools.permutations((1, 2, 3, 4), 3))
    quad = list(itertools.permutations((1, 2, 3, 4), 4))
    for a in tri:
        out.append(({'1': a}, {'1': 'tri3'}, 4, 2))
        for b in tri:
            out.append(({'1': a, '2': b}, {'1': 'tri3', '2': 'tri3'}, 4, 2))
        for b in quad[::1 if THOROUGH else 5]:
            out.append(({'2': b, '1': a}, {'2': 'quad4', '1': 'tri3'}, 5, 2))
    for a in quad:
        for b in itertools.permutations((2, 3, 5, 6), 4):
            if THOROUGH or a[0] == 1 or b[0] == 3:
                out.append(({'1': a, '2': b},
                            {'1': 'quad4', '2': 'quad4'}, 6, 2))
    for a in itertools.permutations((1, 2, 3, 4), 4):
        out.append(({'1': a, '2': (2, 5, 3, 4)},
                    {'1': 'tetra4', '2': 'tetra4'}, 5, 3))
    # many elements, labels inserted in lexicographic order
    n = 12
    conn = {str(k): (k, k + 1, k + 2) for k in range(1, n + 1)}
    lex = {k: conn[k] for k in sorted(conn)}
    out.append((lex, {k: 'tri3' for k in lex}, n + 2, 2))
    rev = {str(k): (k, k + 1, k + 2) for k in range(n, 0, -1)}
    out.append((rev, {k: 'tri3' for k in rev}, n + 2, 2))
    return out


def assembly_part(part, t):
    for m in part:
        assembly(m, t)


def histories(first, t):
    """All sequences of configuration updates up to a depth."""
    conn = {'1': (1, 3, 2), '2': (2, 3, 5, 4)}
    types = {'1': 'tri3', '2': 'quad4'}
    n, dim = 5, 2
    D = {0: torch.zeros(n, dim),
         1: torch.arange(n*dim, dtype=torch.float32).reshape(n, dim),
         2: -0.25*torch.arange(n*dim, dtype=torch.float32).reshape(n, dim)}
    ops = [(d, tm, up) for d in D for tm in ('current', 'last')
           for up in (True, False)]
    depth = 4 if THOROUGH else 3
    for rest in itertools.chain.from_iterable(
            itertools.product(ops, repeat=k) for k in range(depth)):
        word = (first,) + rest
        mesh = mesh_of(conn, types, n, dim)
        X0 = mesh.get_mesh_configuration(time='init')[0]
        model = {'init': (X0, D[0]), 'last': (X0, D[0]),
                 'current': (X0, D[0])}
        for d, tm, up in word:
            arg = D[d].clone()
            if up and d == 1:
                mesh.update_mesh_configuration(arg, time=tm)
            else:
                mesh.update_mesh_configuration(arg, time=tm,
                                               is_update_coords=up)
            arg += 100.0     # the argument stays the caller's
            model[tm] = (X0 + D[d] if up else model[tm][0], D[d])
            t.transition()
        t.state(tuple((k, v[0].tolist(), v[1].tolist())
                      for k, v in model.items()))
        rep = dict(word=word)
        for again in (0, 1):
            for tm, (X, U) in model.items():
                x, u = mesh.get_mesh_configuration(time=tm)
                if not torch.equal(x, X) or not torch.equal(u, U):
                    t.fail(f'configuration:{tm}', f'{tm}: displacements '
                           f'{u.tolist()} expected {U.tolist()}; coordinates '
                           f'{x.tolist()} expected {X.tolist()}' + (
                               ' after the values handed out were modified'
                               if again else ''), rep)
                x += 50.0
                u -= 50.0
                for e, nodes in conn.items():
                    i = [k - 1 for k in nodes]
                    for eid in (e, int(e)):
                        x, u = mesh.get_element_configuration(eid, time=tm)
                        if not torch.equal(x, X[i]) or \
                                not torch.equal(u, U[i]):
                            t.fail(f'element-configuration:{tm}',
                                   f'element {e}', rep)
                        x += 50.0
                        u -= 50.0
        x, u = mesh.get_mesh_configuration()
        if not torch.equal(u, model['current'][1]):
            t.fail('default-time', 'default is not the current time', rep)
        c = mesh.get_connectivities()
        if c != conn:
            t.fail('connectivities', f'{c}', rep)
        c['1'] = (9, 9, 9)
        mesh.get_elements_type().clear()
        b = mesh.get_dirichlet_bool_mesh()
        b += 1
        if mesh.get_connectivities() != conn or \
                set(mesh.get_elements_type()) != set(conn) or \
                int(mesh.get_n_dirichlet_dof()) != 0:
            t.fail('aliased', 'the mesh is changed through a returned value',
                   rep)
        t.trace()


def rejected(chk):
    """Inconsistent declarations and unknown times."""
    X = torch.rand(5, 2)
    T3 = fem.element('tri3')
    good = ({'1': T3}, {'1': (1, 2, 3)})
    bad = [(X.numpy(), *good), (X[0], *good),
           (X, {'0': T3}, {'1': (1, 2, 3)}),
           (X, {'1': T3, '3': T3}, {'1': (1, 2, 3), '3': (1, 2, 4)}),
           (X, {'1': 'tri3'}, {'1': (1, 2, 3)}),
           (X, {'1': T3}, {'2': (1, 2, 3)}),
           (X, {'1': T3}, {'1': (1, 2, 3), '2': (1, 2, 4)}),
           (X, {'1': T3}, {'1': (1, 2, 3, 4)}),
           (X, {'1': T3}, {'1': (1, 2)})]
    bc = torch.zeros(5, 2, dtype=torch.int)
    for b in bad:
        chk.transition()
        try:
            StructureMesh(*b, bc)
            chk.fail('accepted', f'inconsistent mesh accepted: {b[1:]}',
                     dict(mesh=str(b[1:])))
        except RuntimeError:
            pass
    m = StructureMesh(X, *good, bc)
    for f in (lambda: m.get_mesh_configuration(time='next'),
              lambda: m.get_element_configuration(1, time='next'),
              lambda: m.update_mesh_configuration(X, time='init'),
              lambda: m.element_assembler({'1': torch.zeros(3, 2)}),
              lambda: m.element_extractor(torch.zeros(5, 2), 1)):
        try:
            f()
            chk.fail('accepted-call', 'unsupported request accepted', {})
        except RuntimeError:
            pass
    for k in itertools.product((0, 1), repeat=4):
        bc = torch.tensor(k, dtype=torch.int).reshape(2, 2)
        m = StructureMesh(torch.rand(2, 2), {}, {}, bc)
        if int(m.get_n_dirichlet_dof()) != sum(k):
            chk.fail('dirichlet', f'{m.get_n_dirichlet_dof()}', dict(bc=k))


def main(chk):
    ms = meshes()
    chk.pmap(assembly_part, [ms[i::32] for i in range(32)])
    ops = [(d, tm, up) for d in (0, 1, 2) for tm in ('current', 'last')
           for up in (True, False)]
    chk.pmap(histories, ops)
    rejected(chk)


with quiet():
    chk.run('mesh', main)
chk.finish()
