"""C23: finite element patches, for every outcome of the random draws."""
import _path  # noqa
import itertools
from mc.core import Check, THOROUGH, quiet
import numpy as np
from mc.choice import outcomes
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator

chk = Check('C23')
# nodes per element edge, serendipity?
ELEMS = {'SQUAD4': (2, 2, True), 'SQUAD8': (2, 3, True),
         'SQUAD12': (2, 4, True), 'LQUAD4': (2, 2, False),
         'LQUAD9': (2, 3, False), 'LQUAD16': (2, 4, False),
         'SHEXA8': (3, 2, True), 'SHEXA20': (3, 3, True)}
CORN = {2: ((0, 0), (1, 0), (1, 1), (0, 1)),
        3: ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
            (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))}
DIMS = {2: (1.5, 1.0), 3: (1.5, 1.0, 0.8)}
UNIT = (0.0, 0.35, 1.0)


def faces(coord, dims):
    """Local position of a point: per dimension -1, 0 (inside), 1."""
    return tuple(-1 if abs(c) < 1e-9 else 1 if abs(c - d) < 1e-9 else 0
                 for c, d in zip(coord, dims))


def mesh_of(chk, patch, elem, n, dims, key, trace):
    """Check the mesh and return {index: (label, reference coordinates)}."""
    nd, ne, seren = ELEMS[elem]
    shape = tuple(k*(ne - 1) + 1 for k in n)
    m = np.asarray(patch.get_mesh_nodes_matrix())
    ref = patch.get_mesh_nodes_coords_ref()
    chk.check(m.shape == shape, f'{key}:shape',
              f'{elem} {n}: nodes matrix {m.shape}, expected {shape}', trace)
    out = {}
    labels = []
    for idx in itertools.product(*(range(s) for s in shape)):
        loc = [i % (ne - 1) for i in idx]
        present = not seren or sum(1 for v in loc if v) <= 1
        if not chk.check((m[idx] != 0) == present, f'{key}:node',
                         f'{elem} {n}: node at {idx}: label {m[idx]}, node '
                         f'expected: {present}', trace):
            return None
        if present:
            labels.append(int(m[idx]))
            x = np.array([i*d/(s - 1)
                          for i, d, s in zip(idx, dims, shape)])
            c = ref.get(str(m[idx]))
            if not chk.check(c is not None and np.allclose(
                    c, x, rtol=0, atol=1e-12*max(dims)), f'{key}:coords',
                    f'{elem} {n}: node at {idx} has coordinates {c}, '
                    f'expected {x}', trace):
                return None
            out[idx] = (str(m[idx]), x)
    chk.check(sorted(labels) == list(range(1, len(labels) + 1))
              and len(ref) == len(labels), f'{key}:labels',
              f'{elem} {n}: labels {sorted(labels)[:8]}..., '
              f'{len(ref)} coordinates', trace)
    bnd = {int(l) for l, x in out.values() if any(faces(x, dims))}
    got = {int(v) for v in patch.get_boundary_nodes_labels()}
    chk.check(got == bnd, f'{key}:boundary',
              f'{elem} {n}: boundary nodes {got}, expected {bnd}', trace)
    bed = {int(l) for l, x in out.values()
           if sum(1 for f in faces(x, dims) if f) >= nd - 1}
    got = {int(v) for v in patch.get_boundary_edges_nodes_labels()} - {0}
    chk.check(got == bed, f'{key}:bedges',
              f'{elem} {n}: boundary edge nodes {got}, expected {bed}',
              trace)
    chk.check(patch.get_n_dim() == nd and patch.get_elem_type() == elem
              and tuple(patch.get_n_elems_per_dim()) == tuple(n)
              and tuple(patch.get_n_edge_nodes_per_dim()) == shape
              and np.allclose(patch.get_elem_size_dims(),
                              [d/k for d, k in zip(dims, n)]),
              f'{key}:attributes', f'{elem} {n}: attributes differ', trace)
    if nd == 2:
        con = set()
        for idx, (l, _) in out.items():
            for d in range(2):
                j = tuple(i + (k == d) for k, i in enumerate(idx))
                if j in out:
                    con.add(frozenset((int(l), int(out[j][0]))))
        got = [frozenset(int(v) for v in p)
               for p in patch.get_mesh_connected_nodes()]
        chk.check(set(got) == con and len(got) == len(con),
                  f'{key}:connected', f'{elem} {n}: connected nodes differ',
                  trace)
    return out


def positions(chk, patch, elem, n, dims, key, trace):
    """Deformed boundary nodes {index: (reference, deformed)}."""
    nodes = mesh_of(chk, patch, elem, n, dims, key, trace)
    if nodes is None:
        return None
    disps = patch.get_mesh_boundary_nodes_disps()
    want = {l for l, x in nodes.values() if any(faces(x, dims))}
    if not chk.check(set(disps) == want, f'{key}:prescribed',
                     f'{elem} {n}: displacements prescribed on '
                     f'{sorted(disps)}, expected {sorted(want)}', trace):
        return None
    if not chk.check(all(np.shape(v) == (len(n),) and np.all(np.isfinite(v))
                         for v in disps.values()), f'{key}:finite',
                     f'{elem} {n}: displacements not finite', trace):
        return None
    return {i: (x, x + disps[l]) for i, (l, x) in nodes.items()
            if l in disps}


def edges_of(pos, n, elem, nd):
    """Boundary edges: {(dim, fixed sides): nodes in order}."""
    ne = ELEMS[elem][1]
    shape = tuple(k*(ne - 1) + 1 for k in n)
    out = {}
    for d in range(nd):
        others = [k for k in range(nd) if k != d]
        for sides in itertools.product((0, 1), repeat=nd - 1):
            line = []
            for i in range(shape[d]):
                idx = [0]*nd
                idx[d] = i
                for k, s in zip(others, sides):
                    idx[k] = s*(shape[k] - 1)
                line.append(pos[tuple(idx)])
            out[d, sides] = line
    return out


def corner(pos, c, n, elem):
    ne = ELEMS[elem][1]
    return pos[tuple(s*k*(ne - 1) for s, k in zip(c, n))]


def cross2(a, b):
    return a[0]*b[1] - a[1]*b[0]


def polygon(points):
    """(simple, counterclockwise, clearness) of a closed polygon."""
    p = [np.asarray(v) for v in points]
    m = len(p)
    area = 0.5*sum(cross2(p[i], p[(i + 1) % m]) for i in range(m))
    simple = True
    margin = abs(area)
    for i in range(m):
        for j in range(i + 1, m):
            a, b, c, d = p[i], p[(i + 1) % m], p[j], p[(j + 1) % m]
            v = [cross2(b - a, c - a), cross2(b - a, d - a),
                 cross2(d - c, a - c), cross2(d - c, b - c)]
            if j == i + 1 or (i == 0 and j == m - 1):
                # adjacent: not folded back
                q, r, s = (a, b, d) if j == i + 1 else (c, d, b)
                if abs(cross2(r - q, s - r)) < 1e-9 and np.dot(
                        r - q, s - r) < 0:
                    simple = False
                continue
            margin = min(margin, min(
                (abs(w) for w in v), default=1) if v[0]*v[1] <= 1e-12
                and v[2]*v[3] <= 1e-12 else margin)
            if v[0]*v[1] < 0 and v[2]*v[3] < 0:
                simple = False
    return simple, area > 0, margin


def outline(pos, n, elem):
    e = edges_of(pos, n, elem, 2)
    lines = [e[0, (0,)], e[1, (1,)], e[0, (1,)][::-1], e[1, (0,)][::-1]]
    return [x for line in lines for _, x in line[:-1]]


def straight(chk, line, key, trace, msg):
    """Nodes of a straight edge are equally spaced between its corners."""
    a, b = line[0][1], line[-1][1]
    m = len(line) - 1
    for i, (_, x) in enumerate(line):
        w = a + (b - a)*i/m
        if not chk.check(np.linalg.norm(x - w) <= 1e-7, key,
                         f'{msg}: node {i} of the edge at {x}, expected {w}',
                         trace):
            return


# -----------------------------------------------------------------------------
def mesh(item, t):
    """Undeformed patches with all the defaults."""
    chk, (elem, n, dims) = t, item
    nd = ELEMS[elem][0]
    tr = dict(elem=elem, n=n, dims=dims)
    gen = FiniteElementPatchGenerator(nd, dims)
    try:
        ok, patch = gen.generate_deformed_patch(elem, n)
    except Exception as e:
        chk.fail('mesh:raises', f'{elem} {n}: undeformed patch: {e!r}', tr)
        return
    chk.state(('mesh', item))
    chk.check(ok is True or ok == True, 'mesh:admissible',  # noqa
              f'{elem} {n}: undeformed patch rejected', tr)
    pos = positions(chk, patch, elem, n, dims, 'mesh', tr)
    if pos:
        d = max(np.abs(x - r).max() for r, x in pos.values())
        chk.check(d <= 1e-12, 'mesh:moved',
                  f'{elem} {n}: undeformed patch displaced by {d}', tr)
    # the patch does not share state with the caller
    m = patch.get_mesh_nodes_matrix()
    m[...] = -1
    c = patch.get_mesh_nodes_coords_ref()
    c.clear()
    patch.get_mesh_boundary_nodes_disps().clear()
    chk.check(np.all(patch.get_mesh_nodes_matrix() >= 0)
              and patch.get_mesh_nodes_coords_ref()
              and patch.get_mesh_boundary_nodes_disps(), 'mesh:shared',
              'patch modified through a getter', tr)


def units(item, t):
    """The same patch measured in other units."""
    chk, (elem, n, order, cset, eset, rbm, scale) = t, item
    nd = ELEMS[elem][0]

    def make(s):
        gen = FiniteElementPatchGenerator(nd, tuple(s*d for d in DIMS[nd]))
        cr = {k: tuple((s*a, s*b) for a, b in ((-0.1, 0.15),)*nd)
              if k in cset else ((0.0, 0.0),)*nd
              for k in ('1234' if nd == 2 else '12345678')}
        er = {k: (s*-0.05, s*0.1) for k in eset}
        kw = dict(translation_range={
            str(j + 1): (s*0.3*(j + 1),)*2 for j in range(nd)},
            rotation_angles_range={'alpha': (20.0, 20.0),
                                   'beta': (10.0, 10.0)}) if rbm else {}

        def run():
            return gen.generate_deformed_patch(
                elem, n, corners_lab_disp_range=cr,
                edges_lab_def_order=order, edges_lab_disp_range=er or None,
                **kw)
        return outcomes(run, unit=UNIT[::2])
    tr = dict(elem=elem, n=n, order=order, corners=cset, edges=eset,
              motion=rbm, scale=scale)
    a, b = make(1.0), make(scale)
    for ra, rb in itertools.zip_longest(a, b):
        if not chk.check(ra is not None and rb is not None and
                         ra[0] == rb[0] and bool(ra[1][0]) == bool(rb[1][0]),
                         'units:accepted', f'{tr}: {ra} and {rb}', tr):
            return
        chk.state((item, ra[0]))
        if not ra[1][0]:
            continue
        p, q = ra[1][1], rb[1][1]
        for what in ('get_mesh_nodes_coords_ref',
                     'get_mesh_boundary_nodes_disps'):
            x, y = getattr(p, what)(), getattr(q, what)()
            chk.transition()
            if not chk.check(
                    set(x) == set(y) and all(np.allclose(
                        np.array(y[k], float)/scale, np.array(x[k], float),
                        rtol=0, atol=1e-7) for k in x), 'units:' + what,
                    f'{tr} draws {ra[0]}: {len(x)} and {len(y)} nodes or '
                    f'other values', dict(tr, draws=ra[0])):
                return


def corners(item, t):
    """Corner ranges and fixed degrees of freedom, all draws."""
    chk, (elem, n, ranges, bc, order, k_unit) = t, item
    unit = UNIT if k_unit == 3 else UNIT[::2]
    nd = ELEMS[elem][0]
    dims = DIMS[nd]
    ranges = {k: tuple(v) for k, v in ranges}
    bc = dict(bc)
    tr = dict(elem=elem, n=n, ranges=ranges, bc=bc, order=order)
    gen = FiniteElementPatchGenerator(nd, dims)

    def run():
        return gen.generate_deformed_patch(
            elem, n, corners_lab_bc=dict(bc) or None,
            corners_lab_disp_range=dict(ranges), edges_lab_def_order=order)
    hit = {}
    for trail, (ok, patch) in outcomes(run, unit=unit):
        chk.state((item, trail))
        tr['draws'] = trail
        if not chk.check(ok, 'corners:rejected',
                         f'{elem} {n} {ranges}: small deformation rejected',
                         tr):
            return
        pos = positions(chk, patch, elem, n, dims, 'corners', tr)
        if pos is None:
            return
        for k, c in enumerate(CORN[nd]):
            x0, x = corner(pos, c, n, elem)
            u = x - x0
            for j in range(nd):
                lo, hi = ranges.get(str(k + 1), ((0, 0),)*nd)[j]
                if bc.get(str(k + 1), (0,)*nd)[j]:
                    lo = hi = 0.0
                if not chk.check(lo - 1e-9 <= u[j] <= hi + 1e-9,
                                 'corners:range',
                                 f'{elem} {n} {ranges} fixed {bc} order '
                                 f'{order}: corner {k + 1} moves by {u[j]} '
                                 f'along {j}, prescribed ({lo}, {hi})', tr):
                    return
                hit.setdefault((k, j, lo, hi), set()).add(round(u[j], 9))
        for (d, sides), line in edges_of(pos, n, elem, nd).items():
            straight(chk, line, 'corners:straight', tr,
                     f'{elem} {n} order {order} edge {d} {sides}')
            if nd == 2 and order in (None, 0):
                k = 1 - d
                du = (line[0][1] - line[0][0] - line[-1][1]
                      + line[-1][0])[k]
                chk.check(abs(du) < 1e-9, 'corners:zeroorder',
                          f'{elem} {n}: edge of order zero is not parallel '
                          f'to its reference ({du})', tr)
        if nd == 3:
            face_nodes(chk, pos, n, elem, tr)
    # each of the requested ranges is used from end to end
    for (k, j, lo, hi), vals in hit.items():
        if hi > lo and order == 1:
            w = {round(lo + q*(hi - lo), 9) for q in unit}
            chk.check(vals == w, 'corners:span',
                      f'corner {k + 1} moves by {vals} along {j} for the '
                      f'range ({lo}, {hi})', tr)


def face_nodes(chk, pos, n, elem, tr):
    """Faces with straight edges: bilinear in the face coordinates."""
    ne = ELEMS[elem][1]
    shape = tuple(k*(ne - 1) + 1 for k in n)
    u = {i: x - r for i, (r, x) in pos.items()}
    for idx in u:
        on = [k for k in range(3) if idx[k] in (0, shape[k] - 1)]
        if len(on) != 1:
            continue
        a, b = [k for k in range(3) if k != on[0]]
        want = 0.0
        for sa, sb in itertools.product((0, 1), repeat=2):
            c = list(idx)
            c[a], c[b] = sa*(shape[a] - 1), sb*(shape[b] - 1)
            ta, tb = idx[a]/(shape[a] - 1), idx[b]/(shape[b] - 1)
            want = want + u[tuple(c)]*(ta if sa else 1 - ta)*(
                tb if sb else 1 - tb)
        if not chk.check(np.linalg.norm(u[idx] - want) < 1e-7,
                         'corners:face',
                         f'{elem} {n}: face node {idx} moves by {u[idx]}, '
                         f'interpolation of the edges gives {want}', tr):
            return


EDGE2 = {'1': (0, (0,), (0, -1)), '2': (0, (1,), (0, 1)),
         '3': (1, (0,), (-1, 0)), '4': (1, (1,), (1, 0))}


def edges2(item, t):
    """Polynomial edges in two dimensions, all draws."""
    chk, (elem, n, orders, rng, cor) = t, item
    dims = DIMS[2]
    orders_in = orders if isinstance(orders, int) else dict(orders)
    per = {l: orders if isinstance(orders, int) else dict(orders).get(l, 0)
           for l in EDGE2}
    rng = dict(rng)
    tr = dict(elem=elem, n=n, orders=per, ranges=rng, corners=cor)
    gen = FiniteElementPatchGenerator(2, dims)
    cr = {str(k + 1): tuple((v, v) for v in c) for k, c in enumerate(cor)}

    def run():
        return gen.generate_deformed_patch(
            elem, n, corners_lab_disp_range=dict(cr),
            edges_lab_def_order=(orders_in if isinstance(orders_in, int)
                                 else dict(orders_in)),
            edges_lab_disp_range=dict(rng))
    span = {}
    for trail, (ok, patch) in outcomes(run, unit=UNIT):
        chk.state((item, trail))
        tr['draws'] = trail
        if not chk.check(ok, 'edges:rejected',
                         f'{elem} {n} {rng}: small deformation rejected',
                         tr):
            return
        pos = positions(chk, patch, elem, n, dims, 'edges', tr)
        if pos is None:
            return
        lines = edges_of(pos, n, elem, 2)
        for l, (d, sides, out) in EDGE2.items():
            line = lines[d, sides]
            p = per[l]
            lo, hi = rng.get(l, (0.0, 0.0))
            if p <= 1:
                straight(chk, line, 'edges:straight', tr,
                         f'{elem} {n} edge {l} of order {p}')
                continue
            a, b = line[0][1], line[-1][1]
            L = np.linalg.norm(b - a)
            e = (b - a)/L
            nrm = np.array([-e[1], e[0]])
            if np.dot(nrm, out) < 0:
                nrm = -nrm
            s = np.array([np.dot(x - a, e)/L for _, x in line])
            h = np.array([np.dot(x - a, nrm) for _, x in line])
            chk.check(np.all(np.diff(s) > 0), 'edges:order',
                      f'{elem} {n}: nodes of edge {l} out of order', tr)
            if len(s) > p:
                # nodes lie on one polynomial of the prescribed order,
                # within the range at the control points
                V = np.vander(s, p + 1)
                cf, *_ = np.linalg.lstsq(V, h, rcond=None)
                res = np.abs(V @ cf - h).max()
                if not chk.check(res < 1e-6*L, 'edges:polynomial',
                                 f'{elem} {n}: nodes of edge {l} off a '
                                 f'polynomial of order {p} by {res}', tr):
                    return
                q = np.polyval(cf, np.arange(1, p)/p)
                if not chk.check(np.all(q >= lo - 1e-6)
                                 and np.all(q <= hi + 1e-6), 'edges:range',
                                 f'{elem} {n}: edge {l} displaced by {q}, '
                                 f'range ({lo}, {hi})', tr):
                    return
                for i, v in enumerate(q):
                    span.setdefault((l, i, lo, hi), set()).add(round(v, 5))
                # equal fractions of the edge length
                z = np.linspace(0, 1, 4001)
                y = np.polyval(cf, z)
                arc = np.concatenate(([0], np.cumsum(np.hypot(
                    L*np.diff(z), np.diff(y)))))
                f = np.interp(s, z, arc)/arc[-1]
                w = np.arange(len(s))/(len(s) - 1)
                chk.check(np.abs(f - w).max() < 2e-4, 'edges:spacing',
                          f'{elem} {n}: nodes of edge {l} at fractions {f} '
                          f'of its length', tr)
    for (l, i, lo, hi), vals in span.items():
        w = {round(lo + q*(hi - lo), 5) for q in UNIT}
        chk.check(len(vals) == len(w) and np.allclose(
            sorted(vals), sorted(w), atol=2e-5), 'edges:span',
            f'{elem} {n}: edge {l} takes displacements {vals} for the range '
            f'({lo}, {hi})', tr)


def _edge3():
    """label: (dim, sides of the other dimensions, outward direction)."""
    # faces in order z-, z+ ; x-, x+ ; y-, y+ : edges of a face in order
    # first dimension (lower, upper), second dimension (lower, upper)
    out = {}
    label = 1
    for normal in (2, 0, 1):
        a, b = [k for k in range(3) if k != normal]
        for side in (0, 1):
            for d, o in ((a, b), (b, a)):
                for s in (0, 1):
                    oth = [k for k in range(3) if k != d]
                    sd = tuple(side if k == normal else s for k in oth)
                    v = np.zeros(3)
                    v[o] = 1 if s else -1
                    out[str(label)] = (d, sd, v)
                    label += 1
    return out


EDGE3 = _edge3()


def edges3(item, t):
    """Quadratic edges in three dimensions (edges shared by two faces)."""
    chk, (elem, n, orders, amps) = t, item
    dims = DIMS[3]
    orders, amps = dict(orders), dict(amps)
    tr = dict(elem=elem, n=n, orders=orders, amps=amps)
    gen = FiniteElementPatchGenerator(3, dims)
    ok, patch = gen.generate_deformed_patch(
        elem, n, edges_lab_def_order=dict(orders),
        edges_lab_disp_range={l: (v, v) for l, v in amps.items()})
    chk.state(item)
    chk.check(ok, 'edges3:rejected', f'{elem} {n}: rejected', tr)
    pos = positions(chk, patch, elem, n, dims, 'edges3', tr)
    if pos is None:
        return
    for (d, sides), line in edges_of(pos, n, elem, 3).items():
        both = [l for l, (dd, ss, _) in EDGE3.items()
                if (dd, ss) == (d, sides)]
        if any(orders.get(l, 0) < 2 for l in both):
            straight(chk, line, 'edges3:straight', tr,
                     f'{elem} {n} edge {both}')
            continue
        i = (len(line) - 1)//2          # node in the middle of the edge
        if len(line) % 2 == 0:
            continue
        r, x = line[i]
        w = sum(amps.get(l, 0.0)*EDGE3[l][2] for l in both)/2
        chk.check(np.linalg.norm(x - r - w) < 1e-6, 'edges3:middle',
                  f'{elem} {n}: middle of edge {both} moves by {x - r}, '
                  f'prescribed {w}', tr)


def bunge(a, b, c):
    a, b, c = np.radians((a, b, c))

    def z(t):
        return np.array([[np.cos(t), -np.sin(t), 0],
                         [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, np.cos(b), -np.sin(b)],
                  [0, np.sin(b), np.cos(b)]])
    return z(a) @ x @ z(c)


def centroid2(points):
    p = np.array(points)
    q = np.roll(p, -1, axis=0)
    w = p[:, 0]*q[:, 1] - q[:, 0]*p[:, 1]
    return ((p + q)*w[:, None]).sum(axis=0)/(3*w.sum())


def rigid(item, t):
    """Rigid motions on top of a deformation."""
    chk, (elem, n, cor, order, trans, rot) = t, item
    nd = ELEMS[elem][0]
    dims = DIMS[nd]
    tr = dict(elem=elem, n=n, corners=cor, order=order, translation=trans,
              rotation=rot)
    gen = FiniteElementPatchGenerator(nd, dims)
    kw = dict(corners_lab_disp_range={
        str(k + 1): tuple((v, v) for v in c) for k, c in enumerate(cor)})
    kw['edges_lab_def_order'] = order
    if order > 1:
        kw['edges_lab_disp_range'] = {'1': (0.05, 0.05), '4': (-0.04, -0.04)}
    base = gen.generate_deformed_patch(
        elem, n, translation_range={}, rotation_angles_range={}, **kw)

    def run():
        return gen.generate_deformed_patch(
            elem, n, translation_range=None if trans is None else dict(
                trans), rotation_angles_range=None if rot is None else dict(
                rot), **kw)
    p0 = positions(chk, base[1], elem, n, dims, 'rigid', tr)
    if p0 is None:
        return
    x0 = {i: x for i, (_, x) in p0.items()}
    if nd == 2:
        cen = centroid2(outline(p0, n, elem))
    else:
        cen = np.mean([corner(p0, c, n, elem)[1] for c in CORN[3]], axis=0)
    seen = set()
    try:
        todo = list(outcomes(run, unit=UNIT))
    except Exception as e:
        chk.fail('rigid:raises', f'{elem} {n} {trans} {rot}: {e!r}', tr)
        return
    for trail, (ok, patch) in todo:
        chk.state((item, trail))
        tr['draws'] = trail
        if not chk.check(ok, 'rigid:rejected',
                         f'{elem} {n}: moved patch rejected', tr):
            return
        pos = positions(chk, patch, elem, n, dims, 'rigid', tr)
        if pos is None:
            return
        x1 = {i: x for i, (_, x) in pos.items()}
        # recover the motion: the same draw values for all the parameters
        best = None
        names = [('t', str(k + 1)) for k in range(nd)
                 if trans and str(k + 1) in dict(trans)]
        names += [('r', k) for k in (('alpha', 'beta', 'gamma') if nd == 3
                                     else ('alpha',))
                  if rot and k in dict(rot)]
        for q in itertools.product(UNIT, repeat=len(names)):
            v = np.zeros(nd)
            ang = dict(alpha=0.0, beta=0.0, gamma=0.0)
            for (w, k), f in zip(names, q):
                lo, hi = dict(trans if w == 't' else rot)[k]
                if w == 't':
                    v[int(k) - 1] = lo + f*(hi - lo)
                else:
                    ang[k] = lo + f*(hi - lo)
            R = bunge(**{a: b for a, b in zip('abc', (
                ang['alpha'], ang['beta'], ang['gamma']))})[:nd, :nd]
            err = max(np.linalg.norm(
                x1[i] - (cen + R @ (x0[i] - cen) + v)) for i in x0)
            if best is None or err < best[0]:
                best = (err, q)
        if not chk.check(best[0] < 1e-7, 'rigid:motion',
                         f'{elem} {n} {trans} {rot}: the moved patch is not '
                         f'a rigid motion of the deformed patch within the '
                         f'prescribed ranges (error {best[0]})', tr):
            return
        seen.add(best[1])
    want = 1
    for w, r in (('t', trans), ('r', rot)):
        for k, (lo, hi) in (r or ()):
            if w == 'r' and nd == 2 and k != 'alpha':
                continue
            want *= 3 if hi > lo else 1
    chk.check(len(seen) == want, 'rigid:span',
              f'{elem} {n} {trans} {rot}: {len(seen)} motions, expected '
              f'{want}', tr)


def admissible(item, t):
    """Prescribed corner displacements: accepted iff simple and not flipped"""
    chk, (cor,) = t, item
    dims = DIMS[2]
    pts = [np.array(c, float)*dims + u for c, u in zip(CORN[2], cor)]
    simple, ccw, margin = polygon(pts)
    if margin < 1e-6 or any(np.linalg.norm(a - b) < 1e-6 for a, b in
                            itertools.combinations(pts, 2)):
        return
    tr = dict(corners=cor)
    gen = FiniteElementPatchGenerator(2, dims)
    try:
        ok, patch = gen.generate_deformed_patch(
            'SQUAD4', (2, 1), corners_lab_disp_range={
                str(k + 1): tuple((v, v) for v in c)
                for k, c in enumerate(cor)}, edges_lab_def_order=1,
            translation_range={}, rotation_angles_range={}, max_iter=2)
    except Exception as e:
        # diagonal parallel to an edge: no local basis
        chk.check(not (simple and ccw), 'admissible:raises',
                  f'corners moved by {cor}: {e!r}', tr)
        return
    chk.state(('admissible', item))
    chk.check(bool(ok) == (simple and ccw), 'admissible:verdict',
              f'corners moved by {cor}: accepted={ok}, boundary simple '
              f'{simple}, counterclockwise {ccw}', tr)
    chk.check((patch is None) == (not ok), 'admissible:patch',
              f'corners moved by {cor}: accepted={ok}, patch {patch}', tr)


def retry(item, t):
    """Rejected candidates are drawn again, up to the iterations' limit."""
    chk, (ranges, order, iters) = t, item
    gen = FiniteElementPatchGenerator(2, DIMS[2])
    ranges = dict(ranges)

    def run(m):
        try:
            return gen.generate_deformed_patch(
                'SQUAD8', (1, 1), corners_lab_disp_range=dict(ranges),
                edges_lab_def_order=order, translation_range={},
                rotation_angles_range={}, max_iter=m)
        except Exception as e:
            return ('raised', repr(e))
    one = {}
    for trail, r in outcomes(lambda: run(1), unit=UNIT):
        if not chk.check(r[0] != 'raised', 'retry:raises',
                         f'{ranges}: {r[1]}', dict(ranges=ranges,
                                                   draws=trail)):
            return
        one[trail] = r
    ln = {len(k) for k in one}
    verdicts = {bool(r[0]) for r in one.values()}
    assert verdicts == {True, False}, verdicts
    if len(ln) != 1:
        return
    ln = ln.pop()
    for m in range(0, iters + 1):
        for trail, (ok, patch) in outcomes(lambda: run(m), unit=UNIT):
            chk.state((item, m, trail))
            tr = dict(ranges=ranges, iterations=m, draws=trail)
            parts = [trail[i:i + ln] for i in range(0, len(trail), ln)]
            acc = [bool(one[p][0]) for p in parts]
            good = not any(acc[:-1]) and len(parts) <= m
            good = good and bool(ok) == bool(acc and acc[-1])
            good = good and (bool(ok) or len(parts) == m)
            good = good and (patch is None) == (not ok)
            if not chk.check(good, 'retry:verdict',
                             f'{ranges} with {m} iterations: candidates '
                             f'admissible {acc}, reported {ok}', tr):
                return
            if ok:
                a = patch.get_mesh_boundary_nodes_disps()
                b = one[parts[-1]][1].get_mesh_boundary_nodes_disps()
                chk.check(set(a) == set(b) and all(
                    np.allclose(a[k], b[k]) for k in a), 'retry:patch',
                    f'{ranges} with {m} iterations: returned patch is not '
                    f'that of the accepted candidate', tr)
                pos = positions(chk, patch, 'SQUAD8', (1, 1), DIMS[2],
                                'retry', tr)
                if pos:
                    s, c, mg = polygon(outline(pos, (1, 1), 'SQUAD8'))
                    chk.check(mg < 1e-9 or (s and c), 'retry:admissible',
                              f'{ranges}: inadmissible boundary accepted',
                              tr)


def noise(item, t):
    """Noise moves interior nodes of edges only."""
    chk, (elem, n, level) = t, item
    dims = DIMS[2]
    gen = FiniteElementPatchGenerator(2, dims)
    tr = dict(elem=elem, n=n, noise=level)

    def run():
        return gen.generate_deformed_patch(
            elem, n, translation_range={}, rotation_angles_range={},
            deformation_noise=level)
    for trail, (ok, patch) in outcomes(run, limit=5 if THOROUGH else 3, unit=UNIT,
                                       normal=(-2.0, 0.0, 0.5)):
        chk.state((item, trail))
        tr['draws'] = trail
        if not ok:
            continue
        pos = positions(chk, patch, elem, n, dims, 'noise', tr)
        if pos is None:
            return
        for c in CORN[2]:
            r, x = corner(pos, c, n, elem)
            chk.check(np.allclose(r, x), 'noise:corner',
                      f'{elem} {n}: corner moved by {x - r}', tr)
        d = max(np.abs(x - r).max() for r, x in pos.values())
        chk.check(d <= 2*abs(level)*max(dims) + 1e-9, 'noise:level',
                  f'{elem} {n}: noise {level} moves a node by {d}', tr)


def dispatch(item, t):
    return globals()[item[0]](item[1:], t)


def main(chk):
    items = []
    nmax = 4 if THOROUGH else 3
    for elem, (nd, ne, _) in ELEMS.items():
        for n in itertools.product(range(1, nmax + 1 - (nd - 2)),
                                   repeat=nd):
            items.append(('mesh', elem, n, DIMS[nd]))
            if sum(n) <= nd + 1:
                items.append(('mesh', elem, n, (3.0, 0.2, 40.0)[:nd]))
    for elem, n, c, e in (('SQUAD4', (3, 2), '13', ''),
                          ('SQUAD8', (2, 2), '2', '3'),
                          ('SHEXA8', (2, 2, 2), '7', ''),
                          ('SHEXA20', (2, 1, 1), '', '5')):
        for order in (1, 2):
            for rbm in (False, True):
                for s in (1e-4, 1e-6, 1e4) if elem != 'SHEXA20' or THOROUGH \
                        else (1e-4,):
                    items.append(('units', elem, n, order, c, e, rbm, s))
    # corners
    r = (-0.1, 0.15)
    z = (0.0, 0.0)
    for order in (0, 1):
        for k, l in itertools.combinations('1234', 2):
            for a, b in itertools.product(((r, z), (z, r)), repeat=2):
                items.append(('corners', 'SQUAD4', (2, 1), ((k, a), (l, b)),
                              (), order, 2))
        if THOROUGH:
            full = tuple((k, (r, r)) for k in '1234')
            items.append(('corners', 'SQUAD4', (1, 1), full, (), 1, 2))
            items.append(('corners', 'SQUAD4', (1, 1), full[:2], (), 0, 2))
            items.append(('corners', 'SQUAD4', (1, 1), full[1:3], (), 0, 2))
        for k, d in itertools.product('1234', ((1, 0), (0, 1), (1, 1))):
            items.append(('corners', 'SQUAD4', (1, 2), ((k, (r, r)),),
                          ((k, d),), order, 3))
    for elem in ELEMS:
        if ELEMS[elem][0] == 2:
            for order in (None, 1):
                for k in '1234':
                    items.append(('corners', elem, (2, 1), ((k, (r, z)),),
                                  (), order, 3))
    for elem in ('SHEXA8', 'SHEXA20') if THOROUGH else ('SHEXA8',):
        for order in (None, 1):
            for k, l in itertools.combinations('12345678', 2):
                a = (int(k) + int(l)) % 3
                va = tuple(r if j == a else z for j in range(3))
                vb = tuple((-0.05, 0.1) if j == a else z for j in range(3))
                if not THOROUGH and (int(k) + 3*int(l)) % 3:
                    continue
                items.append(('corners', elem, (2, 1, 2),
                              ((k, va), (l, vb)), (), order, 2))
    for elem in ('SHEXA8', 'SHEXA20'):
        for k in '1278':
            items.append(('corners', elem, (2, 3, 2),
                          ((k, (r, z, r)),), ((k, (0, 1, 1)),), 1, 2))
    # edges
    cors = (((0, 0),)*4, ((0.05, 0.0), (-0.1, 0.12), (0.2, 0.1),
                          (0.0, -0.07)))
    big = (4, 3) if THOROUGH else (4, 2)
    elems2 = ('SQUAD4', 'SQUAD8') if not THOROUGH else [
        e for e in ELEMS if ELEMS[e][0] == 2]
    for elem in elems2:
        for cor in cors if elem == 'SQUAD8' else cors[1:]:
            for l in '1234':
                for p in (0, 1, 2, 3):
                    for rg in ((0.0, 0.1), (-0.08, 0.08), (0.05, 0.05)):
                        if p < 2 and cor is not cors[0] and p == 0:
                            continue
                        # straight edges elsewhere
                        od = {k: 1 for k in '1234'}
                        od[l] = p
                        items.append(('edges2', elem, big, tuple(od.items()),
                                      ((l, rg),), cor))
            for p in (2, 3) if THOROUGH else (2,):
                rg = tuple(zip('1234', ((0, .1), (-.05, -.02), (.1, .1),
                                        (-.1, .0))))
                items.append(('edges2', elem, big, p, rg, cor))
        items.append(('edges2', elem, big, (('1', 2),), (('1', (0, .1)),),
                      cors[0]))
    for elem in ('SHEXA8', 'SHEXA20'):
        for a, b in itertools.combinations(sorted(EDGE3, key=int), 2):
            same = EDGE3[a][:2] == EDGE3[b][:2]
            if not same and (int(a)*5 + int(b)) % 7 and not THOROUGH:
                continue
            items.append(('edges3', elem, (2, 2, 2), ((a, 2), (b, 2)),
                          ((a, 0.1), (b, -0.06))))
        items.append(('edges3', elem, (2, 2, 2),
                      tuple((l, 2) for l in EDGE3),
                      tuple((l, 0.01*int(l)) for l in EDGE3)))
    # rigid motions
    for elem, nd in (('SQUAD4', 2), ('SQUAD8', 2), ('SHEXA8', 3)):
        cor = (cors[1] if nd == 2 else tuple(
            (0.02*k, -0.01*k, 0.03) for k in range(8)))
        trs = (None, (), (('1', (0.1, 0.3)),), (('1', (-1.0, 2.0)),
                                                ('2', (0.5, 0.6))))
        rts = (None, (), (('alpha', (0.0, 90.0)),),
               (('alpha', (-30.0, 45.0)), ('beta', (10.0, 20.0)),
                ('gamma', (5.0, 70.0))))
        if nd == 3:
            trs += ((('3', (0.0, 1.0)),),)
            rts += ((('beta', (0.0, 60.0)),), (('gamma', (0.0, 60.0)),))
        for tv, rv in itertools.product(trs, rts):
            if nd == 3 and tv and rv and not (THOROUGH and len(rv) == 1):
                if (tv, rv) != (trs[2], rts[-1]):
                    continue
            for order in ((1, 2) if nd == 2 else (1,)):
                items.append(('rigid', elem, (2, 2, 1)[:nd], cor, order, tv,
                              rv))
    # admissibility
    g = (0.0, 0.9, -0.6) if not THOROUGH else (0.0, 0.9, -0.6, 2.1)
    for k, l in itertools.combinations(range(4), 2):
        for v in itertools.product(g, repeat=4):
            cor = [(0.0, 0.0)]*4
            cor[k], cor[l] = v[:2], v[2:]
            items.append(('admissible', tuple(cor)))
    for v in itertools.product((0.0, 1.7), repeat=8):
        items.append(('admissible', tuple(zip(v[::2], v[1::2]))))
    its = 4 if THOROUGH else 3
    for rg in ((('1', ((0.0, 2.5), z)),), (('3', ((-3.0, 0.1), z)),),
               (('2', (z, (0.0, 2.0))),)):
        items.append(('retry', rg, 1, its))
    for elem in elems2:
        items.append(('noise', elem, (2, 1), 0.02))
    items.sort(key=lambda i: i[0] not in ('retry', 'noise'))
    chk.pmap(dispatch, items)


with quiet():
    chk.run('patch', main)
chk.finish()
