"""Meshes with symbolic (or float) data and reference formulas for the plate matrices.

The reference formulas know nothing of the implementation: they work on `reference' triangles listed
counter-clockwise and place their results with the node.index values found on the nodes.
"""
import itertools
import zlib
import numpy as np
from . import core
from .core import S

DOF = 5
SYM3 = ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))


# ------------------------------------------------------------------ arrays
def arr(env, a):
    if env.symbolic:
        from .world import to_array
        return to_array(a)
    return np.array(a, dtype=float)


def zeros(env, shape):
    if env.symbolic:
        from .world import SymArray
        return np.zeros(shape, dtype=object).view(SymArray)
    return np.zeros(shape)


def oarr(env, shape):
    """working array for reference formulas"""
    return np.zeros(shape, dtype=object if env.symbolic else float)


# ------------------------------------------------------------------ mesh shapes (counter-clockwise triangles)
SHAPES = {
    'one': (3, [(0, 1, 2)]),
    'two': (4, [(0, 1, 2), (2, 1, 3)]),
    'strip3': (5, [(0, 1, 2), (2, 1, 3), (2, 3, 4)]),
    'fan3': (4, [(0, 1, 3), (1, 2, 3), (2, 0, 3)]),          # node 3 inside
    'fan4': (5, [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]),   # node 4 inside
    'apart': (6, [(0, 1, 2), (3, 4, 5)]),
    'touch': (5, [(0, 1, 2), (2, 3, 4)]),
    'two+one': (7, [(0, 1, 2), (2, 1, 3), (4, 5, 6)]),
    'two-one': (6, [(0, 1, 2), (2, 1, 3), (3, 4, 5)]),           # touching at one node
    'two-two': (7, [(0, 1, 2), (2, 1, 3), (3, 4, 5), (5, 4, 6)]),
    'lone': (4, [(0, 1, 2)]),                                    # and a node without triangle
    'two lone': (6, [(0, 1, 2), (2, 1, 3)]),
    'book3': (5, [(0, 1, 2), (1, 0, 3), (0, 1, 4)]),             # edge 0-1 in three triangles
    'book4': (6, [(0, 1, 2), (1, 0, 3), (0, 1, 4), (1, 0, 5)]),
    'bookfan': (6, [(0, 1, 2), (1, 0, 3), (0, 1, 4), (1, 5, 2)]),
}


def grid(nx, ny):
    tris = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i, (j + 1) * nx + i + 1
            tris += [(a, b, d), (a, d, c)] if (i + j) % 2 else [(a, b, c), (b, d, c)]
    return nx * ny, tris


SHAPES['star4'] = (6, [(0, 1, 2), (1, 0, 3), (2, 1, 4), (0, 2, 5)])      # the first triangle has three neighbours
SHAPES['grid43'] = grid(4, 3)
SHAPES['grid62'] = grid(6, 2)
SHAPES['grid96'] = grid(9, 6)
# whole-number places for the nodes of larger meshes (valid triangulations without right angles)
FIXED = {s: [((7 * i + j) * 3 + (i * i + j) % 2, (5 * j - i) * 2 + (i + 2 * j) % 3) for j in range(ny) for i in range(nx)]
         for s, (nx, ny) in (('grid43', (4, 3)), ('grid62', (6, 2)), ('grid96', (9, 6)))}
PERMS = list(itertools.permutations(range(3)))


def shape_cfg(shape, perms=None, number=None, order=None, **kw):
    n, tris = SHAPES[shape]
    return dict(shape=shape, perms=list(perms) if perms else [0] * len(tris),
                number=list(number) if number else list(range(n)),
                order=list(order) if order else list(range(len(tris))), **kw)


def cfg_name(c):
    if len(c['perms']) > 20:
        s = '%s listing %08x' % (c['shape'], zlib.crc32(repr((c['perms'], c['number'], c['order'])).encode()))
    else:
        s = '%s p%s n%s' % (c['shape'], ''.join(map(str, c['perms'])), ''.join(map(str, c['number'])))
    if len(c['perms']) <= 20 and c['order'] != sorted(c['order']):
        s += ' o' + ''.join(map(str, c['order']))
    for k in sorted(c):
        if k not in ('shape', 'perms', 'number', 'order') and c[k] not in (None, False):
            s += ' %s=%s' % (k, c[k])
    return s


class Prop:
    """a laminate as the package sees it"""
    def __init__(self):
        self.A = self.B = self.D = self.E = None
        self.h = self.scf_k13 = self.scf_k23 = None

    @property
    def ABD(self):
        return np.vstack([np.hstack([self.A, self.B]), np.hstack([self.B, self.D])]).view(type(self.A))

    @property
    def t(self):
        return self.h


def sym3(env, name):
    v = [[None] * 3 for _ in range(3)]
    for i, j in SYM3:
        v[i][j] = v[j][i] = env.real('%s%d%d' % (name, i + 1, j + 1))
    return arr(env, v)


def make_prop(env, tag, abd=True, shear=True):
    p = Prop()
    if abd:
        p.A, p.B, p.D = (sym3(env, c + tag + '_') for c in 'ABD')
    else:
        p.A = p.B = p.D = arr(env, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    if shear:
        e01 = env.real('E%s_12' % tag)
        p.E = arr(env, [[env.real('E%s_11' % tag), e01], [e01, env.real('E%s_22' % tag)]])
        p.h = env.pos('h' + tag)
        p.scf_k13 = env.pos('k13' + tag)
        p.scf_k23 = env.pos('k23' + tag)
    else:
        p.E = arr(env, [[1, 0], [0, 1]])
        p.h = p.scf_k13 = p.scf_k23 = env.num(1)
    return p


class Tri:
    pass


class Simplices:
    def __init__(self, s):
        self.simplices = s


class Plate:
    """mesh built by the real reader together with its reference description"""
    def __init__(self, env, api, cfg, points=None, tag='', z=None, read=None, mirrored=False):
        self.env, self.cfg = env, cfg
        self.decoy = None
        n, tris = SHAPES[cfg['shape']]
        self.n = n
        self.ref = tris
        num = cfg['number']
        if points is None:
            points = make_points(env, cfg, tag, z)
        self.P = points                       # by reference label
        inner = [e for e in ref_edges(tris, cfg['order']) if len(e.tris) == 2]
        self.origin = points[inner[0].n1 if inner else 0]
        self.J = [jac(points, t) for t in tris]
        for j in self.J:
            env.assume_pos(-j if mirrored else j)
        pts = [None] * n
        for lab, pos in enumerate(num):
            pts[pos] = points[lab]
        self.given = []
        for t in cfg['order']:
            p = PERMS[cfg['perms'][t]]
            self.given.append([tris[t][p[k]] for k in range(3)])
        simp = np.array([[num[v] for v in g] for g in self.given])
        self.mesh = (read or api.read_delaunay)(arr(env, pts), Simplices(simp))
        # handles by reference label, found from coordinates' position in the list
        ids = sorted(self.mesh.nodes)
        self.node = [self.mesh.nodes[ids[num[lab]]] for lab in range(n)]
        eids = sorted(self.mesh.elements)
        self.elem = [None] * len(tris)
        for k, t in enumerate(cfg['order']):
            self.elem[t] = self.mesh.elements[eids[k]]
        self.edges = ref_edges(tris, cfg['order'])

    # -- properties
    def set_props(self, mode, abd=True, shear=True, tag='', uniform=False):
        """mode 'elem', 'node'; returns nothing, remembers the laminates by reference label"""
        env = self.env
        self.mode = mode
        things = self.elem if mode == 'elem' else self.node
        if uniform:
            p = make_prop(env, tag + 'u', abd, shear)
            self.props = [p] * len(things)
        else:
            self.props = [make_prop(env, '%s%d' % (tag, i), abd, shear) for i in range(len(things))]
        self.decoy = None
        if zlib.crc32(cfg_name(self.cfg).encode()) & 1:
            # laminates of the kind that is not asked for: they have no say
            self.decoy = make_prop(env, tag + 'x', abd, shear)
        self.assign(mode, self.props)

    def assign(self, mode, props):
        self.mode, self.props = mode, props
        for t, p in zip(self.elem if mode == 'elem' else self.node, props):
            t.prop = p
        for t in self.node if mode == 'elem' else self.elem:
            t.prop = self.decoy

    @property
    def from_node(self):
        return self.mode == 'node'

    def ix(self):
        return [int(nd.index) for nd in self.node]

    def rows(self):
        """position of reference dof 5*label+k in the matrices"""
        ix = self.ix()
        return [DOF * ix[lab] + k for lab in range(self.n) for k in range(DOF)]

    def check_index(self, env):
        env.check('node.index numbers the nodes 0..n-1', sorted(self.ix()) == list(range(self.n)))

    def permuted(self, K):
        """matrix in reference numbering"""
        r = self.rows()
        return np.asarray(K)[np.ix_(r, r)]


def make_points(env, cfg, tag='', z=None):
    """one node anywhere, the others and the height by offsets (the values are as general as plain coordinates, but
    differences are simple terms)"""
    n, tris = SHAPES[cfg['shape']]
    inner = [e for e in ref_edges(tris, cfg['order']) if len(e.tris) == 2]
    base = inner[0].n1 if inner else 0
    if cfg['shape'] in FIXED:
        s = env.pos('size' + tag)
        x0, y0, z = (env.real(c + tag) for c in 'xyz')
        if cfg.get('method') or cfg['shape'] == 'grid96':
            # lengths are compared there
            s, x0, y0, z = (env.num(v) for v in (1, -3, 2, 4))
        return [[x0 + s * x, y0 + s * y, z] for x, y in FIXED[cfg['shape']]]
    x0, y0 = env.real('x' + tag), env.real('y' + tag)
    if z is None:
        # zslice: the plate lies at a height equal to the y coordinate of the start of every interior edge
        z = y0 if cfg.get('zslice') else y0 + env.real('dz' + tag)
    pts = []
    for i in range(n):
        if i == base:
            pts.append([x0, y0, z])
            continue
        dx, dy = env.real('dx%s%d' % (tag, i)), env.real('dy%s%d' % (tag, i))
        flat = cfg.get('zslice') and any(e.n1 == i for e in inner)
        pts.append([x0 + dx, y0 if flat else y0 + dy, z])
    return pts


def jac(P, t):
    i, j, k = t
    return (P[j][0] - P[i][0]) * (P[k][1] - P[i][1]) - (P[k][0] - P[i][0]) * (P[j][1] - P[i][1])


class REdge:
    """edge n1 -> n2 counter-clockwise around its first triangle"""
    def __init__(self, n1, n2):
        self.n1, self.n2 = n1, n2
        self.tris, self.opp = [], []


def ref_edges(tris, order):
    """edges; the first triangle of an edge is the one listed first"""
    out = {}
    for t in order:
        tri = tris[t]
        for k in range(3):
            a, b, c = tri[k], tri[(k + 1) % 3], tri[(k + 2) % 3]
            key = frozenset((a, b))
            if key not in out:
                out[key] = REdge(a, b)
            out[key].tris.append(t)
            out[key].opp.append(c)
    return list(out.values())


# ------------------------------------------------------------------ laminates of domains
FIELDS = ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23')


def mix(env, weights, props, fields):
    out = Prop()
    for f in fields:
        acc = None
        for w, p in zip(weights, props):
            v = getattr(p, f)
            v = np.asarray(v) * w if isinstance(v, np.ndarray) else v * w
            acc = v if acc is None else acc + v
        setattr(out, f, acc)
    return out


def edge_prop(pl, e, fields=FIELDS):
    env = pl.env
    if pl.from_node:
        q = env.q
        if len(e.tris) == 1:
            return mix(env, [q(4, 9), q(4, 9), q(1, 9)], [pl.props[i] for i in (e.n1, e.n2, e.opp[0])], fields)
        return mix(env, [q(5, 12), q(5, 12), q(1, 12), q(1, 12)],
                   [pl.props[i] for i in (e.n1, e.n2, e.opp[0], e.opp[1])], fields)
    if len(e.tris) == 1:
        return pl.props[e.tris[0]]
    js = [pl.J[t] for t in e.tris]
    tot = js[0] + js[1]
    return mix(env, [j / tot for j in js], [pl.props[t] for t in e.tris], fields)


def tri_prop(pl, t, fields=FIELDS):
    env = pl.env
    if pl.from_node:
        q = env.q(1, 3)
        return mix(env, [q, q, q], [pl.props[i] for i in pl.ref[t]], fields)
    return pl.props[t]


def domain_area(pl, e):
    a = pl.J[e.tris[0]]
    for t in e.tris[1:]:
        a = a + pl.J[t]
    return a / 6


# ------------------------------------------------------------------ membrane and bending
def grad_sums(pl, e):
    """area times smoothed gradient: {label: (gx, gy)}"""
    P = pl.P
    g = {}
    for t in e.tris:
        tri = pl.ref[t]
        for k in range(3):
            i, a, b = tri[k], tri[(k + 1) % 3], tri[(k + 2) % 3]
            gx = (P[a][1] - P[b][1]) / 6
            gy = (P[b][0] - P[a][0]) / 6
            if i in g:
                gx, gy = gx + g[i][0], gy + g[i][1]
            g[i] = (gx, gy)
    return g


def abd(p):
    A, B, D = (np.asarray(v) for v in (p.A, p.B, p.D))
    return np.vstack([np.hstack([A, B]), np.hstack([B, D])])


def strain_rows(g, pos, n):
    """6 x dof matrix for gradients g = {label: (gx, gy)}; pos gives the position of a label"""
    G = {}
    for i, (gx, gy) in g.items():
        b = DOF * pos[i]
        G.setdefault(b + 0, {})[0] = gx
        G[b + 0][2] = gy
        G.setdefault(b + 1, {})[1] = gy
        G[b + 1][2] = gx
        G.setdefault(b + 3, {})[3] = gx
        G[b + 3][5] = gy
        G.setdefault(b + 4, {})[4] = gy
        G[b + 4][5] = gx
    return G


def add_quad(env, K, G, C, fac):
    """K += fac * G^T C G with G given by columns {dof: {row: value}}"""
    CG = {}
    for c, col in G.items():
        out = {}
        for r in range(C.shape[0]):
            acc = None
            for s, v in col.items():
                x = C[r, s]
                if not isinstance(x, S) and x == 0:
                    continue
                y = x * v
                acc = y if acc is None else acc + y
            if acc is not None:
                out[r] = acc
        CG[c] = out
    for a, ca in G.items():
        for b, cb in CG.items():
            acc = None
            for r, v in ca.items():
                if r in cb:
                    y = v * cb[r]
                    acc = y if acc is None else acc + y
            if acc is not None:
                K[a, b] = K[a, b] + fac * acc


def ref_k0(pl, pos=None):
    env = pl.env
    pos = pl.ix() if pos is None else pos
    K = oarr(env, (DOF * pl.n, DOF * pl.n))
    for e in pl.edges:
        a = domain_area(pl, e)
        p = edge_prop(pl, e, ('A', 'B', 'D'))
        add_quad(env, K, strain_rows(grad_sums(pl, e), pos, pl.n), abd(p), env.num(1) / a)
    return K


# ------------------------------------------------------------------ geometric stiffness
def resultants(pl, e, d, pos):
    """domain area * (Nxx, Nyy, Nxy)"""
    env = pl.env
    g = grad_sums(pl, e)
    p = edge_prop(pl, e, ('A', 'B'))
    em = [0, 0, 0]
    eb = [0, 0, 0]
    for i, (gx, gy) in g.items():
        u, v, px, py = (d[DOF * pos[i] + k] for k in (0, 1, 3, 4))
        em = [em[0] + gx * u, em[1] + gy * v, em[2] + gy * u + gx * v]
        eb = [eb[0] + gx * px, eb[1] + gy * py, eb[2] + gy * px + gx * py]
    A, B = np.asarray(p.A), np.asarray(p.B)
    return [sum((A[r, s] * em[s] + B[r, s] * eb[s] for s in range(3)), env.num(0)) for r in range(3)]


def ref_kG(pl, d, pos=None):
    env = pl.env
    pos = pl.ix() if pos is None else pos
    K = oarr(env, (DOF * pl.n, DOF * pl.n))
    for e in pl.edges:
        a = domain_area(pl, e)
        nx, ny, nxy = resultants(pl, e, d, pos)
        f = env.num(1) / (a * a)
        g = grad_sums(pl, e)
        for i, (gx, gy) in g.items():
            for j, (hx, hy) in g.items():
                r, c = DOF * pos[i] + 2, DOF * pos[j] + 2
                K[r, c] = K[r, c] + f * (nx * gx * hx + ny * gy * hy + nxy * (gx * hy + gy * hx))
    return K


# ------------------------------------------------------------------ transverse shear
def dsg(p1, p2, p3):
    """twice the area times the discrete-shear-gap strains of triangle p1 (reference), p2, p3:
    three 2x3 blocks (rows xz, yz; columns w, phix, phiy)"""
    a, b = p2[0] - p1[0], p2[1] - p1[1]
    c, d = p3[0] - p1[0], p3[1] - p1[1]
    J = a * d - b * c
    z = 0
    return [
        [[b - d, J / 2, z], [c - a, z, J / 2]],
        [[d, a * d / 2, b * d / 2], [-c, -(a * c) / 2, -(b * c) / 2]],
        [[-b, -(b * c) / 2, -(b * d) / 2], [a, a * c / 2, a * d / 2]],
    ]


def add_block(G, who, blk, wgt=None):
    """accumulate blk into G[label]; who is a label or a list of labels sharing it equally"""
    labs = who if isinstance(who, (list, tuple)) else [who]
    for l in labs:
        cur = G.setdefault(l, [[0, 0, 0], [0, 0, 0]])
        for r in range(2):
            for k in range(3):
                v = blk[r][k]
                if not isinstance(v, S) and v == 0:
                    continue
                cur[r][k] = cur[r][k] + (v / len(labs))


def shear_cols(G, pos):
    out = {}
    for lab, m in G.items():
        for k in range(3):
            col = {r: m[r][k] for r in range(2) if isinstance(m[r][k], S) or m[r][k] != 0}
            out[DOF * pos[lab] + 2 + k] = col
    return out


def centroid(P, tri):
    return [(P[tri[0]][k] + P[tri[1]][k] + P[tri[2]][k]) / 3 for k in range(2)]


def dist2(p, q):
    return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])


def stab(env, p, alpha, l2):
    h2 = p.h * p.h
    return h2 / (h2 + alpha * l2)


def ref_shear_cell(pl, alpha, area_opt, smoothing=True, pos=None, only=None):
    env, P = pl.env, pl.P
    pos = pl.ix() if pos is None else pos
    K = oarr(env, (DOF * pl.n, DOF * pl.n))
    for t, tri in enumerate(pl.ref):
        if only is not None and t not in only:
            continue
        A = pl.J[t] / 2
        p = tri_prop(pl, t, ('E', 'h', 'scf_k13', 'scf_k23'))
        l2 = A if area_opt else env.max([dist2(P[tri[k]], P[tri[(k + 1) % 3]]) for k in range(3)])
        f = stab(env, p, alpha, l2)
        E = np.asarray(p.E)
        C = np.array([[f * p.scf_k13 * E[1, 1], 0], [0, f * p.scf_k23 * E[0, 0]]], dtype=object)
        G = {}
        if smoothing:
            mid = centroid(P, tri)
            for k in range(3):
                i, j = tri[k], tri[(k + 1) % 3]
                b = dsg(mid, P[i], P[j])
                add_block(G, list(tri), b[0])
                add_block(G, i, b[1])
                add_block(G, j, b[2])
        else:
            # reference vertex: the first given one, or the second if the given order is clockwise
            g = pl.given[pl.cfg['order'].index(t)]
            k = tri.index(g[0])
            first = g[0] if tri[(k + 1) % 3] == g[1] else g[1]
            k = tri.index(first)
            labs = [tri[k], tri[(k + 1) % 3], tri[(k + 2) % 3]]
            b = dsg(*[P[l] for l in labs])
            for l, m in zip(labs, b):
                add_block(G, l, m)
        # G holds twice (area * strain)
        add_quad(env, K, shear_cols(G, pos), C, env.num(1) / (4 * A))
    return K


def ref_shear_edge(pl, alpha, area_opt, pos=None, broken_y1=False, parts='all'):
    """broken_y1: the known finding (height used for the y coordinate of the start of interior edges)"""
    env, P = pl.env, pl.P
    pos = pl.ix() if pos is None else pos
    K = oarr(env, (DOF * pl.n, DOF * pl.n))
    for e in pl.edges:
        inner = len(e.tris) == 2
        if parts == 'inner' and not inner or parts == 'boundary' and inner:
            continue
        A = domain_area(pl, e)
        p = edge_prop(pl, e, ('E', 'h', 'scf_k13', 'scf_k23'))
        E = np.asarray(p.E)
        mids = [centroid(P, pl.ref[t]) for t in e.tris]
        p1, p2 = P[e.n1], P[e.n2]
        if area_opt:
            l2 = A
        else:
            ls = [dist2(p1, p2)]
            for m in mids:
                ls += [dist2(m, p1), dist2(m, p2)]
            l2 = env.max(ls)
        f = stab(env, p, alpha, l2)
        k13, k23 = p.scf_k13, p.scf_k23
        c45 = f * env.min([k13, k23]) * E[0, 1] if inner else 0
        C = np.array([[f * k13 * E[1, 1], c45], [c45, f * k23 * E[0, 0]]], dtype=object)
        G = {}
        q1 = p1
        if inner and broken_y1:
            q1 = [p1[0], p1[2], p1[2]]
        b = dsg(mids[0], q1, p2)
        if inner and broken_y1:
            # the implementation keeps the true triangle area as divisor and weight
            b = dsg_broken(mids[0], q1, p2, pl.J[e.tris[0]] / 3)
        add_block(G, list(pl.ref[e.tris[0]]), b[0])
        add_block(G, e.n1, b[1])
        add_block(G, e.n2, b[2])
        if inner:
            b = dsg(p1, mids[1], p2)
            add_block(G, e.n1, b[0])
            add_block(G, list(pl.ref[e.tris[1]]), b[1])
            add_block(G, e.n2, b[2])
        add_quad(env, K, shear_cols(G, pos), C, env.num(1) / (4 * A))
    return K


def dsg_broken(p1, p2, p3, J):
    a, b = p2[0] - p1[0], p2[1] - p1[1]
    c, d = p3[0] - p1[0], p3[1] - p1[1]
    z = 0
    return [
        [[b - d, J / 2, z], [c - a, z, J / 2]],
        [[d, a * d / 2, b * d / 2], [-c, -(a * c) / 2, -(b * c) / 2]],
        [[-b, -(b * c) / 2, -(b * d) / 2], [a, a * c / 2, a * d / 2]],
    ]


def ref_shear(pl, method, alpha, area_opt, **kw):
    if method == 'cell-based':
        return ref_shear_cell(pl, alpha, area_opt, True, **kw)
    if method == 'cell-based-no-smoothing':
        return ref_shear_cell(pl, alpha, area_opt, False, **kw)
    return ref_shear_edge(pl, alpha, area_opt, **kw)


METHODS = ('cell-based', 'cell-based-no-smoothing', 'edge-based')
