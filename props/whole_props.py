"""C25-C30: energies, numbering, readers, helpers and messages"""
import itertools, random, sys
import numpy as np
from . import register
from symx import plate as pl
from symx import text, api as apis
from symx.plate import (Plate, cfg_name, arr, zeros, oarr, METHODS, DOF, PERMS, ref_k0, ref_shear, make_points)
from .plate_props import (PLANAR, EXACT, meshes, big, cross, spread, pick, z_if_edge, alpha_of, shear_of, sympart, lams, put)
from . import mesh_props


# ------------------------------------------------------------------ C25
def c25_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 1, 'two': 4, 'strip3': 1, 'fan3': 1}, {'one': 6, 'two': 50, 'strip3': 10, 'fan3': 8, 'touch': 2})
    out = spread(m, what=['k0'], mode=['elem', 'node'])
    # laminates of a single layer of stiffness v v': energies of many displacements are zero
    out += [dict(c, what='k0', layers=1, mode=k) for c in m[:2] for k in ('elem', 'node')]
    m = meshes(tier, seed + 1, {'one': 1, 'two': 2, 'strip3': 1}, {'one': 4, 'two': 30, 'strip3': 6, 'fan3': 4})
    out += cross(spread(m, mode=['elem', 'node'], area=[False, True]), what=['k0s'], method=METHODS)
    return out + cross(big(tier, seed), what=['k0'], mode=['elem']) + cross(big(tier, seed), what=['k0s'], mode=['node'], method=METHODS)


def layered(env, tag, layers=3):
    """A, B, D of layers with stiffness v v' at the height t, and their energy as a sum of squares"""
    q = pl.Prop()
    terms = [([env.real('V%s_%d%d' % (tag, k, j)) for j in range(3)], env.real('T%s_%d' % (tag, k))) for k in range(layers)]

    def build(n):
        return arr(env, [[sum((t ** n * v[i] * v[j] for v, t in terms), env.num(0)) for j in range(3)] for i in range(3)])
    q.A, q.B, q.D = build(0), build(1), build(2)

    def energy(e):
        s = env.num(0)
        for v, t in terms:
            x = sum((v[j] * (e[j] + t * e[3 + j]) for j in range(3)), env.num(0))
            s = s + x * x
        return s
    q.energy = energy
    return q


def shear_lemma(env):
    """k13 E11 x^2 + 2 m E01 x y + k23 E00 y^2 >= 0 for E = M M', m = 0 or min(k13, k23)"""
    x, y = env.real('gxz'), env.real('gyz')
    a, b, c = (env.real('M%d' % k) for k in range(3))
    E00, E01, E11 = a * a, a * b, b * b + c * c
    m, d = env.pos('m'), env.nonneg('d')
    for k, l in ((m, m + d), (m + d, m)):
        got = k * E11 * x * x + l * E00 * y * y
        env.eq('energy without coupling', got, k * ((b * x) ** 2 + (c * x) ** 2) + l * (a * y) ** 2)
        more = (a * y) ** 2 if k is m else (b * x) ** 2 + (c * x) ** 2
        env.eq('energy with coupling', got + 2 * m * E01 * x * y, m * ((b * x + a * y) ** 2 + (c * x) ** 2) + d * more)
        env.check('factors of the squares', m > 0)
        env.check('factors of the squares', d >= 0)


@register('C25', c25_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations), every laminate of up to three layers of positive '
          'semi-definite stiffness, every positive semi-definite shear stiffness',
          assumptions=[PLANAR, EXACT, 'a matrix that is not the sum over the domains (cells) of areas times strain energies is not '
                       'decided unless a counterexample shows on the real code'], name=cfg_name)
def c25(env, api, cfg):
    p = Plate(env, api, cfg)
    w, shear = cfg['what'], cfg['what'] == 'k0s'
    props = []
    for i in range(len(p.elem if cfg['mode'] == 'elem' else p.node)):
        q = pl.make_prop(env, str(i), abd=False, shear=shear)
        if shear:
            a, b, c = (env.real('M%d_%d' % (i, k)) for k in range(3))
            q.E = arr(env, [[a * a, a * b], [a * b, b * b + c * c]])
            if cfg.get('layers'):
                q.E = arr(env, [[a * a, a * b], [a * b, b * b]])
        else:
            r = layered(env, str(i), cfg.get('layers', 3))
            q.A, q.B, q.D, q.energy = r.A, r.B, r.D, r.energy
        props.append(q)
    p.assign(cfg['mode'], props)
    K = api.calc_k0(p.mesh, p.from_node)
    al = alpha_of(env)
    if shear:
        K = shear_of(env, api, p, cfg, al)
    env.record(w, K)
    K = sympart(K)
    if not env.symbolic:
        lo = float(np.linalg.eigvalsh(K).min())
        env.check('%s: energy is never negative' % w, lo >= -1e-9 * float(np.abs(K).max()))
        return
    if shear:
        R = [ref_shear(p, cfg['method'], al, bool(cfg.get('area')), **k)
             for k in ([{}, dict(broken_y1=True)] if cfg['method'] == 'edge-based' else [{}])]
    else:
        R = [ref_k0(p)]
    if not any(env.same(K, sympart(r)) for r in R):
        env.check('%s: energy is never negative' % w, False)
        return
    # the energy is a sum over domains of (positive) areas times strain energies per area
    for e in p.edges:
        env.check('area of a domain', pl.domain_area(p, e) > 0)
    for j in p.J:
        env.check('area of a cell', j > 0)
    if shear:
        shear_lemma(env)
    else:
        for i, q in enumerate(props):
            e = [env.real('strain%d' % k) for k in range(6)]
            C = pl.abd(q)
            val = env.num(0)
            for a, b in itertools.product(range(6), repeat=2):
                val = val + C[a, b] * e[a] * e[b]
            env.eq('energy of laminate %d as a sum of squares' % i, val, q.energy(e))
    env.check('%s: energy is never negative' % w, True)


# ------------------------------------------------------------------ C26
def other_way(rng, c, what):
    """the same mesh with other node numbers (elements in another order, other vertex orders)"""
    o = pick(rng, c['shape'], 1)[0]
    while o['number'] == c['number']:
        o = pick(rng, c['shape'], 1)[0]
    if what in ('edge-based', 'cell-based-no-smoothing'):
        o['perms'] = c['perms']
    if what == 'edge-based':
        o['order'] = c['order']
    elif len(c['order']) > 1 and o['order'] == c['order']:
        o['order'] = o['order'][1:] + o['order'][:1]
    return {k: o[k] for k in ('perms', 'number', 'order')}


def c26_cfgs(tier, seed):
    rng = random.Random(2600 + (seed if tier != 'quick' else 1))
    m = meshes(tier, seed, {'one': 1, 'two': 4, 'strip3': 2, 'fan3': 1}, {'one': 4, 'two': 60, 'strip3': 16, 'fan3': 10, 'touch': 3})
    out = cross(spread(m, mode=['elem', 'node']), what=['k0', 'kG']) + cross(big(tier, seed), what=['k0', 'kG'], mode=['node'])
    m = meshes(tier, seed + 1, {'one': 1, 'two': 2, 'strip3': 1}, {'one': 4, 'two': 30, 'strip3': 6, 'fan3': 4})
    out += z_if_edge(cross(spread(m, mode=['elem', 'node'], area=[False, True]), what=['k0s'], method=METHODS))
    out += cross(big(tier, seed), what=['k0s'], mode=['elem'], method=METHODS[:2])
    return [dict(c, other=other_way(rng, c, c.get('method', c['what']))) for c in out]


def other_name(c):
    o = c['other']
    return '%s against p%s n%s o%s' % (cfg_name(dict(c, other=None)), *(''.join(map(str, o[k])) for k in ('perms', 'number', 'order')))


def matrix_of(env, api, p, cfg, al, d):
    """the matrix in reference numbering; d: {(label, dof): displacement}"""
    K = api.calc_k0(p.mesh, p.from_node)
    if cfg['what'] == 'kG':
        ix = p.ix()
        v = [None] * (DOF * p.n)
        for (lab, k), x in d.items():
            v[DOF * ix[lab] + k] = x
        K = api.calc_kG(arr(env, v), p.mesh, p.from_node)
    elif cfg['what'] == 'k0s':
        K = shear_of(env, api, p, cfg, al)
    p.check_index(env)
    return p.permuted(K)


def displacements(env, n):
    return {(lab, k): env.real('d%d_%d' % (lab, k)) for lab in range(n) for k in range(DOF)}


@register('C26', c26_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations), each listed in two ways',
          assumptions=[PLANAR, EXACT], name=other_name)
def c26(env, api, cfg):
    P = make_points(env, cfg)
    w = cfg['what']
    a = Plate(env, api, cfg, points=P)
    a.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    b = Plate(env, api, dict(cfg, **cfg['other']), points=P)
    b.assign(cfg['mode'], a.props)
    al, d = alpha_of(env), displacements(env, a.n)
    A, B = (matrix_of(env, api, p, cfg, al, d) for p in (a, b))
    env.record(w, B)
    env.array_eq('%s of the mesh listed in another way' % w, B, A)


# ------------------------------------------------------------------ C27
def c27_cfgs(tier, seed):
    rng = random.Random(2700 + (seed if tier != 'quick' else 1))
    m = meshes(tier, seed, {'one': 1, 'two': 3, 'strip3': 1}, {'one': 4, 'two': 30, 'strip3': 6, 'fan3': 6, 'touch': 2})
    out = cross(spread(m, mode=['elem', 'node']), what=['k0', 'kG'])
    m = meshes(tier, seed + 1, {'two': 2, 'strip3': 1}, {'one': 4, 'two': 20, 'strip3': 4, 'fan3': 4})
    out += z_if_edge(cross(spread(m, mode=['elem', 'node'], area=[False, True]), what=['k0s'], method=METHODS))
    out += cross(big(tier, seed), what=['k0', 'kG'], mode=['elem'])
    out += cross(big(tier, seed), what=['k0s'], mode=['node'], method=METHODS[:2])
    return [dict(c, ids=('given', 'any')[i % 3 == 0 and c['shape'] != 'grid43'], frame=bool(i % 2), shuffle=rng.randrange(1000))
            for i, c in enumerate(out)]


def from_deck(env, api, cfg):
    """reads the same points and triangles from a Nastran deck, with cards in any order"""
    def build(pts, tri):
        rng = random.Random(cfg['shuffle'])
        n, m = len(pts), len(tri.simplices)
        if cfg['ids'] == 'given':
            nid, eid = (sorted(rng.sample(range(1, 99999999), k)) for k in (n, m))
        else:
            nid, eid = ([env.int('%s%d' % (c, i), 1, 99999999) for i in range(k)] for c, k in (('n', n), ('e', m)))
            for ids in (nid, eid):
                for x, y in zip(ids, ids[1:]):
                    env.assume(x < y)
        grids, cp = [], []
        for i in range(n):
            x, y, z = pts[i]
            k = 7 if cfg['frame'] and i % 3 != 1 else 0
            grids.append((nid[i], arr(env, [-2 - y, x - 3, z - 5] if k else [x, y, z])))
            cp.append(k)
        cards = [('CTRIA3', e, [nid[v] for v in s]) for e, s in zip(eid, tri.simplices)]
        order = list(range(n))
        rng.shuffle(order)
        if cfg.get('method') != 'edge-based':
            # (the edge-based method has the elements in the given order)
            rng.shuffle(cards)
        deck = dict(grids=[grids[i] for i in order], cp=[cp[i] for i in order], cards=cards, frame=cfg['frame'] and 'in plane', other=False)
        mesh = mesh_props.read(env, api, deck)
        return mesh
    return build


@register('C27', c27_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations); ids from 1 to 99999999, cards in an order '
          'of their own, grid points in the basic or in another coordinate system', opts={'ints': False, 'config_s': 300},
          assumptions=[PLANAR, EXACT, 'pyNastran\'s parsing of the text of a deck is outside (as in C16)'], name=cfg_name)
def c27(env, api, cfg):
    P = make_points(env, cfg)
    w = cfg['what']
    a = Plate(env, api, cfg, points=P)
    a.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    b = Plate(env, api, cfg, points=P, read=from_deck(env, api, cfg))
    b.assign(cfg['mode'], a.props)
    al, d = alpha_of(env), displacements(env, a.n)
    A, B = (matrix_of(env, api, p, cfg, al, d) for p in (a, b))
    env.record(w, B)
    env.array_eq('%s of the mesh read from a deck' % w, B, A)


# ------------------------------------------------------------------ C28
def c28_cfgs(tier, seed):
    out = [dict(what='unit', n=n) for n in range(1, 5 if tier == 'quick' else 9)]
    out += [dict(what='unit', n=3, of=k) for k in ('zeros', 'whole')]
    out += [dict(what='edge', dim=k, ids=i) for k in (2, 3) for i in ('given', 'any')]
    for kind in ('CTRIA3', 'CQUAD4', 'CROD', 'CTETRA', 'CPENTA', 'CHEXA', 'CSHEAR'):
        out.append(dict(what='element', kind=kind, moved=False))
    out += [dict(what='element', kind='CTRIA3', moved=True), dict(what='plate', shape='two', perms=[1, 4], number=[2, 0, 3, 1], order=[1, 0])]
    return out


NODES = {'CTRIA3': 3, 'CQUAD4': 4, 'CROD': 2, 'CTETRA': 4, 'CPENTA': 6, 'CHEXA': 8, 'CSHEAR': 4}


def element(kind, nodes):
    """a pyNastran element with references to its nodes, set in the way of the readers"""
    from pyNastran.bdf.bdf import CTRIA3, CQUAD4, CROD, CTETRA4, CPENTA6, CHEXA8, CSHEAR
    ids = [n.nid for n in nodes]
    if kind == 'CTRIA3':
        e = CTRIA3(1, 1, ids)
    elif kind == 'CQUAD4':
        e = CQUAD4(1, 1, ids)
    elif kind == 'CROD':
        e = CROD(1, 1, ids)
    elif kind == 'CSHEAR':
        e = CSHEAR(1, 1, ids)
    else:
        e = {'CTETRA': CTETRA4, 'CPENTA': CPENTA6, 'CHEXA': CHEXA8}[kind](1, 1, ids)
    e.nodes = e.nodes_ref = list(nodes)
    return e


@register('C28', c28_cfgs, bounds='vectors of 1 to 4 (thorough: 8) components, elements of 2 to 8 nodes, all coordinates symbolic',
          assumptions=['arithmetic over the reals', 'vectors other than zero'])
def c28(env, api, cfg):
    from pyNastran.bdf.bdf import GRID
    w = cfg['what']
    if w == 'unit':
        n = cfg['n']
        v = [env.real('v%d' % i) for i in range(n)]
        if cfg.get('of') == 'zeros':
            v = [v[0], env.num(0), env.num(0)]
        elif cfg.get('of') == 'whole':
            v = [3, -4, 12]
        env.assume(sum((x * x for x in v), env.num(0)) > 0)
        g = arr(env, v) if cfg.get('of') != 'whole' else np.array(v)
        u = api.utils.unitvec(g)
        env.array_eq('the vector is left as it was', arr(env, list(g)), arr(env, v))
        env.check('as many components', np.shape(u) == (n,))
        env.record('unit vector', arr(env, list(u)))
        env.eq('unit length', sum((x * x for x in u), env.num(0)), env.num(1))
        for i, j in itertools.combinations(range(n), 2):
            env.eq('parallel %d %d' % (i, j), u[i] * v[j], u[j] * v[i])
        env.check('in the direction of the vector', sum((a * b for a, b in zip(u, v)), env.num(0)) > 0)
        return
    if w == 'plate':
        # edges and triangles of a mesh, also after the nodes have moved
        p = Plate(env, api, cfg)
        for k in range(2):
            P = p.P if k == 0 else make_points(env, cfg, 'b')
            if k:
                for node, q in zip(p.node, P):
                    node.xyz = arr(env, q)
            for t, e in zip(p.ref, p.elem):
                env.array_eq('centroid', api.utils.getMid(e), [(P[t[0]][c] + P[t[1]][c] + P[t[2]][c]) / 3 for c in range(3)])
            lab = {id(n): i for i, n in enumerate(p.node)}
            for e in p.mesh.edges.values():
                a, b = P[lab[id(e.n1)]], P[lab[id(e.n2)]]
                env.array_eq('middle of an edge', e.getMid(), [(a[c] + b[c]) / 2 for c in range(3)])
        return
    if w == 'edge':
        dim = cfg['dim']
        ids = [env.int('n%d' % i, 1, 99999999) for i in range(2)] if cfg['ids'] == 'any' else [5, 3]
        P = [[env.real('p%d_%d' % (i, c)) for c in range(dim)] + [env.num(0)] * (3 - dim) for i in range(2)]
        nodes = [GRID(i, cp=0, cd=0, xyz=arr(env, q)) for i, q in zip(ids, P)]
        e = api.classes.Edge(*nodes)
        env.check('joins the given nodes', e.n1 is nodes[0] and e.n2 is nodes[1] and list(map(id, e.nodes)) == list(map(id, nodes)))
        env.check('node ids', len(e.node_ids) == 2 and all(bool(a == b) for a, b in zip(e.node_ids, ids)))
        env.array_eq('middle of the edge', e.getMid(), [(a + b) / 2 for a, b in zip(*P)])
        for n, q in zip(nodes, P):
            env.array_eq('coordinates are left as they were', n.xyz, q)
        return
    k = NODES[cfg['kind']]
    P = [[env.real('p%d_%d' % (i, c)) for c in range(3)] for i in range(k)]
    nodes = [GRID(11 * (7 * i % 10) + 3, cp=0, cd=0, xyz=arr(env, q)) for i, q in enumerate(P)]
    for n in nodes:
        n.cp_ref = None
    e = element(cfg['kind'], nodes)
    if cfg['moved']:
        api.utils.getMid(e)
        P = [[env.real('q%d_%d' % (i, c)) for c in range(3)] for i in range(k)]
        for n, q in zip(nodes, P):
            n.xyz = arr(env, q)
    mid = api.utils.getMid(e)
    env.record('mid', mid)
    env.array_eq('mean of the positions', mid, [sum((q[c] for q in P), env.num(0)) / k for c in range(3)])
    for n, q in zip(nodes, P):
        env.array_eq('coordinates are left as they were', n.xyz, q)


# ------------------------------------------------------------------ C29
class Console:
    """takes the place of the standard output"""
    encoding, errors = 'utf-8', 'strict'

    def __init__(self):
        self.c = ()

    def write(self, s):
        self.c += text.chars(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old


TEXT = ''.join(map(chr, range(32, 127))) + '\t\n\r\x0b\xa0\xe9\u03bb\u2028' 


def c29_cfgs(tier, seed):
    top = 4 if tier == 'quick' else 7
    out = [dict(what=k, n=n, call=c) for k in ('msg', 'warn', 'error') for n in range(top) for c in ('all', 'positional', 'text only')]
    m = meshes(tier, seed, {'two': 1}, {'one': 2, 'two': 4, 'strip3': 1})
    out += cross(spread(m, mode=['elem', 'node']), what=['k0', 'kG', 'read_delaunay', 'read_mesh'])
    out += z_if_edge(cross(spread(m, mode=['node', 'elem']), what=['k0s'], method=METHODS))
    return out


@register('C29', c29_cfgs, opts=dict(ints=True), bounds='messages of up to 3 (thorough: 6) characters (printable ASCII, blanks, line '
          'breaks and some letters beyond ASCII), indentation 0 to 4; the readers and matrix functions with silent given as True, False or not',
          assumptions=[PLANAR, EXACT, 'what pyNastran itself prints while reading a deck is outside'],
          name=lambda c: cfg_name(c) if 'shape' in c else '%s with %d characters, %s' % (c['what'], c['n'], c['call']))
def c29(env, api, cfg):
    w = cfg['what']
    if w in ('msg', 'warn', 'error'):
        lg = (apis.symbolic if env.symbolic else apis.concrete)('logger').logger
        s = text.mk([env.char('c%d' % i, TEXT) for i in range(cfg['n'])])
        want = {'msg': '', 'warn': 'WARNING: ', 'error': 'ERROR: '}[w] + s
        f = getattr(lg, w)
        level, silent = 0, False
        if cfg['call'] != 'text only':
            level, silent = env.choose('level', range(5)), bool(env.boolean('silent'))
        with Console() as con:
            if cfg['call'] == 'all':
                r = f(s, level=level, silent=silent)
            elif cfg['call'] == 'positional':
                r = f(s, level, silent)
            else:
                r = f(s)
        env.check('the message is returned', text.is_str(r) and bool(r == want))
        shown = text.mk(con.c)
        if silent:
            env.check('nothing is printed', shown == '')
        else:
            env.check('one indented line is printed', bool(shown == '\t' * level + want + '\n'))
        return
    silent = env.choose('silent', [None, True, False])
    kws = {} if silent is None else dict(silent=silent)
    con = Console()

    def loud(f, *a, **k):
        with con:
            return f(*a, **k, **kws)
    if w in ('read_delaunay', 'read_mesh'):
        P = make_points(env, cfg)
        if w == 'read_delaunay':
            p = Plate(env, api, cfg, points=P, read=lambda pts, tri: loud(api.read_delaunay, pts, tri))
        else:
            import types
            a2 = types.SimpleNamespace(**dict(vars(api), read_mesh=lambda fn: loud(api.read_mesh, fn)))
            c2 = dict(cfg, shuffle=5, ids='given', frame=False)
            p = Plate(env, api, cfg, points=P, read=from_deck(env, a2, c2))
        q = Plate(env, api, cfg, points=P)
        lm = lams(env, p, 'l')
        put(p, lm)
        put(q, lm)
        env.array_eq('k0', p_k0(api, p, cfg), p_k0(api, q, cfg))
    else:
        p = Plate(env, api, cfg)
        p.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
        d = arr(env, [env.real('d%d' % i) for i in range(DOF * p.n)])
        al = alpha_of(env)
        if w == 'k0':
            K, R = loud(api.calc_k0, p.mesh, p.from_node), api.calc_k0(p.mesh, p.from_node)
        else:
            api.calc_k0(p.mesh, p.from_node)
            if w == 'kG':
                K, R = loud(api.calc_kG, d, p.mesh, p.from_node), api.calc_kG(d, p.mesh, p.from_node)
            else:
                f = api.direct[cfg['method']]
                K, R = (zeros(env, (DOF * p.n,) * 2) for _ in range(2))
                a = bool(env.boolean('area'))
                loud(f, K, p.mesh, p.from_node, alpha=al, maxl_from_area=a)
                f(R, p.mesh, p.from_node, alpha=al, maxl_from_area=a)
        env.array_eq('the same matrix', K, R)
    shown = text.mk(con.c)
    if silent is False:
        env.check('progress is told', len(shown) > 0)
    else:
        env.check('nothing is printed', len(shown) == 0)


def p_k0(api, p, cfg):
    return p.permuted(api.calc_k0(p.mesh, cfg['mode'] == 'node'))


# ------------------------------------------------------------------ C30
def c30_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 1, 'two': 3, 'strip3': 1}, {'one': 4, 'two': 30, 'strip3': 8, 'fan3': 4})
    out = cross(spread(m, mode=['elem', 'node']), what=['k0', 'kG'])
    m = meshes(tier, seed + 1, {'one': 1, 'two': 2}, {'one': 4, 'two': 20, 'strip3': 3})
    out += z_if_edge(cross(spread(m, mode=['elem', 'node'], area=[False, True]), what=['k0s'], method=METHODS))
    out += cross(big(tier, seed), what=['k0', 'kG'], mode=['node'])
    return [dict(c, unit='any' if c['what'] != 'k0s' and c['shape'] in ('one', 'two', 'grid43') else ('small', 'large')[i % 2]) for i, c in enumerate(out)]


def c30_name(c):
    return '%s, %s unit of length' % (cfg_name(dict(c, unit=None)), c['unit'])


@register('C30', c30_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations), any unit of force; any unit of length for k0 and kG of '
          'one and two triangles, units 1/1024 and 25.4 for the others', assumptions=[PLANAR, EXACT], name=c30_name)
def c30(env, api, cfg):
    P = make_points(env, cfg)
    w = cfg['what']
    F = env.pos('F')
    L = {'any': lambda: env.pos('L'), 'small': lambda: env.q(1, 1024), 'large': lambda: env.q(127, 5)}[cfg['unit']]()
    a = Plate(env, api, cfg, points=P)
    a.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    b = Plate(env, api, cfg, points=[[x * L for x in q] for q in P])
    props = []
    for q in a.props:
        r = pl.Prop()
        for k, v in vars(q).items():
            f = {'A': F, 'B': F * L, 'D': F * L * L, 'E': F, 'h': L}.get(k)
            setattr(r, k, v if f is None else v * f)
        props.append(r)
    b.assign(cfg['mode'], props)
    al, d = alpha_of(env), displacements(env, a.n)
    A = matrix_of(env, api, a, cfg, al, d)
    B = matrix_of(env, api, b, cfg, al, {(lab, k): x * L if k < 3 else x for (lab, k), x in d.items()})
    n = A.shape[0]
    W = arr(env, [[A[i, j] * F * (L if i % DOF > 2 else 1) * (L if j % DOF > 2 else 1) for j in range(n)] for i in range(n)])
    env.record(w, B)
    env.array_eq('%s in other units' % w, B, W)


# ------------------------------------------------------------------ C32
def parts_of(cfg):
    """the parts of a mesh that share no edge: [(labels, configuration)]"""
    n, tris = pl.SHAPES[cfg['shape']]
    group = list(range(len(tris)))
    for e in pl.ref_edges(tris, cfg['order']):
        for t in e.tris[1:]:
            a, b = group[t], group[e.tris[0]]
            group = [b if g == a else g for g in group]
    out = []
    for g in sorted(set(group)):
        mine = [t for t in range(len(tris)) if group[t] == g]
        labs = sorted({v for t in mine for v in tris[t]})
        name = '%s part %d' % (cfg['shape'], g)
        pl.SHAPES[name] = (len(labs), [tuple(labs.index(v) for v in tris[t]) for t in mine])
        nums = sorted(cfg['number'][v] for v in labs)
        out.append((labs, mine, dict(shape=name, perms=[cfg['perms'][t] for t in mine],
                                     number=[nums.index(cfg['number'][v]) for v in labs],
                                     order=[mine.index(t) for t in cfg['order'] if t in mine])))
    return out


def c32_cfgs(tier, seed):
    m = meshes(tier, seed, {'apart': 1, 'touch': 2, 'two+one': 1, 'two-one': 2, 'lone': 1, 'two lone': 1},
               {'apart': 10, 'touch': 20, 'two+one': 10, 'two-one': 16, 'two-two': 6, 'lone': 6, 'two lone': 8})
    out = spread(cross(m, what=['k0', 'kG']), mode=['elem', 'node', 'node', 'elem'])
    m = meshes(tier, seed + 1, {'apart': 1, 'touch': 1, 'two-one': 1, 'two lone': 1},
               {'apart': 10, 'touch': 20, 'two+one': 6, 'two-one': 8, 'two-two': 4, 'lone': 6, 'two lone': 8})
    m = spread(m, mode=['elem', 'node'], area=[False, True])
    return out + z_if_edge(cross(m, what=['k0s'], method=METHODS))


@register('C32', c32_cfgs, bounds='two parts of 1 to 2 triangles, apart or touching at one node; up to two nodes without triangle',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c32(env, api, cfg):
    P = make_points(env, cfg)
    w, mode = cfg['what'], cfg['mode']
    a = Plate(env, api, cfg, points=P)
    a.set_props(mode, abd=w != 'k0s', shear=w == 'k0s')
    al, d = alpha_of(env), displacements(env, a.n)
    A = matrix_of(env, api, a, cfg, al, d)
    R = zeros(env, A.shape)
    for labs, mine, c in parts_of(cfg):
        b = Plate(env, api, c, points=[P[v] for v in labs])
        b.assign(mode, [a.props[k] for k in (mine if mode == 'elem' else labs)])
        B = matrix_of(env, api, b, dict(cfg, **c), al, {(labs.index(v), k): x for (v, k), x in d.items() if v in labs})
        ix = [DOF * v + k for v in labs for k in range(DOF)]
        for i, r in enumerate(ix):
            for j, s in enumerate(ix):
                R[r, s] = R[r, s] + B[i, j]
    env.record(w, A)
    env.array_eq('%s = the parts\' own matrices' % w, A, R)
