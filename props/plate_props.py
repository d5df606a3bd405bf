"""C01-C14, C17, C18: the plate matrices"""
import random, itertools
import numpy as np
from . import register
from symx import plate as pl
from symx.api import fresh
from symx.plate import (Plate, shape_cfg, cfg_name, arr, zeros, oarr, METHODS, DOF, SHAPES, ref_k0, ref_kG, ref_shear,
                        domain_area, edge_prop, tri_prop, grad_sums, make_points, make_prop, PERMS)

PLANAR = 'planar meshes without overlapping or degenerate triangles, at any constant height'
EXACT = ('arithmetic over the reals; decimal literals of the source within 1e-13 of a fraction with a denominator '
         'up to 1000 stand for that fraction')


# ------------------------------------------------------------------ configurations
def all_two():
    """every order of both triangles' vertices and every numbering of the four nodes"""
    return [shape_cfg('two', perms=(a, b), number=n)
            for a in range(6) for b in range(6) for n in itertools.permutations(range(4))]


def all_one():
    return [shape_cfg('one', perms=(a,), number=n) for a in range(6) for n in [(0, 1, 2), (0, 2, 1)]]


def pick(rng, shape, k):
    """k configurations of a shape: every vertex order occurs before one is repeated, numberings are random"""
    n, tris = SHAPES[shape]
    out = []
    pools = [[] for _ in tris]
    for _ in range(k):
        perms = []
        for i in range(len(tris)):
            if not pools[i]:
                pools[i] = list(range(6))
                rng.shuffle(pools[i])
            perms.append(pools[i].pop())
        num = list(range(n))
        rng.shuffle(num)
        order = list(range(len(tris)))
        if len(tris) > 2:
            rng.shuffle(order)
        out.append(shape_cfg(shape, perms=perms, number=num, order=order))
    return out


def meshes(tier, seed, quick, thorough):
    """quick/thorough: {shape: count or 'all'}"""
    rng = random.Random(1000 + (seed if tier != 'quick' else 1))
    out = []
    for shape, k in (quick if tier == 'quick' else thorough).items():
        if k == 'all':
            out += all_one() if shape == 'one' else all_two()
        else:
            out += pick(rng, shape, k)
    return out


def big(tier, seed, shape='grid43', **kw):
    """one mesh with more than ten nodes at fixed places (laminates and displacements remain arbitrary)"""
    rng = random.Random(500 + (seed if tier != 'quick' else 1))
    return [dict(c, **kw) for c in pick(rng, shape, 1 if tier == 'quick' else 3)]


def cross(cfgs, **axes):
    """cartesian product of configurations with option values"""
    out = list(cfgs)
    for k, vs in axes.items():
        out = [dict(c, **{k: v}) for c in out for v in vs]
    return out


def spread(cfgs, **axes):
    """every configuration once, cycling through the combinations of option values"""
    combos = [dict(zip(axes, v)) for v in itertools.product(*axes.values())]
    n = max(len(cfgs), len(combos))
    return [dict(cfgs[i % len(cfgs)], **combos[i % len(combos)]) for i in range(n)]


def z_if_edge(cfgs):
    """stay clear of the known finding about interior edges wherever the edge-based method is not itself the subject"""
    return [dict(c, zslice=True) if c.get('method') == 'edge-based' and c['shape'] != 'one' else c for c in cfgs]


def kw(cfg):
    return dict(method=cfg['method'], maxl_from_area=bool(cfg.get('area')))


def alpha_of(env):
    return env.nonneg('alpha', 0, 1)


def shear_of(env, api, p, cfg, alpha):
    """the matrix add_k0s adds"""
    K = zeros(env, (DOF * p.n, DOF * p.n))
    api.add_k0s(K, p.mesh, p.from_node, alpha=alpha, **kw(cfg))
    return K


# ------------------------------------------------------------------ C01, C02
def c01_cfgs(tier, seed):
    return meshes(tier, seed, {'one': 2, 'two': 7, 'strip3': 2, 'fan3': 1},
                  {'one': 'all', 'two': 'all', 'strip3': 40, 'fan3': 24, 'fan4': 4, 'touch': 6, 'apart': 6}) + big(tier, seed) + big(tier, seed, shape='grid96')


@register('C01', c01_cfgs, bounds='meshes of 1 to 4 triangles (see coverage.configurations), one laminate per element',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c01(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props('elem', shear=False)
    K = api.calc_k0(p.mesh, False)
    p.check_index(env)
    env.record('k0', K)
    env.check('shape', np.shape(K) == (DOF * p.n,) * 2)
    R = ref_k0(p)
    K = np.asarray(K)
    env.array_eq('energy of k0', K + K.T, R + R.T)


def c02_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 1, 'two': 3}, {'one': 4, 'two': 60, 'strip3': 10, 'fan3': 6})
    out = cross(m, what=['k0', 'kG'])
    m2 = meshes(tier, seed + 1, {'one': 1, 'two': 2}, {'one': 4, 'two': 40, 'strip3': 8, 'fan3': 4})
    out += z_if_edge(cross(m2, what=['k0s'], method=METHODS))
    m3 = meshes(tier, seed + 2, {'two': 1, 'one': 1}, {'one': 6, 'two': 12, 'strip3': 3, 'fan3': 2})
    out += z_if_edge(cross(m3, what=['same'], method=METHODS))
    out += cross(big(tier, seed), what=['k0', 'kG'])
    out += cross(big(tier, seed), what=['k0s'], method=METHODS[:2])
    return out


@register('C02', c02_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations), one laminate per node',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c02(env, api, cfg):
    p = Plate(env, api, cfg)
    w = cfg['what']
    if w == 'same':
        # one laminate everywhere: both property modes agree
        p.set_props('node', uniform=True)
        al = alpha_of(env)
        d = arr(env, [env.real('d%d' % i) for i in range(DOF * p.n)])
        out = []
        for mode in ('node', 'elem'):
            p.assign(mode, [p.props[0]] * (p.n if mode == 'node' else len(p.ref)))
            K = api.calc_k0(p.mesh, p.from_node)
            out.append([K, api.calc_kG(d, p.mesh, p.from_node), shear_of(env, api, p, cfg, al)])
            for t in p.elem + p.node:
                t.prop = None
        for name, a, b in zip(('k0', 'kG', 'k0s'), *out):
            env.array_eq('%s of nodal and of element laminates' % name, a, b)
        return
    p.set_props('node', abd=w != 'k0s', shear=w == 'k0s')
    K = api.calc_k0(p.mesh, True)
    if w == 'k0':
        env.record('k0', K)
        env.array_eq('k0 from nodal laminates', sympart(K), sympart(ref_k0(p)))
    elif w == 'kG':
        d = arr(env, [env.real('d%d' % i) for i in range(DOF * p.n)])
        kG = api.calc_kG(d, p.mesh, True)
        env.record('kG', kG)
        env.array_eq('kG from nodal laminates', sympart(kG), sympart(ref_kG(p, d)))
    else:
        al = alpha_of(env)
        K = shear_of(env, api, p, cfg, al)
        env.record('k0s', K)
        shear_eq(env, cfg, p, 'k0s from nodal laminates', K, al)


def shear_eq(env, cfg, p, name, K, al):
    """K against the reference shear matrix; `general' edge-based meshes show the known finding about interior edges"""
    K, area, method = sympart(K), bool(cfg.get('area')), cfg['method']
    R = sympart(ref_shear(p, method, al, area))
    if cfg.get('general') and method == 'edge-based' and not env.same(K, R):
        if env.same(K, sympart(ref_shear(p, method, al, area, broken_y1=True))):
            env.known('interior-edge-y1')
            return
    env.array_eq(name, K, R)


def sympart(K):
    K = np.asarray(K)
    return K + K.T


# ------------------------------------------------------------------ C03
def c03_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 4, 'strip3': 1}, {'one': 4, 'two': 60, 'strip3': 12, 'fan3': 6})
    out = spread(m, what=['k0', 'kG'], mode=['elem', 'node'])
    m = meshes(tier, seed + 1, {'two': 4, 'strip3': 1}, {'one': 4, 'two': 90, 'strip3': 12, 'fan3': 6})
    out += spread(m, what=['k0s'], method=METHODS, mode=['elem', 'node'], area=[False, True])
    m = big(tier, seed)
    out += cross(m, what=['k0', 'kG'], mode=['elem']) + cross(m, what=['k0s'], method=METHODS, mode=['elem'])
    return out


@register('C03', c03_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c03(env, api, cfg):
    p = Plate(env, api, cfg)
    w = cfg['what']
    p.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    K = api.calc_k0(p.mesh, p.from_node)
    if w == 'kG':
        d = arr(env, [env.real('d%d' % i) for i in range(DOF * p.n)])
        K = api.calc_kG(d, p.mesh, p.from_node)
    elif w == 'k0s':
        K = shear_of(env, api, p, cfg, alpha_of(env))
    env.record(w, K)
    K = np.asarray(K)
    env.array_eq('%s against its transpose' % w, K, K.T)


# ------------------------------------------------------------------ C04
def rigid_modes(env, p):
    """six rigid-body motions (rotations about one node) as vectors over the matrix dofs"""
    P, pos, n, o = p.P, p.ix(), p.n, p.origin
    out = []
    for k in range(6):
        v = [env.num(0)] * (DOF * n)
        for lab in range(n):
            b = DOF * pos[lab]
            x, y = P[lab][0] - o[0], P[lab][1] - o[1]
            if k == 0:
                v[b] = env.num(1)
            elif k == 1:
                v[b + 1] = env.num(1)
            elif k == 2:
                v[b], v[b + 1] = -y, x
            elif k == 3:
                v[b + 2] = env.num(1)
            elif k == 4:
                v[b + 2], v[b + 3] = x, env.num(-1)
            else:
                v[b + 2], v[b + 4] = y, env.num(-1)
        out.append(v)
    return out


NAMES = ('translation x', 'translation y', 'in-plane rotation', 'deflection', 'rotation about y', 'rotation about x')


def matvec(env, K, v):
    K = np.asarray(K)
    out = []
    for i in range(K.shape[0]):
        acc = env.num(0)
        for j, x in enumerate(v):
            a = K[i, j]
            if (not env.symbolic or hasattr(a, 't') and a.t or isinstance(a, (int, float)) and a) and not zero(x):
                acc = acc + a * x
        out.append(acc)
    return out


def zero(x):
    return getattr(x, 't', True) == {} if hasattr(x, 't') else x == 0


def c04_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 3, 'strip3': 1}, {'one': 6, 'two': 60, 'strip3': 10, 'fan3': 6})
    out = spread(m, what=['k0'], mode=['elem', 'node'])
    m = meshes(tier, seed + 1, {'two': 6, 'strip3': 1}, {'one': 12, 'two': 100, 'strip3': 8, 'fan3': 6})
    out += z_if_edge(spread(m, what=['k0s'], method=METHODS, mode=['elem', 'node'], area=[False, True]))
    m = meshes(tier, seed + 2, {'two': 1}, {'two': 12})
    out += spread(m, what=['k0s'], method=['edge-based'], mode=['elem'], general=[True])
    out += cross(big(tier, seed), what=['k0'], mode=['elem'])
    out += cross(big(tier, seed), what=['k0s'], mode=['node'], method=METHODS[:2], area=[False])
    return out


@register('C04', c04_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c04(env, api, cfg):
    p = Plate(env, api, cfg)
    w = cfg['what']
    p.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    K = api.calc_k0(p.mesh, p.from_node)
    if w == 'k0s':
        al = alpha_of(env)
        K = shear_of(env, api, p, cfg, al)
    env.record(w, K)
    sc = None if env.symbolic else float(np.abs(K).max()) * (1 + max(abs(c) for q in p.P for c in q))
    res = [matvec(env, K, v) for v in rigid_modes(env, p)]
    if cfg.get('general') and not all(env.same(r, [env.num(0)] * len(r)) for r in res):
        if env.same(K, ref_shear(p, 'edge-based', al, bool(cfg.get('area')), broken_y1=True)):
            env.known('interior-edge-y1')
            return
    for name, r in zip(NAMES, res):
        env.array_eq('%s: forces of the rigid motion "%s"' % (w, name), r, [env.num(0)] * len(r), scale=sc)


# ------------------------------------------------------------------ C05
def c05_cfgs(tier, seed):
    return spread(meshes(tier, seed, {'fan3': 3, 'two': 3, 'strip3': 1},
                         {'fan3': 40, 'fan4': 6, 'two': 100, 'strip3': 20, 'one': 12}) + big(tier, seed), mode=['elem', 'node'])


@register('C05', c05_cfgs, bounds='meshes of 1 to 4 triangles, with and without an interior node',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c05(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], shear=False, uniform=True)
    K = np.asarray(api.calc_k0(p.mesh, p.from_node))
    env.record('k0', K)
    co = {f: [env.real('%s_%s' % (f, s)) for s in ('c', 'x', 'y')] for f in ('u', 'v', 'px', 'py')}
    pos = p.ix()
    d = [env.num(0)] * (DOF * p.n)
    for lab in range(p.n):
        for k, f in ((0, 'u'), (1, 'v'), (3, 'px'), (4, 'py')):
            c = co[f]
            d[DOF * pos[lab] + k] = c[0] + c[1] * (p.P[lab][0] - p.origin[0]) + c[2] * (p.P[lab][1] - p.origin[1])
    F = matvec(env, K, d)
    # interior nodes: enclosed by triangles
    for lab in range(p.n):
        if all(len(e.tris) == 2 for e in p.edges if lab in (e.n1, e.n2)):
            r = [F[DOF * pos[lab] + k] for k in (0, 1, 3, 4)]
            sc = None if env.symbolic else max(map(abs, F)) + float(np.abs(K).max()) * max(map(abs, d))
            env.array_eq('forces at the interior node', r, [env.num(0)] * 4, scale=sc)
    e = [co['u'][1], co['v'][2], co['u'][2] + co['v'][1], co['px'][1], co['py'][2], co['px'][2] + co['py'][1]]
    C = pl.abd(p.props[0])
    area = sum(p.J[1:], p.J[0]) / 2
    want = area * quad(env, C, e)
    got = env.num(0)
    for a, b in zip(F, d):
        got = got + a * b
    sc = None if env.symbolic else sum(abs(a * b) for a, b in zip(F, d)) + float(np.abs(K).max()) * max(map(abs, d)) ** 2
    env.eq('strain energy of a linear field', got, want, scale=sc)


def quad(env, C, e):
    acc = env.num(0)
    for i in range(len(e)):
        for j in range(len(e)):
            acc = acc + C[i, j] * e[i] * e[j]
    return acc


# ------------------------------------------------------------------ C06
def c06_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 2, 'strip3': 1}, {'one': 4, 'two': 24, 'strip3': 6, 'fan3': 4})
    out = cross(spread(m, mode=['elem', 'node']), move=['shift', 'turn'], what=['k0', 'kG'])
    m = meshes(tier, seed + 1, {'two': 1}, {'one': 2, 'two': 12, 'strip3': 2, 'fan3': 2})
    out += z_if_edge(cross(spread(m, mode=['elem', 'node'], area=[False, True]), move=['shift', 'turn'],
                           what=['k0s'], method=METHODS))
    m = meshes(tier, seed + 2, {'two': 1}, {'two': 10})
    out += cross(m, mode=['elem'], move=['shift'], what=['k0s'], method=['edge-based'], general=[True])
    # turned by an angle, mirror image
    m = meshes(tier, seed + 3, {'one': 1, 'two': 2}, {'one': 2, 'two': 12, 'strip3': 2})
    out += cross(spread(m, mode=['elem', 'node']), move=['angle', 'mirror'], what=['k0', 'kG'])
    out += cross(spread(m, mode=['elem', 'node'], area=[False, True]), move=['angle', 'mirror'], what=['k0s'], method=METHODS[:1])
    out += cross(spread(m[:2] if tier == 'quick' else m, mode=['elem'], area=[False, True]), move=['angle'], what=['k0s'], method=METHODS[1:2])
    return out


def mirrored(env, q):
    """laminate of the mirror image (x to -x)"""
    r = pl.Prop()
    for f in 'ABD':
        m = np.asarray(getattr(q, f))
        setattr(r, f, arr(env, [[m[0, 0], m[0, 1], -m[0, 2]], [m[0, 1], m[1, 1], -m[1, 2]], [-m[0, 2], -m[1, 2], m[2, 2]]]))
    E = np.asarray(q.E)
    r.E = arr(env, [[E[0, 0], -E[0, 1]], [-E[0, 1], E[1, 1]]])
    r.h, r.scf_k13, r.scf_k23 = q.h, q.scf_k13, q.scf_k23
    return r


def turned_by(env, q, c, s):
    """laminate turned by an angle (cosine c, sine s) with the plate"""
    r = pl.Prop()
    # strains in the old axes from strains in the new ones
    T = [[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]]
    for f in 'ABD':
        m = np.asarray(getattr(q, f))
        v = [[env.num(0)] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(i, 3):
                for a in range(3):
                    for b in range(3):
                        v[i][j] = v[i][j] + T[a][i] * m[a, b] * T[b][j]
                v[j][i] = v[i][j]
        setattr(r, f, arr(env, v))
    r.E, r.h, r.scf_k13, r.scf_k23 = q.E, q.h, q.scf_k13, q.scf_k23
    return r


def turned(env, q):
    """laminate seen from axes turned with the plate by 90 degrees"""
    r = pl.Prop()
    for f in 'ABD':
        m = np.asarray(getattr(q, f))
        setattr(r, f, arr(env, [[m[1, 1], m[0, 1], -m[1, 2]], [m[0, 1], m[0, 0], -m[0, 2]], [-m[1, 2], -m[0, 2], m[2, 2]]]))
    E = np.asarray(q.E)
    r.E = arr(env, [[E[1, 1], -E[0, 1]], [-E[0, 1], E[0, 0]]])
    r.h, r.scf_k13, r.scf_k23 = q.h, q.scf_k23, q.scf_k13
    return r


@register('C06', c06_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c06(env, api, cfg):
    P = make_points(env, cfg)
    a = Plate(env, api, cfg, points=P)
    w = cfg['what']
    a.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    tx, ty = env.real('tx'), env.real('ty')
    tz = ty if cfg.get('zslice') else env.real('tz')
    if cfg['move'] == 'shift':
        Q = [[q[0] + tx, q[1] + ty, q[2] + tz] for q in P]
        props = a.props
    elif cfg['move'] == 'angle':
        o = a.origin
        # (not a fraction of the full turn: its repetition comes as close as desired to every angle)
        cs, sn = env.q(3, 5), env.q(4, 5)
        Q = [[o[0] + cs * (q[0] - o[0]) - sn * (q[1] - o[1]) + tx, o[1] + sn * (q[0] - o[0]) + cs * (q[1] - o[1]) + ty, q[2] + tz] for q in P]
        if w == 'k0s':
            # the same shear stiffness in all directions
            for q in a.props:
                q.E = arr(env, [[q.E[0, 0], env.num(0)], [env.num(0), q.E[0, 0]]])
                q.scf_k23 = q.scf_k13
        props = [turned_by(env, q, cs, sn) for q in a.props]
    elif cfg['move'] == 'mirror':
        Q = [[tx - q[0], q[1] + ty, q[2] + tz] for q in P]
        props = [mirrored(env, q) for q in a.props]
    else:
        # turned about one node, then moved
        o = a.origin
        Q = [[o[0] - (q[1] - o[1]) + tx, o[1] + (q[0] - o[0]) + ty, q[2] + tz] for q in P]
        props = [turned(env, q) for q in a.props]
    b = Plate(env, api, cfg, points=Q, mirrored=cfg['move'] == 'mirror')
    b.assign(cfg['mode'], props)
    da = arr(env, [env.real('d%d' % i) for i in range(DOF * a.n)])
    al = alpha_of(env)
    # displacements of the moved plate from those of the given one: {dof: [(dof, factor)]}
    T = None
    if cfg['move'] == 'angle':
        T = {0: [(0, cs), (1, -sn)], 1: [(0, sn), (1, cs)], 2: [(2, 1)], 3: [(3, cs), (4, -sn)], 4: [(3, sn), (4, cs)]}
    elif cfg['move'] == 'turn':
        T = {0: [(1, -1)], 1: [(0, 1)], 2: [(2, 1)], 3: [(4, -1)], 4: [(3, 1)]}
    elif cfg['move'] == 'mirror':
        T = {0: [(0, -1)], 1: [(1, 1)], 2: [(2, 1)], 3: [(3, -1)], 4: [(4, 1)]}
    Ks = []
    for p in (a, b):
        K = api.calc_k0(p.mesh, p.from_node)
        if w == 'kG':
            d = da
            if p is b and T is not None:
                d = [None] * (DOF * a.n)
                ia, ib = a.ix(), b.ix()
                for lab in range(a.n):
                    i, j = DOF * ia[lab], DOF * ib[lab]
                    for k in range(DOF):
                        d[j + k] = sum((f * da[i + m] for m, f in T[k]), env.num(0))
                d = arr(env, d)
            K = api.calc_kG(d, p.mesh, p.from_node)
        elif w == 'k0s':
            K = shear_of(env, api, p, cfg, al)
        Ks.append(p.permuted(K))
    A, B = Ks
    env.record('moved ' + w, B)
    if T is not None:
        R = oarr(env, A.shape)
        for i, j in itertools.product(range(a.n), repeat=2):
            for r in range(DOF):
                for c in range(DOF):
                    R[DOF * i + r, DOF * j + c] = sum((f * g * A[DOF * i + m, DOF * j + n] for m, f in T[r] for n, g in T[c]), env.num(0))
        A = R
    if cfg.get('general') and not env.same(A, B):
        ka = a.permuted(ref_shear(a, 'edge-based', al, bool(cfg.get('area')), broken_y1=True))
        kb = b.permuted(ref_shear(b, 'edge-based', al, bool(cfg.get('area')), broken_y1=True))
        if env.same(A, ka) and env.same(B, kb):
            env.known('interior-edge-y1')
            return
    env.array_eq('%s of the moved plate' % w, B, A)


# ------------------------------------------------------------------ C07
def c07_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 2, 'strip3': 1}, {'one': 4, 'two': 40, 'strip3': 8, 'fan3': 4})
    out = cross(spread(m, mode=['elem', 'node']), what=['k0', 'kG-d', 'kG-AB'])
    m = meshes(tier, seed + 1, {'two': 1}, {'one': 2, 'two': 20, 'strip3': 3, 'fan3': 2})
    out += cross(spread(m, mode=['elem', 'node'], area=[False, True]), what=['k0s'], method=METHODS)
    return out


def combine(env, p, q, s, t, fields):
    r = pl.Prop()
    for f in pl.FIELDS:
        a, b = getattr(p, f), getattr(q, f)
        if f in fields:
            a = a * s + b * t
        setattr(r, f, a)
    return r


@register('C07', c07_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c07(env, api, cfg):
    p = Plate(env, api, cfg)
    w = cfg['what']
    s, t = env.real('s'), env.real('t')
    N = DOF * p.n
    p.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s')
    first = p.props
    fields = ('E',) if w == 'k0s' else ('A', 'B', 'D')
    if w != 'kG-d':
        p.set_props(cfg['mode'], abd=w != 'k0s', shear=w == 'k0s', tag='q')
        second = p.props
        trio = [first, second, [combine(env, a, b, s, t, fields) for a, b in zip(first, second)]]
    d = [arr(env, [env.real('%s%d' % (c, i)) for i in range(N)]) for c in 'de']
    al = alpha_of(env)
    out = []
    for k in range(3):
        if w == 'kG-d':
            if k == 0:
                api.calc_k0(p.mesh, p.from_node)
            out.append(api.calc_kG(d[k] if k < 2 else d[0] * s + d[1] * t, p.mesh, p.from_node))
            continue
        if w == 'k0s':
            # thickness and correction factors stay those of the first laminates
            for a, b in zip(first, trio[k]):
                b.h, b.scf_k13, b.scf_k23 = a.h, a.scf_k13, a.scf_k23
        p.assign(cfg['mode'], trio[k])
        K = api.calc_k0(p.mesh, p.from_node)
        if w == 'kG-AB':
            K = api.calc_kG(d[0], p.mesh, p.from_node)
        elif w == 'k0s':
            K = shear_of(env, api, p, cfg, al)
        out.append(K)
    a, b, c = (np.asarray(x) for x in out)
    env.record(w, c)
    env.array_eq('%s of a combination' % w, c, a * s + b * t)


# ------------------------------------------------------------------ C08
def c08_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 1, 'strip3': 1}, {'one': 2, 'two': 24, 'strip3': 12, 'fan3': 4})
    return (cross(spread(m, mode=['elem', 'node'], area=[False, True]) + big(tier, seed, mode='node'), method=METHODS)
            + cross(m[:1] if tier == 'quick' else m[:4], mode=['elem'], method=['default'])
            + spread(meshes(tier, seed + 1, {'two': 1}, {'two': 6}), mode=['elem'], method=['pass-through']))


@register('C08', c08_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c08(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], abd=False)
    N = DOF * p.n
    al = alpha_of(env)
    api.calc_k0(p.mesh, p.from_node)
    Z = zeros(env, (N, N))
    if cfg['method'] == 'default':
        # the defaults: cell-based, longest edge, alpha = 0.08
        api.add_k0s(Z, p.mesh, p.from_node)
        Y = zeros(env, (N, N))
        api.add_k0s(Y, p.mesh, p.from_node, method='cell-based', alpha=env.q(2, 25), maxl_from_area=False)
        env.array_eq('defaults of add_k0s', Z, Y)
        return
    if cfg['method'] == 'pass-through':
        # the dispatcher gives what the method's own module gives
        for m in METHODS:
            for area in (False, True):
                Y, Z = zeros(env, (N, N)), zeros(env, (N, N))
                api.add_k0s(Y, p.mesh, p.from_node, m, al, area)
                api.direct[m](Z, p.mesh, p.from_node, alpha=al, maxl_from_area=area)
                env.array_eq('add_k0s(method=%r, maxl_from_area=%s)' % (m, area), Y, Z)
        return
    got = api.add_k0s(Z, p.mesh, p.from_node, alpha=al, **kw(cfg))
    env.check('returns the matrix it was given', got is Z)
    env.record('k0s', Z)
    if True:
        # only w, phix, phiy of nodes sharing an element (edge-based: of the triangles of one edge)
        near = set()
        groups = [set(t) for t in p.ref]
        if cfg['method'] == 'edge-based':
            groups = [set(v for t in e.tris for v in p.ref[t]) for e in p.edges]
        pos = p.ix()
        for g in groups:
            for i in g:
                for j in g:
                    near.add((pos[i], pos[j]))
        out = []
        for i in range(N):
            for j in range(N):
                if i % DOF < 2 or j % DOF < 2 or (i // DOF, j // DOF) not in near:
                    out.append(Z[i, j])
        env.array_eq('entries outside the shear pattern', out, [env.num(0)] * len(out),
                     scale=None if env.symbolic else float(np.abs(Z).max()))
    # arbitrary previous contents
    M = arr(env, [[env.real('m%d_%d' % (i, j)) for j in range(N)] for i in range(N)])
    M0 = np.array(np.asarray(M))
    got = api.add_k0s(M, p.mesh, p.from_node, alpha=al, **kw(cfg))
    env.check('returns the matrix it was given', got is M)
    env.array_eq('added to a matrix with contents', np.asarray(M) - M0, np.asarray(Z))
    got = api.add_k0s(M, p.mesh, p.from_node, alpha=al, **kw(cfg))
    env.array_eq('second call adds the same again', np.asarray(M) - M0, 2 * np.asarray(Z))


# ------------------------------------------------------------------ C09, C10, C11
def c09_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 3, 'two': 3, 'strip3': 1}, {'one': 'all', 'two': 120, 'strip3': 12, 'fan3': 8})
    out = cross(spread(m, area=[False, True]), method=METHODS[:2], mode=['elem'])
    out += cross(big(tier, seed), area=[False], method=METHODS[:2], mode=['elem'])
    return out + cross(big(tier, seed, shape='grid96')[:1], area=[True], method=METHODS[:2], mode=['elem'])


@register('C09', c09_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c09(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], abd=False)
    al = alpha_of(env)
    api.calc_k0(p.mesh, p.from_node)
    K = shear_of(env, api, p, cfg, al)
    env.record('k0s', K)
    env.array_eq('%s shear energy' % cfg['method'], sympart(K), sympart(ref_shear(p, cfg['method'], al, bool(cfg.get('area')))))


def c10_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 2, 'two': 3, 'strip3': 1}, {'one': 'all', 'two': 120, 'strip3': 10, 'fan3': 4})
    out = z_if_edge(cross(spread(m, area=[False, True]), method=['edge-based'], mode=['elem']))
    m = meshes(tier, seed + 1, {'two': 2, 'strip3': 1}, {'two': 60, 'strip3': 6, 'fan3': 4})
    m += big(tier, seed) + big(tier, seed + 1, shape='grid62') + big(tier, seed, shape='grid96')[:1]
    out += spread(m, area=[False, True], method=['edge-based'], mode=['elem'], general=[True])
    return out


@register('C10', c10_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c10(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], abd=False)
    al = alpha_of(env)
    api.calc_k0(p.mesh, p.from_node)
    K = shear_of(env, api, p, cfg, al)
    env.record('k0s', K)
    shear_eq(env, cfg, p, 'edge-based shear energy', K, al)


def c11_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 2, 'two': 2}, {'one': 'all', 'two': 60, 'strip3': 6, 'fan3': 4})
    return (z_if_edge(cross(spread(m, mode=['elem', 'node']), area=[False, True], method=METHODS))
            + cross(big(tier, seed), mode=['elem'], area=[False, True], method=METHODS[:2]))


@register('C11', c11_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT, 'the share of each cell or domain at alpha = 0 is taken from the formula of C09/C10 '
                       '(or, for a cell, found by giving the other cells no shear stiffness) after checking that the '
                       'whole matrix at alpha = 0 agrees with it'], name=cfg_name)
def c11(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], abd=False)
    area, method = bool(cfg.get('area')), cfg['method']
    al = alpha_of(env)
    api.calc_k0(p.mesh, p.from_node)
    K0 = np.asarray(shear_of(env, api, p, cfg, env.num(0)))
    K = np.asarray(shear_of(env, api, p, cfg, al))
    env.record('k0s', K)
    # alpha = 0: the thickness plays no role
    hs = [q.h for q in p.props]
    for i, q in enumerate(p.props):
        q.h = env.pos('other_h%d' % i)
    env.array_eq('unreduced stiffness for another thickness', shear_of(env, api, p, cfg, env.num(0)), K0)
    for q, h in zip(p.props, hs):
        q.h = h
    if env.same(sympart(K0), sympart(ref_shear(p, method, env.num(0), area))):
        env.array_eq('stabilised shear stiffness', sympart(K), sympart(ref_shear(p, method, al, area)))
    elif method != 'edge-based' and cfg['mode'] == 'elem':
        # the unreduced matrix is not the one of C09: compare each cell with its own unreduced part
        Es = [q.E for q in p.props]
        Z = Es[0] * env.num(0)
        for t in range(len(p.ref)):
            for k, q in enumerate(p.props):
                q.E = Es[k] if k == t else Z
            A0 = np.asarray(shear_of(env, api, p, cfg, env.num(0)))
            A = np.asarray(shear_of(env, api, p, cfg, al))
            tri = p.ref[t]
            l2 = p.J[t] / 2 if area else env.max([pl.dist2(p.P[tri[k]], p.P[tri[(k + 1) % 3]]) for k in range(3)])
            env.array_eq('factor of cell %d' % t, A, A0 * pl.stab(env, p.props[t], al, l2))
    else:
        env.note('unreduced edge-based or nodal shear matrix differs from C09/C10: factor not compared')


# ------------------------------------------------------------------ C12, C13
def c12_cfgs(tier, seed):
    return spread(meshes(tier, seed, {'one': 2, 'two': 8, 'strip3': 2, 'fan3': 1},
                         {'one': 'all', 'two': 'all', 'strip3': 40, 'fan3': 20, 'fan4': 4, 'touch': 6, 'apart': 6})
                  + big(tier, seed) + big(tier, seed, shape='grid96')[:1], mode=['elem'])


@register('C12', c12_cfgs, bounds='meshes of 1 to 4 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c12(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props(cfg['mode'], shear=False)
    d = arr(env, [env.real('d%d' % i) for i in range(DOF * p.n)])
    api.calc_k0(p.mesh, p.from_node)
    K = api.calc_kG(d, p.mesh, p.from_node)
    env.record('kG', K)
    env.check('shape', np.shape(K) == (DOF * p.n,) * 2)
    env.array_eq('prestress work of kG', sympart(K), sympart(ref_kG(p, d)))


def c13_cfgs(tier, seed):
    m = meshes(tier, seed, {'two': 4, 'strip3': 1, 'fan3': 1}, {'one': 6, 'two': 100, 'strip3': 16, 'fan3': 10})
    out = cross(spread(m, mode=['elem', 'node']), what=['rigid', 'linear'])
    out += cross(m[:2] + big(tier, seed), mode=['elem'], what=['zero'])
    return out + cross(big(tier, seed), mode=['elem'], what=['rigid', 'linear'])


@register('C13', c13_cfgs, bounds='meshes of 1 to 3 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c13(env, api, cfg):
    p = Plate(env, api, cfg)
    N = DOF * p.n
    p.set_props(cfg['mode'], shear=False, uniform=cfg['what'] == 'linear')
    api.calc_k0(p.mesh, p.from_node)
    pos = p.ix()
    zero = [env.num(0)] * N
    if cfg['what'] == 'zero':
        K0 = api.calc_kG(arr(env, zero), p.mesh, p.from_node)
        env.array_eq('kG of no displacement', K0, oarr(env, (N, N)) + env.num(0))
        return
    if cfg['what'] == 'rigid':
        d = [env.real('d%d' % i) for i in range(N)]
        K = np.asarray(api.calc_kG(arr(env, d), p.mesh, p.from_node))
        env.record('kG', K)
        r = [env.real('r%d' % i) for i in range(5)]
        e = list(d)
        for lab in range(p.n):
            b = DOF * pos[lab]
            x, y = p.P[lab][0] - p.origin[0], p.P[lab][1] - p.origin[1]
            e[b] = d[b] + r[0] - r[2] * y
            e[b + 1] = d[b + 1] + r[1] + r[2] * x
            e[b + 2] = d[b + 2] + env.real('w%d' % lab)
            e[b + 3] = d[b + 3] + r[3]
            e[b + 4] = d[b + 4] + r[4]
        K2 = np.asarray(api.calc_kG(arr(env, e), p.mesh, p.from_node))
        sc = None
        if not env.symbolic:
            big = max(max(map(abs, d)), max(map(abs, e)))
            unit = [np.abs(np.asarray(api.calc_kG(arr(env, [big * (j == i) for j in range(N)]), p.mesh, p.from_node))).max()
                    for i in range(N)]
            sc = float(sum(unit))
        env.array_eq('kG after adding an unstrained motion', K2, K, scale=sc)
        K0 = api.calc_kG(arr(env, zero), p.mesh, p.from_node)
        env.array_eq('kG of no displacement', K0, oarr(env, (N, N)) + env.num(0))
        one = list(zero)
        for lab in range(p.n):
            one[DOF * pos[lab] + 2] = env.num(1)
        env.array_eq('kG times the uniform deflection', matvec(env, K, one), zero,
                     scale=None if env.symbolic else float(np.abs(K).max()))
        return
    co = {f: [env.real('%s_%s' % (f, s)) for s in ('c', 'x', 'y')] for f in ('u', 'v', 'px', 'py', 'w')}
    d, w = list(zero), list(zero)
    for lab in range(p.n):
        for k, f in ((0, 'u'), (1, 'v'), (3, 'px'), (4, 'py'), (2, 'w')):
            c = co[f]
            v = c[0] + c[1] * (p.P[lab][0] - p.origin[0]) + c[2] * (p.P[lab][1] - p.origin[1])
            if f == 'w':
                w[DOF * pos[lab] + 2] = v
            else:
                d[DOF * pos[lab] + k] = v
    K = api.calc_kG(arr(env, d), p.mesh, p.from_node)
    env.record('kG', K)
    e = [co['u'][1], co['v'][2], co['u'][2] + co['v'][1], co['px'][1], co['py'][2], co['px'][2] + co['py'][1]]
    C = pl.abd(p.props[0])
    nx, ny, nxy = (sum((C[r, s] * e[s] for s in range(6)), env.num(0)) for r in range(3))
    wx, wy = co['w'][1], co['w'][2]
    area = sum(p.J[1:], p.J[0]) / 2
    want = area * (nx * wx * wx + ny * wy * wy + 2 * nxy * wx * wy)
    got = env.num(0)
    for a, b in zip(matvec(env, K, w), w):
        got = got + a * b
    sc = None if env.symbolic else float(np.abs(np.asarray(K)).max()) * max(map(abs, w)) ** 2 * len(w)
    env.eq('prestress work of a linear deflection', got, want, scale=sc)


# ------------------------------------------------------------------ C14
def c14_cfgs(tier, seed):
    return meshes(tier, seed, {'one': 3, 'two': 8, 'strip3': 2, 'fan3': 2},
                  {'one': 'all', 'two': 'all', 'strip3': 60, 'fan3': 60, 'fan4': 20, 'touch': 8, 'apart': 8}) + big(tier, seed)


@register('C14', c14_cfgs, bounds='meshes of 1 to 4 triangles (see coverage.configurations)',
          assumptions=[PLANAR, EXACT], name=cfg_name)
def c14(env, api, cfg):
    p = Plate(env, api, cfg)
    p.set_props('elem', abd=False, shear=False)
    api.calc_k0(p.mesh, False)
    lab_of = {id(nd): i for i, nd in enumerate(p.node)}
    tot = env.num(0)
    edges = {frozenset((lab_of[id(e.n1)], lab_of[id(e.n2)])): e for e in p.mesh.edges.values()}
    env.check('edges of the mesh', len(edges) == len(p.mesh.edges) == len(p.edges))
    for re in p.edges:
        key = frozenset((re.n1, re.n2))
        env.check('edge present', key in edges)
        e = edges[key]
        tag = 'edge %d-%d: ' % (re.n1, re.n2)
        A = domain_area(p, re)
        env.eq(tag + 'domain area', e.Ac, A)
        tot = tot + e.Ac
        sd = np.asarray(e.sdomain)
        m = 2 + len(re.tris)
        env.check(tag + 'one integration point per side', len(e.ipts) == m)
        env.check(tag + 'stored boundary has one vertex per side and is closed', sd.shape == (m + 1, 3))
        env.array_eq(tag + 'closed boundary', sd[0], sd[-1])
        # the vertices are the edge's nodes and the centroids of its triangles
        want = [p.P[re.n1], p.P[re.n2]] + [list(centroid3(p.P, p.ref[t])) for t in re.tris]
        env.check(tag + 'vertices', all(any(env.same(v, x) for x in want) for v in sd)
                  and all(any(env.same(v, x) for v in sd) for x in want))
        # outward normals: counter-clockwise or clockwise traversal decided by the signed area
        sa = env.num(0)
        for k in range(m):
            sa = sa + sd[k][0] * sd[k + 1][1] - sd[k + 1][0] * sd[k][1]
        if env.same([sa], [2 * A]):
            sg = 1
        elif env.same([sa], [-2 * A]):
            sg = -1
        else:
            env.fail(tag + 'boundary does not enclose the domain area')
        for k, ip in enumerate(e.ipts):
            t2 = tag + 'point %d: ' % k
            mid = [(sd[k][c] + sd[k + 1][c]) / 2 for c in range(3)]
            env.array_eq(t2 + 'midpoint of its segment', ip.xyz, mid)
            wsum = ip.f1 * np.asarray(ip.n1.xyz) + ip.f2 * np.asarray(ip.n2.xyz) + ip.f3 * np.asarray(ip.n3.xyz)
            env.array_eq(t2 + 'interpolation with its weights', wsum, mid)
            env.eq(t2 + 'weights sum', env.num(ip.f1) + ip.f2 + ip.f3, env.num(1))
            env.check(t2 + 'three different nodes of one of the edge\'s triangles',
                      set(lab_of[id(n)] for n in (ip.n1, ip.n2, ip.n3)) in [set(p.ref[t]) for t in re.tris])
            dx, dy = sd[k + 1][0] - sd[k][0], sd[k + 1][1] - sd[k][1]
            sc = None if env.symbolic else float(np.abs(np.diff(sd, axis=0)).max())
            env.eq(t2 + 'length times nx', ip.le * ip.nx, sg * dy, scale=sc)
            env.eq(t2 + 'length times ny', ip.le * ip.ny, -sg * dx, scale=sc)
            env.eq(t2 + 'nz', env.num(ip.nz), env.num(0))
            env.eq(t2 + 'length', ip.le * ip.le, dx * dx + dy * dy)
            env.check(t2 + 'length positive', ip.le > 0)
    env.eq('domains tile the plate', tot, sum(p.J[1:], p.J[0]) / 2)


def centroid3(P, tri):
    return [(P[tri[0]][k] + P[tri[1]][k] + P[tri[2]][k]) / 3 for k in range(3)]


# ------------------------------------------------------------------ C17
def c17_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 1, 'two': 1, 'fan3': 1}, {'one': 2, 'two': 8, 'strip3': 2, 'fan3': 2})
    out = cross(m, what=['missing'], mode=['elem', 'node'])
    # the element with three neighbours is listed last, so that it is the second one of all its edges
    m = [dict(c, order=o) for c, o in zip(pick(random.Random(3), 'star4', 3), ([1, 2, 3, 0], [0, 3, 1, 2], [1, 0, 2, 3]))]
    out += cross(m[:1] if tier == 'quick' else m, what=['missing'], mode=['elem', 'node'])
    out += cross(big(tier, seed), what=['one missing'], mode=['elem', 'node'])
    m = meshes(tier, seed + 1, {'book3': 3, 'book4': 1, 'two': 1, 'strip3': 1},
               {'book3': 16, 'book4': 6, 'bookfan': 8, 'two': 6, 'strip3': 4, 'fan3': 4, 'fan4': 2, 'touch': 2, 'apart': 2})
    out += spread(m, what=['edges'], mode=['elem', 'node'])
    m = meshes(tier, seed + 2, {'one': 1, 'two': 1}, {'one': 2, 'two': 4})
    out += z_if_edge(spread(m, what=['method'], mode=['elem', 'node'], method=['edge-based']))
    out += [dict(c, what='method-object') for c in out[-1:]]
    return out


@register('C17', c17_cfgs, bounds='meshes of 1 to 4 triangles (edges with up to 4 triangles), every combination of '
          'missing properties (one missing on a mesh of 12 triangles), method names of up to 30 characters', opts={'path_ms': 20000},
          assumptions=[PLANAR + ' (where an edge has more than two triangles they may overlap)', EXACT], name=cfg_name)
def c17(env, api, cfg):
    p = Plate(env, api, cfg)
    w = cfg['what']
    if w == 'one missing':
        p.set_props(cfg['mode'], abd=False, shear=False, uniform=True)
        things = p.elem if cfg['mode'] == 'elem' else p.node
        k = int(env.int('missing', 0, len(things)))
        if k < len(things):
            things[k].prop = None
        exc = None
        try:
            api.calc_k0(p.mesh, p.from_node)
        except ValueError as e:
            exc = e
        env.check('%s mode, number %d of %d without property: %s' % (cfg['mode'], k, len(things), 'raised' if exc else 'nothing raised'),
                  (exc is None) == (k == len(things)))
        return
    if w == 'missing':
        shear = pl.make_prop(env, 'u', abd=False, shear=False)
        things = p.elem if cfg['mode'] == 'elem' else p.node
        others = p.node if cfg['mode'] == 'elem' else p.elem
        have = []
        for i, t in enumerate(things):
            h = bool(env.boolean('has%d' % i))
            t.prop = shear if h else None
            have.append(h)
        # laminates of the other kind do not help
        spare = shear if bool(env.boolean('others')) else None
        for t in others:
            t.prop = spare
        p.mode = cfg['mode']
        exc = None
        try:
            K = api.calc_k0(p.mesh, p.from_node)
        except ValueError as e:
            exc = e
        env.check('%s mode, properties present %s: %s' % (cfg['mode'], have, 'raised' if exc else 'nothing raised'),
                  (exc is None) == all(have))
        if exc is None:
            env.check('matrix returned', np.shape(K) == (DOF * p.n,) * 2)
        return
    if w == 'edges':
        p.set_props(cfg['mode'], abd=False, shear=False, uniform=True)
        many = max(len(e.tris) for e in p.edges)
        exc = None
        try:
            K = api.calc_k0(p.mesh, p.from_node)
        except NotImplementedError as e:
            exc = e
        env.check('an edge with %d triangles: %s' % (many, 'raised' if exc else 'nothing raised'), (exc is None) == (many <= 2))
        return
    p.set_props(cfg['mode'], abd=False, uniform=True)
    api.calc_k0(p.mesh, p.from_node)
    N = DOF * p.n
    M = arr(env, [[env.real('m%d_%d' % (i, j)) if i % 4 == j % 3 else env.num(i - j) for j in range(N)] for i in range(N)])
    M0 = np.array(np.asarray(M))
    if w == 'method':
        m = env.string('method', 30)
    else:
        m = env.choose('method', [None, 0, 1, -1, True, False, 3, ('cell-based',), b'cell-based', 1.5])
    valid = any(bool(m == k) for k in METHODS)
    exc = None
    try:
        got = api.add_k0s(M, p.mesh, p.from_node, m)
    except ValueError as e:
        exc = e
    env.check('known method name: %s; %s' % (valid, 'raised' if exc else 'nothing raised'), (exc is None) == valid)
    if exc is not None:
        env.check('matrix left untouched', all(a is b or (not env.symbolic and a == b)
                                               for a, b in zip(np.asarray(M).ravel(), M0.ravel())))
    else:
        env.check('returns the matrix it was given', got is M)


# ------------------------------------------------------------------ C18
CALLS = ('k0e', 'k0n', 'kGe', 'kGn', 's0e', 's1e', 's2e', 's0n', 's1n', 's2n')


def c18_cfgs(tier, seed):
    rng = random.Random(77 + (seed if tier != 'quick' else 1))
    m = meshes(tier, seed, {'two': 8, 'one': 2, 'fan3': 2}, {'one': 6, 'two': 120, 'strip3': 20, 'fan3': 20, 'fan4': 2})
    out = []
    for i, c in enumerate(m):
        mode = 'ne'[i % 2]
        n = rng.choice([2, 3, 4] if tier == 'quick' else [2, 3, 4, 5, 6])
        hist = ['k0' + 'en'[i // 2 % 2]]
        hist += [varied(rng) for _ in range(n)]
        out.append(dict(c, hist=hist, mode={'n': 'node', 'e': 'elem'}[mode], method=METHODS[i % 3], area=bool(i % 2),
                        how=('replace', 'inplace')[i // 2 % 2], change=('both', 'coordinates', 'laminates')[i % 3]
                        if i % 4 else 'both'))
    # another mesh, or the same one turned over, after the history
    m = meshes(tier, seed + 1, {'two': 6}, {'one': 2, 'two': 24, 'strip3': 6, 'fan3': 6})
    for i, c in enumerate(m):
        e = 'en'[i % 2]
        hist = ['k0' + e, 's%d%s' % (i // 2 % 3, e)] + [varied(rng) for _ in range(tier != 'quick')]
        o = pick(rng, c['shape'], 1)[0]
        out.append(dict(c, hist=hist, mode=('elem', 'node')[i % 2], method=METHODS[i // 2 % 3], area=bool(i % 3 == 0),
                        how='replace', change=('turned over', 'another mesh')[(i + i // 2) % 2], other=o))
    # calls for two meshes in turns
    m = meshes(tier, seed + 3, {'two': 3}, {'one': 2, 'two': 20, 'strip3': 4, 'fan3': 4})
    for i, c in enumerate(m):
        o = dict(pick(rng, c['shape'], 1)[0], mode=('node', 'elem')[i // 2 % 2], method=METHODS[(i // 2) % 3], area=bool(i // 3 % 2))
        out.append(dict(c, hist=[], change='in turns', how='replace', mode=('elem', 'node')[i % 2], method=METHODS[i % 3],
                        area=bool(i % 2), other=o))
    # the same mesh, earlier with the other length option and another alpha
    m = meshes(tier, seed + 2, {'two': 6, 'fan3': 1}, {'one': 2, 'two': 24, 'strip3': 6, 'fan3': 6})
    for i, c in enumerate(m):
        e = 'en'[i // 3 % 2]
        hist = ['k0' + e, 's%d%sA' % (i % 3, e), 's%d%sB' % ((i + i // 3) % 3, e)] + [varied(rng) for _ in range(tier != 'quick')]
        out.append(dict(c, hist=hist, mode={'n': 'node', 'e': 'elem'}[e], method=METHODS[i % 3], area=bool(i // 2 % 2),
                        how=('replace', 'inplace')[i % 2], change=('laminates', 'nothing', 'coordinates')[i // 2 % 3]))
    return out


def varied(rng):
    """an earlier call; A: with the other length option, B: with another alpha than at the end"""
    what = rng.choice(CALLS)
    return what + (rng.choice(['', '', 'A', 'B', 'AB']) if what[0] == 's' else '')


def snapshot(p):
    """coordinates, laminates and connectivity, as the caller sees them"""
    m = p.mesh
    xyz = {k: list(np.asarray(n.xyz).ravel()) for k, n in m.nodes.items()}
    con = {k: (list(e.node_ids), [id(x) for x in e.nodes], [id(x) for x in e.edges]) for k, e in m.elements.items()}
    edg = {k: (id(e), id(e.n1), id(e.n2), [id(x) for x in e.nodes], list(e.node_ids), [id(t) for t in e.trias])
           for k, e in m.edges.items()}
    nod = {k: (id(n), sorted(map(id, n.edges)), sorted(n.trias), n.nid) for k, n in m.nodes.items()}
    lam = {}
    for kind, things in (('node', m.nodes), ('elem', m.elements)):
        for k, t in things.items():
            q = t.prop
            lam[kind, k] = (id(q), [list(np.asarray(getattr(q, f), dtype=object).ravel()) for f in pl.FIELDS])
    return xyz, lam, (con, edg, nod, list(m.nodes), list(m.elements), list(m.edges))


def same_snapshot(env, a, b):
    env.check('coordinates unchanged', list(a[0]) == list(b[0]) and all(same_list(a[0][k], b[0][k]) for k in a[0]))
    env.check('laminates unchanged', all(a[1][k][0] == b[1][k][0] and all(same_list(x, y) for x, y in zip(a[1][k][1], b[1][k][1]))
                                         for k in a[1]))
    env.check('connectivity unchanged', a[2] == b[2])


def same_list(a, b):
    from symx.core import S, decide_zero
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, S) or isinstance(y, S):
            if not decide_zero(S.lift(x) - y):
                return False
        elif x != y:
            return False
    return True


def lams(env, p, tag):
    """laminates for all elements and all nodes"""
    return ([make_prop(env, '%se%d' % (tag, i)) for i in range(len(p.ref))],
            [make_prop(env, '%sn%d' % (tag, i)) for i in range(p.n)])


def put(p, ls):
    for t, q in zip(p.elem, ls[0]):
        t.prop = q
    for t, q in zip(p.node, ls[1]):
        t.prop = q


def one_call(env, api, p, what, d, al, area, N):
    node = what[2] == 'n'
    if what[:2] == 'k0':
        return api.calc_k0(p.mesh, node)
    if what[:2] == 'kG':
        return api.calc_kG(d, p.mesh, node)
    K = zeros(env, (N, N))
    api.add_k0s(K, p.mesh, node, METHODS[int(what[1])], al[1 if 'B' in what else 0],
                area ^ ('A' in what))
    return K


def c18_turns(env, api, cfg):
    """two meshes in one program, the calls for them in turns"""
    al = alpha_of(env)
    pair = []
    for tag, c in (('a', cfg), ('b', cfg['other'])):
        P = make_points(env, c, tag)
        N = DOF * len(P)
        d = arr(env, [env.real('%s_d%d' % (tag, i)) for i in range(N)])
        ls = None
        for q in (api, fresh(api)):
            p = Plate(env, q, c, points=P)
            ls = ls or lams(env, p, tag)
            put(p, ls)
            pair.append(dict(p=p, api=q, c=c, d=d, N=N, out={}, node=c['mode'] == 'node'))

    def do(x, what):
        p, q, c = x['p'], x['api'], x['c']
        if what == 'k0':
            x['out'][what] = q.calc_k0(p.mesh, x['node'])
        elif what == 'kG':
            x['out'][what] = q.calc_kG(x['d'], p.mesh, x['node'])
        else:
            x['out'][what] = K = zeros(env, (x['N'],) * 2)
            q.add_k0s(K, p.mesh, x['node'], c['method'], al, bool(c['area']))
    a, a1, b, b1 = pair
    for what in ('k0', 'k0s', 'kG'):
        for x in (a, b):
            do(x, what)
    for x in (a1, b1):
        for what in ('k0', 'k0s', 'kG'):
            do(x, what)
    for tag, x, y in (('first', a, a1), ('second', b, b1)):
        for what in ('k0', 'k0s', 'kG'):
            env.array_eq('%s of the %s of two meshes in turns' % (what, tag), x['out'][what], y['out'][what])
    env.record('k0', a['out']['k0'])


@register('C18', c18_cfgs, bounds='meshes of 1 to 4 triangles, histories of 3 to 7 earlier calls (quick: 3 to 5), two '
          'unrelated mesh states', opts={'config_s': 400},
          assumptions=[PLANAR + ' in both states', EXACT,
                       'the second state is the mesh moved, turned over (every triangle then listed the other way), or another mesh'],
          name=lambda c: cfg_name(dict(c, hist='-'.join(c['hist']), other=None if not c.get('other') else cfg_name(c['other']))))
def c18(env, api, cfg):
    if cfg['change'] == 'in turns':
        return c18_turns(env, api, cfg)
    N = DOF * SHAPES[cfg['shape']][0]
    a = Plate(env, api, cfg)
    la = lams(env, a, 'a')
    put(a, la)
    al = alpha_of(env)
    al2 = env.nonneg('alpha_b', 0, 1)
    area = bool(cfg['area'])
    d = arr(env, [env.real('d%d' % i) for i in range(N)])
    d0 = list(d)
    snap = snapshot(a)
    outs = []
    for i, what in enumerate(cfg['hist']):
        K = one_call(env, api, a, what, d, (al, al2), area, N)
        outs.append((what, K, np.array(np.asarray(K))))
        for j, (w2, K2, keep) in enumerate(outs[:-1]):
            if w2 == what:
                env.array_eq('call %d (%s) repeated as call %d' % (j, what, i), K, keep)
    for what, K, keep in outs:
        env.array_eq('matrix of an earlier %s after later calls' % what, K, keep)
    same_snapshot(env, snap, snapshot(a))
    env.check('displacements unchanged', same_list(list(d), d0))
    # the second state, on the old mesh and on a fresh one
    P2 = make_points(env, cfg, 'b') if cfg['change'] not in ('laminates', 'nothing') else a.P
    api2 = fresh(api)
    cfg2 = cfg if cfg['change'] != 'another mesh' else cfg['other']
    b = Plate(env, api2, cfg2, points=P2, mirrored=cfg['change'] == 'turned over')
    lb = lams(env, b, 'b') if cfg['change'] not in ('coordinates', 'nothing') else la
    put(b, lb)
    if cfg['change'] == 'another mesh':
        a = Plate(env, api, cfg2, points=P2)
        put(a, lb)
    elif cfg['change'] not in ('laminates', 'nothing'):
        for node, q in zip(a.node, P2):
            if cfg['how'] == 'replace':
                node.xyz = arr(env, q)
            else:
                for k in range(3):
                    node.xyz[k] = q[k]
    if cfg['change'] in ('both', 'laminates', 'turned over'):
        if cfg['how'] == 'replace':
            put(a, lb)
        else:
            for olds, news in zip(la, lb):
                for o, q in zip(olds, news):
                    for f in pl.FIELDS:
                        setattr(o, f, getattr(q, f))
    d2 = arr(env, [env.real('f%d' % i) for i in range(N)])
    node = cfg['mode'] == 'node'
    res = []
    for p, q in ((a, api), (b, api2)):
        K = q.calc_k0(p.mesh, node)
        Z = zeros(env, (N, N))
        q.add_k0s(Z, p.mesh, node, cfg['method'], al, area)
        res.append((K, Z, q.calc_kG(d2, p.mesh, node), [int(n.index) for n in p.node]))
    for name, x, y in zip(('k0', 'k0s', 'kG'), *res):
        env.array_eq('%s of the reused mesh' % name, x, y)
    env.record('k0', res[0][0])
    env.record('kG', res[0][2])
    env.check('node.index of the reused mesh', res[0][3] == res[1][3])
