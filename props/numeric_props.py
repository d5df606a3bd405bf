"""C19, C20, C21: interpolation and polygon areas"""
import itertools, random
import numpy as np
from . import register
from symx.plate import arr

EXACT = 'numbers are exact reals (floating-point rounding is outside)'


def nodes_of(env, name, n, distinct=True):
    v = [env.real('%s%d' % (name, i)) for i in range(n)]
    if distinct:
        for a, b in itertools.combinations(v, 2):
            env.assume(a - b != 0)
    return v


def basis(t, nodes):
    """the Lagrange polynomials of the nodes at t"""
    out = []
    for i, ti in enumerate(nodes):
        f = 1
        for j, tj in enumerate(nodes):
            if i != j:
                f = f * (t - tj) / (ti - tj)
        out.append(f)
    return out


def values(res, k):
    """K values of a result that may be a number (nothing but constants was summed)"""
    a = np.asarray(res, dtype=object)
    return [a[()]] * k if a.ndim == 0 else list(a)


def total(terms):
    t = 0
    for x in terms:
        t = t + x
    return t


def power_fields(env, nums, names):
    """a polynomial with symbolic coefficients, degree below the number of nodes in each direction"""
    ix = list(itertools.product(*(range(n) for n in nums)))
    c = {p: env.real('c' + ''.join(map(str, p))) for p in ix}

    def f(*xs):
        return total(c[p] * prod(x ** e for x, e in zip(xs, p)) for p in ix)
    return f


def prod(it):
    t = 1
    for x in it:
        t = t * x
    return t


def give(env, kind, v):
    """the data in the form a caller may use"""
    if kind == 'list':
        return [give(env, kind, x) for x in v] if isinstance(v, (list, tuple)) else v
    if kind == 'tuple':
        return tuple(give(env, kind, x) for x in v) if isinstance(v, (list, tuple)) else v
    if kind == 'ints' and all(isinstance(x, int) for x in np.ravel(np.array(v, dtype=object))):
        return np.array(v, dtype=int)
    return arr(env, v)


WHOLE = [3, -2, 7, 1, -5, 0, 12, -9, 4, 5, -1, 30]


# ------------------------------------------------------------------ C19
def c19_cfgs(tier, seed):
    top = 6 if tier == 'quick' else 8
    out = []
    for m in range(1, top + 1):
        for n in range(1, top + 1):
            out.append(dict(m=m, n=n, k=1 + (m + n) % 3, scalar=(m * 3 + n) % 5 == 0, what='values'))
            if m * n <= (16 if tier == 'quick' else 25) and max(m, n) <= 6:
                out.append(dict(m=m, n=n, k=1, what='polynomial'))
    for m, n in ((1, 2), (2, 2), (3, 2), (2, 3)) + (() if tier == 'quick' else ((3, 3), (4, 3), (4, 4))):
        for kind in ('list', 'tuple', 'ints', 'int field'):
            out.append(dict(m=m, n=n, k=2, scalar=(kind == 'ints' and m == 3), what='values', given=kind))
    # more control nodes, at whole numbers
    for m, n in ((5, 5), (6, 2), (2, 7), (8, 8), (9, 1), (1, 10), (12, 3), (12, 12)) + (() if tier == 'quick' else ((7, 11), (10, 4))):
        out.append(dict(m=m, n=n, k=1, scalar=False, what='values', nodes='whole'))
    out.append(dict(m=3, n=3, k=40 if tier == 'quick' else 200, scalar=False, what='values', nodes='whole'))
    return out


def scaled(env, got, want, label):
    """compare sums of terms of very different size"""
    for i, (g, w) in enumerate(zip(got, want)):
        env.eq('%s, point %d' % (label, i), g, w)


CONC = dict(conc=dict(tol=1e-6))


@register('C19', c19_cfgs, modules='numeric', opts=dict(CONC, config_s=300), bounds='1 to 6 (thorough: 8) control nodes in each direction, '
          '1 to 3 evaluation points or a single number; all coordinates and nodal values symbolic; up to 12 control nodes at fixed whole numbers',
          assumptions=[EXACT, 'control nodes of one direction are distinct'])
def c19(env, api, cfg):
    M, N, K = cfg['m'], cfg['n'], cfg['k']
    kind = cfg.get('given', 'array')
    whole = kind == 'ints' or cfg.get('nodes') == 'whole'
    xn, yn = (WHOLE[:M], WHOLE[:N][::-1]) if whole else (nodes_of(env, 'xn', M), nodes_of(env, 'yn', N))
    if cfg['what'] == 'polynomial':
        x, y = env.real('x'), env.real('y')
        f = power_fields(env, (M, N), 'xy')
        F = [[f(a, b) for b in yn] for a in xn]
        r = api.lagrange2(arr(env, [x]), arr(env, [y]), arr(env, xn), arr(env, yn), arr(env, F))
        scaled(env, values(r, 1), [f(x, y)], 'a polynomial of the space is reproduced')
        return
    F = [[env.real('f%d%d' % (i, j)) for j in range(N)] for i in range(M)]
    if kind == 'int field':
        F = [[(i + 2*j) % 5 - 2 for j in range(N)] for i in range(M)]
        kind = 'ints'

    def giv(v):
        return give(env, kind, v)
    if cfg['scalar']:
        xs, ys = [env.real('x0')], [env.real('y0')]
        r = api.lagrange2(xs[0], ys[0], giv(xn), giv(yn), giv(F))
    else:
        xs = [env.real('x%d' % i) for i in range(K)]
        ys = [env.real('y%d' % i) for i in range(K)]
        gx, gy, gF = giv(xs), giv(ys), giv(F)
        gxn, gyn = giv(xn), giv(yn)
        r = api.lagrange2(gx, gy, gxn, gyn, gF)
        for what, a, b in (('x', gx, xs), ('y', gy, ys), ('field_nodes', gF, F), ('x_nodes', gxn, xn), ('y_nodes', gyn, yn)):
            env.array_eq('%s is left as it was' % what, arr(env, a), arr(env, b))
    env.record('field', arr(env, values(r, len(xs))))
    want = []
    for x, y in zip(xs, ys):
        bx, by = basis(x, xn), basis(y, yn)
        want.append(total(bx[i] * by[j] * F[i][j] for i in range(M) for j in range(N)))
    if M * N > 1 and not cfg['scalar']:
        env.check('one value per point', np.shape(r) == (len(xs),))
    scaled(env, values(r, len(xs)), want, 'interpolated field')
    # at the control nodes
    px = [xn[i] for i in range(M) for j in range(N)]
    py = [yn[j] for i in range(M) for j in range(N)]
    r = api.lagrange2(giv(px), giv(py), giv(xn), giv(yn), giv(F))
    env.array_eq('the nodal values at the control nodes', arr(env, values(r, M * N)), arr(env, [F[i][j] for i in range(M) for j in range(N)]))


# ------------------------------------------------------------------ C20
def c20_cfgs(tier, seed):
    top = 4 if tier == 'quick' else 5
    out = []
    for m in range(1, top + 1):
        for n in range(1, top + 1):
            # the z direction has the control nodes of the y direction
            if m * n * n <= (64 if tier == 'quick' else 80):
                out.append(dict(m=m, n=n, p=n, z='same', k=1 + (m + n) % 2))
            for p in range(1, top + 1):
                if n * p <= (8 if tier == 'quick' else 12) and m * n * p <= (24 if tier == 'quick' else 36):
                    out.append(dict(m=m, n=n, p=p, z='own', k=1))
    for m, n in ((1, 2), (2, 2)) + (() if tier == 'quick' else ((3, 2), (2, 3))):
        for kind in ('list', 'tuple', 'ints', 'int field'):
            out.append(dict(m=m, n=n, p=n, z='same', k=2, given=kind))
    # more control nodes, at whole numbers
    for m, n in ((1, 4), (2, 4), (4, 4), (5, 3), (3, 5), (7, 2), (12, 1), (1, 12), (12, 3), (5, 8), (8, 6)) + (() if tier == 'quick' else ((5, 5), (2, 6), (4, 6))):
        out.append(dict(m=m, n=n, p=n, z='same', k=2 if m < 3 else 1, nodes='whole'))
    return out


@register('C20', c20_cfgs, modules='numeric', opts=dict(CONC, config_s=400, max_paths=3000), bounds='1 to 4 (thorough: 5) control nodes in each '
          'direction, 1 or 2 evaluation points; all coordinates and nodal values symbolic; up to 12 control nodes at fixed whole numbers',
          assumptions=[EXACT, 'control nodes of one direction are distinct'])
def c20(env, api, cfg):
    M, N, P, K = cfg['m'], cfg['n'], cfg['p'], cfg['k']
    kind = cfg.get('given', 'array')
    xn, yn = (WHOLE[:M], WHOLE[:N][::-1]) if kind == 'ints' or cfg.get('nodes') else (nodes_of(env, 'xn', M), nodes_of(env, 'yn', N))
    zn = list(yn) if cfg['z'] == 'same' else nodes_of(env, 'zn', P)
    F = [[[env.real('f%d%d%d' % (i, j, k)) for k in range(P)] for j in range(N)] for i in range(M)]
    if kind == 'int field':
        F = [[[(i + 2*j + 3*k) % 5 - 2 for k in range(P)] for j in range(N)] for i in range(M)]
        kind = 'ints'
    pts = [[env.real('%s%d' % (c, i)) for c in 'xyz'] for i in range(K)]
    label = ['interpolated field, point %d' % i for i in range(K)]
    if K == 1:
        # and the control nodes themselves
        for i, j, k in itertools.product(range(M), range(N), range(P)):
            pts.append([xn[i], yn[j], zn[k]])
            label.append('nodal value %d %d %d' % (i, j, k))
    r = api.lagrange3(*(give(env, kind, [p[c] for p in pts]) for c in range(3)),
                      *(give(env, kind, v) for v in (xn, yn, zn, F)))
    got = values(r, len(pts))
    env.record('field', arr(env, got))
    ix = list(itertools.product(range(M), range(N), range(P)))

    def spec(p, zbasis):
        b = basis(p[0], xn), basis(p[1], yn), zbasis(p[2])
        return total(b[0][i] * b[1][j] * b[2][k] * F[i][j][k] for i, j, k in ix)
    want = [spec(p, lambda z: basis(z, zn)) for p in pts]
    if env.same(arr(env, got), arr(env, want)):
        env.check('field', True)
        return

    def over_y(z):
        """recorded defect: the z polynomials have the zeros of the y nodes"""
        out = []
        for k in range(P):
            f = 1
            for j in range(N):
                if j != k and bool(zn[k] - yn[j] != 0):
                    f = f * (z - yn[j]) / (zn[k] - yn[j])
            out.append(f)
        return out
    if cfg['z'] != 'same':
        if env.same(arr(env, got), arr(env, [spec(p, over_y) for p in pts])):
            env.known('lagrange-3d-z-nodes')
            return
    for l, g, w in zip(label, got, want):
        env.eq(l, g, w)


# ------------------------------------------------------------------ C21
def c21_cfgs(tier, seed):
    out = []
    top = 12 if tier == 'quick' else 14
    for n in range(3, top + 1):
        for kind in ('array', 'list'):
            out.append(dict(n=n, what='shoelace', kind=kind))
        out.append(dict(n=n, what='turn', kind='array'))
        out.append(dict(n=n, what='reverse', kind='array'))
        out.append(dict(n=n, what='move', kind='array'))
        if n > 3:
            for j in range(2, n - 1):
                out.append(dict(n=n, what='cut', at=j, kind='array'))
    for n in (tuple(range(13, 42)) + (64, 65, 66, 101, 129) if tier == 'quick' else tuple(range(15, 66)) + (101, 129, 257, 300)):
        out.append(dict(n=n, what='shoelace', kind=('array', 'list')[n % 2]))
    for n in ((10, 12, 17) if tier == 'quick' else (15, 16, 17, 18, 20, 33)):
        out += [dict(n=n, what='turn', kind='list'), dict(n=n, what='reverse', kind='list')]
    for n in (3, 4, 5):
        out.append(dict(n=n, what='shoelace', kind='tuple'))
    out.append(dict(n=3, what='triangle', kind='array'))
    out.append(dict(n=4, what='rectangle', kind='list'))
    return out


@register('C21', c21_cfgs, modules='numeric', opts=dict(config_s=200), bounds='polygons of 3 to 41 vertices and some up to 129 '
          '(thorough: 3 to 65 and some up to 300), all real coordinates', assumptions=[EXACT])
def c21(env, api, cfg):
    n, what = cfg['n'], cfg['what']

    def area(p):
        x, y = [a for a, b in p], [b for a, b in p]
        if cfg['kind'] == 'array':
            x, y = arr(env, x), arr(env, y)
            r = api.area_of_polygon(x, y)
            env.check('x is left as it was', all(bool(a == b[0]) for a, b in zip(x, p)))
            env.check('y is left as it was', all(bool(a == b[1]) for a, b in zip(y, p)))
            return r
        if cfg['kind'] == 'tuple':
            x, y = tuple(x), tuple(y)
        return api.area_of_polygon(x, y)
    if what == 'triangle':
        b, h, s = env.pos('b'), env.pos('h'), env.real('s')
        x, y = env.real('x'), env.real('y')
        env.eq('half base times height', area([(x, y), (x + b, y), (x + s, y + h)]), b * h / 2)
        env.eq('half base times height (clockwise)', area([(x + s, y + h), (x + b, y), (x, y)]), b * h / 2)
        return
    if what == 'rectangle':
        b, h = env.pos('b'), env.pos('h')
        x, y = env.real('x'), env.real('y')
        env.eq('base times height', area([(x, y), (x + b, y), (x + b, y + h), (x, y + h)]), b * h)
        return
    p = [(env.real('x%d' % i), env.real('y%d' % i)) for i in range(n)]
    a = area(p)
    env.record('area', a)
    if what == 'shoelace':
        d = total(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n))
        env.check('never negative', a >= 0)
        env.eq('half the absolute shoelace sum', a, abs(d) / 2)
    elif what == 'turn':
        for k in range(1, n):
            env.eq('starting at vertex %d' % k, area(p[k:] + p[:k]), a)
    elif what == 'reverse':
        env.eq('reversed', area(p[::-1]), a)
    elif what == 'move':
        dx, dy = env.real('dx'), env.real('dy')
        env.eq('translated', area([(x + dx, y + dy) for x, y in p]), a)
        env.eq('turned by 90 degrees', area([(-y, x) for x, y in p]), a)
    else:
        q, r = p[:cfg['at'] + 1], p[cfg['at']:] + p[:1]
        for part in (q, r):
            m = len(part)
            env.assume(total(part[i][0] * part[(i + 1) % m][1] - part[(i + 1) % m][0] * part[i][1] for i in range(m)) > 0)
        env.eq('the two parts', area(q) + area(r), a)
