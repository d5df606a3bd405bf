"""C31: the matrices printed by the derivation scripts in theory/"""
import os, shutil, subprocess, sys, tempfile
import numpy as np
from . import register
from symx.world import REPO
from symx.plate import (Plate, cfg_name, arr, zeros, oarr, DOF, domain_area, edge_prop, tri_prop, centroid, resultants)
from .plate_props import PLANAR, EXACT, meshes, cross, spread, pick, z_if_edge, METHODS

FSDT = 'theory/espim/2D/plate/FSDT/transverse_shear_'
SCRIPTS = {
    'cell-based': (FSDT + 'cell_based', ('k0', 'k0s', 'kG')),
    'cell-based-no-smoothing': (FSDT + 'cell_based_no_smoothing', ('k0', 'k0s')),
    'edge-based': (FSDT + 'edge_based', ('k0', 'k0s_interior_edge', 'k0s_boundary_edge')),
    'membrane': ('theory/espim/2D/membrane', ('k0',)),
}
_printed = {}


def printed(which):
    """what the script prints: {matrix: text}; the script runs in a folder of its own"""
    if which not in _printed:
        d = tempfile.mkdtemp(prefix='theory')
        try:
            folder = os.path.join(REPO, SCRIPTS[which][0])
            r = subprocess.run([sys.executable, '-B', os.path.join(folder, 'stiffmatrices.py')], cwd=d, timeout=600,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONPATH=REPO))
            files = {f[6:-4]: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))
                     if f.startswith('print_') and f.endswith('.txt')}
        finally:
            shutil.rmtree(d)
        _printed[which] = (r.returncode, r.stdout[-300:], files)
    return _printed[which]


def c31_cfgs(tier, seed):
    m = meshes(tier, seed, {'one': 1, 'two': 2}, {'one': 4, 'two': 20, 'strip3': 6, 'fan3': 4})
    out = cross(m, script=['cell-based', 'cell-based-no-smoothing', 'edge-based'], what=['k0'])
    out += cross(m[:3] if tier == 'quick' else m, script=['cell-based'], what=['kG'])
    m = meshes(tier, seed + 1, {'one': 1, 'two': 2}, {'one': 4, 'two': 20, 'strip3': 6, 'fan3': 4})
    out += z_if_edge(cross(m, method=METHODS, what=['k0s']))
    m = meshes(tier, seed + 2, {'two': 1}, {'one': 1, 'two': 2})
    out += cross(m, script=['membrane'], what=['k0'])
    return out


def name(c):
    return '%s, script %s' % (cfg_name({k: v for k, v in c.items() if k != 'script'}), c.get('script') or c['method'])


def assemble(env, text, name, K, values, who):
    """run the printed statements; who: position of the nodes 1, 2, ... of the domain"""
    ns = dict(values, dof=DOF, **{'i%d' % (k + 1): i for k, i in enumerate(who)})
    ns[name] = K
    ns['pow'] = pow
    exec(compile(text, 'print_%s.txt' % name, 'exec'), ns)


def domain(env, p, e):
    """lengths, normals and shape functions of the four lines around the smoothing domain of an edge"""
    P = p.P
    third, v = env.q(1, 3), {}
    n1, n2 = ([1, 0, 0, 0], P[e.n1]), ([0, 1, 0, 0], P[e.n2])
    mids = [([third, third] + [third if k == j else 0 for k in range(2)], centroid(P, p.ref[t])) for j, t in enumerate(e.tris)]
    path = [n1] + mids[1:] + [n2, mids[0]]
    for k in range(4):
        if k < len(path):
            (f, a), (g, b) = path[k], path[(k + 1) % len(path)]
            dx, dy = b[0] - a[0], b[1] - a[1]
            le = env.sqrt(dx * dx + dy * dy)
            nx, ny, f = dy / le, -dx / le, [(x + y) * env.q(1, 2) for x, y in zip(f, g)]
        else:
            le, nx, ny, f = (env.num(0),) * 3 + ([env.num(0)] * 4,)
        v.update({'le%d' % (k + 1): le, 'nx%d' % (k + 1): nx, 'ny%d' % (k + 1): ny})
        v.update({'f%d%d' % (k + 1, i + 1): x for i, x in enumerate(f)})
    return v


def sides(v, k, p1, p2, p3, area=True):
    """the two sides from the first vertex, and the area"""
    a, b, c, d = p2[0] - p1[0], p2[1] - p1[1], p3[0] - p1[0], p3[1] - p1[1]
    v.update({'a%d' % k: a, 'b%d' % k: b, 'c%d' % k: c, 'd%d' % k: d})
    if area:
        v['Ac%d' % k] = (a * d - b * c) / 2


def laminate(v, q, names):
    for n in names:
        M = np.asarray(getattr(q, n))
        for i, j, s in ((0, 0, '11'), (0, 1, '12'), (0, 2, '16'), (1, 1, '22'), (1, 2, '26'), (2, 2, '66')):
            v[n + s] = M[i, j]


def shear(env, v, q, coupled):
    """coefficients of the squares of the strains in the order xz, yz, and of their product"""
    E = np.asarray(q.E)
    v.update(E44=E[1, 1], E45=E[0, 1] if coupled else env.num(0), E55=E[0, 0])


@register('C31', c31_cfgs, bounds='meshes of 1 to 2 triangles (thorough: 3), the same laminate everywhere, alpha = 0; four scripts',
          assumptions=[PLANAR, EXACT, 'interior edges at z = y of their first node (known finding of C10)',
                       'unit shear correction factors, alpha = 0 (C02, C11)'], name=name)
def c31(env, api, cfg):
    which = cfg.get('script') or cfg['method']
    rc, out, files = printed(which)
    env.check('the script runs: %s' % out, rc == 0)
    env.check('the script prints %s' % ', '.join(SCRIPTS[which][1]), all(n in files for n in SCRIPTS[which][1]))
    p = Plate(env, api, cfg)
    w = cfg['what']
    p.set_props('elem', abd=w != 'k0s', shear=w == 'k0s', uniform=True)
    lam = p.props[0]
    if w == 'k0s':
        lam.scf_k13 = lam.scf_k23 = env.num(1)
    if which == 'membrane':
        lam.B = lam.D = arr(env, [[env.num(0)] * 3] * 3)
    n = DOF * p.n
    R = oarr(env, (n + DOF, n + DOF)) if env.symbolic else np.zeros((n + DOF, n + DOF))
    K0 = api.calc_k0(p.mesh, False)
    ix = p.ix()
    if w == 'k0s':
        K = zeros(env, (n, n))
        api.add_k0s(K, p.mesh, False, cfg['method'], env.num(0))
    elif w == 'k0':
        K = K0
    else:
        d = [env.real('d%d' % i) for i in range(n)]
        K = api.calc_kG(arr(env, d), p.mesh, False)
    if w == 'k0s' and which != 'edge-based':
        for t, tri in enumerate(p.ref):
            v = {}
            shear(env, v, lam, False)
            if which == 'cell-based':
                mid = centroid(p.P, tri)
                for k in range(3):
                    sides(v, k + 1, mid, p.P[tri[k]], p.P[tri[(k + 1) % 3]])
                v['Ac'] = v['Ac1'] + v['Ac2'] + v['Ac3']
            else:
                g = p.given[cfg['order'].index(t)]
                k = tri.index(g[0])
                first = g[0] if tri[(k + 1) % 3] == g[1] else g[1]
                k = tri.index(first)
                tri = [tri[(k + i) % 3] for i in range(3)]
                sides(v, 1, *[p.P[i] for i in tri])
                v['Ac'] = v['Ac1']
            assemble(env, files['k0s'], 'k0s', R, v, [ix[i] for i in tri])
    else:
        for e in p.edges:
            who = [ix[e.n1], ix[e.n2]] + [ix[i] for i in e.opp] + [p.n]
            v, inner = {}, len(e.tris) == 2
            if w == 'k0s':
                shear(env, v, lam, inner)
                mids = [centroid(p.P, p.ref[t]) for t in e.tris]
                p1, p2 = p.P[e.n1], p.P[e.n2]
                sides(v, 1, mids[0], p1, p2)
                if inner:
                    sides(v, 2, p1, mids[1], p2)
                v['Ac'] = domain_area(p, e)
                name = 'k0s_interior_edge' if inner else 'k0s_boundary_edge'
            else:
                v.update(domain(env, p, e), Ac=domain_area(p, e))
                laminate(v, lam, 'A' if which == 'membrane' else 'ABD')
                if w == 'kG':
                    v['Nxx'], v['Nyy'], v['Nxy'] = [x / v['Ac'] for x in resultants(p, e, d, ix)]
                name = w
            assemble(env, files[name], name, R, v, who[:4])
    env.record(w, K)
    env.array_eq('%s assembled from the printed statements of the %s script' % (w, which), K, R[:n, :n])
