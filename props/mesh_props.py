"""C15, C16: the mesh readers"""
import itertools, os, random, tempfile
import numpy as np
from . import register
from symx.plate import arr, Simplices

EXACT = 'coordinates are real numbers'


def check_topology(env, mesh, tris, elem_ids, node_ids):
    """tris: node ids of every triangle, in the order of elem_ids"""
    env.check('element ids', len(mesh.elements) == len(elem_ids) and all(bool(any(bool(a == b) for b in mesh.elements)) for a in elem_ids))
    env.check('node ids', len(mesh.nodes) == len(node_ids) and all(bool(any(bool(a == b) for b in mesh.nodes)) for a in node_ids))
    nodes = [mesh.nodes[i] for i in node_ids]
    elems = [mesh.elements[i] for i in elem_ids]
    lab = {id(n): k for k, n in enumerate(nodes)}
    env.check('different node objects', len(lab) == len(nodes))
    env.check('different element objects', len({id(e) for e in elems}) == len(elems))
    pos = {}
    want_tris = []
    for k, t in enumerate(tris):
        want_tris.append([next(j for j, i in enumerate(node_ids) if bool(i == v)) for v in t])
    for k, e in enumerate(elems):
        env.check('element keeps its id', bool(e.eid == elem_ids[k]))
        env.check('element keeps its vertices in order', [lab.get(id(n)) for n in e.nodes] == want_tris[k])
        env.check('element keeps its node ids', len(e.node_ids) == 3 and all(bool(a == b) for a, b in zip(e.node_ids, tris[k])))
        env.check('element has no property yet', e.prop is None)
    for n, i in zip(nodes, node_ids):
        env.check('node keeps its id', bool(n.nid == i))
        env.check('node has no property yet', n.prop is None)
    # expected edges
    want = {}
    for k, t in enumerate(want_tris):
        for a, b in ((0, 1), (1, 2), (2, 0)):
            want.setdefault(frozenset((t[a], t[b])), []).append(k)
    edges = list(mesh.edges.values())
    env.check('one edge per joined pair: %d for %d' % (len(edges), len(want)), len(edges) == len(want))
    eix = {id(e): k for k, e in enumerate(elems)}
    seen = {}
    for e in edges:
        key = frozenset((lab.get(id(e.n1)), lab.get(id(e.n2))))
        env.check('edge joins two nodes of a triangle', key in want and key not in seen)
        seen[key] = e
        env.check('edge.nodes', len(e.nodes) == 2 and e.nodes[0] is e.n1 and e.nodes[1] is e.n2)
        env.check('edge.node_ids', len(e.node_ids) == 2 and all(bool(a == b.nid) for a, b in zip(e.node_ids, e.nodes)))
        env.check('edge lists exactly its triangles', sorted(eix.get(id(t), -1) for t in e.trias) == want[key])
    for key, e in mesh.edges.items():
        env.check('edge key names its nodes', len(key) == 2 and all(any(bool(a == b) for b in key) for a in e.node_ids))
    for k, el in enumerate(elems):
        env.check('triangle lists its three edges', len(el.edges) == 3 and len({id(x) for x in el.edges}) == 3 and
                  all(any(x is seen[key] for x in el.edges) for key, ks in want.items() if k in ks))
    for j, n in enumerate(nodes):
        env.check('node knows exactly its edges', isinstance(n.edges, set) and
                  {id(x) for x in n.edges} == {id(seen[key]) for key in want if j in key})
        mine = [elem_ids[k] for k, t in enumerate(want_tris) if j in t]
        env.check('node knows exactly its triangles', len(n.trias) == len(mine) and
                  all(any(bool(a == b) for b in n.trias) for a in mine))


# ------------------------------------------------------------------ C15
def c15_cfgs(tier, seed):
    out = []
    if tier == 'quick':
        for first in itertools.permutations(range(4), 3):
            out.append(dict(n=4, first=list(first), more=1, dim=2 + first[0] % 2))
        out.append(dict(n=4, first=[0, 1, 2], more=0, dim=3))
        out.append(dict(n=3, first=None, more=2, dim=2))
        out.append(dict(n=5, first=[3, 1, 4], more=1, dim=2))
        # three triangles, one of them fixed, the second one of a few
        out.append(dict(n=4, first=[2, 0, 3], second=[3, 0, 1], more=1, dim=2))
        out.append(dict(n=4, first=[1, 2, 3], second=[1, 0, 2], more=1, dim=3))
        return out + [dict(c, more=0) for c in big_lists()]
    rng = random.Random(seed)
    for first in itertools.permutations(range(4), 3):
        for second in itertools.permutations(range(4), 3):
            out.append(dict(n=4, first=list(first), second=list(second), more=1, dim=rng.choice([2, 3])))
    for first in itertools.permutations(range(5), 3):
        out.append(dict(n=5, first=list(first), more=1, dim=rng.choice([2, 3])))
    for first in itertools.permutations(range(6), 3):
        if rng.random() < 0.3:
            second = rng.sample(range(6), 3)
            out.append(dict(n=6, first=list(first), second=second, more=1, dim=rng.choice([2, 3])))
    out.append(dict(n=3, first=None, more=2, dim=2))
    out.append(dict(n=4, first=None, more=2, dim=3))
    return out + [dict(c, more=k) for c in big_lists() for k in (0, 1) if k == 0 or c['n'] < 10]


def big_lists():
    """longer lists of triangles: every three of six points, a fan of 130 points, a strip of 115 points"""
    rng = random.Random(8)
    every = list(itertools.combinations(range(6), 3))
    rng.shuffle(every)
    mix = lambda ts: [rng.sample(t, 3) for t in ts]
    fan = [(0, i, i + 1) for i in range(1, 129)]
    strip = [(i, i + 1, i + 2) for i in range(113)]
    return [dict(name='every three of 6', n=6, list=mix(every), dim=2),
            dict(name='twice every three of 4', n=4, list=mix(list(itertools.combinations(range(4), 3)) * 2), dim=3),
            dict(name='fan of 130', n=130, list=mix(fan), dim=2),
            dict(name='fan of 130, last point in the middle', n=130, list=mix([[129 - v for v in t] for t in fan]), dim=2),
            dict(name='strip of 115', n=115, list=mix(strip), dim=3)]


def c15_name(c):
    if c.get('list'):
        return '%s, %dD + %d free' % (c['name'], c['dim'], c['more'])
    return '%d points, %dD, triangles %s%s + %d free' % (c['n'], c['dim'], c.get('first') or '', c.get('second') or '', c['more'])


@register('C15', c15_cfgs, bounds='3 to 6 points, up to 3 triangles with any vertices (repeated triangles included), at '
          'least one of them completely symbolic; in addition some lists of up to 128 triangles and 130 points, where only the '
          'coordinates are symbolic', opts={'ints': True, 'config_s': 400}, assumptions=[EXACT], name=c15_name)
def c15(env, api, cfg):
    n, dim = cfg['n'], cfg['dim']
    pts = [[env.real('p%d_%d' % (i, k)) for k in range(dim)] for i in range(n)]
    simp = [cfg[k] for k in ('first', 'second') if cfg.get(k)] + [list(t) for t in cfg.get('list', ())]
    for t in range(cfg['more']):
        v = [env.int('s%d_%d' % (t, k), 0, n - 1) for k in range(3)]
        for a, b in itertools.combinations(v, 2):
            env.assume(a != b)
        simp.append(v)
    given = arr(env, pts)
    P0 = list(np.asarray(given).ravel())
    mesh = api.read_delaunay(given, Simplices(simp))
    tris = [[int(v) + 1 for v in t] for t in simp]
    env.check('the given points are not modified', all(a is b or bool(a == b) for a, b in zip(np.asarray(given).ravel(), P0)))
    nid = sorted(mesh.nodes)
    eid = sorted(mesh.elements)
    env.check('one node per point', len(nid) == n)
    env.check('one element per triangle', len(eid) == len(tris))
    tris = [[nid[v - 1] for v in t] for t in tris]
    check_topology(env, mesh, tris, eid, nid)
    for i in range(n):
        q = list(pts[i]) + [env.num(0)] * (3 - dim)
        env.array_eq('coordinates of point %d' % i, mesh.nodes[nid[i]].xyz, q)


# ------------------------------------------------------------------ C16
OTHER = ['CQUAD4', 'CTRIA6', 'CTRIAR', 'CROD', 'CBAR', 'CSHEAR', 'CTETRA', 'CELAS1', 'CONROD']
TRIS = {
    'one': (3, [(0, 1, 2)]),
    'two': (4, [(0, 1, 2), (2, 1, 3)]),
    'fan3': (4, [(0, 1, 3), (1, 2, 3), (2, 0, 3)]),
    'fan4': (5, [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]),
    'strip4': (6, [(0, 1, 2), (2, 1, 3), (2, 3, 4), (4, 3, 5)]),
    'apart': (6, [(0, 1, 2), (3, 4, 5)]),
    'touch': (5, [(0, 1, 2), (2, 3, 4)]),
    'book': (5, [(0, 1, 2), (1, 0, 3), (0, 1, 4)]),
    'fan': (130, [(0, i, i + 1) for i in range(1, 129)]),
    'strip': (115, [(i, i + 1, i + 2) for i in range(113)]),
}


def c16_cfgs(tier, seed):
    rng = random.Random(5 + (seed if tier != 'quick' else 1))
    out = []
    for shape, k in ({'one': 1, 'two': 3, 'fan3': 1, 'touch': 1, 'book': 1} if tier == 'quick' else
                     {'one': 6, 'two': 36, 'fan3': 24, 'fan4': 8, 'strip4': 8, 'apart': 6, 'touch': 8, 'book': 8}).items():
        for i in range(k):
            out.append(dict(shape=shape, perms=[rng.randrange(6) for _ in TRIS[shape][1]], what='ids', frame=i % 2 == 1))
    for i in range(2 if tier == 'quick' else 8):
        out.append(dict(shape='two', perms=[rng.randrange(6), rng.randrange(6)], what='other'))
    out.append(dict(shape='two', perms=[rng.randrange(6), rng.randrange(6)], what='free', frame=False))
    for shape in ('fan', 'strip'):
        for ids in ('count', 'mixed'):
            out.append(dict(shape=shape, perms=[rng.randrange(6) for _ in TRIS[shape][1]], what='ids', ids=ids, frame=ids == 'mixed'))
    if tier != 'quick':
        for i in range(10):
            out.append(dict(shape='fan3', perms=[rng.randrange(6) for _ in range(3)], what='free', frame=bool(i % 2)))
    return out


PERMS = list(itertools.permutations(range(3)))


def add_other(model, kind, eid, n):
    """an element that the package does not support"""
    if kind == 'CQUAD4':
        model.add_cquad4(eid, 1, [n[0], n[1], n[2], n[3]])
    elif kind == 'CTRIA6':
        model.add_ctria6(eid, 1, [n[0], n[1], n[2], n[3], n[3], n[3]])
    elif kind == 'CTRIAR':
        model.add_ctriar(eid, 1, [n[0], n[1], n[2]])
    elif kind == 'CROD':
        model.add_crod(eid, 2, [n[0], n[1]])
    elif kind == 'CBAR':
        model.add_cbar(eid, 3, [n[0], n[1]], [0., 0., 1.], None)
    elif kind == 'CSHEAR':
        model.add_cshear(eid, 4, [n[0], n[1], n[2], n[3]])
    elif kind == 'CTETRA':
        model.add_ctetra(eid, 5, [n[0], n[1], n[2], n[3]])
    elif kind == 'CELAS1':
        model.add_celas1(eid, 6, [n[0], n[1]], 1, 1)
    else:
        model.add_conrod(eid, 1, [n[0], n[1]], A=1.)


def populate(model, deck):
    model.add_mat1(1, 1e7, None, 0.3)
    model.add_pshell(1, mid1=1, t=0.1, mid2=1, mid3=1)
    model.add_pshell(812, mid1=1, t=0.2, mid2=1, mid3=1)
    if deck['other']:
        model.add_prod(2, 1, A=1.)
        model.add_pbar(3, 1, A=1.)
        model.add_pshear(4, 1, 0.1)
        model.add_psolid(5, 1)
        model.add_pelas(6, 1.)
    if deck['frame'] == 'in plane':
        # x to the global -y axis, y to the global x axis, origin (3, -2, 5)
        model.add_cord2r(7, [3., -2., 5.], [3., -2., 6.], [3., -3., 5.])
    elif deck['frame']:
        # x to the global y axis, y to the global z axis, origin (3, -2, 5)
        model.add_cord2r(7, [3., -2., 5.], [4., -2., 5.], [3., -1., 5.])
    for (nid, xyz), cp in zip(deck['grids'], deck['cp']):
        model.add_grid(nid, xyz, cp=cp)
    for k, item in enumerate(deck['cards']):
        if item[0] == 'CTRIA3':
            model.add_ctria3(item[1], 812 if k % 2 else 1, list(item[2]))
        else:
            add_other(model, item[0], item[1], item[2])


def read(env, api, deck):
    """read_mesh on the deck: symbolically the parser is replaced by the cards it would produce"""
    if not env.symbolic:
        from pyNastran.bdf.bdf import BDF
        m = BDF(debug=False)
        populate(m, deck)
        fd, fn = tempfile.mkstemp('.bdf')
        os.close(fd)
        try:
            write_deck(m, deck, fn)
            return api.read_mesh(fn)
        finally:
            os.remove(fn)
    from pyNastran.bdf.bdf import BDF
    fd, fn = tempfile.mkstemp('.bdf')
    os.close(fd)
    real = BDF.read_bdf

    def read_bdf(self, bdf_filename=None, *a, **k):
        if bdf_filename != fn:
            return real(self, bdf_filename, *a, **k)
        populate(self, deck)
        xref = k.get('xref', a[1] if len(a) > 1 else True)
        if xref:
            self.cross_reference()
    BDF.read_bdf = read_bdf
    try:
        return api.read_mesh(fn)
    finally:
        BDF.read_bdf = real
        os.remove(fn)


def write_deck(model, deck, fn):
    """cards in the order of the deck, with all digits"""
    out = ['SOL 101', 'CEND', 'BEGIN BULK']

    def f(x):
        s = repr(float(x))
        return s if '.' in s or 'e' in s else s + '.'
    for d in (model.materials, model.properties, model.coords):
        for k, c in d.items():
            if k or d is not model.coords:
                out.append(c.write_card(size=8).rstrip())
    for (nid, xyz), cp in zip(deck['grids'], deck['cp']):
        out.append('GRID,%d,%s,%s,%s,%s' % ((nid, cp or '') + tuple(f(x) for x in xyz)))
    for item in deck['cards']:
        out.append(model.elements[item[1]].write_card(size=8).rstrip())
    out.append('ENDDATA')
    with open(fn, 'w') as g:
        g.write('\n'.join(out) + '\n')


def c16_name(c):
    return '%s p%s %s%s' % (c['shape'], ''.join(map(str, c['perms'][:6])), c['what'] + (' ' + c['ids'] if c.get('ids') else ''),
                            ' other-frame' if c.get('frame') else '')


@register('C16', c16_cfgs, bounds='decks of 1 to 4 triangles, all ids from 1 to 99999999 in any order, one element of '
          'another type at any place; in addition decks of 113 and 128 triangles with given ids', opts={'ints': True, 'config_s': 400},
          assumptions=[EXACT, 'pyNastran\'s parsing of the text of a deck is outside: the cards are handed over as '
                       'pyNastran objects with symbolic ids (counterexamples are replayed on a written deck)'], name=c16_name)
def c16(env, api, cfg):
    n, tris = TRIS[cfg['shape']]
    big = 99999999
    if cfg.get('ids'):
        # given ids: consecutive ones in any order, or of any length
        rng = random.Random(21)
        if cfg['ids'] == 'count':
            nid, eid = [list(range(1, k + 1)) for k in (n, len(tris))]
        else:
            nid, eid = [[int(10 ** (8 * rng.random())) + 200 * i for i in range(k)] for k in (n, len(tris))]
        rng.shuffle(nid)
        rng.shuffle(eid)
    else:
        nid = [env.int('n%d' % i, 1, big) for i in range(n)]
        eid = [env.int('e%d' % i, 1, big) for i in range(len(tris) + (cfg['what'] == 'other'))]
        for a, b in itertools.chain(itertools.combinations(nid, 2), itertools.combinations(eid, 2)):
            env.assume(a != b)
    frame = bool(cfg.get('frame'))
    pts = [[env.real('p%d_%d' % (i, k)) for k in range(3)] for i in range(n)]
    given = []
    for t, k in zip(tris, cfg['perms']):
        given.append([nid[t[j]] for j in PERMS[k]])
    if cfg['what'] == 'free':
        # the last triangle joins any three of the nodes
        v = [env.int('s%d' % k, 0, n - 1) for k in range(3)]
        for a, b in itertools.combinations(v, 2):
            env.assume(a != b)
        given[-1] = [nid[int(x)] for x in v]
    cp = [7 if frame and i % 2 == 0 else 0 for i in range(n)]
    cards = [('CTRIA3', e, t) for e, t in zip(eid, given)]
    if cfg['what'] == 'other':
        kind = env.choose('kind', OTHER)
        at = env.choose('place', range(len(cards) + 1))
        cards.insert(at, (kind, eid[-1], nid))
    deck = dict(grids=[(i, arr(env, p)) for i, p in zip(nid, pts)], cp=cp, cards=cards, frame=frame, other=cfg['what'] == 'other')
    if cfg['what'] == 'other':
        exc = None
        try:
            read(env, api, deck)
        except NotImplementedError as e:
            exc = e
        env.check('a deck with %s is refused' % kind, exc is not None)
        return
    mesh = read(env, api, deck)
    check_topology(env, mesh, given, eid, nid)
    for i in range(n):
        x, y, z = pts[i]
        if cp[i]:
            x, y, z = glob(env, pts[i])
        env.array_eq('position of node %d in the basic system' % i, mesh.nodes[nid[i]].xyz, [x, y, z])


def glob(env, p):
    """origin (3, -2, 5); z axis along the global x, x axis along the global y, y axis along the global z"""
    x, y, z = p
    return 3 + z, -2 + x, 5 + y
