"""the package's public functions, imported for symbolic or for plain execution"""
import types

GROUPS = {
    'plate': ['meshless.espim.read_mesh', 'meshless.espim.plate2d_calc_k0', 'meshless.espim.plate2d_calc_kG',
              'meshless.espim.plate2d_add_k0s', 'meshless.espim.plate2d_add_k0s_cell_based',
              'meshless.espim.plate2d_add_k0s_cell_based_no_smoothing', 'meshless.espim.plate2d_add_k0s_edge_based',
              'meshless.utils', 'meshless.espim.classes'],
    'numeric': ['meshless.interpolate', 'meshless.utils'],
    'print': ['meshless.dev.sympytools'],
    'logger': ['meshless.logger'],
}
_cache = {}


def fill(group, mods):
    a = types.SimpleNamespace(group=group, symbolic=False)
    if group == 'plate':
        rm, k0, kg, ks, c, cn, e, ut, cl = mods
        a.utils, a.classes = ut, cl
        a.read_delaunay, a.read_mesh = rm.read_delaunay, rm.read_mesh
        a.calc_k0, a.calc_kG, a.add_k0s = k0.calc_k0, kg.calc_kG, ks.add_k0s
        a.direct = {'cell-based': c.add_k0s, 'cell-based-no-smoothing': cn.add_k0s, 'edge-based': e.add_k0s}
    elif group == 'numeric':
        a.lagrange2, a.lagrange3 = mods[0].interpolate_lagrange_2D, mods[0].interpolate_lagrange_3D
        a.area_of_polygon = mods[1].area_of_polygon
    elif group == 'logger':
        a.logger = mods[0]
    else:
        m = mods[0]
        a.module = m
        a.pow2mul = m.pow2mul
        a.dense, a.sparse, a.array = m.mprint_as_dense, m.mprint_as_sparse, m.mprint_as_array
    return a


def fresh(a):
    """the package imported once more, with module-level state of its own"""
    if a.symbolic:
        return symbolic(a.group, again=True)
    import importlib, sys
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'meshless' or k.startswith('meshless.')}
    try:
        return concrete(a.group)
    finally:
        for k in list(sys.modules):
            if k == 'meshless' or k.startswith('meshless.'):
                del sys.modules[k]
        sys.modules.update(saved)


def symbolic(group, again=False):
    if group not in _cache or again:
        from . import world
        if group == 'plate':
            import pyNastran.bdf.bdf  # noqa: F401
            world.patch_pynastran()
        if group in ('print', 'logger'):
            from . import text
            w = text.make_world()
        else:
            w = world.World()
        a = fill(group, w.load(*GROUPS[group]))
        a.symbolic = True
        if again:
            return a
        _cache[group] = a
    return _cache[group]


def concrete(group):
    import importlib, os, sys
    from .world import REPO
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    mods = [importlib.import_module(n) for n in GROUPS[group]]
    for m in mods:
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('%s is not imported from %s' % (m.__name__, REPO))
    return fill(group, mods)
