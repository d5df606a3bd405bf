"""registry of the properties"""
REGISTRY = {}


class Property:
    def __init__(self, pid, harness, configs, modules='plate', opts=None, bounds='', assumptions=None, name=None):
        self.pid, self.harness, self.configs, self.modules = pid, harness, configs, modules
        self.opts = opts or {}
        self.bounds = bounds
        self.assumptions = assumptions or []
        self.name = name or (lambda c: ' '.join('%s=%s' % kv for kv in sorted(c.items())))


def register(pid, configs, **kw):
    def deco(f):
        REGISTRY[pid] = Property(pid, f, configs, **kw)
        return f
    return deco


def load():
    from . import plate_props, mesh_props, numeric_props, print_props, whole_props, theory_props  # noqa: F401
    return REGISTRY
