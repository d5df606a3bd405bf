"""Imports /repo's meshless modules so that they compute with symbolic numbers.

The modules are executed from the current source with their own builtins: `import numpy`/`math` gives a stand-in
whose arrays hold Python objects, max/min build max/min terms, float() keeps symbolic numbers.
"""
import sys, os, types, builtins, importlib, importlib.util, importlib.abc, importlib.machinery, functools
import numpy as np
import math
from . import core
from .core import S, SInt, SBool, smax, smin, Unsupported

REPO = os.environ.get('MESHLESS_REPO', '/repo')

FLOATLIKE = (float, np.float64, np.float32, np.double, np.longdouble, np.floating, 'float64', 'float', 'd',
             'float32', 'f8', '<f8')


def is_floatlike(dt):
    if dt is None:
        return False
    try:
        if isinstance(dt, np.dtype):
            return dt.kind == 'f'
        if isinstance(dt, type) and issubclass(dt, (float, np.floating)):
            return True
        if isinstance(dt, FloatProxy):
            return True
        return isinstance(dt, str) and np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def is_single(dt):
    """single (or half) precision: numbers are rounded"""
    if isinstance(dt, SingleProxy):
        return True
    try:
        return dt is not None and not isinstance(dt, (FloatProxy, S)) and np.dtype(dt).kind == 'f' and np.dtype(dt).itemsize < 8
    except TypeError:
        return False


def single(x):
    """x rounded to single precision"""
    if isinstance(x, S):
        return x.single()
    if isinstance(x, (np.ndarray, list, tuple)):
        return wrap(np.frompyfunc(lambda v: S.lift(v).single(), 1, 1)(np.asarray(to_array(x))))
    return x


def has_sym(x):
    if isinstance(x, (S, SInt, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def plain_key(key):
    """a mask of symbolic truth values as an index: every value is decided (the paths fork)"""
    if isinstance(key, tuple):
        return tuple(plain_key(k) for k in key)
    if isinstance(key, (np.ndarray, list)):
        a = np.asarray(key) if isinstance(key, np.ndarray) else key
        flat = list(a.ravel()) if isinstance(a, np.ndarray) else a
        if (not isinstance(a, np.ndarray) or a.dtype == object) and flat and \
                all(isinstance(x, (SBool, bool, np.bool_)) for x in flat):
            b = np.array([bool(x) for x in flat], dtype=bool)
            return b.reshape(a.shape) if isinstance(a, np.ndarray) else b
    return key


class SymArray(np.ndarray):
    """object array; min/max become terms"""
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        raw = [np.asarray(i) if isinstance(i, SymArray) else i for i in inputs]
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(np.asarray(o) if isinstance(o, SymArray) else o for o in out)
        if kw.get('dtype') is not None and is_floatlike(kw['dtype']):
            kw['dtype'] = object
        name = ufunc.__name__
        if name in ('minimum', 'maximum', 'fmin', 'fmax'):
            f = smin if 'min' in name else smax
            two = np.frompyfunc(lambda a, b: f([a, b]), 2, 1)
            if method == 'reduce':
                a = raw[0]
                axis = kw.get('axis', 0)
                if axis is None:
                    res = f(list(a.ravel()))
                else:
                    if isinstance(axis, tuple):
                        axis = axis[0]
                    m = np.moveaxis(a, axis, 0)
                    r = np.empty(m.shape[1:], dtype=object)
                    for ix in np.ndindex(r.shape):
                        r[ix] = f([m[(k,) + ix] for k in range(m.shape[0])])
                    if kw.get('keepdims'):
                        r = np.expand_dims(r, axis)
                    res = r
                    if r.shape == ():
                        res = r[()]
            else:
                res = two(*raw)
        elif name in ('logical_or', 'logical_and') and method in ('reduce', '__call__'):
            op = name[8:]
            if method == '__call__':
                res = np.frompyfunc(lambda a, b: core.combine([a, b], op), 2, 1)(*raw)
            else:
                axis = kw.get('axis', 0)
                a = np.asarray(raw[0], dtype=object)
                if axis is None:
                    res = core.combine(list(a.ravel()), op)
                else:
                    m = np.moveaxis(a, axis[0] if isinstance(axis, tuple) else axis, 0)
                    res = np.empty(m.shape[1:], dtype=object)
                    for ix in np.ndindex(res.shape):
                        res[ix] = core.combine([m[(k,) + ix] for k in range(m.shape[0])], op)
                    if res.shape == ():
                        res = res[()]
                if isinstance(res, np.ndarray) and all(isinstance(x, (bool, np.bool_)) for x in res.ravel()):
                    res = res.astype(bool)
                if isinstance(res, np.ndarray) and kw.get('keepdims'):
                    res = np.expand_dims(res, axis)
                if not isinstance(res, np.ndarray):
                    return res
        elif name in ('rint', 'floor', 'ceil', 'trunc') and method == '__call__':
            res = np.frompyfunc(lambda v: getattr(S.lift(v), name)(), 1, 1)(*raw)
        elif name in ('isnan', 'isinf'):
            res = np.zeros(np.shape(raw[0]), dtype=bool)
        elif name == 'isfinite':
            res = np.ones(np.shape(raw[0]), dtype=bool)
        elif name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal') and method == '__call__':
            op = {'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__', 'greater_equal': '__ge__',
                  'equal': '__eq__', 'not_equal': '__ne__'}[name]
            import operator
            f = getattr(operator, op)
            res = np.frompyfunc(lambda a, b: f(a, b), 2, 1)(*raw)
            if isinstance(res, np.ndarray) and not res.size:
                return res.astype(bool)
        else:
            kw.pop('casting', None)
            try:
                res = getattr(ufunc, method)(*raw, **kw)
            except TypeError as e:
                raise Unsupported('numpy %s on symbolic arrays: %s' % (name, e))
        if out is not None:
            return out[0]
        return wrap(res)

    def __getitem__(self, key):
        return np.ndarray.__getitem__(self, plain_key(key))

    def __setitem__(self, key, v):
        np.ndarray.__setitem__(self, plain_key(key), v)

    def astype(self, dtype, *a, **k):
        if is_single(dtype):
            return single(self)
        if is_floatlike(dtype):
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        a = np.asarray(self)
        n = a.size if axis is None else a.shape[axis]
        s = a.sum(axis=axis, keepdims=keepdims)
        return wrap(s * core.Fraction(1, n) if not has_sym(s) or isinstance(s, S) else s / n)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda v: round(S.lift(v), decimals), 1, 1)(np.asarray(self)))

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            r = r.astype(object)
        if r.dtype == object and not isinstance(r, SymArray):
            return r.view(SymArray)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def _objs(args):
    """turn containers of symbolic numbers into SymArrays"""
    out = []
    for a in args:
        if isinstance(a, (list, tuple)) and a and has_sym(a):
            try:
                out.append(to_array(a))
            except ValueError:
                out.append(a)
        else:
            out.append(a)
    return out


def to_array(a):
    if isinstance(a, np.ndarray):
        return wrap(a)
    return wrap(np.array(a, dtype=object))


JOINERS = {'block', 'concatenate', 'hstack', 'vstack', 'dstack', 'stack', 'column_stack', 'row_stack', 'multi_dot', 'select',
           'choose', 'bmat'}


def _parts(a):
    if isinstance(a, (list, tuple)):
        return [_parts(x) for x in a]
    if isinstance(a, np.ndarray):
        return wrap(a)
    return to_array(a) if has_sym(a) else a


CREATORS = {'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'linspace'}


def _wrapfunc(f, name):
    @functools.wraps(f, updated=())
    def g(*args, **kw):
        args = list(args)
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray') and \
                is_single(args[1] if len(args) > 1 else kw.get('dtype')) and has_sym(args[0]):
            args = [single(args[0])]
            kw.pop('dtype', None)
        if is_floatlike(kw.get('dtype')):
            kw['dtype'] = object
        if name in CREATORS:
            pos = {'zeros': 1, 'ones': 1, 'empty': 1, 'full': 2, 'eye': 3, 'identity': 1}.get(name)
            if pos is not None and len(args) > pos:
                if is_floatlike(args[pos]):
                    args[pos] = object
            elif kw.get('dtype') is None and name not in ('full', 'linspace'):
                kw['dtype'] = object
            elif name == 'full' and kw.get('dtype') is None and len(args) > 1 and not isinstance(args[1], (int, bool)):
                kw['dtype'] = object
        elif name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'zeros_like', 'empty_like', 'ones_like',
                      'full_like', 'asfortranarray'):
            if len(args) > 1 and is_floatlike(args[1]):
                args[1] = object
            elif len(args) == 1 and kw.get('dtype') is None and isinstance(args[0], (list, tuple)) and has_sym(args[0]):
                kw['dtype'] = object
        elif name in JOINERS:                       # lists of arrays, of different shapes
            args = [_parts(a) if isinstance(a, (list, tuple)) else a for a in args]
        else:
            args = _objs(args)
            kw = {k: (_objs([v])[0]) for k, v in kw.items()}
        return wrap(f(*args, **kw))
    return g


def s_norm(x, ord=None, axis=None, keepdims=False):
    a = to_array(x)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm order %r' % (ord,))
    sq = np.asarray(a) * np.asarray(a)
    if axis is None:
        tot = sum(list(sq.ravel()), S.const(0))
        return tot.sqrt()
    s = sq.sum(axis=axis, keepdims=keepdims)
    return wrap(np.frompyfunc(lambda v: S.lift(v).sqrt(), 1, 1)(s))


def s_det(a):
    a = np.asarray(a, dtype=object)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    tot = S.const(0)
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        tot = tot + (-1) ** j * a[0, j] * s_det(minor)
    return tot


def s_inv(a):
    a = np.asarray(a, dtype=object)
    n = a.shape[0]
    d = s_det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = S.const(1)
            else:
                c = s_det(np.delete(np.delete(a, i, 0), j, 1))
            r[j, i] = (-1) ** (i + j) * c / d
    return wrap(r)


def s_solve(a, b):
    return wrap(np.asarray(s_inv(a)).dot(np.asarray(b, dtype=object)))


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        x, y = S.lift(x), S.lift(y)
        return abs(x - y) <= core.rationalise(float(atol)) + core.rationalise(float(rtol)) * abs(y)
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return one(a, b)
    return wrap(np.frompyfunc(one, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))


def s_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = s_isclose(a, b, rtol, atol)
    return bool(core.combine(list(np.ravel(r)), 'and')) if isinstance(r, np.ndarray) else bool(r)


def s_array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and bool(core.combine([x == y for x, y in zip(a.ravel(), b.ravel())], 'and'))


def s_sqrt(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return wrap(np.frompyfunc(lambda v: S.lift(v).sqrt(), 1, 1)(to_array(x)))
    return S.lift(x).sqrt()


def s_amax(x, axis=None, **kw):
    return to_array(x).max(axis=axis)


def s_amin(x, axis=None, **kw):
    return to_array(x).min(axis=axis)


def s_any(x, axis=None, **kw):
    return to_array(x).any(axis=axis)


def s_all(x, axis=None, **kw):
    return to_array(x).all(axis=axis)


def s_round(x, decimals=0, **kw):
    return to_array(x).round(decimals) if isinstance(x, (np.ndarray, list, tuple)) else round(x, decimals)


def s_mean(x, axis=None, **kw):
    return to_array(x).mean(axis=axis)


def s_average(x, axis=None, weights=None, **kw):
    x = to_array(x)
    if weights is None:
        return x.mean(axis=axis)
    w = np.asarray(weights, dtype=object)
    if axis is None and x.ndim > 1:
        raise Unsupported('average')
    m = np.moveaxis(np.asarray(x), axis or 0, 0)
    tot = sum(list(w), 0)
    acc = m[0] * w[0]
    for k in range(1, len(w)):
        acc = acc + m[k] * w[k]
    return wrap(acc / tot)


def s_cross(a, b, *args, **kw):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.ndim == 1 and b.ndim == 1 and a.shape == b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    if a.ndim == 1 and b.ndim == 1 and not args and not kw and a.shape == b.shape == (3,):
        r = np.empty(3, dtype=object)
        r[0] = a[1] * b[2] - a[2] * b[1]
        r[1] = a[2] * b[0] - a[0] * b[2]
        r[2] = a[0] * b[1] - a[1] * b[0]
        return wrap(r)
    return wrap(np.cross(a, b, *args, **kw))


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['__path__'] = getattr(real, '__path__', [])

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType):
            if v.__name__ == 'numpy.linalg':
                v = LINALG
        elif isinstance(v, np.ufunc):
            if name not in ('add', 'subtract', 'multiply', 'logical_and', 'logical_or', 'maximum', 'minimum',
                            'hypot'):
                v = _wrapfunc(v, name)
            elif name == 'hypot':
                v = lambda a, b: s_sqrt(to_array(a) * to_array(a) + to_array(b) * to_array(b)) \
                    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else (S.lift(a) * a + S.lift(b) * b).sqrt()
            elif name in ('maximum', 'minimum'):
                k = smax if name == 'maximum' else smin
                real = v

                class Two:
                    def __call__(self_, a, b):
                        if isinstance(a, (np.ndarray, list)) or isinstance(b, (np.ndarray, list)):
                            return real(to_array(a), to_array(b))
                        return k([a, b])

                    def __getattr__(self_, n):
                        return lambda a, *x, **kk: getattr(real, n)(to_array(a), *x, **kk)
                v = Two()
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == '_ArrayFunctionDispatcher':
            v = _wrapfunc(v, name)
        self._over[name] = v
        return v


class FloatProxy:
    """numpy.float64: a dtype and a constructor that keeps symbolic numbers"""
    def __call__(self, x=0.0):
        return x if has_sym(x) else float(x)

    @property
    def dtype(self):
        return np.dtype(object)


def s_finfo(dtype=float):
    return np.finfo(np.float32 if is_single(dtype) else np.float64)


class SingleProxy(FloatProxy):
    """numpy.float32"""
    def __call__(self, x=0.0):
        return single(x) if has_sym(x) else float(np.float32(x))


LINALG = Proxy(np.linalg, {'norm': s_norm, 'det': s_det, 'inv': s_inv, 'solve': s_solve})
NUMPY = Proxy(np, {
    'isclose': s_isclose, 'allclose': s_allclose, 'array_equal': s_array_equal, 'sqrt': s_sqrt,
    'any': s_any, 'all': s_all, 'round': s_round, 'around': s_round, 'max': s_amax, 'amax': s_amax, 'min': s_amin, 'amin': s_amin, 'mean': s_mean, 'average': s_average,
    'cross': s_cross, 'ndarray': np.ndarray, 'ndindex': np.ndindex,
    'float32': SingleProxy(), 'single': SingleProxy(), 'half': SingleProxy(), 'float16': SingleProxy(), 'finfo': s_finfo,
    'float64': FloatProxy(), 'double': FloatProxy(), 'float_': FloatProxy(),
})


def m_sqrt(x):
    return S.lift(x).sqrt() if has_sym(x) else math.sqrt(x)


def m_hypot(*a):
    if any(has_sym(x) for x in a):
        return sum((S.lift(x) * x for x in a), S.const(0)).sqrt()
    return math.hypot(*a)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not (has_sym(a) or has_sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return abs(S.lift(a) - b) <= smax([core.rationalise(float(rel_tol)) * smax([abs(S.lift(a)), abs(S.lift(b))]),
                                       core.rationalise(float(abs_tol))])


def m_fabs(x):
    return abs(x)


def m_isfinite(x):
    return True if has_sym(x) else math.isfinite(x)


def m_fsum(xs):
    return sum(xs)


def m_pow(a, b):
    return a ** b if has_sym(a) or has_sym(b) else math.pow(a, b)


def m_dist(p, q):
    return sum(((S.lift(a) - b) * (S.lift(a) - b) for a, b in zip(p, q)), S.const(0)).sqrt()


MATH = Proxy(math, {'sqrt': m_sqrt, 'hypot': m_hypot, 'isclose': m_isclose, 'fabs': m_fabs, 'fsum': m_fsum,
                    'floor': lambda x: S.lift(x).floor() if has_sym(x) else math.floor(x),
                    'ceil': lambda x: S.lift(x).ceil() if has_sym(x) else math.ceil(x),
                    'trunc': lambda x: S.lift(x).trunc() if has_sym(x) else math.trunc(x),
                    'isfinite': m_isfinite, 'isnan': lambda x: False if has_sym(x) else math.isnan(x),
                    'pow': m_pow, 'dist': m_dist,
                    'copysign': lambda a, b: (abs(a) if bool(b >= 0) else -abs(a)) if has_sym(a) or has_sym(b) else math.copysign(a, b)})
MATH.__dict__['_over'].setdefault('pi', math.pi)


def _passthrough_math(name):
    return getattr(math, name)


# ---- builtins of the executed modules
def b_max(*a, **k):
    return _mm(smax, builtins.max, a, k)


def b_min(*a, **k):
    return _mm(smin, builtins.min, a, k)


def _mm(sym, plain, a, k):
    vals = list(a[0]) if len(a) == 1 else list(a)
    if not vals and 'default' in k:
        return k['default']
    if k.get('key') is not None or not any(isinstance(v, S) for v in vals):
        return plain(vals, **({'key': k['key']} if k.get('key') else {}))
    return sym(vals)


class SortedNumbers:
    """sorted symbolic numbers: the first and the last are min/max terms, anything else decides the order (forks)"""
    def __init__(self, vals, reverse=False):
        self._vals = vals
        self._rev = reverse
        self._list = None

    def _all(self):
        if self._list is None:
            self._list = builtins.sorted(self._vals, reverse=self._rev)
        return self._list

    def __len__(self):
        return len(self._vals)

    def __getitem__(self, k):
        if self._list is None and type(k) is int and self._vals and k in (0, -1, len(self._vals) - 1):
            return (smin if (k == 0) != self._rev or len(self._vals) == 1 else smax)(self._vals)
        return self._all()[k]

    def __setitem__(self, k, v):
        self._all()[k] = v

    def __iter__(self):
        return iter(self._all())

    def pop(self, k=-1):
        if k != -1 or self._list is not None:
            return self._all().pop(k)
        return self._all().pop()

    def __getattr__(self, name):
        return getattr(self._all(), name)

    def __add__(self, o):
        return self._all() + list(o)

    def __eq__(self, o):
        return self._all() == list(o)


def b_sorted(it, *, key=None, reverse=False):
    vals = list(it)
    if key is None and len(vals) > 1 and any(isinstance(v, S) for v in vals) and \
            all(isinstance(v, (S, int, float, np.number)) for v in vals):
        return SortedNumbers(vals, bool(reverse))
    return builtins.sorted(vals, key=key, reverse=reverse)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class b_float(builtins.float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        return x if has_sym(x) else builtins.float(x)


PROXIED = {'numpy': NUMPY, 'math': MATH, 'numpy.linalg': LINALG}


def make_builtins(extra_imports=None):
    b = dict(vars(builtins))
    b['max'] = b_max
    b['min'] = b_min
    b['sorted'] = b_sorted
    b['float'] = b_float
    table = dict(PROXIED)
    table.update(extra_imports or {})

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in table and (fromlist or '.' not in name):
                return table[name]
            if name.split('.')[0] == 'numpy':
                return NUMPY if not fromlist else table.get(name, NUMPY)
        return builtins.__import__(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    return b


class _Loader(importlib.machinery.SourceFileLoader):
    world = None

    def get_code(self, fullname):
        data = self.get_data(self.path)
        tree = None
        if self.world.transform:
            import ast
            tree = ast.parse(data, self.path)
            tree = self.world.transform(fullname, tree)
            ast.fix_missing_locations(tree)
            return compile(tree, self.path, 'exec', dont_inherit=True)
        return compile(data, self.path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.world.builtins
        if self.world.inject:
            module.__dict__.update(self.world.inject)
        exec(self.get_code(module.__name__), module.__dict__)


class World:
    """a symbolic import of the package"""
    def __init__(self, transform=None, extra_imports=None, inject=None):
        self.transform = transform
        self.inject = inject
        self.builtins = make_builtins(extra_imports)
        self.modules = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'meshless' and not fullname.startswith('meshless.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        for fn, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.exists(fn):
                ld = _Loader(fullname, fn)
                ld.world = self
                return importlib.util.spec_from_file_location(
                    fullname, fn, loader=ld, submodule_search_locations=[base] if pkg else None)
        return None

    def load(self, *names):
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'meshless' or k.startswith('meshless.')}
        sys.meta_path.insert(0, self)
        dont = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        try:
            out = [importlib.import_module(n) for n in names]
            # keep them importable for function-level imports inside the package
            self.modules = {k: v for k, v in sys.modules.items() if k == 'meshless' or k.startswith('meshless.')}
        finally:
            sys.dont_write_bytecode = dont
            for k in list(sys.modules):
                if k == 'meshless' or k.startswith('meshless.'):
                    del sys.modules[k]
            sys.modules.update(saved)
        self._wrap_import()
        return out

    def _wrap_import(self):
        inner = self.builtins['__import__']
        mods = self.modules
        world = self

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            top = name.split('.')[0]
            if level or top == 'meshless':
                saved = {k: v for k, v in sys.modules.items() if k == 'meshless' or k.startswith('meshless.')}
                sys.modules.update(mods)
                sys.meta_path.insert(0, world)
                try:
                    return inner(name, globals, locals, fromlist, level)
                finally:
                    sys.meta_path.remove(world)
                    for k in list(sys.modules):
                        if k == 'meshless' or k.startswith('meshless.'):
                            mods[k] = sys.modules.pop(k)
                    sys.modules.update(saved)
            return inner(name, globals, locals, fromlist, level)
        self.builtins['__import__'] = imp
        if self in sys.meta_path:
            sys.meta_path.remove(self)


_patched = False


def patch_pynastran():
    """let pyNastran's GRID/CTRIA3 (as far as meshless uses them) handle symbolic coordinates"""
    global _patched
    if _patched:
        return
    import pyNastran.bdf.cards.nodes as nodes
    import pyNastran.bdf.cards.base_card as base
    import pyNastran.bdf.cards.elements.shell as shell
    import pyNastran.bdf.cards.coordinate_systems as cs
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('pyNastran') and isinstance(m.__dict__.get('integer_types'), tuple):
            m.integer_types = m.integer_types + (core.SInt,)
    for m in (nodes, base, shell):
        for k, v in list(vars(m).items()):
            if v is np:
                setattr(m, k, NUMPY)
            elif v is np.linalg:
                setattr(m, k, LINALG)
            elif v is np.linalg.norm:
                setattr(m, k, s_norm)
            elif v is np.cross:
                setattr(m, k, s_cross)
            elif type(v).__name__ == '_ArrayFunctionDispatcher' or (
                    isinstance(v, types.BuiltinFunctionType) and getattr(np, k, None) is v):
                setattr(m, k, getattr(NUMPY, k))
    _patched = True


_trace = None


class FunctionTrace:
    """which functions of the package were executed symbolically"""
    def __init__(self):
        self.seen = set()
        self.tool = 3

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.tool, 'symx')
        except ValueError:
            return self
        root = os.path.join(REPO, 'meshless') + os.sep

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(fn[len(REPO) + 1:] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        try:
            mon.set_events(self.tool, 0)
            mon.free_tool_id(self.tool)
        except ValueError:
            pass
