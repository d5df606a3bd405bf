"""Strings whose characters are symbolic, for executing the text-processing code of the package.

A string is a tuple of characters, each one concrete or a symbolic code point (an integer of z3).  The package's
module is executed with its method calls, membership tests, string formatting, dict/set displays and `re` routed
through this file; every test of a symbolic character splits the path (z3 decides which sides are possible).
"""
import ast, builtins, re as _re, types
import re._parser as rp
import re._constants as rc
from . import core
from .core import z3, SBool, SInt, Unsupported


# ------------------------------------------------------------------ characters
class Char:
    """symbolic character: one of `allowed'"""
    __slots__ = ('name', 'e', 'allowed')

    def __init__(self, name, e, allowed):
        self.name, self.e, self.allowed = name, e, frozenset(allowed)

    def __repr__(self):
        return '<%s>' % self.name


def ranges(codes):
    codes = sorted(codes)
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


_sets = {}


def in_set(e, chars):
    k = (e.get_id(), chars if type(chars) is frozenset else frozenset(chars))
    r = _sets.get(k)
    if r is None or not z3.eq(r[0], e):
        r = _sets[k] = (e, in_set1(e, chars))
    return r[1]


def in_set1(e, chars):
    fs = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in ranges(ord(c) for c in chars)]
    return z3.Or(fs) if len(fs) != 1 else fs[0]


def chars_of(run):
    d = run.__dict__.get('chars')
    if d is None:
        d = run.chars = CharState()
    return d


class CharState:
    """what is known about the characters on a path

    sets: the possible values of a character; exact as long as the character is not `related' to another one by a
    recorded difference or order, so that both sides of a test are possible iff their sets are not empty (then no
    solver is needed); for related characters z3 decides."""
    def __init__(self):
        self.sets = {}
        self.alias = {}
        self.related = set()
        self.dirty = {}

    def root(self, c):
        while c.name in self.alias:
            c = self.alias[c.name]
        return c

    def flush(self, run):
        """hand the sets over to the path condition"""
        d, self.dirty = self.dirty, {}
        for c in d.values():
            run.add(in_set(c.e, self.sets[c.name]))


def test(c, pred):
    """does the character satisfy the predicate? (splits the path)"""
    if type(c) is str:
        return bool(pred(c))
    run = core.CTX.run
    st = chars_of(run)
    c = st.root(c)
    cur = st.sets.get(c.name, c.allowed)
    return split(run, st, c, cur, frozenset([x for x in cur if pred(x)]))


def test_in(c, s):
    if type(c) is str:
        return c in s
    run = core.CTX.run
    st = chars_of(run)
    c = st.root(c)
    cur = st.sets.get(c.name, c.allowed)
    return split(run, st, c, cur, cur & s)


def split(run, st, c, cur, yes):
    if not yes:
        return False
    if len(yes) == len(cur):
        return True
    if c.name in st.related:
        r = run.decide(in_set(c.e, yes))
    else:
        pre = run._step()
        if pre is None:
            if len(run.trace) > run.opts.get('max_decisions', 4000):
                raise core.Inconclusive('too many decisions on a path')
            pre = ('C', True)
            run.pending.append(list(run.trace) + [('C', False)])
        run.trace.append(pre)
        r = pre[1]
        st.dirty[c.name] = c
    st.sets[c.name] = yes if r else cur - yes
    return r


def assume_in(c, s):
    """restrict a character (the path ends if that is impossible)"""
    if type(c) is str:
        if c not in s:
            raise core.Infeasible()
        return
    run = core.CTX.run
    st = chars_of(run)
    c = st.root(c)
    cur = st.sets.get(c.name, c.allowed)
    new = cur & s
    if not new:
        raise core.Infeasible()
    if c.name in st.related:
        run.add(in_set(c.e, new))
    else:
        st.dirty[c.name] = c
    st.sets[c.name] = new


def same_char(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        return test_in(a, frozenset(b))
    if a is b:
        return True
    run = core.CTX.run
    st = chars_of(run)
    a, b = st.root(a), st.root(b)
    if a.name == b.name:
        return True
    ka, kb = st.sets.get(a.name, a.allowed), st.sets.get(b.name, b.allowed)
    both = ka & kb
    if not both:
        return False
    if len(ka) == 1 and ka == kb:
        return True
    if a.name > b.name:
        a, b = b, a
    r = run.decide(a.e == b.e)
    if r:
        # one character from now on
        st.alias[b.name] = a
        st.sets[a.name] = both
        st.dirty[a.name] = a
        if b.name in st.related:
            st.related.add(a.name)
    else:
        st.related.update((a.name, b.name))
    return r


# ------------------------------------------------------------------ strings
def mk(chars):
    """plain str if nothing is symbolic"""
    chars = tuple(chars)
    for c in chars:
        if type(c) is not str:
            return CStr(chars)
    return ''.join(chars)


def chars(s):
    if isinstance(s, CStr):
        return s.c
    if isinstance(s, str):
        return tuple(s)
    raise TypeError('expected a string, not %s' % type(s).__name__)


def is_str(x):
    return isinstance(x, (str, CStr))


def eq_at(c, i, p):
    """do the characters p stand at position i of c?"""
    if i < 0 or i + len(p) > len(c):
        return False
    return all(same_char(a, b) for a, b in zip(c[i:i + len(p)], p))


BREAKS = frozenset('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


class CStr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    # --- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter(mk((x,)) for x in self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[k])
        return mk((self.c[k],))

    def __add__(self, o):
        return mk(self.c + chars(o)) if is_str(o) else NotImplemented

    def __radd__(self, o):
        return mk(chars(o) + self.c) if is_str(o) else NotImplemented

    def __mul__(self, n):
        return mk(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return fmt_percent(self, args)

    def __eq__(self, o):
        if not is_str(o):
            return False
        o = chars(o)
        return len(o) == len(self.c) and all(same_char(a, b) for a, b in zip(self.c, o))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return less(self.c, chars(o))

    def __gt__(self, o):
        return less(chars(o), self.c)

    def __le__(self, o):
        return not less(chars(o), self.c)

    def __ge__(self, o):
        return not less(self.c, chars(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __contains__(self, o):
        return self.find(o) >= 0

    def __repr__(self):
        return ''.join(x if type(x) is str else '?' for x in self.c)
    __str__ = __repr__

    # --- searching
    def find(self, o, start=0, end=None):
        p = chars(o)
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        c = self.c[:end]
        for i in range(start, end - len(p) + 1):
            if eq_at(c, i, p):
                return i
        return -1

    def rfind(self, o, start=0, end=None):
        p = chars(o)
        start, end, _ = slice(start, end).indices(len(self.c))
        c = self.c[:end]
        for i in range(end - len(p), start - 1, -1):
            if eq_at(c, i, p):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, o, start=0, end=None):
        n = i = 0
        p = chars(o)
        start, end, _ = slice(start, end).indices(len(self.c))
        c = self.c[start:end]
        if not p:
            return len(c) + 1
        while i + len(p) <= len(c):
            if eq_at(c, i, p):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        c = self.c[slice(start, end)]
        return any(eq_at(c, 0, chars(q)) for q in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, start=0, end=None):
        c = self.c[slice(start, end)]
        return any(eq_at(c, len(c) - len(chars(q)), chars(q)) for q in (p if isinstance(p, tuple) else (p,)))

    # --- building
    def replace(self, old, new, count=-1):
        p, q = chars(old), chars(new)
        out = []
        i = 0
        c = self.c
        if not p:
            raise Unsupported('replace of an empty string')
        while i < len(c):
            if count != 0 and eq_at(c, i, p):
                out.extend(q)
                i += len(p)
                count -= 1
            else:
                out.append(c[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        c = self.c
        out = []
        if sep is None:
            i, n = 0, len(c)
            while True:
                while i < n and test(c[i], str.isspace):
                    i += 1
                if i == n:
                    return out
                if maxsplit == 0:
                    j = n
                    while test(c[j - 1], str.isspace):
                        j -= 1
                    out.append(mk(c[i:j]))
                    return out
                j = i
                while j < n and not test(c[j], str.isspace):
                    j += 1
                out.append(mk(c[i:j]))
                maxsplit -= 1
                i = j
        p = chars(sep)
        if not p:
            raise ValueError('empty separator')
        i = a = 0
        while i < len(c):
            if maxsplit != 0 and eq_at(c, i, p):
                out.append(mk(c[a:i]))
                i += len(p)
                a = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk(c[a:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit at white space')
        p = chars(sep)
        c = self.c
        out = []
        e = len(c)
        i = e - len(p)
        while i >= 0:
            if maxsplit > 0 and eq_at(c[:e], i, p):
                out.append(mk(c[i + len(p):e]))
                e = i
                i -= len(p)
                maxsplit -= 1
            else:
                i -= 1
        out.append(mk(c[:e]))
        return out[::-1]

    def splitlines(self, keepends=False):
        out, start, i, n = [], 0, 0, len(self.c)
        while i < n:
            if not test_in(self.c[i], BREAKS):
                i += 1
                continue
            j = i + 1
            if j < n and same_char(self.c[i], '\r') and same_char(self.c[j], '\n'):
                j += 1
            out.append(mk(self.c[start:j if keepends else i]))
            start = i = j
        if start < n:
            out.append(mk(self.c[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def _strip(self, what, left, right):
        pred = str.isspace if what is None else (lambda x: x in what)
        if what is not None and not isinstance(what, str):
            raise Unsupported('strip of symbolic characters')
        a, b = 0, len(self.c)
        while left and a < b and test(self.c[a], pred):
            a += 1
        while right and b > a and test(self.c[b - 1], pred):
            b -= 1
        return mk(self.c[a:b])

    def strip(self, what=None):
        return self._strip(what, True, True)

    def lstrip(self, what=None):
        return self._strip(what, True, False)

    def rstrip(self, what=None):
        return self._strip(what, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def join(self, items):
        out = []
        for k, x in enumerate(items):
            if k:
                out.extend(self.c)
            out.extend(chars(x))
        return mk(out)

    def _all(self, pred):
        return all(test(x, pred) for x in self.c)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isidentifier(self):
        return test(self.c[0], str.isidentifier) and all(test(x, lambda y: ('a' + y).isidentifier()) for x in self.c[1:])

    def format(self, *a, **k):
        return fmt(self, a, k)

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string')

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('str.%s on a symbolic string' % name)
        raise AttributeError(name)


def less(a, b):
    for x, y in zip(a, b):
        if same_char(x, y):
            continue
        if type(x) is str and type(y) is str:
            return x < y
        st = chars_of(core.CTX.run)
        ex, ey = (z3.IntVal(ord(q)) if type(q) is str else st.root(q).e for q in (x, y))
        st.related.update(st.root(q).name for q in (x, y) if type(q) is not str)
        st = chars_of(core.CTX.run)
        st.related.update(st.root(q).name for q in (x, y) if type(q) is not str)
        return core.CTX.run.decide(ex < ey)
    return len(a) < len(b)


# ------------------------------------------------------------------ conversion and formatting
def tostr(x):
    if is_str(x):
        return x
    f = getattr(x, '__symstr__', None)
    if f is not None:
        return f()
    if isinstance(x, SInt):
        return str(int(x))
    return str(x)


def fmt(s, args, kw):
    """str.format"""
    import string
    if isinstance(s, CStr):
        # without braces (decided one by one) nothing is replaced
        for ch in s.c:
            if same_char(ch, '{') or same_char(ch, '}'):
                raise Unsupported('symbolic format string')
        return s
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        m = _re.match(r'[^.\[]*', field)
        first, rest = m.group(), field[m.end():]
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for at, ix in _re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            v = getattr(v, at) if at else v[int(ix) if ix.isdigit() else ix]
        out = out + fmt_one(v, conv, spec)
    return out


def fmt_one(v, conv, spec):
    if conv == 's':
        v = tostr(v)
    elif conv == 'r':
        v = repr(v)
    if isinstance(v, SInt):
        v = int(v)
    if isinstance(v, CStr) or hasattr(v, '__symstr__'):
        v = tostr(v)
        if spec and spec != 's':
            if isinstance(v, CStr):
                raise Unsupported('format %r of a symbolic string' % spec)
            return format(v, spec)
        return v
    if spec:
        if '{' in spec:
            raise Unsupported('nested format')
        return format(v, spec)
    return tostr(v)


def fmt_percent(s, args):
    if isinstance(s, CStr):
        if args != ():
            raise Unsupported('symbolic format string')
        for ch in s.c:
            if same_char(ch, '%'):
                raise Unsupported('symbolic format string')
        return s
    if isinstance(args, dict):
        raise Unsupported('%(name) formatting')
    args = list(args) if isinstance(args, tuple) else [args]
    out = ''
    i = 0
    for m in _re.finditer(r'%([-+ 0#]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        out = out + s[i:m.start()]
        i = m.end()
        if m.group(2) == '%':
            out = out + '%'
            continue
        v = args.pop(0)
        if m.group(2) == 's':
            v = tostr(v)
            if isinstance(v, CStr):
                if m.group(1):
                    raise Unsupported('format of a symbolic string')
                out = out + v
                continue
        if isinstance(v, SInt):
            v = int(v)
        out = out + m.group() % v
    return out + s[i:]


# ------------------------------------------------------------------ the regular expressions of `re'
CATEGORY = {
    rc.CATEGORY_DIGIT: str.isdecimal,
    rc.CATEGORY_NOT_DIGIT: lambda x: not x.isdecimal(),
    rc.CATEGORY_SPACE: str.isspace,
    rc.CATEGORY_NOT_SPACE: lambda x: not x.isspace(),
    rc.CATEGORY_WORD: lambda x: x.isalnum() or x == '_',
    rc.CATEGORY_NOT_WORD: lambda x: not (x.isalnum() or x == '_'),
}


def word(x):
    return x.isalnum() or x == '_'


def set_pred(items, flags):
    neg = False
    tests = []
    for op, av in items:
        if op is rc.NEGATE:
            neg = True
        elif op is rc.LITERAL:
            tests.append(lambda x, av=av: ord(x) == av)
        elif op is rc.RANGE:
            tests.append(lambda x, av=av: av[0] <= ord(x) <= av[1])
        elif op is rc.CATEGORY:
            tests.append(CATEGORY[av])
        else:
            raise Unsupported('regular expression set %s' % op)
    return (lambda x: not any(t(x) for t in tests)) if neg else (lambda x: any(t(x) for t in tests))


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, CStr):
            pattern = literal_pattern(pattern)
        self.pattern = pattern
        if isinstance(pattern, Symbolic):
            self.real = None
            self.tree = pattern.tree()
            self.ngroups, self.names = 0, {}
            self.flags = 0
        else:
            self.real = _re.compile(pattern, flags)
            self.tree = rp.parse(pattern, flags)
            self.ngroups = self.tree.state.groups - 1
            self.names = dict(self.tree.state.groupdict)
            self.flags = self.tree.state.flags
        self.groups = self.ngroups
        self.groupindex = self.names
        if self.flags & ~(_re.UNICODE | _re.MULTILINE | _re.DOTALL | _re.VERBOSE):
            raise Unsupported('flags of a regular expression')
        self.preds = {}

    # one pattern element after the other; k continues with the rest
    def run(self, items, c, i, g, k, end):
        if not items:
            return k(i, g)
        (op, av), rest = items[0], items[1:]

        def nxt(i, g):
            return self.run(rest, c, i, g, k, end)
        if op is rc.LITERAL:
            if i < end and (same_char(c[i], av) if not isinstance(av, int) else test(c[i], lambda x: ord(x) == av)):
                return nxt(i + 1, g)
            return None
        if op is rc.NOT_LITERAL:
            return nxt(i + 1, g) if i < end and test(c[i], lambda x: ord(x) != av) else None
        if op is rc.ANY:
            if i < end and (self.flags & _re.DOTALL or test(c[i], lambda x: x != '\n')):
                return nxt(i + 1, g)
            return None
        if op is rc.IN:
            p = self.preds.get(id(av))
            if p is None:
                p = self.preds[id(av)] = set_pred(av, self.flags)
            return nxt(i + 1, g) if i < end and test(c[i], p) else None
        if op is rc.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), c, i, g, nxt, end)
                if r is not None:
                    return r
            return None
        if op is rc.SUBPATTERN:
            n, add, sub, p = av
            if add or sub:
                raise Unsupported('inline flags')

            def close(j, g2):
                if n is not None:
                    g2 = dict(g2)
                    g2[n] = (i, j)
                return nxt(j, g2)
            return self.run(list(p), c, i, g, close, end)
        if op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, p = av
            body = list(p)
            greedy = op is rc.MAX_REPEAT

            def more(j, g2, n):
                if hi is not rc.MAXREPEAT and n >= hi:
                    return None
                return self.run(body, c, j, g2, lambda j2, g3: (None if j2 == j and n >= lo else again(j2, g3, n + 1)), end)

            def again(j, g2, n):
                if n < lo:
                    return more(j, g2, n)
                if greedy:
                    r = more(j, g2, n)
                    return r if r is not None else nxt(j, g2)
                r = nxt(j, g2)
                return r if r is not None else more(j, g2, n)
            return again(i, g, 0)
        if op is rc.AT:
            if av in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
                ok = i == 0 or (av is rc.AT_BEGINNING and self.flags & _re.MULTILINE and test(c[i - 1], lambda x: x == '\n'))
            elif av is rc.AT_END_STRING:
                ok = i == end
            elif av is rc.AT_END:
                ok = i == end or ((i == end - 1 or self.flags & _re.MULTILINE) and test(c[i], lambda x: x == '\n'))
            elif av in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
                a = i > 0 and test(c[i - 1], word)
                b = i < end and test(c[i], word)
                ok = (a != b) == (av is rc.AT_BOUNDARY)
            else:
                raise Unsupported('regular expression %s' % av)
            return nxt(i, g) if ok else None
        if op in (rc.ASSERT, rc.ASSERT_NOT):
            d, p = av
            if d > 0:
                r = self.run(list(p), c, i, g, lambda j, g2: (j, g2), end)
            else:
                lo, hi = p.getwidth()
                j = i - lo
                r = self.run(list(p), c, j, g, lambda j2, g2: (j2, g2) if j2 == i else None, i) if j >= 0 else None
            if op is rc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is rc.GROUPREF:
            if av not in g:
                return None
            s = c[g[av][0]:g[av][1]]
            return nxt(i + len(s), g) if i + len(s) <= end and eq_at(c, i, s) else None
        if op is rc.ATOMIC_GROUP:
            r = self.run(list(av), c, i, g, lambda j, g2: (j, g2), end)
            return nxt(*r) if r is not None else None
        if op is rc.POSSESSIVE_REPEAT:
            lo, hi, p = av
            r = self.run([(rc.MAX_REPEAT, av)], c, i, g, lambda j, g2: (j, g2), end)
            return nxt(*r) if r is not None else None
        raise Unsupported('regular expression %s' % op)

    def _at(self, s, i, end, full=False):
        c = chars(s)
        r = self.run(list(self.tree), c, i, {}, lambda j, g: (j, g) if not full or j == end else None, end)
        if r is None:
            return None
        return Match(self, s, i, r[0], r[1])

    def _lim(self, s, pos, endpos):
        n = len(s)
        return max(0, min(pos, n)), n if endpos is None else max(0, min(endpos, n))

    def match(self, s, pos=0, endpos=None):
        a, b = self._lim(s, pos, endpos)
        return self._at(s, a, b)

    def fullmatch(self, s, pos=0, endpos=None):
        a, b = self._lim(s, pos, endpos)
        return self._at(s, a, b, True)

    def search(self, s, pos=0, endpos=None):
        a, b = self._lim(s, pos, endpos)
        for i in range(a, b + 1):
            m = self._at(s, i, b)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        i, b = self._lim(s, pos, endpos)
        c = chars(s)
        out = []
        advance = False          # after an empty match: the next one here may not be empty
        while i <= b:
            m = None
            for j in range(i, b + 1):
                must = advance and j == i
                r = self.run(list(self.tree), c, j, {}, lambda e, g: None if must and e == j else (e, g), b)
                if r is not None:
                    m = Match(self, s, j, r[0], r[1])
                    break
            if m is None:
                break
            out.append(m)
            i = m.end()
            advance = m.end() == m.start()
        return iter(out)

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.ngroups == 0:
                out.append(m.group())
            elif self.ngroups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple('' if x is None else x for x in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        out = ''
        i = n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out = out + s[i:m.start()] + (repl(m) if callable(repl) else m.expand(repl))
            i = m.end()
            n += 1
        return out + s[i:], n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        out = []
        i = n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[i:m.start()])
            out.extend(m.groups())
            i = m.end()
            n += 1
        out.append(s[i:])
        return out


class Symbolic:
    """a pattern built with re.escape of symbolic text: parts are patterns (str) or literal characters"""
    def __init__(self, parts):
        self.parts = parts


def literal_pattern(s):
    raise Unsupported('regular expression with symbolic text')


class Match:
    def __init__(self, pat, s, a, b, g):
        self.re, self.string = pat, s
        self.g = {0: (a, b)}
        self.g.update(g)
        self.pos, self.endpos = 0, len(s)
        self.lastindex = max((k for k in g), default=None)

    def _k(self, k):
        if isinstance(k, str):
            return self.re.names[k]
        if k > self.re.ngroups:
            raise IndexError('no such group')
        return k

    def _one(self, k):
        r = self.g.get(self._k(k))
        return None if r is None else self.string[r[0]:r[1]]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        return self._one(ks[0]) if len(ks) == 1 else tuple(self._one(k) for k in ks)
    __getitem__ = _one

    def groups(self, default=None):
        out = []
        for k in range(1, self.re.ngroups + 1):
            v = self._one(k)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {n: (default if self._one(k) is None else self._one(k)) for n, k in self.re.names.items()}

    def span(self, k=0):
        return self.g.get(self._k(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def expand(self, t):
        if isinstance(t, CStr):
            if any(type(x) is not str and '\\' in x.allowed for x in t.c) or '\\' in t.c:
                raise Unsupported('symbolic replacement template')
            return t
        out = ''
        for p in rp.parse_template(t, self.re.real):
            if isinstance(p, int):
                out = out + (self._one(p) or '')
            elif p:
                out = out + p
        return out

    def __bool__(self):
        return True


class ReProxy(types.ModuleType):
    """the module `re' for symbolic subjects"""
    def __init__(self):
        super().__init__('re')
        self.cache = {}

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        k = (p, int(flags))
        if k not in self.cache:
            self.cache[k] = Pattern(p, int(flags))
        return self.cache[k]

    def __getattr__(self, name):
        return getattr(_re, name)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def escape(self, s):
        if isinstance(s, CStr):
            raise Unsupported('regular expression with symbolic text')
        return _re.escape(s)


RE = ReProxy()


# ------------------------------------------------------------------ dict and set with symbolic keys
import collections.abc as _abc


def same_key(a, b):
    if is_str(a) or is_str(b):
        return is_str(a) and is_str(b) and bool(a == b)
    return a is b or (hash(a) == hash(b) and bool(a == b))


class SymDict(_abc.MutableMapping):
    """dict whose keys are compared one by one"""
    def __init__(self, *a, **k):
        self._i = []
        self.update(*a, **k)

    def _find(self, k):
        for i, (q, v) in enumerate(self._i):
            if same_key(q, k):
                return i
        return -1

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        return self._i[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i < 0:
            self._i.append((k, v))
        else:
            self._i[i] = (self._i[i][0], v)

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        del self._i[i]

    def __iter__(self):
        return iter([k for k, v in self._i])

    def __len__(self):
        return len(self._i)

    def copy(self):
        return SymDict(self)

    @classmethod
    def fromkeys(cls, keys, value=None):
        return cls([(k, value) for k in keys])

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d


SymDict.register(dict)


class SymSet(_abc.MutableSet):
    def __init__(self, it=()):
        self._i = []
        for x in it:
            self.add(x)

    def __contains__(self, k):
        return any(same_key(q, k) for q in self._i)

    def __iter__(self):
        return iter(list(self._i))

    def __len__(self):
        return len(self._i)

    def add(self, k):
        if k not in self:
            self._i.append(k)

    def discard(self, k):
        self._i = [q for q in self._i if not same_key(q, k)]

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SymSet(self)
        s.update(*its)
        return s

    def copy(self):
        return SymSet(self)


SymSet.register(set)
SymSet.register(frozenset)


def contains(a, b):
    """a in b"""
    if isinstance(b, CStr):
        return a in b
    if isinstance(a, CStr):
        if isinstance(b, str):
            return CStr(tuple(b)).find(a) >= 0 if b else False
        return any(a is x or (is_str(x) and a == x) for x in b)
    return a in b


def call_method(obj, name, *args, **kw):
    """obj.name(*args, **kw)"""
    if type(obj) is str and not isinstance(obj, CStr):
        if name == 'format':
            return fmt(obj, args, kw)
        if name == 'join':
            return CStr(tuple(obj)).join(*args)
        if any(isinstance(a, CStr) for a in args) or any(isinstance(a, CStr) for a in kw.values()):
            return getattr(CStr(tuple(obj)), name)(*args, **kw)
    elif isinstance(obj, type) and issubclass(obj, str) and args and is_str(args[0]):
        return call_method(args[0], name, *args[1:], **kw)
    return getattr(obj, name)(*args, **kw)


def binmod(a, b):
    if is_str(a):
        return fmt_percent(a, b)
    return a % b


def joined(*parts):
    out = ''
    for p in parts:
        out = out + (fmt_one(*p) if isinstance(p, tuple) else p)
    return out


class StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, CStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.str, CStr))

    def __eq__(cls, o):
        return o is builtins.str or o is cls or o is CStr

    def __hash__(cls):
        return hash(builtins.str)


class b_str(builtins.str, metaclass=StrMeta):
    def __new__(cls, x='', *a):
        return tostr(x) if not a else builtins.str(x, *a)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class b_int(builtins.int, metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, CStr):
            return int_of(x)
        return builtins.int(x, *a)


def digit_value(c):
    """splits the path over the values"""
    if type(c) is str:
        return builtins.int(c)
    st = chars_of(core.CTX.run)
    c = st.root(c)
    for v in sorted(st.sets.get(c.name, c.allowed)):
        if test_in(c, frozenset(v)):
            return builtins.int(v)
    raise core.Infeasible()


def int_of(s):
    """int(text): the digits are split into their values"""
    s = s.strip()
    c = chars(s)
    sg = 1
    if c and test(c[0], lambda x: x in '+-'):
        sg = -1 if test(c[0], lambda x: x == '-') else 1
        c = c[1:]
    if not c:
        raise ValueError('invalid literal for int()')
    v = 0
    for x in c:
        if not test(x, lambda y: '0' <= y <= '9'):
            raise ValueError('invalid literal for int()')
        v = 10 * v + digit_value(x)
    return sg * v


class FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)


class b_float(builtins.float, metaclass=FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, CStr):
            t = ''
            for c in x.c:
                if test(c, str.isdigit):
                    t += str(digit_value(c))
                else:
                    for k in '.+-eE ':
                        if same_char(c, k):
                            t += k
                            break
                    else:
                        raise ValueError('could not convert string to float')
            return builtins.float(t)
        return builtins.float(x)


# ------------------------------------------------------------------ instrumentation of the module
class Instrument(ast.NodeTransformer):
    def f(self, name, *args, **kw):
        return ast.Call(func=ast.Name('__symx_' + name, ast.Load()), args=list(args), keywords=[])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            return ast.copy_location(ast.Call(
                func=ast.Name('__symx_call', ast.Load()),
                args=[n.func.value, ast.Constant(n.func.attr)] + n.args, keywords=n.keywords), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.f('in', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.f('mod', n.left, n.right), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return ast.copy_location(self.f('dict', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)],
                                                         ast.Load())), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.f('set', ast.List(n.elts, ast.Load())), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.f('dict', ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.f('set', ast.ListComp(n.elt, n.generators)), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant({-1: None, 115: 's', 114: 'r', 97: 'r'}[v.conversion])
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.copy_location(self.f('joined', *parts), n)


def transform(name, tree):
    if name.startswith('meshless.dev') or name == 'meshless.logger':
        tree = Instrument().visit(tree)
    return tree


def t_print(*a, sep=' ', end='\n', file=None, flush=False):
    import sys
    c = ()
    for i, x in enumerate(a):
        c += (chars(' ' if sep is None else sep) if i else ()) + chars(tostr(x))
    (sys.stdout if file is None else file).write(mk(c + chars('\n' if end is None else end)))


def make_world():
    from .world import World
    w = World(transform=transform, extra_imports={'re': RE},
              inject={'__symx_call': call_method, '__symx_in': contains, '__symx_mod': binmod, '__symx_joined': joined,
                      '__symx_dict': SymDict, '__symx_set': SymSet})
    b = w.builtins
    # numpy and math as they are: nothing numerical is symbolic here
    import numpy, math
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name == 're':
            return RE
        return real(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    b['str'], b['int'], b['float'] = b_str, b_int, b_float
    b['dict'], b['set'], b['frozenset'] = SymDict, SymSet, SymSet
    b['max'], b['min'] = builtins.max, builtins.min
    b['print'] = t_print
    return w
