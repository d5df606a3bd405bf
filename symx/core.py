"""Symbolic real numbers for executing the real code, with z3 as the decision procedure.

A symbolic number is a sum  sum_k  p_k * prod_a a^e(k,a)  where p_k is a polynomial (kept as an unexpanded
hash-consed term) and the `atoms' a are
  div  : a polynomial that somebody divided by or took the absolute value of (any integer exponent)
  sqrt : the non-negative square root of a polynomial g (exponent 0 or 1; its square is the div atom g)
  max, min : largest/smallest of a set of numbers
Random evaluation modulo a prime is only used to find candidates for identities (which atoms might be the same
polynomial up to scale, which differences might vanish); nothing is accepted as equal before z3 answers unsat.
"""
import sys, time, math, random, itertools
import numpy as np
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

P = (1 << 61) - 1
NPT = 2


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class Abort(BaseException):
    """ends one path of the harness"""


class Infeasible(Abort):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.kinds = {}

    def add(self, kind, res, dt):
        self.queries += 1
        self.solver_s += dt
        r = str(res)
        if r == 'unsat':
            self.unsat += 1
        elif r == 'sat':
            self.sat += 1
        else:
            self.unknown += 1
        k = self.kinds.setdefault(kind, [0, 0.0])
        k[0] += 1
        k[1] += dt


class Ctx:
    """everything that belongs to one exploration (one harness, one configuration)"""
    def __init__(self, seed=1):
        self.rng = random.Random(seed * 7919 + 17)
        self.stats = Stats()
        self.nodes = {}
        self.consts = {}
        self.vars = {}
        self.atoms = []
        self.atom_key = {}
        self.const_atoms = {}   # index of a div atom -> its constant value
        self.z3cache = {}
        self.lin = {}        # node id -> {leaf id: coefficient} of linear forms (leaf id 0: the constant)
        self.leaf = {}
        self.proved_zero = {}
        self.nextid = 0
        self.run = None


CTX = None


def set_ctx(c):
    global CTX
    CTX = c
    return c


# ------------------------------------------------------------------ polynomials
class Node:
    __slots__ = ('op', 'a', 'b', 'fp', 'id')


def _mk(op, a, b, fp):
    n = Node()
    n.op, n.a, n.b, n.fp = op, a, b, fp
    CTX.nextid += 1
    n.id = CTX.nextid
    return n


def nconst(q):
    c = CTX.consts.get(q)
    if c is None:
        v = q.numerator % P * pow(q.denominator, P - 2, P) % P
        c = CTX.consts[q] = _mk('c', q, None, (v,) * NPT)
        CTX.lin[c.id] = {0: q} if q else {}
    return c


def leaf_lin(n):
    CTX.leaf[n.id] = n
    CTX.lin[n.id] = {n.id: F1}


def from_lin(d):
    """canonical node of a linear form"""
    if not d:
        return nconst(F0)
    items = tuple(sorted(d.items()))
    if len(items) == 1:
        i, c = items[0]
        if i == 0:
            return nconst(c)
        if c == 1:
            return CTX.leaf[i]
    k = ('L', items)
    n = CTX.nodes.get(k)
    if n is None:
        # first coefficient 1 (up to the constant factor), so that multiples share their node
        lead = items[-1][1]
        if lead != 1:
            m = from_lin({i: c / lead for i, c in d.items()})
            n = _mk('*', nconst(lead), m, tuple(x * y % P for x, y in zip(nconst(lead).fp, m.fp)))
        else:
            acc = None
            for i, c in items:
                if i == 0:
                    t = nconst(c)
                else:
                    t = CTX.leaf[i]
                    if c != 1:
                        q = nconst(c)
                        kk = ('L', ((i, c),))
                        m = CTX.nodes.get(kk)
                        if m is None:
                            m = CTX.nodes[kk] = _mk('*', q, t, tuple(x * y % P for x, y in zip(q.fp, t.fp)))
                            CTX.lin[m.id] = {i: c}
                        t = m
                acc = t if acc is None else _mk('+', acc, t, tuple((x + y) % P for x, y in zip(acc.fp, t.fp)))
            n = acc
        CTX.nodes[k] = n
        CTX.lin[n.id] = dict(d)
    return n


def nvar(name):
    v = CTX.vars.get(name)
    if v is None:
        r = random.Random('v:' + name)
        v = CTX.vars[name] = _mk('v', name, None, tuple(r.randrange(2, P) for _ in range(NPT)))
        leaf_lin(v)
    return v


def natomvar(atom):
    n = atom.node
    if n is None:
        n = atom.node = _mk('a', atom, None, atom.fp)
        leaf_lin(n)
    return n


F0, F1 = Fraction(0), Fraction(1)


def nadd(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return nconst(a.a + b.a)
        if a.a == 0:
            return b
    elif b.op == 'c' and b.a == 0:
        return a
    if a is b:
        return nmul(nconst(Fraction(2)), a)
    if a.id > b.id:
        a, b = b, a
    k = ('+', a.id, b.id)
    n = CTX.nodes.get(k)
    if n is None:
        la, lb = CTX.lin.get(a.id), CTX.lin.get(b.id)
        if la is not None and lb is not None:
            d = dict(la)
            for i, c in lb.items():
                c = d.get(i, 0) + c
                if c:
                    d[i] = c
                else:
                    d.pop(i, None)
            n = CTX.nodes[k] = from_lin(d)
            return n
        fp = tuple((x + y) % P for x, y in zip(a.fp, b.fp))
        if not any(fp):
            # probably zero: let z3 say so
            n = _mk('+', a, b, fp)
            if prove_zero_node(n):
                n = nconst(F0)
        else:
            n = _mk('+', a, b, fp)
        CTX.nodes[k] = n
    return n


def nmul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'c':
            return nconst(a.a * b.a)
        if a.a == 0:
            return a
        if a.a == 1:
            return b
        if b.op == '*' and b.a.op == 'c':
            return nmul(nconst(a.a * b.a.a), b.b)
    else:
        # keep constants outermost
        ca = cb = None
        if a.op == '*' and a.a.op == 'c':
            ca, a = a.a.a, a.b
        if b.op == '*' and b.a.op == 'c':
            cb, b = b.a.a, b.b
        if ca is not None or cb is not None:
            return nmul(nconst((ca or F1) * (cb or F1)), nmul(a, b))
        if a.id > b.id:
            a, b = b, a
    k = ('*', a.id, b.id)
    n = CTX.nodes.get(k)
    if n is None:
        if a.op == 'c':
            lb = CTX.lin.get(b.id)
            if lb is not None:
                n = CTX.nodes[k] = from_lin({i: c * a.a for i, c in lb.items()})
                return n
        n = CTX.nodes[k] = _mk('*', a, b, tuple(x * y % P for x, y in zip(a.fp, b.fp)))
    return n


def nneg(a):
    return nmul(nconst(-F1), a)


def z3r(q):
    return z3.RealVal(str(q.numerator)) / z3.RealVal(str(q.denominator)) if q.denominator != 1 \
        else z3.RealVal(str(q.numerator))


def z3q(q):
    return z3.Q(q.numerator, q.denominator)


def to_z3(n):
    """z3 term of a polynomial (memoised over the DAG, iterative)"""
    cache = CTX.z3cache
    if n.id in cache:
        return cache[n.id]
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.op == 'c':
            cache[x.id] = z3q(x.a)
        elif x.op == 'v':
            cache[x.id] = z3.Real(x.a)
        elif x.op == 'a':
            cache[x.id] = x.a.z3var()
        else:
            if x.a.id not in cache:
                stack.append(x.a)
                continue
            if x.b.id not in cache:
                stack.append(x.b)
                continue
            p, q = cache[x.a.id], cache[x.b.id]
            cache[x.id] = p + q if x.op == '+' else p * q
        stack.pop()
    return cache[n.id]


def node_atoms(n, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'a':
            acc.add(x.a)
        elif x.op in '+*':
            st.append(x.a)
            st.append(x.b)
    return acc


def solver_check(kind, forms, timeout_ms=20000, want_model=False, nl=True):
    s = z3.SolverFor('QF_NRA') if nl else z3.Solver()
    s.set('timeout', timeout_ms)
    for f in forms:
        s.add(f)
    t = time.time()
    r = s.check()
    if CTX is not None:
        CTX.stats.add(kind, r, time.time() - t)
    if want_model:
        return r, (s.model() if r == z3.sat else None)
    return r


def prove_zero_node(n, timeout_ms=60000):
    """z3: is this polynomial zero for all values of its variables?

    Large polynomials are split: a polynomial vanishes identically iff all its coefficients with respect to one
    variable do; every final coefficient is decided by z3."""
    if n.op == 'c':
        return n.a == 0
    r = CTX.proved_zero.get(n.id)
    if r is None:
        r = CTX.proved_zero[n.id] = _prove_zero(abstract(n), timeout_ms, time.time() + 240, {})
    return r


def abstract(n):
    """replace linear forms that own a private leaf by single variables: an invertible change of variables, so the
    result is the zero polynomial iff n is"""
    order = topo(n)
    linear = CTX.lin
    top = {}
    for x in order:
        if x.op in '+*':
            for y in (x.a, x.b):
                if x.id not in linear and y.id in linear:
                    top[y.id] = y
    if n.id in linear:
        return n
    users = {}
    for i, y in top.items():
        for l in linear[i]:
            users.setdefault(l, set()).add(i)
    # multiples of one form count as one
    sub = {}
    for i, y in top.items():
        if len(linear[i]) > 1 and any(l and len(users[l]) == 1 for l in linear[i]):
            sub[i] = nvar('form%d' % i)
    if not sub:
        return n
    new = {}
    for x in order:
        if x.id in sub:
            new[x.id] = sub[x.id]
        elif x.op in '+*':
            a, b = new[x.a.id], new[x.b.id]
            new[x.id] = x if a is x.a and b is x.b else (raw_add if x.op == '+' else nmul)(a, b)
        else:
            new[x.id] = x
    return new[n.id]


def substitute(n, leaf):
    """n with some leaves of linear forms replaced"""
    new = {}
    for x in topo(n):
        lin = CTX.lin.get(x.id)
        if lin is not None:
            if any(k in leaf for k in lin):
                acc = {}
                for k, c in lin.items():
                    for j, e in (CTX.lin[leaf[k].id] if k in leaf else {k: F1}).items():
                        acc[j] = acc.get(j, F0) + c * e
                new[x.id] = from_lin({k: c for k, c in acc.items() if c})
            else:
                new[x.id] = x
        elif x.op in '+*':
            a, b = new[x.a.id], new[x.b.id]
            new[x.id] = x if a is x.a and b is x.b else (nadd if x.op == '+' else nmul)(a, b)
        else:
            new[x.id] = x
    return new[n.id]


FIRST_MS = 4000


def _prove_zero(n, timeout_ms, deadline, degs):
    if n.op == 'c':
        return n.a == 0
    if any(n.fp):
        return False
    e = to_z3(n)
    res = solver_check('identity', [e != 0], FIRST_MS if weight(n) < 3000 else 50)
    if res == z3.unknown:
        if time.time() > deadline:
            raise Inconclusive('identity query undecided')
        # split on the variable of lowest degree that occurs most often
        occ = occurrences(n)
        v = min(occ, key=lambda k: (degree(n, k), -occ[k], k))
        cs = coefficients(n, v)
        return all(_prove_zero(c, timeout_ms, deadline, degs) for c in cs)
    return res == z3.unsat


def weight(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id not in seen:
            seen.add(x.id)
            if x.op in '+*':
                st += [x.a, x.b]
    return len(seen)


def topo(n):
    """nodes below n, children first"""
    out, seen, st = [], set(), [(n, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, True))
        if x.op in '+*':
            st.append((x.a, False))
            st.append((x.b, False))
    return out


def leafkey(x):
    return x.a if x.op == 'v' else '~%s%d' % (x.a.kind, x.a.idx)


def occurrences(n):
    occ = {}
    for x in topo(n):
        if x.op in '+*':
            for y in (x.a, x.b):
                if y.op in 'va':
                    k = leafkey(y)
                    occ[k] = occ.get(k, 0) + 1
        elif x is n and x.op in 'va':
            occ[leafkey(x)] = 1
    return occ


def degree(n, v):
    d = {}
    for x in topo(n):
        if x.op == 'c':
            d[x.id] = 0
        elif x.op in 'va':
            d[x.id] = 1 if leafkey(x) == v else 0
        elif x.op == '+':
            d[x.id] = max(d[x.a.id], d[x.b.id])
        else:
            d[x.id] = d[x.a.id] + d[x.b.id]
    return d[n.id]


def raw_add(a, b):
    """nadd without looking for cancellation (that would need a proof)"""
    if a.op == 'c' and b.op == 'c':
        return nconst(a.a + b.a)
    if a.op == 'c' and a.a == 0:
        return b
    if b.op == 'c' and b.a == 0:
        return a
    if a is b:
        return nmul(nconst(Fraction(2)), a)
    if a.id > b.id:
        a, b = b, a
    k = ('+r', a.id, b.id)
    m = CTX.nodes.get(k) or CTX.nodes.get(('+', a.id, b.id))
    if m is None:
        m = CTX.nodes[k] = _mk('+', a, b, tuple((x + y) % P for x, y in zip(a.fp, b.fp)))
    return m


def coefficients(n, v):
    """coefficients of the powers of variable v"""
    zero, one = nconst(F0), nconst(F1)
    c = {}
    for x in topo(n):
        if x.op == 'c':
            c[x.id] = [x]
        elif x.op in 'va':
            c[x.id] = [zero, one] if leafkey(x) == v else [x]
        else:
            p, q = c[x.a.id], c[x.b.id]
            if len(p) == 1 and len(q) == 1:
                c[x.id] = [x]
            elif x.op == '+':
                if len(p) < len(q):
                    p, q = q, p
                c[x.id] = [raw_add(a, q[i]) if i < len(q) else a for i, a in enumerate(p)]
            else:
                r = [zero] * (len(p) + len(q) - 1)
                for i, a in enumerate(p):
                    if a.op == 'c' and a.a == 0:
                        continue
                    for j, b in enumerate(q):
                        if b.op == 'c' and b.a == 0:
                            continue
                        r[i + j] = raw_add(r[i + j], nmul(a, b))
                c[x.id] = r
    return c[n.id]


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('kind', 'poly', 'args', 'fp', 'node', 'idx', 'g', 'zv', 'key')

    def __init__(self, kind, poly=None, args=None, g=None, fp=None):
        self.kind, self.poly, self.args, self.g, self.fp = kind, poly, args, g, fp
        self.node = None
        self.zv = None
        self.idx = len(CTX.atoms)
        CTX.atoms.append(self)

    def z3var(self):
        if self.zv is None:
            self.zv = z3.Real('%s!%d' % (self.kind, self.idx))
        return self.zv

    def definition(self):
        """z3 constraints that define the value of the atom's variable"""
        v = self.z3var()
        if self.kind == 'sqrt':
            return [v >= 0, v * v == to_z3(self.g.poly)]
        if self.kind in ('max', 'min'):
            out, alt = [], []
            for s in self.args:
                num, den, cons = s.z3_fraction()
                # s = num/den with den > 0 known
                out.append(v * den >= num if self.kind == 'max' else v * den <= num)
                alt.append(v * den == num)
                out.extend(cons)
            return out + [z3.Or(*alt)]
        if self.kind in ('floor', 'rint'):
            num, den, cons = self.args[0].z3_fraction()
            lim = [v * den <= num, num < (v + 1) * den] if self.kind == 'floor' else \
                [(2 * v - 1) * den <= 2 * num, 2 * num <= (2 * v + 1) * den]
            return lim + list(cons) + [z3.IsInt(v)]
        if self.kind == 'single':
            # relative rounding error of single precision
            num, den, cons = self.args[0].z3_fraction()
            e = z3.Q(1, 2 ** 24)
            return list(cons) + [z3.If(num >= 0, z3.And(v * den >= num * (1 - e), v * den <= num * (1 + e)),
                                       z3.And(v * den <= num * (1 - e), v * den >= num * (1 + e)))]
        return []


def scale_key(fp):
    # invariant under multiplication by a constant
    if fp[1] == 0:
        return ('z', fp[0] == 0)
    return fp[0] * pow(fp[1], P - 2, P) % P


def rat_reconstruct(v):
    """small fraction p/q with p = v q mod P"""
    r0, r1, s0, s1 = P, v, 0, 1
    bound = 1 << 29
    while r1 > bound:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound:
        return None
    return Fraction(r1, s1)


def div_atom(n):
    """(constant, atom) with n = constant * atom.poly, atom found up to scale"""
    k = ('d', scale_key(n.fp))
    for at in CTX.atom_key.get(k, ()):
        c = rat_reconstruct(n.fp[0] * pow(at.poly.fp[0], P - 2, P) % P)
        if c is not None and c != 0:
            d = nadd(n, nmul(nconst(-c), at.poly))
            if d.op == 'c':
                if d.a == 0:
                    return c, at
            elif prove_zero_node(d):
                return c, at
    at = Atom('div', poly=n, fp=n.fp)
    CTX.atom_key.setdefault(k, []).append(at)
    return F1, at


def find_div_atom(n):
    k = ('d', scale_key(n.fp))
    if k in CTX.atom_key:
        return div_atom(n)
    return None


def split_factors(n):
    """constant, [(atom-or-None, node, exp)] for a product"""
    const = F1
    out = {}
    st = [n]
    while st:
        x = st.pop()
        if x.op == 'c':
            const *= x.a
        elif x.op == '*':
            st.append(x.a)
            st.append(x.b)
        elif x.op == 'a':
            out[x.a.idx] = out.get(x.a.idx, 0) + 1
        else:
            c, at = div_atom(x)
            const *= c
            out[at.idx] = out.get(at.idx, 0) + 1
    return const, out


def atom_sqrt(c_at):
    """sqrt atom of div atom g (value of poly assumed >= 0)"""
    at = c_at
    k = ('s', at.idx)
    s = CTX.atom_key.get(k)
    if s is None:
        r = random.Random('s:%d:%d' % at.fp)
        s = CTX.atom_key[k] = Atom('sqrt', g=at, fp=tuple(r.randrange(2, P) for _ in range(NPT)))
    return s


# ------------------------------------------------------------------ numbers
LIT = {}


def rationalise(f):
    """exact rational meant by a float literal: nearest p/q with small q if within rounding, else exact"""
    q = LIT.get(f)
    if q is None:
        if f != f or f in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf in symbolic arithmetic')
        ex = Fraction(f)
        q = ex
        if f != 0:
            for lim in (12, 120, 1000):
                c = ex.limit_denominator(lim)
                if c != 0 and abs(c - ex) <= abs(ex) * Fraction(1, 10 ** 13):
                    q = c
                    break
        LIT[f] = q
    return q


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return rationalise(float(x))
    tn = type(x).__module__
    if tn == 'numpy':
        if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
            return to_fraction(x.item())
    return None


def merge_sig(s1, s2):
    if not s1:
        return s2
    if not s2:
        return s1
    d = dict(s1)
    for a, e in s2:
        d[a] = d.get(a, 0) + e
    # squares of sqrt atoms become their div atom
    atoms = CTX.atoms
    for a in list(d):
        at = atoms[a]
        if at.kind == 'sqrt':
            e = d[a]
            if e != 0 and e != 1:
                h = e // 2   # floor
                d[a] = e - 2 * h
                d[at.g.idx] = d.get(at.g.idx, 0) + h
    return tuple(sorted((a, e) for a, e in d.items() if e))


def truth(x):
    """condition under which x counts as true"""
    if isinstance(x, S):
        return compare(x, '!=')
    return x if isinstance(x, SBool) else bool(x)


def combine(xs, op):
    """any of / all of the truth values, as one condition"""
    xs = [truth(x) for x in xs]
    stop = op == 'or'
    rest = []
    for x in xs:
        if isinstance(x, SBool):
            rest.append(x)
        elif bool(x) == stop:
            return stop
    if not rest:
        return not stop
    if len(rest) == 1:
        return rest[0]
    return SBool((z3.Or if stop else z3.And)(*[x.f for x in rest]), (tuple(x.info for x in rest), op))


class SBool:
    __slots__ = ('f', 'info')

    def __init__(self, f, info=None):
        self.f = f
        self.info = info

    def __bool__(self):
        return CTX.run.decide(self.f, self.info)

    def __and__(self, o):
        return SBool(z3.And(self.f, bool_z3(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.f, bool_z3(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.f))

    def logical_not(self):
        return ~self

    def __xor__(self, o):
        return SBool(z3.Xor(self.f, bool_z3(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        return SBool(self.f == bool_z3(o))

    def __ne__(self, o):
        return SBool(self.f != bool_z3(o))

    def __hash__(self):
        return 7


def bool_z3(x):
    if isinstance(x, SBool):
        return x.f
    return z3.BoolVal(bool(x))


class S:
    __slots__ = ('t', '_fp')

    def __init__(self, t):
        self.t = t
        self._fp = None

    # -- construction
    @staticmethod
    def const(q):
        return S({(): nconst(q)}) if q else S({})

    @staticmethod
    def lift(x):
        if type(x) is S:
            return x
        q = to_fraction(x)
        if q is None:
            return None
        return S.const(q)

    def is_const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and () in self.t and self.t[()].op == 'c':
            return self.t[()].a
        return None

    def fp(self):
        if self._fp is None:
            acc = [0] * NPT
            atoms = CTX.atoms
            for sig, n in self.t.items():
                for i in range(NPT):
                    v = n.fp[i]
                    for a, e in sig:
                        v = v * pow(atoms[a].fp[i], e % (P - 1), P) % P
                    acc[i] = (acc[i] + v) % P
            self._fp = tuple(acc)
        return self._fp

    # -- arithmetic
    def __add__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for s, n in o.t.items():
            m = d.get(s)
            if m is None:
                d[s] = n
            else:
                r = nadd(m, n)
                if r.op == 'c' and r.a == 0:
                    del d[s]
                else:
                    d[s] = r
        return S(d)
    __radd__ = __add__

    def __neg__(self):
        return S({s: nneg(n) for s, n in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        d = {}
        for s1, n1 in self.t.items():
            for s2, n2 in o.t.items():
                sg = merge_sig(s1, s2)
                n = nmul(n1, n2)
                if CTX.const_atoms and any(a in CTX.const_atoms for a, e in sg):
                    for a, e in sg:
                        if a in CTX.const_atoms:
                            n = nmul(n, nconst(CTX.const_atoms[a] ** e))
                    sg = tuple((a, e) for a, e in sg if a not in CTX.const_atoms)
                m = d.get(sg)
                if m is not None:
                    n = nadd(m, n)
                d[sg] = n
        for s in [s for s, n in d.items() if n.op == 'c' and n.a == 0]:
            del d[s]
        return S(d)
    __rmul__ = __mul__

    def common(self, raw=False):
        """(sig, node): self = node * prod sig; positive powers expanded into the node"""
        if len(self.t) == 1:
            (sig, n), = self.t.items()
            return sig, n
        low = {}
        sigs = [dict(s) for s in self.t]
        for a in set(x for s in sigs for x in s):
            m = min(s.get(a, 0) for s in sigs)
            low[a] = m
        acc = nconst(F0)
        for s, n in zip(sigs, self.t.values()):
            for a in sorted(low):
                k = s.get(a, 0) - low[a]
                if k:
                    n = nmul(n, atom_power(a, k))
            acc = (raw_add if raw else nadd)(acc, n)
        return tuple(sorted((a, e) for a, e in low.items() if e)), acc

    def inv(self):
        if not self.t:
            raise ZeroDivisionError('division by zero')
        c = self.is_const()
        if c is not None:
            return S.const(1 / c)
        CTX.run.divisor(self)
        sig, n = self.common()
        c, fac = split_factors(n)
        if c == 0:
            raise ZeroDivisionError('division by zero')
        inv = tuple(sorted((a, -e) for a, e in fac.items()))
        sg = tuple((a, -e) for a, e in sig)
        return S({merge_sig(merge_sig(sg, ()) if not sg else norm_sig(sg), norm_sig(inv)): nconst(1 / c)})

    def __truediv__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, e):
        if type(e) is S:
            e = e.is_const()
        q = to_fraction(e) if e is not None else None
        if q is None:
            raise Unsupported('symbolic exponent')
        if q.denominator == 2:
            s = self.sqrt()
            return s ** q.numerator
        if q.denominator != 1:
            raise Unsupported('exponent %s' % q)
        k = q.numerator
        if k < 0:
            return self.inv() ** (-k)
        r = S.const(F1)
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def sqrt(self):
        c = self.is_const()
        if c is not None:
            if c < 0:
                raise Unsupported('sqrt of negative number')
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return S.const(Fraction(rn, rd))
            # sqrt(p/q) = sqrt(p q)/q with p q free of small squares
            m, out = c.numerator * c.denominator, Fraction(1, c.denominator)
            for k in range(2, 1000):
                while m % (k * k) == 0:
                    m //= k * k
                    out *= k
            _, at = div_atom_const(Fraction(m))
            return S({((atom_sqrt(at).idx, 1),): nconst(out)})
        if self.fp() == (0,) * NPT and decide_zero(self):
            return S({})
        # the argument has to be non-negative
        CTX.run.nonneg(self)
        sig, n = self.common()
        c, fac = split_factors(n)
        d = dict(fac)
        for a, e in sig:
            d[a] = d.get(a, 0) + e
        out = S.const(F1)
        odd = []
        for a, e in sorted(d.items()):
            at = CTX.atoms[a]
            if at.kind == 'sqrt':
                raise Unsupported('nested square root')
            h, r = e // 2, e % 2
            if h:
                b = S({((a, 1),): nconst(F1)})
                b = abs(b) if h % 2 else b
                out = out * b ** h
            if r:
                odd.append(a)
        # c * prod odd is >= 0
        rad = nconst(c)
        if odd:
            for a in odd:
                rad = nmul(rad, atom_power(a, 1))
            cc, g = div_atom_pos(rad)
            root = S.const(cc).sqrt() if cc != 1 else S.const(F1)
            return out * root * S({((atom_sqrt(g).idx, 1),): nconst(F1)})
        return out * S.const(c).sqrt()

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def __abs__(self):
        c = self.is_const()
        if c is not None:
            return S.const(abs(c))
        sg = CTX.run.sign(self)
        v = self if sg >= 0 else -self
        if len(v.t) == 1:
            (sig, n), = v.t.items()
            if not sig and n.op != 'a':
                cc, fac = split_factors(n)
                return S({norm_sig(tuple(sorted(fac.items()))): nconst(cc)})
        return v

    def conjugate(self):
        return self

    def floor(self):
        return int_part(self, 'floor')
    __floor__ = floor

    def ceil(self):
        return -int_part(-self, 'floor')
    __ceil__ = ceil

    def rint(self):
        return int_part(self, 'rint')

    def single(self):
        return int_part(self, 'single')

    def trunc(self):
        return self.floor() if bool(self >= 0) else self.ceil()
    __trunc__ = fix = trunc

    def __round__(self, ndigits=None):
        q = S.const(Fraction(10) ** (ndigits or 0))
        return int_part(self * q, 'rint') / q

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    # -- comparison
    def z3_fraction(self):
        """(num, den, constraints) with den > 0 (an even product), self = num/den"""
        sig, n = self.common()
        num, den = n, nconst(F1)
        for a, e in sig:
            if e > 0:
                num = nmul(num, atom_power(a, e))
            else:
                k = -e
                den = nmul(den, atom_power(a, k + (k & 1)))
                if k & 1:
                    num = nmul(num, atom_power(a, 1))
        return to_z3(num), to_z3(den), defs_of(node_atoms(num) | node_atoms(den))

    def numsign(self):
        """polynomial node with the same sign as self"""
        sig, n = self.common()
        for a, e in sig:
            if e & 1 and not (CTX.atoms[a].kind == 'sqrt'):
                n = nmul(n, atom_power(a, 1))
            elif CTX.atoms[a].kind == 'sqrt':
                n = nmul(n, atom_power(a, 1))
            elif e > 0:
                n = nmul(n, atom_power(a, 2))
        return n

    def _cmp(self, o, op):
        o = S.lift(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.is_const()
        if c is None and is_pos_root(self) and is_pos_root(o):
            d = self * self - o * o
            c = d.is_const()
        if c is not None:
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        return compare(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return 11

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.is_const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        c = self.is_const()
        if c is not None:
            return int(c)
        raise Unsupported('int() of a symbolic number')

    def __repr__(self):
        return '<S %s>' % ('+'.join('n%d%r' % (n.id, s) for s, n in self.t.items()) or '0')

    def __format__(self, spec):
        return repr(self)


def norm_sig(sig):
    """normalise exponents of sqrt atoms"""
    d = dict(sig)
    for a in list(d):
        at = CTX.atoms[a]
        if at.kind == 'sqrt' and d[a] not in (0, 1):
            e = d[a]
            h = e // 2
            d[a] = e - 2 * h
            d[at.g.idx] = d.get(at.g.idx, 0) + h
    return tuple(sorted((a, e) for a, e in d.items() if e))


def div_atom_const(c):
    """radicand that is a constant: sqrt atoms of constants"""
    n = nconst(c)
    k = ('dc', c)
    at = CTX.atom_key.get(k)
    if at is None:
        at = CTX.atom_key[k] = Atom('div', poly=n, fp=n.fp)
        CTX.const_atoms[at.idx] = c
    return F1, at


def div_atom_pos(n):
    """like div_atom but the constant is a positive: n = c*atom, both non-negative values; atoms whose sign is
    opposite get a companion"""
    c, at = div_atom(n)
    if c > 0:
        return c, at
    m = nneg(at.poly)
    k = ('dneg', at.idx)
    a2 = CTX.atom_key.get(k)
    if a2 is None:
        a2 = CTX.atom_key[k] = Atom('div', poly=m, fp=m.fp)
    return -c, a2


def atom_power(a, k):
    at = CTX.atoms[a]
    base = at.poly if at.kind == 'div' else natomvar(at)
    n = base
    for _ in range(k - 1):
        n = nmul(n, base)
    return n


def defs_of(atoms):
    out = []
    seen = set()
    todo = list(atoms)
    while todo:
        at = todo.pop()
        if at.idx in seen or at.kind == 'div':
            continue
        seen.add(at.idx)
        out.extend(at.definition())
        if at.kind == 'sqrt':
            todo.extend(node_atoms(at.g.poly))
        else:
            for s in at.args:
                sig, n = s.common()
                for a, e in sig:
                    if CTX.atoms[a].kind == 'div':
                        todo.extend(node_atoms(CTX.atoms[a].poly))
                    else:
                        todo.append(CTX.atoms[a])
                todo.extend(node_atoms(n))
    return out


def decide_zero(d):
    """formally zero? (all definitions unfolded, denominators cleared) decided by z3"""
    if not d.t:
        return True
    if any(d.fp()):
        return False
    # terms over independent denominators vanish separately: ignore as few denominators as possible, smallest first
    den = set()
    terms = []
    for sig, n in d.t.items():
        rest = []
        for a, e in sig:
            if e > 0 and CTX.atoms[a].kind != 'sqrt':
                n = nmul(n, atom_power(a, e))
            else:
                rest.append((a, e))
                den.add(a)
        terms.append((tuple(rest), n))
    den = sorted(den, key=lambda a: (atom_weight(a), a))
    for k in range(len(den) + 1):
        drop = set(den[:k])
        groups = {}
        for sig, n in terms:
            key = tuple((a, e) for a, e in sig if a not in drop)
            groups.setdefault(key, []).append((sig, n))
        if all(zero_fp(g) for g in groups.values()):
            for g in groups.values():
                acc = {}
                for sig, n in g:
                    acc[sig] = raw_add(acc[sig], n) if sig in acc else n
                _, n = S(acc).common(raw=True)
                if not prove_zero_node(n):
                    return False
            return True
    return False


def atom_weight(a):
    at = CTX.atoms[a]
    if at.kind == 'div':
        return weight(at.poly)
    if at.kind == 'sqrt':
        return 1 + weight(at.g.poly)
    return 10 ** 6


def zero_fp(terms):
    for i in range(NPT):
        acc = 0
        for sig, n in terms:
            v = n.fp[i]
            for a, e in sig:
                v = v * pow(CTX.atoms[a].fp[i], e % (P - 1), P) % P
            acc += v
        if acc % P:
            return False
    return True


def compare(d, op):
    """boolean for  d op 0"""
    if not any(d.fp()) and decide_zero(d):
        return op in ('<=', '>=', '==')
    n = d.numsign() if op not in ('==', '!=') else d.common()[1]
    if op in ('==', '!='):
        # zero iff the numerator is zero (factors are non-zero divisors or appear positively)
        sig, n = d.common()
        for a, e in sig:
            if e > 0:
                n = nmul(n, atom_power(a, 1))
    if CTX.run.known_leaf:
        r = CTX.run.reduced(n)
        if r is not n and r.op == 'c' or not any(r.fp) and prove_zero_node(r):
            v = r.a if r.op == 'c' else 0
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
    # known sign?
    ks = CTX.run.known_sign(n)
    if ks is not None:
        return {'<': ks < 0, '<=': ks < 0, '>': ks > 0, '>=': ks > 0, '==': False, '!=': True}[op]
    ks = CTX.run.combined(n)
    if ks is not None:
        sg, strict = ks
        if strict:
            return {'<': sg < 0, '<=': sg < 0, '>': sg > 0, '>=': sg > 0, '==': False, '!=': True}[op]
        if op in ('<=', '>=') and (op == '>=') == (sg > 0):
            return True
        if op in ('<', '>') and (op == '<') == (sg > 0):
            return False
    e = to_z3(n)
    f = {'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0, '==': e == 0, '!=': e != 0}[op]
    ds = defs_of(node_atoms(n))
    CTX.run.need_defs(ds)
    return SBool(f, (n, op))


def smax(vals, kind='max'):
    vals = list(vals)
    flat = []
    for v in vals:
        v = S.lift(v)
        if v is None:
            raise Unsupported('max of %r' % (vals,))
        flat.append(v)
    # flatten nested atoms
    out = []
    for v in flat:
        if len(v.t) == 1:
            (sig, n), = v.t.items()
            if len(sig) == 1 and sig[0][1] == 1 and n.op == 'c' and n.a > 0:
                at = CTX.atoms[sig[0][0]]
                if at.kind == 'div' and at.poly.op == 'a':
                    at = at.poly.a
                if at.kind == kind:
                    out.extend(at.args if n.a == 1 else [a * S.const(n.a) for a in at.args])
                    continue
            elif not sig and n.op == 'a' and n.a.kind == kind:
                out.extend(n.a.args)
                continue
        out.append(v)
    # duplicates
    uniq = []
    for v in out:
        for w in uniq:
            if v.fp() == w.fp() and decide_zero(v - w):
                break
        else:
            uniq.append(v)
    if len(uniq) == 1:
        return uniq[0]
    cs = [v.is_const() for v in uniq]
    if all(c is not None for c in cs):
        return S.const(max(cs) if kind == 'max' else min(cs))
    if all(is_pos_root(v) for v in uniq):
        return smax([v * v for v in uniq], kind).sqrt()
    if CTX.run.weak:
        # values that this path has already found to be no larger (smaller) than another one
        m = len(uniq)
        le = [[i != j and CTX.run.weak_sign(uniq[i] - uniq[j] if kind == 'max' else uniq[j] - uniq[i])
               for j in range(m)] for i in range(m)]
        for k in range(m):
            for i in range(m):
                for j in range(m):
                    le[i][j] = le[i][j] or (le[i][k] and le[k][j])
        left = list(range(m))
        for i in range(m):
            if any(le[i][j] for j in left if j != i):
                left.remove(i)
        keep = [uniq[i] for i in left]
        uniq = keep
        if len(uniq) == 1:
            return uniq[0]
    uniq.sort(key=lambda v: v.fp())
    k = (kind, tuple(v.fp() for v in uniq))
    for at in CTX.atom_key.get(k, ()):
        if all(decide_zero(v - w) for v, w in zip(uniq, at.args)):
            break
    else:
        p = proportional(kind, uniq)
        if p is not None:
            return S({((p[1].idx, 1),): nconst(p[0])})
        r = random.Random('m:%s:%r' % k)
        at = Atom(kind, args=uniq, fp=tuple(r.randrange(2, P) for _ in range(NPT)))
        CTX.atom_key.setdefault(k, []).append(at)
    return S({((at.idx, 1),): nconst(F1)})


def proportional(kind, vals):
    """(c, atom) for a positive number c with vals = c * arguments of the atom"""
    f = [v.fp() for v in vals]
    if any(0 in x for x in f):
        return None
    for (k, ws), ats in list(CTX.atom_key.items()):
        if k != kind or len(ws) != len(f) or any(0 in x for x in ws):
            continue
        for w in ws:
            c = f[0][0] * pow(w[0], P - 2, P) % P
            if set(f) != {tuple(c * y % P for y in x) for x in ws}:
                continue
            q = rat_reconstruct(c)
            if q is None or q <= 0:
                continue
            for at in ats:
                by = {tuple(c * y % P for y in a.fp()): a for a in at.args}
                if all(x in by and decide_zero(v - by[x] * S.const(q)) for x, v in zip(f, vals)):
                    return q, at
    return None


def is_pos_root(v):
    """a positive constant times one sqrt atom (so that max commutes with squaring), or such a max"""
    if len(v.t) != 1:
        return v.is_const() is not None and v.is_const() >= 0
    (sig, n), = v.t.items()
    if n.op != 'c':
        return False
    if not sig:
        return n.a >= 0
    return n.a > 0 and len(sig) == 1 and sig[0][1] == 1 and CTX.atoms[sig[0][0]].kind == 'sqrt'


def smin(vals):
    return smax(vals, 'min')


def int_part(x, kind):
    """floor or nearest whole number (exactly in between: one of the two neighbours); rounding to single precision"""
    c = x.is_const()
    if c is not None and kind == 'single':
        return S.const(Fraction(float(np.float32(float(c)))))
    if c is not None:
        return S.const(Fraction(math.floor(c) if kind == 'floor' else round(c)))
    k = (kind, x.fp())
    for at in CTX.atom_key.get(k, ()):
        if decide_zero(at.args[0] - x):
            break
    else:
        r = random.Random('i:%s:%r' % k)
        at = Atom(kind, args=[x], fp=tuple(r.randrange(2, P) for _ in range(NPT)))
        CTX.atom_key.setdefault(k, []).append(at)
    return S({((at.idx, 1),): nconst(F1)})


# ------------------------------------------------------------------ integers (ids, indices, choices)
class SInt:
    """symbolic integer: comparisons are decided by z3; used as an index it is split into its values"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(x):
        if type(x) is SInt:
            return x.e
        if isinstance(x, (int,)) or type(x).__module__ == 'numpy' and 'int' in type(x).__name__:
            return z3.IntVal(int(x))
        return None

    def _c(self, o, f):
        o = SInt.lift(o)
        if o is None:
            return NotImplemented
        r = z3.simplify(f(self.e, o))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SBool(r)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __add__(self, o):
        o = SInt.lift(o)
        return NotImplemented if o is None else SInt(z3.simplify(self.e + o))
    __radd__ = __add__

    def __sub__(self, o):
        o = SInt.lift(o)
        return NotImplemented if o is None else SInt(z3.simplify(self.e - o))

    def __rsub__(self, o):
        o = SInt.lift(o)
        return NotImplemented if o is None else SInt(z3.simplify(o - self.e))

    def __mul__(self, o):
        o = SInt.lift(o)
        return NotImplemented if o is None else SInt(z3.simplify(self.e * o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SInt(z3.simplify(self.e / o))
        return int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SInt(z3.simplify(self.e % o))
        return int(self) % o

    def __neg__(self):
        return SInt(z3.simplify(-self.e))

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return CTX.run.concretise(self.e)
    __int__ = __index__

    def __repr__(self):
        # only used for messages
        return '<int %s>' % self.e
    __str__ = __repr__

    def __format__(self, spec):
        return str(self)


class SStr:
    """symbolic string; comparisons are decided by z3"""
    NAMES = ('cell-based', 'cell-based-no-smoothing', 'edge-based')

    def __init__(self, e):
        self.e = e

    def _b(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return SBool(f)

    @staticmethod
    def lift(o):
        if isinstance(o, SStr):
            return o.e
        return z3.StringVal(o) if isinstance(o, str) else None

    def __eq__(self, o):
        o = SStr.lift(o)
        return False if o is None else self._b(self.e == o)

    def __ne__(self, o):
        o = SStr.lift(o)
        return True if o is None else self._b(self.e != o)

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return self._b(z3.Or([z3.PrefixOf(SStr.lift(q), self.e) for q in ps]))

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return self._b(z3.Or([z3.SuffixOf(SStr.lift(q), self.e) for q in ps]))

    def __contains__(self, o):
        return bool(self._b(z3.Contains(self.e, SStr.lift(o))))

    def __len__(self):
        return CTX.run.concretise(z3.Length(self.e))

    def __bool__(self):
        return bool(self._b(z3.Length(self.e) > 0))

    def __hash__(self):
        # a table of names is looked up: is it one of the known ones?
        for n in self.NAMES:
            if bool(self == n):
                return hash(n)
        return 13

    def __str__(self):
        return '<symbolic string>'
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('string operation %s on a symbolic string' % name)
        raise AttributeError(name)


# ---------------------------------------------------------------------------------- values at a point
class Evaluator:
    """floating-point values of terms at a model of the inputs"""
    def __init__(self, model):
        self.model = model
        self.memo = {}
        self.amemo = {}

    def node(self, n):
        memo = self.memo
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.op == 'c':
                memo[x.id] = float(x.a)
            elif x.op == 'v':
                memo[x.id] = float(self.model[x.a])
            elif x.op == 'a':
                memo[x.id] = self.atom(x.a)
            else:
                todo = [y for y in (x.a, x.b) if y.id not in memo]
                if todo:
                    st.extend(todo)
                    continue
                p, q = memo[x.a.id], memo[x.b.id]
                memo[x.id] = p + q if x.op == '+' else p * q
            st.pop()
        return memo[n.id]

    def atom(self, at):
        v = self.amemo.get(at.idx)
        if v is None:
            if at.kind == 'div':
                v = self.node(at.poly)
            elif at.kind == 'sqrt':
                v = math.sqrt(max(self.node(at.g.poly), 0.0))
            else:
                f = {'max': max, 'min': min, 'floor': lambda g: math.floor(next(g)), 'rint': lambda g: round(next(g)),
                     'single': lambda g: float(np.float32(next(g)))}[at.kind]
                v = f(self(s) for s in at.args)
            self.amemo[at.idx] = v
        return v

    def __call__(self, s):
        if not isinstance(s, S):
            return float(s)
        tot = 0.0
        for sig, n in s.t.items():
            v = self.node(n)
            for a, e in sig:
                v *= self.atom(CTX.atoms[a]) ** e
            tot += v
        return tot


# ---- a number next to a list: the elements of a float array broadcast over lists
def _over_lists(name):
    plain = getattr(S, name)

    def op(self, o):
        r = plain(self, o)
        if r is NotImplemented and type(o) in (list, tuple):
            from .world import to_array
            return getattr(to_array(o), {'__r': name.replace('__r', '__')}.get(name[:3], name.replace('__', '__r', 1)))(self)
        return r
    setattr(S, name, op)


for _n in ('__sub__', '__rsub__', '__add__', '__radd__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__'):
    _over_lists(_n)
