"""Path exploration and the two environments (symbolic, concrete) in which a harness runs."""
import time, traceback, random
from fractions import Fraction
from . import core
from .core import (z3, S, SBool, SInt, Node, Infeasible, Inconclusive, Unsupported, Abort, to_z3, nmul, nadd,
                   nneg, nconst, nvar, node_atoms, defs_of, decide_zero, compare, solver_check, scale_key,
                   prove_zero_node, bool_z3)


def CTX_atom(a):
    return core.CTX.atoms[a]


class PathLimit(Exception):
    pass


class Run:
    """one path"""
    def __init__(self, ctx, prefix, opts):
        self.ctx = ctx
        self.prefix = prefix
        self.trace = []          # decisions taken: (choice, number of alternatives tried)
        self.pending = []        # alternative prefixes
        self._pc = []            # z3 constraints (assumptions, branch conditions, definitions)
        self.pcids = set()
        self.known_leaf = {}    # leaf id -> linear form it is equal to on this path
        self.weak = {}           # scale key -> [(node, sign)]: <= 0 or >= 0 on this path
        self.signs = {}          # scale key -> [(node, sign)]
        self.nknown, self.nsum = 0, {}
        self.opts = opts
        self.checks = []
        self.divs = []           # divisors that z3 could not show to be non-zero
        self.ndefs = set()
        self.decided = {}        # formula id -> (formula, value) on this path

    # --- constraints
    @property
    def pc(self):
        st = self.__dict__.get('chars')
        if st is not None and st.dirty:
            st.flush(self)
        return self._pc

    def add(self, f):
        k = f.get_id()
        if k not in self.pcids:
            self.pcids.add(k)
            self._pc.append(f)

    def need_defs(self, ds):
        for d in ds:
            self.add(d)

    def feasible(self, extra=(), timeout=None):
        return solver_check('path', self.pc + list(extra), timeout or self.opts.get('path_ms', 10000),
                            nl=not self.opts.get('ints'))

    def _step(self):
        i = len(self.trace)
        return self.prefix[i] if i < len(self.prefix) else None

    def decide(self, f, info=None):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self.decided:
            return self.decided[k][1]
        g = f.arg(0) if z3.is_not(f) else None
        if g is not None and g.get_id() in self.decided:
            return not self.decided[g.get_id()][1]
        pre = self._step()
        if pre is not None:
            v = pre
        else:
            can_t = self.feasible([f])
            if can_t == z3.unsat:
                v = ('F', False)
            else:
                can_f = self.feasible([z3.Not(f)])
                if can_f == z3.unsat:
                    v = ('F', True)
                else:
                    if len(self.trace) > self.opts.get('max_decisions', 4000):
                        raise PathLimit('too many decisions on a path')
                    v = ('B', True)
                    self.pending.append(list(self.trace) + [('B', False)])
        self.trace.append(v)
        val = v[1]
        self.decided[k] = (f, val)
        g = f if val else z3.Not(f)
        if v[0] == 'B':
            self.add(g)
        if info is not None:
            self.learn(info, val)
        return val

    def concretise(self, e):
        """value of an integer term, splitting the path over all its values"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        pre = self._step()
        if pre is None:
            s = z3.Solver()
            s.set('timeout', 20000)
            for f in self.pc:
                s.add(f)
            vals = []
            t = time.time()
            while True:
                r = s.check()
                if r == z3.unknown:
                    raise Inconclusive('integer split undecided')
                if r == z3.unsat:
                    break
                v = s.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                s.add(e != v)
                if len(vals) > self.opts.get('max_values', 64):
                    raise PathLimit('too many values of an integer')
            self.ctx.stats.add('split', z3.sat, time.time() - t)
            if not vals:
                raise Infeasible()
            vals.sort()
            for v in vals[1:]:
                self.pending.append(list(self.trace) + [('I', v)])
            pre = ('I', vals[0])
        self.trace.append(pre)
        self.add(e == pre[1])
        return pre[1]

    # --- signs of polynomials on this path
    def learn(self, info, val):
        n, op = info
        if op in ('or', 'and'):
            if val == (op == 'and'):
                for x in n:
                    if x is not None:
                        self.learn(x, val)
            return
        sg = None
        if op == '<':
            sg = -1 if val else None
        elif op == '>':
            sg = 1 if val else None
        elif op == '>=':
            sg = None if val else -1
        elif op == '<=':
            sg = None if val else 1
        if sg:
            self.set_sign(n, sg)
        wk = {'<': (-1, 1), '<=': (-1, 1), '>': (1, -1), '>=': (1, -1)}.get(op)
        if wk:
            w = wk[0] if val else wk[1]
            old = self.weak.setdefault(scale_key(n.fp), [])
            self.nknown += 1
            old.append((n, w))
            if any(m is n and x != w for m, x in old):
                self.learn_zero(n)
        elif val == (op == '=='):
            self.learn_zero(n)

    def learn_zero(self, n):
        """a linear form that is zero on this path: one of its leaves follows from the others"""
        n = self.reduced(n)
        lin = self.ctx.lin.get(n.id)
        if lin is None:
            return
        lv = [k for k in lin if k]
        if not lv:
            return
        v = max(lv)
        f = {k: -c / lin[v] for k, c in lin.items() if k != v}
        g = core.from_lin(f)
        self.known_leaf = {k: core.substitute(h, {v: g}) for k, h in self.known_leaf.items()}
        self.known_leaf[v] = g

    def reduced(self, n):
        return core.substitute(n, self.known_leaf) if self.known_leaf else n

    def weak_sign(self, s):
        """is s <= 0 known from one comparison on this path?"""
        n = s.numsign()
        for m, sg in self.weak.get(scale_key(n.fp), ()):
            if m is n:
                return sg < 0
            c = core.rat_reconstruct(n.fp[0] * pow(m.fp[0], core.P - 2, core.P) % core.P)
            if c is not None and c != 0:
                d = nadd(n, nmul(nconst(-c), m))
                if (d.op == 'c' and d.a == 0) or (d.op != 'c' and prove_zero_node(d)):
                    return (sg if c > 0 else -sg) < 0
        return False

    def set_sign(self, n, sg):
        while n.op == '*' and n.a.op == 'c':
            if n.a.a < 0:
                sg = -sg
            n = n.b
        self.nknown += 1
        self.signs.setdefault(scale_key(n.fp), []).append((n, sg))

    def known_sign(self, n):
        sg = 1
        st = [n]
        par = {}
        while st:
            x = st.pop()
            if x.op == '*':
                st.append(x.a)
                st.append(x.b)
            elif x.op == 'c':
                if x.a == 0:
                    return None
                if x.a < 0:
                    sg = -sg
            else:
                k = par.get(x.id)
                par[x.id] = (x, 1 if k is None else k[1] + 1)
        whole = self._lookup(n)
        if whole is not None:
            return whole
        for x, e in par.values():
            if x.op == 'a' and x.a.kind == 'sqrt':
                s1 = self.known_sign(x.a.g.poly)
                if s1 is None or s1 < 0:
                    return None
                continue
            s1 = self._lookup(x)
            if s1 is None:
                return None
            if e & 1 and s1 < 0:
                sg = -sg
        return sg

    def _lookup(self, x):
        for m, s in self.signs.get(scale_key(x.fp), ()):
            if m is x:
                return s
            c = core.rat_reconstruct(x.fp[0] * pow(m.fp[0], core.P - 2, core.P) % core.P)
            if c is not None and c != 0:
                d = nadd(x, nmul(nconst(-c), m))
                if (d.op == 'c' and d.a == 0) or (d.op != 'c' and prove_zero_node(d)):
                    return s if c > 0 else -s
        return None

    def sgn(self, n, memo=None):
        """'+', '0+', '-', '0-' or None: sign by inspection of the term and the known signs"""
        memo = {} if memo is None else memo
        if n.id in memo:
            return memo[n.id]
        memo[n.id] = None
        r = None
        k = self._lookup(n) if n.op != 'c' else None
        if k is not None:
            r = '+' if k == 1 else '-'
        elif n.op == 'c':
            r = '+' if n.a > 0 else ('0+' if n.a == 0 else '-')
        elif n.op == 'v':
            r = '0+' if ('nn', n.id) in self.pcids else None
        elif n.op == 'a':
            if n.a.kind == 'sqrt':
                r = '+' if self.sgn(n.a.g.poly, memo) == '+' else '0+'
            else:
                ss = [self.sgn(v.numsign(), memo) for v in n.a.args]
                if n.a.kind in ('floor', 'rint'):
                    r = None if ss[0] not in ('+', '0+') else '0+'
                elif n.a.kind == 'max':
                    r = '+' if '+' in ss else ('0+' if '0+' in ss else None)
                else:
                    r = '+' if all(q == '+' for q in ss) else ('0+' if all(q in ('+', '0+') for q in ss) else None)
        elif n.op == '+':
            a, b = self.sgn(n.a, memo), self.sgn(n.b, memo)
            if a and b and a[-1] == b[-1]:
                sg = a[-1]
                r = sg if sg in (a, b) else '0' + sg
        else:
            cnt = {}
            c = 1
            strict = True
            st = [n]
            while st:
                y = st.pop()
                if y.op == '*':
                    st += [y.a, y.b]
                elif y.op == 'c':
                    c = -c if y.a < 0 else c
                    strict = strict and y.a != 0
                else:
                    cnt[y.id] = (y, cnt.get(y.id, (y, 0))[1] + 1)
            ok = True
            for y, e in cnt.values():
                k = self.sgn(y, memo)
                if k is None:
                    if e & 1:
                        ok = False
                        break
                    strict = False
                    continue
                if k[0] == '0':
                    strict = False
                if k[-1] == '-' and e & 1:
                    c = -c
            if ok:
                r = ('' if strict else '0') + ('+' if c > 0 else '-')
        memo[n.id] = r
        return r

    def combined(self, n):
        """(sign, strict) of n as the sum of multiples of two terms whose signs are known on this path"""
        if n.op in 'cva' or self.nsum.get(n.id) == self.nknown:
            return None
        known, seen = [], set()
        for tab, strict in ((self.signs, True), (self.weak, False)):
            for ls in tab.values():
                for m, sg in ls:
                    if m.id not in seen and m.op not in 'cv' and any(m.fp):
                        seen.add(m.id)
                        known.append((m, sg, strict))
        P = core.P
        for i in range(len(known)):
            a, sa, ta = known[i]
            for b, sb, tb in known[:i]:
                det = (a.fp[0] * b.fp[1] - a.fp[1] * b.fp[0]) % P
                if not det:
                    continue
                inv = pow(det, P - 2, P)
                x = core.rat_reconstruct((n.fp[0] * b.fp[1] - n.fp[1] * b.fp[0]) * inv % P)
                y = core.rat_reconstruct((a.fp[0] * n.fp[1] - a.fp[1] * n.fp[0]) * inv % P)
                if not x or not y or max(abs(v) for v in (x.numerator, y.numerator, x.denominator, y.denominator)) > 1000:
                    continue
                ga, gb = (sa if x > 0 else -sa), (sb if y > 0 else -sb)
                if ga != gb:
                    continue
                d = nadd(n, nadd(nmul(nconst(-x), a), nmul(nconst(-y), b)))
                if (d.op == 'c' and d.a == 0) or (d.op != 'c' and prove_zero_node(d)):
                    return ga, ta or tb
        self.nsum[n.id] = self.nknown
        return None

    def sign(self, s):
        c = s.is_const()
        if c is not None:
            return (c > 0) - (c < 0)
        n = s.numsign()
        k = self.known_sign(n)
        if k is not None:
            return k
        if self.weak:
            if self.weak_sign(s):
                return -1
            if self.weak_sign(-s):
                return 1
        k = self.combined(n)
        if k is not None:
            return k[0]
        # implied by the path?
        return 1 if bool(s > 0) else -1

    def strict_sign(self, s):
        """sign that z3 can derive, remembered"""
        n = s.numsign()
        k = self.known_sign(n)
        if k is None:
            e = to_z3(n)
            if self.feasible([e <= 0]) == z3.unsat:
                k = 1
            elif self.feasible([e >= 0]) == z3.unsat:
                k = -1
            if k:
                self.set_sign(n, k)
        return k

    def divisor(self, s):
        n = s.numsign()
        if self.known_sign(n) is not None:
            return
        sg = self.sgn(n)
        if sg in ('+', '-'):
            self.set_sign(n, 1 if sg == '+' else -1)
            return
        key = ('nz', n.id)
        if key in self.pcids:
            return
        self.pcids.add(key)
        e = to_z3(n)
        self.need_defs(defs_of(node_atoms(n)))
        pre = self._step()
        if pre is None:
            r, m = solver_check('divisor', self.pc + [e == 0], self.opts.get('path_ms', 10000), True)
            pre = ('D', str(r))
            if r == z3.sat:
                self.divs.append((list(self.pc) + [e == 0], m))
        self.trace.append(pre)
        if pre[1] != 'unsat':
            self.add(e != 0)
            if pre[1] == 'unknown':
                self.ctx.notes.add('a divisor was assumed to be non-zero (z3 undecided)')

    def nonneg(self, s):
        n = s.numsign()
        if is_sos(n) or self.known_sign(n) == 1 or self.sgn(n) in ('+', '0+'):
            return
        key = ('nnq', n.id)
        if key in self.pcids:
            return
        self.pcids.add(key)
        e = to_z3(n)
        self.need_defs(defs_of(node_atoms(n)))
        pre = self._step()
        if pre is None:
            r, m = solver_check('radicand', self.pc + [e < 0], self.opts.get('path_ms', 10000), True)
            pre = ('D', str(r))
            if r == z3.sat:
                self.divs.append((list(self.pc) + [e < 0], m))
        self.trace.append(pre)
        if pre[1] != 'unsat':
            self.add(e >= 0)
            if pre[1] == 'unknown':
                self.ctx.notes.add('a radicand was assumed to be non-negative (z3 undecided)')


def is_sos(n):
    st = [n]
    while st:
        x = st.pop()
        if x.op == '+':
            st += [x.a, x.b]
        elif x.op == 'c':
            if x.a < 0:
                return False
        elif x.op == '*':
            # constant times even powers
            cnt = {}
            c = Fraction(1)
            s2 = [x]
            while s2:
                y = s2.pop()
                if y.op == '*':
                    s2 += [y.a, y.b]
                elif y.op == 'c':
                    c *= y.a
                else:
                    cnt[y.id] = cnt.get(y.id, 0) + 1
            if c < 0 or any(v & 1 for v in cnt.values()):
                return False
        elif x.op == 'a' and x.a.kind == 'sqrt':
            pass
        else:
            return False
    return True


# ---------------------------------------------------------------------------------- environments
class Failure(Exception):
    """a check failed (concrete run)"""


class AssumeFailed(BaseException):
    pass


class SymEnv:
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.inputs = {}

    # inputs
    def real(self, name, lo=-4, hi=4):
        self.inputs[name] = ('real', lo, hi)
        self.run.ctx.inputs[name] = ('real', lo, hi)
        return S({(): nvar(name)})

    def pos(self, name, lo=0.25, hi=4):
        v = self.real(name, lo, hi)
        n = nvar(name)
        self.run.add(to_z3(n) > 0)
        self.run.set_sign(n, 1)
        return v

    def nonneg(self, name, lo=0, hi=4):
        v = self.real(name, lo, hi)
        n = nvar(name)
        self.run.add(to_z3(n) >= 0)
        self.run.pcids.add(('nn', n.id))
        return v

    def int(self, name, lo, hi):
        self.run.ctx.inputs[name] = ('int', lo, hi)
        e = z3.Int(name)
        if lo is not None:
            self.run.add(e >= lo)
        if hi is not None:
            self.run.add(e <= hi)
        return SInt(e)

    def boolean(self, name):
        self.run.ctx.inputs[name] = ('int', 0, 1)
        e = z3.Int(name)
        self.run.add(e >= 0)
        self.run.add(e <= 1)
        return SBool(e == 1)

    def string(self, name, maxlen):
        self.run.ctx.inputs[name] = ('str', 0, maxlen)
        e = z3.String(name)
        self.run.add(z3.Length(e) <= maxlen)
        # printable ASCII
        self.run.add(z3.InRe(e, z3.Star(z3.Range(' ', '~'))))
        return core.SStr(e)

    def char(self, name, allowed):
        """a symbolic character"""
        from . import text
        allowed = sorted(set(allowed))
        if len(allowed) == 1:
            return allowed[0]
        self.run.ctx.inputs[name] = ('int', ord(allowed[0]), ord(allowed[-1]))
        c = text.Char(name, z3.Int(name), allowed)
        st = text.chars_of(self.run)
        st.sets[name] = c.allowed
        st.dirty[name] = c
        return c

    def choose(self, name, values):
        """one of the values; split into paths"""
        values = list(values)
        return values[int(self.int(name, 0, len(values) - 1))]

    # arithmetic helpers usable in both environments
    def num(self, x):
        return S.lift(x)

    def max(self, vals):
        return core.smax(vals)

    def min(self, vals):
        return core.smin(vals)

    def sqrt(self, x):
        return S.lift(x).sqrt()

    def q(self, a, b=1):
        return S.const(Fraction(a, b))

    # assertions
    def assume(self, cond):
        if isinstance(cond, SBool):
            self.run.add(cond.f)
            if cond.info is not None:
                self.run.learn(cond.info, True)
        elif not cond:
            raise Infeasible()

    def assume_pos(self, s):
        """assume a polynomial number > 0 (its sign is then known)"""
        self.assume(s > 0)

    def check(self, label, cond):
        self.run.ctx.nchecks += 1
        if isinstance(cond, SBool):
            f = z3.Not(cond.f)
            r, m = solver_check('assert', self.run.pc + [f], self.run.opts.get('assert_ms', 30000), True,
                                nl=not self.run.opts.get('ints'))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                raise Inconclusive('assertion undecided: %s' % label)
            self.run.ctx.candidates.append((label, dict_model(self.run.ctx, m), list(self.run.pc) + [f]))
            raise Found()
        if not cond:
            self.run.ctx.candidates.append((label, None, list(self.run.pc)))
            raise Found()

    def eq(self, label, a, b, scale=None):
        self.run.ctx.nchecks += 1
        a, b = S.lift(a), S.lift(b)
        if a is None or b is None:
            self.check(label + ' (not a number)', False)
        d = a - b
        if decide_zero(d):
            self.run.ctx.nident += 1
            return
        sig, n = d.common()
        for at, k in sig:
            if k > 0:
                n = nmul(n, core.atom_power(at, 1))
        if self.run.known_leaf:
            r = self.run.reduced(n)
            if not any(r.fp) and core.prove_zero_node(r):
                return
        e = to_z3(n)
        self.run.need_defs(defs_of(node_atoms(n)))
        forms = list(self.run.pc) + [e != 0]
        m = None
        if needs_path(self.run, n):
            # the values may still agree under the path condition (equalities, definitions of roots)
            ms = nice_models(self.run.ctx, forms, k=1, tries=6, last=False)
            if ms:
                m = ms[0]
            else:
                r, m = solver_check('assert', forms, self.run.opts.get('assert_ms', 30000), True)
                if r == z3.unsat:
                    return
                m = dict_model(self.run.ctx, m) if m is not None else None
        if m is None and self.run.feasible() == z3.unsat:
            raise Infeasible()      # an assumption made later contradicts the path
        self.run.ctx.candidates.append((label, m, forms))
        raise Found()

    def array_eq(self, label, A, B, scale=None):
        import numpy as np
        A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
        self.check(label + ': shape', A.shape == B.shape)
        for ix in np.ndindex(A.shape):
            a, b = A[ix], B[ix]
            if a is b:
                self.run.ctx.nchecks += 1
                self.run.ctx.nident += 1
                continue
            self.eq('%s%s' % (label, list(ix)), a, b)

    def same(self, A, B):
        """formally equal, entry by entry (decided by z3; no path split, no violation)"""
        import numpy as np
        A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
        if A.shape != B.shape:
            return False
        for ix in np.ndindex(A.shape):
            a, b = A[ix], B[ix]
            if a is b:
                continue
            a, b = S.lift(a), S.lift(b)
            if a is None or b is None or not (decide_zero(a - b) or self.zero_here(a - b)):
                return False
        return True

    def zero_here(self, d):
        """formally zero once the equalities met on this path are inserted"""
        if not self.run.known_leaf:
            return False
        sig, n = d.common()
        r = self.run.reduced(n)
        return not any(r.fp) and core.prove_zero_node(r)

    def known(self, fid):
        self.run.ctx.known.add(fid)

    def note(self, text):
        self.run.ctx.notes.add(text)

    def record(self, name, value):
        self.run.ctx.recorded[name] = value

    def fail(self, label):
        self.check(label, False)


def needs_path(run, n):
    return bool(node_atoms(n)) or any(not _strict(f) for f in run.pc)


def _strict(f):
    k = f.decl().kind()
    if k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
        return True
    if k == z3.Z3_OP_NOT:
        # (opposite closed half spaces can leave just their common boundary)
        return f.arg(0).decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ)
    return False


class Found(Abort):
    """a candidate counterexample was recorded"""


def frac_of(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def dict_model(ctx, m):
    out = {}
    for name, (kind, lo, hi) in ctx.inputs.items():
        if kind == 'str':
            v = m.eval(z3.String(name), model_completion=True)
            out[name] = 's:' + (v.as_string() if z3.is_string_value(v) else '')
            continue
        e = z3.Int(name) if kind == 'int' else z3.Real(name)
        v = frac_of(m.eval(e, model_completion=True))
        if v is None:
            v = Fraction(0)
        out[name] = v
    return out


def nice_models(ctx, forms, k=6, timeout=8000, seed=1, tries=None, last=True):
    """models of the constraints with inputs in their preferred ranges, most regular first"""
    rng = random.Random(seed)
    names = [n for n, (kind, lo, hi) in ctx.inputs.items() if kind == 'real']
    bounds = []
    for n in names:
        _, lo, hi = ctx.inputs[n]
        if lo is not None:
            bounds.append(z3.Real(n) >= lo)
        if hi is not None:
            bounds.append(z3.Real(n) <= hi)
    out = []

    def ask(extra, to):
        r, m = solver_check('model', list(forms) + list(extra), to, True)
        if r == z3.sat:
            out.append(dict_model(ctx, m))
            return True
        return False
    if not names:
        if last:
            ask([], timeout)
        return out
    # random rational points for most of the inputs: the rest of the query is cheap
    for i in range(tries or 4 * k):
        if len(out) >= k:
            break
        fix = []
        free = rng.choice([0, 0, 1, 2, 3])
        skip = set(rng.sample(names, min(free, len(names))))
        for n in names:
            _, lo, hi = ctx.inputs[n]
            lo = -4 if lo is None else lo
            hi = 4 if hi is None else hi
            if n in skip:
                continue
            fix.append(z3.Real(n) == z3.Q(round(rng.uniform(lo, hi) * 64), 64))
        ask(fix + bounds, 1500)
    if last and len(out) < k:
        ask(bounds, timeout)
        ask([], timeout)
    return out


def far_models(ctx, forms, seed=7, timeout=1000):
    """models with small or large values of all inputs, or of those of one name"""
    rng = random.Random(seed)
    names = [n for n, (kind, lo, hi) in ctx.inputs.items() if kind == 'real']
    groups = {}
    for n in names:
        groups.setdefault(n[:1], set()).add(n)
    groups = [set(names)] + ([g for g in groups.values()] if len(groups) > 1 else [])
    out, start = [], time.time()
    for e, g in [(e, g) for g in groups[:6] for e in (-14, -24, 14)]:
        if time.time() - start > 10 or not names:
            break
        fix = []
        for n in names:
            _, lo, hi = ctx.inputs[n]
            v = Fraction(round(rng.uniform(-4 if lo is None else lo, 4 if hi is None else hi) * 64), 64)
            # 1.00002: no number of single precision
            v = v * Fraction(2) ** e * Fraction(100003, 100001) if n in g else v
            fix.append(z3.Real(n) == z3.Q(v.numerator, v.denominator))
        r, m = solver_check('model', list(forms) + fix, timeout, True)
        if r == z3.sat:
            out.append(dict_model(ctx, m))
    return out


class ConcEnv:
    """the same harness with floats on the unpatched code"""
    symbolic = False

    def __init__(self, model, tol=1e-8):
        self.model = model
        self.tol = tol
        self.nchecks = 0
        self.knowns = set()
        self.recorded = {}

    def real(self, name, lo=-4, hi=4):
        return float(self.model.get(name, 0))
    pos = real

    def pos(self, name, lo=0.25, hi=4):
        v = self.real(name)
        if not v > 0:
            raise AssumeFailed()
        return v

    def nonneg(self, name, lo=0, hi=4):
        v = self.real(name)
        if v < 0:
            raise AssumeFailed()
        return v

    def int(self, name, lo, hi):
        v = int(self.model.get(name, lo or 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed()
        return v

    def boolean(self, name):
        return int(self.model.get(name, 0)) == 1

    def string(self, name, maxlen):
        v = self.model.get(name, '')
        if len(v) > maxlen:
            raise AssumeFailed()
        return v

    def char(self, name, allowed):
        allowed = sorted(set(allowed))
        c = chr(int(self.model.get(name, ord(allowed[0]))))
        if c not in allowed:
            raise AssumeFailed()
        return c

    def choose(self, name, values):
        values = list(values)
        return values[self.int(name, 0, len(values) - 1)]

    def num(self, x):
        return x

    def max(self, vals):
        return max(vals)

    def min(self, vals):
        return min(vals)

    def sqrt(self, x):
        return x ** 0.5

    def q(self, a, b=1):
        return a / b

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()
    assume_pos = None

    def assume_pos(self, s):
        if not s > 0:
            raise AssumeFailed()

    def check(self, label, cond):
        self.nchecks += 1
        if not bool(cond):
            raise Failure(label)

    def eq(self, label, a, b, scale=None):
        self.nchecks += 1
        try:
            a = float(a)
            b = float(b)
        except Exception as e:
            raise Failure('%s: not a number (%s)' % (label, e))
        sc = max(abs(a), abs(b)) if scale is None else scale
        if not abs(a - b) <= self.tol * sc + 1e-13:
            raise Failure('%s: %r instead of %r' % (label, a, b))

    def array_eq(self, label, A, B, scale=None):
        import numpy as np
        self.nchecks += 1
        try:
            A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        except Exception as e:
            raise Failure('%s: not numbers (%s)' % (label, e))
        if A.shape != B.shape:
            raise Failure('%s: shape %s instead of %s' % (label, A.shape, B.shape))
        if A.size == 0:
            return
        with np.errstate(all='ignore'):
            sc = max(np.abs(A).max(), np.abs(B).max()) if scale is None else scale
            err = np.abs(A - B)
            bad = ~(err <= self.tol * sc + 1e-13)
        if bad.any():
            ix = tuple(np.argwhere(bad)[0])
            raise Failure('%s%s: %r instead of %r' % (label, list(map(int, ix)), float(A[ix]), float(B[ix])))

    def same(self, A, B):
        import numpy as np
        try:
            A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        except Exception:
            return False
        if A.shape != B.shape:
            return False
        if A.size == 0:
            return True
        with np.errstate(all='ignore'):
            sc = max(np.abs(A).max(), np.abs(B).max())
            return bool((np.abs(A - B) <= self.tol * sc + 1e-13).all())

    def known(self, fid):
        self.knowns.add(fid)

    def note(self, text):
        pass

    def record(self, name, value):
        self.recorded[name] = value

    def fail(self, label):
        raise Failure(label)


# ---------------------------------------------------------------------------------- exploration
def witness(ctx, run, opts, res):
    """a model of a completed path: the assumptions can be met, and the values computed symbolically at that point are
    compared with a plain run later"""
    ms = nice_models(ctx, run.pc, k=1, tries=12, timeout=20000)
    if not ms:
        return False
    m = ms[0]
    ev = core.Evaluator(m)
    vals = {}
    import numpy as np
    for k, v in ctx.recorded.items():
        try:
            if isinstance(v, str):
                vals[k] = v
            elif type(v).__name__ == 'CStr':
                vals[k] = ''.join(c if isinstance(c, str) else chr(int(m[c.name])) for c in v.c)
            else:
                a = np.asarray(v, dtype=object)
                vals[k] = [list(a.shape), [ev(x) for x in a.ravel()]]
        except (ValueError, TypeError, KeyError, ZeroDivisionError, OverflowError):
            pass
    res.validation = {'model': {k: str(x) for k, x in m.items()}, 'values': vals}
    return True


class Result:
    pass


def explore(harness, opts=None, seed=1):
    """run all feasible paths of harness(env) symbolically"""
    opts = dict(opts or {})
    ctx = core.set_ctx(core.Ctx(seed))
    ctx.inputs = {}
    ctx.candidates = []
    ctx.notes = set()
    ctx.nchecks = 0
    ctx.nident = 0
    ctx.known = set()
    ctx.recorded = {}
    res = Result()
    res.paths = 0
    res.completed = 0
    res.infeasible = 0
    res.errors = []
    res.divcands = []
    res.beyond = []
    todo = [[]]
    t0 = time.time()
    maxpaths = opts.get('max_paths', 20000)
    while todo:
        prefix = todo.pop()
        run = Run(ctx, prefix, opts)
        ctx.run = run
        res.paths += 1
        if res.paths > maxpaths:
            res.errors.append('path limit %d reached' % maxpaths)
            break
        if opts.get('time_s') and time.time() - t0 > opts['time_s']:
            res.errors.append('time limit %d s reached' % opts['time_s'])
            break
        env = SymEnv(run)
        try:
            harness(env)
            res.completed += 1
            if opts.get('vacuity', True) and not getattr(res, 'witness', False):
                if witness(ctx, run, opts, res):
                    res.witness = True
        except Infeasible:
            res.infeasible += 1
        except Found:
            if len(ctx.candidates) >= opts.get('max_candidates', 1):
                todo = []
        except (Inconclusive, PathLimit, Unsupported) as e:
            res.errors.append('%s: %s' % (type(e).__name__, e))
            if len(res.beyond) < 3:
                # no verdict here: models of the path condition are tried on the real code
                res.beyond.append(('path without a verdict (%s)' % e, None, list(run.pc)))
        except RecursionError as e:
            res.errors.append('RecursionError')
        except Exception as e:
            # an exception out of the code under test (or the harness): a candidate violation, to be replayed
            tb = traceback.format_exc(limit=-4)
            ctx.candidates.append(('exception %s: %s' % (type(e).__name__, e), None, list(run.pc)))
            res.errors_tb = tb
            if len(ctx.candidates) >= opts.get('max_candidates', 1):
                todo = []
        for fs, m in run.divs:
            res.divcands.append(('division by zero or invalid root', dict_model(ctx, m), fs))
        todo.extend(run.pending)
        if ctx.candidates and len(ctx.candidates) >= opts.get('max_candidates', 1):
            break
    res.ctx = ctx
    res.candidates = ctx.candidates
    res.time = time.time() - t0
    return res
