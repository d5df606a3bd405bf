"""Values of arithmetic expressions given as text (with symbolic characters), independent of the code under test.

Names are arbitrary real numbers, functions, indices and non-integer powers are uninterpreted functions of their
arguments.  In a plain run the text is an ordinary string and the values are floats."""
from fractions import Fraction
import functools, math
from . import core, text
from .core import S


class BadSyntax(Exception):
    pass


LETTERS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
DIGITS = frozenset('0123456789')
WORD = LETTERS | DIGITS
NONZERO = DIGITS - {'0'}
MAXPOW = 400
SET_E, SET_SIGN = frozenset('eE'), frozenset('+-')
C = functools.lru_cache(frozenset)


def same_chars(a, b):
    """the same characters by construction"""
    return len(a) == len(b) and all(x is y or (type(x) is str and x == y) or
                                    (type(x) is not str and type(y) is not str and x.name == y.name) for x, y in zip(a, b))


def eq_chars(a, b):
    return len(a) == len(b) and all(text.same_char(x, y) for x, y in zip(a, b))


def exact(e, vals):
    tot = Fraction(0)
    for sig, n in e.t.items():
        t = exact_node(n, vals)
        for a, p in sig:
            d = exact_node(core.CTX.atoms[a].poly, vals)
            if d == 0:
                raise ZeroDivisionError
            t *= d ** p
        tot += t
    return tot


def exact_node(n, vals):
    memo = {}
    for x in core.topo(n):
        memo[x.id] = x.a if x.op == 'c' else vals[x.a] if x.op == 'v' else \
            memo[x.a.id] + memo[x.b.id] if x.op == '+' else memo[x.a.id] * memo[x.b.id]
    return memo[n.id]


class Values:
    def __init__(self, env):
        self.env = env
        self.names = []          # (characters, value)
        self.numbers = []        # (characters, value)
        self.funcs = []          # (kind, characters or None, arguments, value)
        self.unify = False
        self.frozen = False

    # --- names and functions
    def name(self, c, tag):
        same = eq_chars if self.unify else same_chars
        for d, v in self.names:
            if same(d, c):
                return v
        if self.frozen:
            if not self.unify:
                for d, v in self.names:
                    if eq_chars(d, c):
                        return v
            raise BadSyntax('the name %s does not occur in the original' % text.mk(c))
        v = self.env.real('v_%s' % tag)
        self.names.append((c, v))
        return v

    def define(self, c, v):
        """a name given a value by an executed assignment"""
        self.names.insert(0, (c, v))

    def same_value(self, a, b):
        if isinstance(a, S) or isinstance(b, S):
            a, b = S.lift(a), S.lift(b)
            return core.decide_zero(a - b)
        return a == b

    def apply(self, kind, c, args):
        if not self.env.symbolic:
            h = 0.37 * len(kind) + 0.011 * sum((i + 1) * ord(x) for i, x in enumerate(c or ()))
            for k, a in enumerate(args):
                h = math.sin(1.3 * h + (1.7 + 0.9 * k) * float(a))
            return 1.5 + h
        same = eq_chars if self.unify else same_chars
        for kd, d, ar, v in self.funcs:
            if kd == kind and len(ar) == len(args) and (d is c if c is None or d is None else same(d, c)) and \
                    all(self.same_value(x, y) for x, y in zip(ar, args)):
                return v
        v = S({(): core.nvar('fun%d' % len(self.funcs))})
        self.funcs.append((kind, c, args, v))
        return v

    # --- numbers
    def number(self, c):
        if all(type(x) is str for x in c):
            return Fraction(''.join(c))
        # any real number, unless its value matters
        same = eq_chars if self.unify else same_chars
        for d, v in self.numbers:
            if same(d, c):
                return v
        v = S({(): core.nvar('num%d' % len(self.numbers))})
        self.numbers.append((c, v))
        return v

    def literal(self, e):
        """the value of an expression of numbers (their digits are split into their values)"""
        if not isinstance(e, S) or e.is_const() is not None:
            return e
        leaves = {'num%d' % i: c for i, (c, v) in enumerate(self.numbers)}
        vals = {}
        for n in e.t.values():
            for x in core.topo(n):
                if x.op == 'v':
                    if x.a not in leaves:
                        return e
                    vals[x.a] = None
                elif x.op == 'a':
                    return e
        for sig in e.t:
            if sig:
                return self.ratio(e, leaves)
        for k in vals:
            vals[k] = self.digit_text(leaves[k])
        return exact(e, vals)

    def ratio(self, e, leaves):
        vals = {}
        for sig, n in e.t.items():
            for a, p in sig:
                at = core.CTX.atoms[a]
                if at.kind != 'div':
                    return e
                for x in core.topo(at.poly):
                    if x.op == 'a' or (x.op == 'v' and x.a not in leaves):
                        return e
                    if x.op == 'v':
                        vals[x.a] = None
            for x in core.topo(n):
                if x.op == 'v':
                    vals[x.a] = None
        for k in vals:
            vals[k] = self.digit_text(leaves[k])
        return exact(e, vals)

    def digit_text(self, c):
        out = ''
        for x in c:
            if text.test_in(x, DIGITS):
                out += str(text.digit_value(x))
            else:
                out += next(k for k in '.eE+-' if text.test_in(x, C(k)))
        return Fraction(out)

    # --- arithmetic
    def const(self, x):
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if isinstance(x, S):
            return x.is_const()
        return None

    def div(self, a, b):
        ca, cb = self.const(a), self.const(b)
        if cb is not None:
            if cb == 0:
                raise ZeroDivisionError
            if ca is not None:
                return ca / cb
        self.env.assume(b != 0)
        return a / b

    def power(self, b, e):
        e = self.literal(e)
        ce = self.const(e)
        if ce is not None and ce.denominator == 1:
            n = int(ce)
            if abs(n) > MAXPOW:
                raise BadSyntax('exponent beyond the bound')
            r = 1
            for _ in range(abs(n)):
                r = b * r
            return r if n >= 0 else self.div(1, r)
        return self.apply('**', None, [b, e])

    def clear(self):
        self.names, self.funcs, self.numbers = [], [], []

    def parse(self, s, **kw):
        return Parser(self, text.chars(s), **kw).all()


class Parser:
    def __init__(self, values, c, tag='', loose=False):
        self.v, self.c, self.i = values, c, 0
        self.tag, self.loose = tag, loose

    def at(self, chars, k=0):
        j = self.i + k
        return j < len(self.c) and text.test_in(self.c[j], chars)

    def space(self):
        while self.at(C(' ')):
            self.i += 1

    def take(self, ch):
        self.space()
        if self.at(C(ch)):
            self.i += 1
            return True
        return False

    def all(self):
        r = self.expr()
        self.space()
        if self.i != len(self.c):
            raise BadSyntax('text after the expression')
        return r

    def expr(self):
        r = self.term()
        while True:
            self.space()
            if self.at(C('+')):
                self.i += 1
                r = r + self.term()
            elif self.at(C('-')):
                self.i += 1
                r = r - self.term()
            else:
                return r

    def term(self):
        r = self.factor()
        while True:
            self.space()
            if self.at(C('*')) and not self.at(C('*'), 1):
                self.i += 1
                r = r * self.factor()
            elif self.at(C('/')):
                self.i += 1
                r = self.v.div(r, self.factor())
            else:
                return r

    def factor(self):
        self.space()
        if self.at(C('-')):
            self.i += 1
            return -self.factor()
        if self.at(C('+')):
            self.i += 1
            return self.factor()
        b = self.primary()
        self.space()
        if self.at(C('*')) and self.at(C('*'), 1):
            self.i += 2
            return self.v.power(b, self.factor())
        return b

    def args(self, close):
        out = []
        self.space()
        while True:
            out.append(self.expr())
            self.space()
            if self.at(C(close)):
                self.i += 1
                return out
            if not self.at(C(',')):
                raise BadSyntax('in arguments')
            self.i += 1

    def primary(self):
        self.space()
        if self.at(C('(')):
            self.i += 1
            r = self.expr()
            if not self.take(')'):
                raise BadSyntax('parenthesis')
            return r
        a = self.i
        if self.at(LETTERS):
            self.i += 1
            self.word()
            while self.at(C('.')) and self.at(LETTERS, 1):
                self.i += 2
                self.word()
            name = self.c[a:self.i]
            r = None
            while True:
                j = self.i
                if self.loose:
                    self.space()
                if self.at(C('(')):
                    self.i += 1
                    ar = self.args(')')
                    if r is None and len(ar) == 2 and len(name) == 3 and eq_chars(name, 'pow'):
                        r = self.v.power(*ar)
                    elif r is None:
                        r = self.v.apply('()', name, ar)
                    else:
                        r = self.v.apply('()', None, [r] + ar)
                elif self.at(C('[')):
                    self.i += 1
                    ar = self.args(']')
                    if r is None:
                        r = self.v.apply('[]', name, ar)
                    else:
                        r = self.v.apply('[]', None, [r] + ar)
                else:
                    self.i = j
                    break
            return self.v.name(name, '%s%d' % (self.tag, a)) if r is None else r
        return self.number()

    def word(self):
        while self.at(WORD):
            self.i += 1

    def digits(self):
        a = self.i
        while self.at(DIGITS):
            self.i += 1
        return self.i - a

    def number(self):
        a = self.i
        k = self.digits()
        whole = True
        if self.at(C('.')):
            self.i += 1
            if not self.digits() and not k:
                raise BadSyntax('number')
            whole = False
        elif not k:
            raise BadSyntax('operand')
        if self.at(SET_E) and (self.at(DIGITS, 1) or (self.at(SET_SIGN, 1) and self.at(DIGITS, 2))):
            self.i += 2
            if self.digits() > 2:
                raise BadSyntax('number beyond the floats')
            whole = False
        if self.at(WORD) or self.at(C('.')):
            raise BadSyntax('after a number')
        if whole and k > 1:
            text.assume_in(self.c[a], NONZERO)      # Python has no leading zeros
        return self.v.number(self.c[a:self.i])
