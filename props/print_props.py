"""C22, C23, C24: printing of expressions and matrices"""
import itertools, random, re
import numpy as np
from . import register
from symx import text, expr
from symx.expr import Values, BadSyntax, LETTERS, WORD

REAL = 'names stand for any real numbers, functions for any functions of their arguments'
ALPHA = LETTERS | frozenset('0123+-*/(),.[] ')
CLASSES = {'letter': LETTERS, 'digit': frozenset('0123'), 'open': frozenset('('), 'minus': frozenset('-+'),
           'point': frozenset('.'), 'space': frozenset(' '), 'times': frozenset('*/'), 'comma': frozenset(',)]'),
           'index': frozenset('[')}


# ------------------------------------------------------------------ C22
BASES = ['{2}', '{1}', '{d}', '{e}.{e}', '({1}+{1})', '{2}({1})', '{2}({1},{1}+{e})', '{2}[{e}]', '{1}[{1}, {e}]',
         '({1}**{d}+{1})', '(({1}+{e})*{1})', '{1}.{1}', '({1}*({1}-{1}))', '1.{e}e-{e}', '{1}({1}**{e})', '{3}({1})({1})',
         '({1} + {2})', '{e}e+{e}', '.{e}E{e}', '{e}E-{e}', '{e}.{e}e+0{e}', '{1}*{e}e{e}', '{1}-{e}E+{e}', '{e}.', '{1}{e}e+{e}', '.{e}']
EXPS = ['**{d}', ' ** {d}', '** {d}', '**1{d}', '**-{e}', '**(-{e})', '**{e}.5', '**0.{e}', '**{1}', '**({d})', '**({1})', '**({e}/{e})',
        '**{1}({e})', '**{d}**{d}', '**-{e}**{e}', '**{1}**{e}', '**{1}{e}', '**2.0', '**{e}*{1}', '**{e}e0', '**{d} ** {d}', '**{e} **{1}', ' **{e}** {e}', '** {e} **-{e}', '**{e}.']
CONTEXTS = ['{2} + %s', '-%s', '%s*{1}**{e}', '{1}/%s', '%s/{1}**{e}', '{2}(%s)', '%s + {1}**{e}', 'pow(%s, {e})', '(%s)**{e}',
            '2*%s - {1}**{e}', '{1}[%s]', '({1}-%s)*{1}', '{2}(%s, {1}**{e})', '%s**{e}']
PAIRS = ['{2}**{d} + {3}**{d}', '{1}**{d} + {1}**{d}{d}', '{2}**{d}*{2}**{d}', '{1}**{e}+{2}**{e}.{e}', '({1})**{e}+{2}({1})**{e}',
         '{1}**{e}+{1}**({e})', '{1}**{e} + {1}**-{e}', '{1}**{d}+{e}{d}**{d}', '{1}{e}**{e}+{1}**{e}', '{1}**{e}+{1}{1}**{e}+{1}{1}{1}**{e}',
         '({1}+{1})**{e}+{1}({1}+{1})**{e}', '{1}**{e}+{1}(-{1}**{e})', '{1}**2**{e} + {1}**2', '2**{e}**{1} + 2**{e}', '{1}.{1}**{e}+{1}**{e}',
         '{2}**{e}-{2}**{e}-{2}**{e}', '({1}**{e})**{e}+({1}**{e})', '(({1})**{e})**{e}']
POWS = ['pow({2}, {d})', 'pow({2},{1})', 'pow({1}+{1}**{e}, {d})', 'pow({2}({1}, {d}), {e})', 'pow(pow({1},{d}),{d})', 'pow({1}, -{e})',
        'pow({1}, 0.{e})', 'pow({1},{d})**{d}', '{1}pow({1},{e})', 'pow({1},{1})+pow({1},{e})', 'pow({1}, {e})*pow({1}, {e})',
        'pow( {1} , {e} )', '{1}**pow({1}, {e})', '-pow(-{1}, {e})', 'pow(({1}+{1})*{1}, {e})', '{2}(pow({1}, {e}), {1})',
        'pow({1}, {e}{d})', 'pow({1}[{1}], {e})', 'pow({1}, 1) + pow({2}, 1)', 'pow({1}, {e}) + {1}**{e}', 'pow({1}, {e}.0)',
        'pow({1}/{1}, {e})/{1}', 'pow({1}({1}), {e})', 'pow({1}**pow({1}, {e}), {e})', 'pow', 'pow*{1}**{e}', 'pow({1}, {1}+1)']


def skeletons(tier, seed):
    out = [(b + e) for b in BASES for e in EXPS]
    out += PAIRS + POWS
    rng = random.Random(seed)
    core = [c % (b + e) if c.count('%s') == 1 else c for c in CONTEXTS for b in BASES for e in EXPS]
    if tier == 'quick':
        return out + random.Random(7).sample(core, 400)
    deep = [c % s for c in CONTEXTS for s in PAIRS + POWS if c != '%s**{e}']
    return out + core[::2] + deep


def count_forks(s):
    n = 1
    for m in re.findall(r'\{d\}', s):
        n *= 4
    for m in re.findall(r'\{e\}', s):
        n *= 2
    return n


def c22_cfgs(tier, seed):
    out = []
    # all texts up to a length
    top = 6 if tier == 'quick' else 8
    for n in range(1, top + 1):
        if n <= 3:
            out.append(dict(free=n, first=[]))
            continue
        for a in ('letter', 'digit', 'open', 'minus', 'point', 'space'):
            if n <= 4:
                out.append(dict(free=n, first=[a]))
                continue
            seconds = {'letter': ('letter', 'digit', 'times', 'open', 'minus', 'space', 'index', 'point'),
                       'digit': ('digit', 'times', 'minus', 'point', 'space', 'letter'),
                       'open': ('letter', 'digit', 'open', 'minus', 'point', 'space'),
                       'minus': ('letter', 'digit', 'open', 'minus', 'point', 'space'),
                       'point': ('digit',), 'space': ('letter', 'digit', 'open', 'minus', 'point', 'space')}[a]
            for b in seconds:
                out.append(dict(free=n, first=[a, b]))
    out.sort(key=lambda c: -c['free'])
    sk = skeletons(tier, seed)
    out += [dict(text=s) for s in dict.fromkeys(sk)]
    return out


def build(env, skeleton, tag=''):
    """text with symbolic names {1} {2} {3} and digits {d} (0-3), {e} (2, 3)"""
    out = []
    k = 0
    for part in re.split(r'(\{\w\})', skeleton):
        m = re.fullmatch(r'\{(\w)\}', part)
        if not m:
            out.extend(part)
            continue
        if m.group(1) in 'de':
            out.append(env.char('%sc%d' % (tag, len(out)), '0123' if m.group(1) == 'd' else '23'))
            continue
        for j in range(int(m.group(1))):
            out.append(env.char('%sc%d' % (tag, len(out)), LETTERS if j == 0 else WORD))
    return text.mk(out)


def compare(env, label, src, dst, values, want=None):
    """dst has the value of src (`want', if it is already known)"""
    def source():
        values.frozen = False
        try:
            return values.parse(src)
        except (BadSyntax, ZeroDivisionError):
            env.assume(False)

    def result():
        values.frozen = True
        try:
            return values.parse(dst, loose=True)
        except BadSyntax as e:
            env.fail('%s: not an expression (%s)' % (label, e))
        except ZeroDivisionError:
            env.fail('%s: division by zero' % label)
    want = source() if want is None else want
    got = result()
    if not env.same(got, want):
        # names may be the same on this path
        values.clear()
        values.unify = True
        want, got = source(), result()
    env.eq(label, got, want)


def c22_name(c):
    return c['text'] if 'text' in c else 'any text of length %d %s' % (c['free'], '+'.join(c['first']))


@register('C22', c22_cfgs, modules='print', opts=dict(ints=True, config_s=400, max_paths=200000),
          bounds='every text of up to 6 (thorough: 8) characters (letters, _, digits 0 to 3, + - * / ( ) , . [ ] and spaces) that is an '
          'arithmetic expression; longer expressions from templates with all names of 1 to 3 characters and digits 0 to 3',
          assumptions=[REAL, 'exact arithmetic', 'integer exponents up to 400', 'no space between a name and its parenthesis'], name=c22_name)
def c22(env, api, cfg):
    if 'text' in cfg:
        s = build(env, cfg['text'])
    else:
        c = []
        for i in range(cfg['free']):
            c.append(env.char('c%d' % i, CLASSES[cfg['first'][i]] if i < len(cfg['first']) else ALPHA))
        s = text.mk(c)
    v = Values(env)
    want = None
    try:
        want = v.parse(s)
    except (BadSyntax, ZeroDivisionError):
        env.assume(False)
    out = api.pow2mul(s)
    env.check('a string is returned', isinstance(out, (str, text.CStr)))
    env.record('text', out)
    compare(env, 'value of the returned expression', s, out, v, want)


# ------------------------------------------------------------------ C23, C24: printed matrices
def entry_class():
    import sympy
    from symx.core import Unsupported

    class Entry(sympy.Symbol):
        """an entry of a matrix, of which only the text and whether it is zero matter"""
        @staticmethod
        def make(key, txt, nonzero):
            e = sympy.Symbol.__xnew__(Entry, key)
            e.txt, e.nonzero = txt, nonzero
            return e

        def __bool__(self):
            if type(self.nonzero) is not bool:
                self.nonzero = bool(self.nonzero)
            return self.nonzero

        def __eq__(self, o):
            if isinstance(o, (int, float)) or getattr(o, 'is_Number', False):
                if o == 0:
                    return not self
                return False
            return self is o

        def __ne__(self, o):
            return not self == o

        def __hash__(self):
            return hash(self.name)

        def __symstr__(self):
            return self.txt if self else '0'

        def _text(self, *a):
            t = self.__symstr__()
            if type(t) is not str:
                raise Unsupported('text of a symbolic entry outside of the instrumented code')
            return t
        __str__ = __repr__ = _sympystr = _sympyrepr = _text

        is_zero = property(lambda self: not self)
        is_nonzero = property(lambda self: bool(self))
    return Entry


_Entry = None


def entry(env, key, txt, nonzero):
    import sympy
    global _Entry
    if not env.symbolic:
        return sympy.Symbol(txt) if nonzero else sympy.S.Zero
    if _Entry is None:
        _Entry = entry_class()
    return _Entry.make(key, txt, nonzero)


def is_comment(c):
    for x in c:
        if type(x) is str and x == ' ':
            continue
        return type(x) is str and x == '#'
    return True                 # empty


def split_lines(c):
    out = [[]]
    for x in c:
        if type(x) is str and x == '\n':
            out.append([])
        else:
            out[-1].append(x)
    return [tuple(x) for x in out]


def plain(c):
    """the text, if no character is symbolic"""
    s = text.mk(c)
    return s if type(s) is str else None


class Program:
    """executes the printed lines: assignments to elements of arrays, to scalars, declarations, comments; a line ending with
    the operator continues in the indented lines below, which are added (that is how collected terms are printed)"""
    def __init__(self, values, index, scalars=(), index_arrays=()):
        self.v, self.ix, self.index_arrays = values, index, index_arrays
        self.comments = []
        self.stores = []        # (array, indices, operator, value)
        self.scalars = dict(scalars)
        self.declared, self.assigned = [], []

    def run(self, c):
        lines = split_lines(c)
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if is_comment(ln):
                t = plain(ln)
                if t is not None and t.strip():
                    self.comments.append(t.strip())
                continue
            t = plain(ln)
            if t is not None and t.lstrip().startswith('cdef'):
                m = re.fullmatch(r'\s*cdef\s+double\s+(.*)', t)
                if not m:
                    raise BadSyntax('declaration %r' % t)
                self.declared += [x.strip() for x in m.group(1).split(',')]
                continue
            p = expr.Parser(self.v, ln, loose=True)
            p.space()
            a = p.i
            if not p.at(LETTERS):
                raise BadSyntax('statement')
            p.word()
            name = plain(ln[a:p.i])
            if name is None:
                raise BadSyntax('symbolic name of an array')
            ind = None
            if p.take('['):
                q = expr.Parser(self.ix, ln, loose=True)
                q.i = p.i
                ind = q.args(']')
                p.i = q.i
            p.space()
            op = ''
            while p.at(frozenset('+-*/')):
                op += plain(ln[p.i:p.i + 1])
                p.i += 1
            if not p.at(frozenset('=')):
                raise BadSyntax('assignment')
            p.i += 1
            op += '='
            p.space()
            if p.i == len(ln):
                # collected terms
                val, n = None, 0
                while i < len(lines) and (is_comment(lines[i]) or (lines[i] and lines[i][0] == ' ')):
                    if not is_comment(lines[i]):
                        w = expr.Parser(self.v, lines[i], loose=True).all()
                        val = w if val is None else val + w
                    i += 1
                if val is None:
                    raise BadSyntax('no terms')
            elif name in self.scalars if ind is None else name in self.index_arrays:
                q = expr.Parser(self.ix, ln, loose=True)
                q.i = p.i
                val = q.all()
            else:
                val = p.all()
            self.store(name, ind, op, val)

    def store(self, name, ind, op, val):
        if ind is not None:
            self.stores.append((name, ind, op, val))
        elif name in self.scalars:
            old = self.scalars[name]
            self.scalars[name] = operate(old, op, val)
            self.ix.define(tuple(name), self.scalars[name])
        elif op == '=':
            self.assigned.append(name)
            self.v.define(tuple(name), val)
        else:
            raise BadSyntax('assignment to %s' % name)


def operate(old, op, val):
    if op == '=':
        return val
    if op == '+=':
        return old + val
    if op == '-=':
        return old - val
    if op == '*=':
        return old * val
    if op == '/=':
        return old / val
    raise BadSyntax('operator ' + op)


def number_line(env, prog, name, want):
    ns = [c for c in prog.comments if re.search(r'_num\s*=', c)]
    env.check('the number of terms is declared once', len(ns) == 1)
    m = re.fullmatch(r'#\s*%s_num\s*=\s*(\d+)' % re.escape(name), ns[0])
    env.check('the number of terms is declared under the name of the matrix', m is not None)
    env.check('declared number of terms', int(m.group(1)) == want)
    env.check('the name of the matrix is printed', any(re.fullmatch(r'#\s*%s' % re.escape(name), c) for c in prog.comments))


def attempt(env, label, f, values):
    """f() executes the printed lines and returns pairs (got, wanted): equal, also if different symbolic names may be the
    same name"""
    def run():
        try:
            return f()
        except BadSyntax as e:
            env.fail('%s: the printed lines cannot be executed (%s)' % (label, e))
        except ZeroDivisionError:
            env.fail('%s: division by zero' % label)
    pairs = run()
    if env.symbolic and not all(env.same(g, w) for _, g, w in pairs):
        values.clear()
        values.unify = True
        pairs = run()
    for lb, g, w in pairs:
        env.eq('%s: %s' % (label, lb), g, w)


def reference(values, txts):
    """values of the expressions (names are free from then on)"""
    values.frozen = False
    out = []
    for t in txts:
        try:
            out.append(values.parse(t))
        except (BadSyntax, ZeroDivisionError):
            values.env.assume(False)
    values.frozen = True
    return out


def same_place(env, a, b):
    return len(a) == len(b) and all(env.same(x, y) for x, y in zip(a, b))


def fixed_values(env, names):
    """index expressions: every name is a number of its own"""
    ix = Values(env)
    for n in names:
        ix.names.append((tuple(n), env.real('ix_' + n)))
    ix.frozen = True
    return ix


def places(env, ix, n, m, how, dpn):
    """{(row, column): printed position}"""
    w = {}
    for i in range(n):
        for j in range(m):
            if dpn:
                p = ['i%d*dof+%d' % (i // dpn + 1, i % dpn), 'i%d*dof+%d' % (j // dpn + 1, j % dpn)]
            elif how == 'sparse':
                p = ['row+%d' % i, 'col+%d' % j]
            else:
                p = ['%d' % i, '%d' % j]
            w[i, j] = [ix.parse(x) for x in p]
    return w


def index_names(n, m, dpn):
    return ['i%d' % k for k in range(1, max(n, m) + 1)] + ['dof', 'row', 'col', 'pos', 'c']


def check_print(env, kind, out, mname, shape, txts, kw, values, extra=()):
    """execute the printed text; txts: {(i, j): text of a non-zero entry, after subs}"""
    n, m = shape
    ix = fixed_values(env, index_names(n, m, kw.get('dofpernode')))
    want_keys = [k for k in txts if not (kw.get('is_symmetric') and k[0] > k[1])]
    full = mname if not kw.get('sufix') else '%s_%s' % (mname, kw['sufix'])
    state = {}

    def run():
        ref = dict(zip(want_keys, reference(values, [txts[k] for k in want_keys])))
        ix.names = [(c, v) for c, v in ix.names if c != ('c',)]
        start = env.num(7)
        ix.define(('c',), start)
        prog = state['prog'] = Program(values, ix, {'c': start} if kind == 'sparse' else (), (mname + 'r', mname + 'c'))
        prog.run(text.chars(out))
        pairs = []
        if kind == 'array':
            order = kw.get('order', 'C')
            pos = ix.parse('pos')
            got = {}
            op = kw.get('op', '+=')
            for name, ind, o, val in prog.stores:
                if name != mname or len(ind) != 1:
                    raise BadSyntax('stores to %s' % name)
                k = [k for k in range(n * m) if env.same(ind[0], pos + k)]
                if not k:
                    env.fail('stores outside of the matrix')
                k = k[0]
                old = got.get(k)
                if old is None:
                    old = env.real('old%d' % k)
                got[k] = operate(old, o, val)
            for k in range(n * m):
                key = (k // m, k % m) if order == 'C' else (k % n, k // n)
                old = env.real('old%d' % k)
                w = operate(old, op, ref[key]) if key in ref else old
                pairs.append(('entry %s' % (key,), got.get(k, old), w))
            count = len(prog.stores)
        else:
            where = places(env, ix, n, m, kind, kw.get('dofpernode'))
            trip = []
            if kind == 'dense':
                for name, ind, o, val in prog.stores:
                    if name != mname or len(ind) != 2 or o != '+=':
                        raise BadSyntax('stores to %s' % name)
                    trip.append((ind, val))
            else:
                cells = {}
                for name, ind, o, val in prog.stores:
                    if len(ind) != 1 or name[:-1] != mname or name[-1] not in 'rcv':
                        raise BadSyntax('stores to %s' % name)
                    ks = [k for k in range(1, len(prog.stores) + 2) if env.same(ind[0], start + k)]
                    if not ks:
                        env.fail('term number outside of the arrays')
                    d = cells.setdefault(ks[0], {})
                    if name[-1] == 'v':
                        if o not in ('+=', '='):
                            raise BadSyntax('operator ' + o)
                        d['v'] = val if o == '=' or 'v' not in d else d['v'] + val
                    else:
                        if o != '=':
                            raise BadSyntax('operator ' + o)
                        d[name[-1]] = val
                if sorted(cells) != list(range(1, len(cells) + 1)):
                    env.fail('the terms are not numbered consecutively')
                if not env.same(prog.scalars['c'], start + len(cells)):
                    env.fail('the counter of terms does not end at the last term')
                for k, d in sorted(cells.items()):
                    if set(d) != set('rcv'):
                        env.fail('row, column and value are not all stored')
                    trip.append(([d['r'], d['c']], d['v']))
            tot = {}
            for place, val in trip:
                keys = [k for k, p in where.items() if same_place(env, place, p)]
                if len(keys) != 1:
                    env.fail('stores at another place than that of an entry')
                k = keys[0]
                tot[k] = val if k not in tot else tot[k] + val
            for k in where:
                if k in tot and k not in ref:
                    env.fail('stores at a zero entry or outside of the upper triangle')
                if k in ref and k not in tot:
                    env.fail('entry %s is missing' % (k,))
                if k in ref:
                    pairs.append(('entry %s' % (k,), tot[k], ref[k]))
            count = len(trip)
        env.check('number of printed terms', count == len(want_keys))
        number_line(env, prog, full, len(want_keys))
        return pairs
    attempt(env, kind, run, values)
    prog = state['prog']
    env.check('the variables of the substitutions are declared', sorted(prog.declared) == sorted(prog.assigned))
    return prog


def call_printer(env, api, kind, m, mname, kw):
    """print, with or without a file; the text of the file must be the returned text"""
    import os, shutil, tempfile
    fun = getattr(api, kind)
    if kw.get('print_file') is False:
        return fun(m, mname, **kw)
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(dir=cwd)
    try:
        os.chdir(tmp)
        full = mname if not kw.get('sufix') else '%s_%s' % (mname, kw['sufix'])
        if (m.shape[0] + m.shape[1]) % 2 == 0:
            # of an earlier matrix
            with open('print_%s.txt' % full, 'w') as f:
                f.write('kbv[c] += stale\n' * 3000)
        out = fun(m, mname, **kw)
        files = os.listdir('.')
        env.check('one file is written', files == ['print_%s.txt' % full])
        with open(files[0]) as f:
            env.check('the file contains the printed lines', f.read() == out)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
    return out


def snapshot(m):
    return (m.shape, [(id(x), x) for x in m])


# --- matrices with symbolic zero pattern
def h_pattern(env, api, cfg):
    import sympy
    n, m = cfg['shape']
    kw = dict(cfg['kw'])
    kind = cfg['kind']
    free = cfg.get('free')
    ent = {}
    for i in range(n):
        for j in range(m):
            k = i * m + j
            if free is None or k in free:
                nz = env.boolean('nz%d' % k)
            else:
                nz = (k * 7 + i) % 3 == 0
            ent[i, j] = entry(env, 'entry%d' % k, 'e%d_%d' % (i, j), nz)
    M = sympy.Matrix(n, m, lambda i, j: ent[i, j])
    out = call_printer(env, api, kind, M, 'kb', kw)
    env.check('a string is returned', text.is_str(out))
    env.check('the matrix is as it was', M.shape == (n, m))
    for k in ent:
        e = M[k]
        env.check('the matrix is as it was', e is ent[k] or (not ent[k] and e == 0) or not env.symbolic and e == ent[k])
    zero = {k: (not e) for k, e in ent.items()}
    txts = {k: 'e%d_%d' % k for k in ent if not zero[k]}
    v = Values(env)
    env.record('text', out)
    prog = check_print(env, kind, out, 'kb', (n, m), txts, kw, v)
    if kw.get('header'):
        env.check('the header comes first', split_lines(text.chars(out))[0] == tuple(kw['header']))


# --- entries with symbolic text
def h_text(env, api, cfg):
    import sympy
    kw = dict(cfg['kw'], print_file=False)
    s = [build(env, t, 't%d' % i) for i, t in enumerate(cfg['texts'])]
    n = len(s)
    M = sympy.Matrix(1, n, [entry(env, 'entry%d' % i, t, True) for i, t in enumerate(s)])
    v = Values(env)
    reference(v, s)
    out = getattr(api, cfg['kind'])(M, 'kb', **kw)
    env.check('a string is returned', text.is_str(out))
    env.record('text', out)
    check_print(env, cfg['kind'], out, 'kb', (1, n), {(0, j): t for j, t in enumerate(s)}, kw, v)


# --- matrices of sympy expressions, for all values of their symbols
MATRICES = {
    'mixed': '[[x**2*E + y, 0, -3*x], [x/(y + 1), sqrt(E)*x**3, 0], [0, 2*x*y**4 - E**2/7, 1]]',
    'functions': '[[sin(x)**2 + cos(x*y)**3, f(x, y**2)], [exp(-x)*y**2, x**y + (x + y)**-2]]',
    'element': '[[E*(x*x + y*y)*(x - y)**2/2, E*x*y*(x - y), 0, -E*(x*x + y*y)*(x - y)**2/2],'
               ' [E*x*y*(x - y), E*(x + y)**3, E*(x*x + y*y), 0], [0, E*(x*x + y*y), (x - y)**2*(x + y)**3, E*x],'
               ' [-E*(x*x + y*y)*(x - y)**2/2, 0, E*x, (x + y)**2]]',
    'long': '[[(x + y)**2*(x + E)**2*(y + E)**3, (x + y)*(x*y + E)**2 + sin(x + y)*cos(x*y + E)*exp(x + E), '
            '(x*y + E)*(y + E)*(x*E - y)**2], [(x*E - y)**3*(x - y)**2 + (y*E - x)**2, (x - y)*(y*E - x)*(x - y + E)**2,'
            ' (x - y + E)*(x + y - E)**2*(x + y + E)**2], [(x + y - E)**2 + (x + y + E)*(x*y*E + 1)**2, sin(x*y*E + 1)*(x + y)**3'
            ' + tan(x - E)*log(y - E), (x - E)**2*(y - E)**2*(x**2 + y**2)*(x**2 - y**2) + f(x**2 + y**2, x**2 - y**2)]]',
    'clash': '[[x0*(x + y) + sin(x + y), (x + y)**2], [x1/(x + y), x0*x1]]',
    'row': '[[x, 0, x**2, -x**-3, 1 + x]]',
    'column': '[[x], [0], [(x + y)**2], [(x + y)**3], [-1], [y*(x + y)]]',
    'zero': '[[0, 0], [0, 0]]',
    'numbers': '[[1, -2, Rational(1, 2)], [0, x, 1.5*x**2]]',
    'six': '[[A11*x**2*y, 0, B11*x, 0, A11*y, 0], [0, A66*y, 0, B66*x**2, 0, 1], [B11*x, 0, D11*x**3, 0, D12, 0],'
           ' [0, B66*x**2, 0, D66, 0, -x], [A11*y, 0, D12, 0, A11, 0], [0, 1, 0, -x, 0, D11 + D66]]',
    'negative': '[[-x**2, -(x + y)**2, 2**x], [x**-1, x**-2*y**2, (x*y)**(-2)], [x**Rational(3, 2), x**Rational(-1, 2), (x + 1)**(y + 1)]]',
}
SUBS = {'none': None, 'rename': '{x: a, y: bb}', 'product': '{x*y: z, E: E1}', 'swap': '{x: y, y: x2}', 'value': '{y: 2}',
        'expression': '{x: a + b, E: Q**2}', 'vanish': '{y: x, E: 3}'}
COLLECT = {'x': '[x]', 'xy': '[x, y]', 'E': '[E, x**2]', 'none of them': '[zz]'}


def concrete_matrix(name):
    import sympy
    ns = {k: getattr(sympy, k) for k in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'Rational')}
    ns['f'] = sympy.Function('f')
    for k in 'x y z E a b bb Q E1 x0 x1 x2 zz A11 A66 B11 B66 D11 D12 D66'.split():
        ns[k] = sympy.Symbol(k)
    return sympy.Matrix(eval(MATRICES[name], ns)), ns


def h_expr(env, api, cfg):
    import sympy
    M, ns = concrete_matrix(cfg['matrix'])
    kw = dict(cfg['kw'])
    subs = eval(SUBS[cfg['subs']], ns) if cfg.get('subs') else None
    if subs is not None:
        kw['subs'] = subs
    if cfg.get('collect'):
        kw['collect_for'] = eval(COLLECT[cfg['collect']], ns)
    given = None if subs is None else dict(subs)
    before = M.copy()
    out = call_printer(env, api, cfg['kind'], M, 'kb', kw)
    env.check('the matrix is as it was', M == before and M.shape == before.shape)
    env.check('the substitutions are as they were', subs == given)
    after = {}
    n, m = M.shape
    for i in range(n):
        for j in range(m):
            if before[i, j] != 0:
                e = before[i, j]
                after[i, j] = str(e.subs(subs) if subs else e)
    v = Values(env)
    prog = check_print(env, cfg['kind'], out, 'kb', (n, m), after, kw, v)
    if subs:
        used = set()
        for k, e in after.items():
            if not (kw.get('is_symmetric') and k[0] > k[1]):
                used |= {str(s) for s in sympy.sympify(before[k]).subs(subs).free_symbols}
        said = [re.sub(r'\s', '', c) for c in prog.comments]
        for k, val in subs.items():
            if isinstance(val, sympy.Symbol) and str(val) in used:
                env.check('the substitution of %s is told' % k, re.sub(r'\s', '', '#%s=%s' % (val, k)) in said)
    if kw.get('header'):
        env.check('the header is printed', kw['header'] in out.split('\n'))


FAMILY = {'pattern': h_pattern, 'text': h_text, 'expr': h_expr}


def print_name(c):
    kw = ' '.join('%s=%s' % kv for kv in sorted(c['kw'].items()))
    if c['fam'] == 'pattern':
        return '%s %dx%d %s%s' % (c['kind'], c['shape'][0], c['shape'][1], kw, '' if c.get('free') is None else
                                  ' some zeros fixed %s' % c['free'])
    if c['fam'] == 'text':
        return '%s %s %s' % (c['kind'], '; '.join(c['texts']), kw)
    return '%s %s subs=%s collect=%s %s' % (c['kind'], c['matrix'], c.get('subs'), c.get('collect'), kw)


def pattern_cfgs(kinds, tier, rng):
    out = []
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]
    big = [(3, 3), (2, 4), (4, 2)]
    for kind in kinds:
        if kind == 'array':
            opts = [dict(order=o, op=op) for o in 'CF' for op in ('+=', '=', '-=')] + [dict(), dict(header='# head', sufix='el'),
                                                                                     dict(pow_by_mul=False, order='F', op='*=')]
        else:
            opts = [dict(), dict(dofpernode=2), dict(dofpernode=1), dict(dofpernode=3), dict(pow_by_mul=False), dict(header='# head')]
            if kind == 'sparse':
                opts += [dict(is_symmetric=True), dict(is_symmetric=True, dofpernode=2), dict(is_symmetric=True, dofpernode=1),
                         dict(is_symmetric=True, dofpernode=3), dict(sufix='el'), dict(header='# head', is_symmetric=True, dofpernode=2)]
        for kw in opts:
            for sh in shapes:
                pf = (len(out) % 7 == 0)
                out.append(dict(fam='pattern', kind=kind, shape=list(sh), kw=dict(kw, print_file=pf)))
            for sh in big if tier == 'thorough' else big[:1] if kw in opts[:4] or kw.get('is_symmetric') else []:
                out.append(dict(fam='pattern', kind=kind, shape=list(sh), kw=dict(kw, print_file=False)))
            # larger matrices, with some of the zeros fixed
            for sh in ([(4, 4), (6, 6), (5, 3), (3, 7), (12, 12), (18, 18), (1, 130)] if tier == 'thorough' else [(6, 6), (4, 5)] +
                       ([(12, 12)] if kw in opts[:3] else [])):
                free = sorted(rng.sample(range(sh[0] * sh[1]), 7 if tier == 'thorough' else 5))
                out.append(dict(fam='pattern', kind=kind, shape=list(sh), free=free, kw=dict(kw, print_file=False)))
    return out


def text_cfgs(kinds, tier, rng):
    out = []
    sk = [b + e for b in BASES for e in EXPS] + PAIRS + POWS
    n = 26 if tier == 'quick' else 150
    for kind in kinds:
        for i, s in enumerate(rng.sample([s for s in sk if count_forks(s) <= 64], n)):
            kw = dict(pow_by_mul=True) if i % 4 else dict() if i % 8 else dict(pow_by_mul=False)
            out.append(dict(fam='text', kind=kind, texts=[s], kw=kw))
        for i in range(8 if tier == 'quick' else 40):
            a, b = rng.sample([s for s in sk if count_forks(s) <= 8], 2)
            out.append(dict(fam='text', kind=kind, texts=[a, b], kw=dict(pow_by_mul=bool(i % 4))))
    return out


def expr_cfgs(kinds, tier, rng):
    out = []
    for kind in kinds:
        base = [dict()]
        if kind == 'array':
            base = [dict(), dict(order='F'), dict(use_cse=True), dict(use_cse=True, order='F', op='='), dict(use_cse=True, pow_by_mul=False),
                    dict(order='F', op='-=', pow_by_mul=False), dict(use_cse=True, header='# head', sufix='el')]
        else:
            base = [dict(), dict(pow_by_mul=False), dict(dofpernode=2), dict(dofpernode=3, header='# head')]
            if kind == 'sparse':
                base += [dict(is_symmetric=True), dict(is_symmetric=True, dofpernode=2), dict(sufix='el', header='# head')]
        for mname in MATRICES:
            for kw in base:
                subs = [None] if kind == 'array' else [None] + [s for s in SUBS if s != 'none']
                for s in subs:
                    for c in [None] + list(COLLECT):
                        out.append(dict(fam='expr', kind=kind, matrix=mname, subs=s, collect=c, kw=dict(kw, print_file=len(out) % 5 == 0)))
    if tier == 'quick':
        keep = [c for c in out if not c['subs'] and not c['collect']]
        rest = [c for c in out if c['subs'] or c['collect']]
        out = keep + rng.sample(rest, min(len(rest), 160))
    return out


def print_cfgs(kinds):
    def f(tier, seed):
        rng = random.Random(23)
        out = pattern_cfgs(kinds, tier, rng) + text_cfgs(kinds, tier, rng) + expr_cfgs(kinds, tier, rng)
        return out
    return f


PRINT_BOUNDS = ('every zero pattern of matrices up to 3x3 (thorough: 2x4, 4x2), and of 5 to 7 of the entries of larger matrices; entries with '
                'symbolic text from the templates of C22; %d matrices of sympy expressions for all values of their symbols, with subs, '
                'collect_for, dofpernode 1 to 3, is_symmetric, sufix, header, order, op, use_cse' % len(MATRICES))
PRINT_OPTS = dict(ints=True, config_s=240, max_paths=20000)


@register('C23', print_cfgs(['dense', 'sparse']), modules='print', opts=PRINT_OPTS, bounds=PRINT_BOUNDS,
          assumptions=[REAL, 'exact arithmetic', 'sympy.subs and sympy.collect are executed, not encoded'], name=print_name)
def c23(env, api, cfg):
    FAMILY[cfg['fam']](env, api, cfg)


@register('C24', print_cfgs(['array']), modules='print', opts=PRINT_OPTS, bounds=PRINT_BOUNDS,
          assumptions=[REAL, 'exact arithmetic', 'sympy.cse and sympy.collect are executed, not encoded'], name=print_name)
def c24(env, api, cfg):
    FAMILY[cfg['fam']](env, api, cfg)
