"""C21: the MicroXPath grammar. The token rules and productions are taken from the source, the LALR(1) automaton which PLY
builds from them (with its conflict resolution by precedence) is computed here, and for every expression of a bounded
family the tree it produces - the actions are interpreted abstractly - is compared with the tree of a reference parser."""
import inspect
import itertools
import os
import re
from engine import lazy, report, regexset
from engine.vm import AnalysisBroken, Fn, Ref, OList
from engine.report import V
import re._parser as _p
import re._constants as _c

XA = ('binary_expression', 'unary_expression', 'predicated_expression', 'absolute_path', 'step', 'name_test', 'node_type_test', 'abbreviated_step',
      'variable_reference', 'function_call', 'Sequence', 'literal_wrapper')


class Skip(Exception):
    pass


# ------------------------------------------------------------- grammar
def productions(fns):
    """[(lhs, rhs, prec name or None, Fn)] in the order PLY takes them"""
    out = []
    for fn in sorted(fns, key=lambda f: f.code.co.co_firstlineno):
        doc = fn.code.co.co_consts[0] if fn.code.co.co_consts and isinstance(fn.code.co.co_consts[0], str) else None
        if not doc:
            continue
        lhs = None
        for ln in doc.splitlines():
            p = ln.split()
            if not p:
                continue
            if p[0] == '|':
                syms = p[1:]
            else:
                if len(p) < 2 or p[1] not in (':', '::='):
                    raise Skip('grammar rule not understood: %s' % ln)
                lhs = p[0]
                syms = p[2:]
            prec = None
            if '%prec' in syms:
                i = syms.index('%prec')
                prec = syms[i + 1]
                syms = syms[:i]
            if any(s[0] in '\'"' for s in syms):
                raise Skip('literal token in grammar')
            out.append((lhs, tuple(syms), prec, fn))
    return out


class LALR:
    def __init__(self, prods, precedence):
        self.prods = [("S'", (prods[0][0],), None, None)] + prods
        self.nt = {p[0] for p in self.prods}
        self.by = {}
        for i, p in enumerate(self.prods):
            self.by.setdefault(p[0], []).append(i)
        self.prec = {}
        for lev, p in enumerate(precedence):
            for t in p[1:]:
                self.prec[t] = (p[0], lev + 1)
        self.firsts()
        self.build()

    def prodprec(self, i):
        lhs, rhs, prec, fn = self.prods[i]
        if prec is None:
            ts = [s for s in rhs if s not in self.nt]
            prec = ts[-1] if ts else None
        return self.prec.get(prec, ('right', 0))

    def firsts(self):
        self.first = {n: set() for n in self.nt}
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for lhs, rhs, _, _ in self.prods:
                n = (len(self.first[lhs]), len(self.nullable))
                for s in rhs:
                    self.first[lhs] |= self.first[s] if s in self.nt else {s}
                    if s not in self.nullable:
                        break
                else:
                    self.nullable.add(lhs)
                ch |= n != (len(self.first[lhs]), len(self.nullable))

    def first_of(self, syms, la):
        out = set()
        for s in syms:
            out |= self.first[s] if s in self.nt else {s}
            if s not in self.nullable:
                return out
        return out | la

    def closure(self, items):
        items = {k: set(v) for k, v in items.items()}
        work = list(items)
        while work:
            i, d = k = work.pop()
            rhs = self.prods[i][1]
            if d < len(rhs) and rhs[d] in self.nt:
                la = self.first_of(rhs[d + 1:], items[k])
                for j in self.by[rhs[d]]:
                    o = items.setdefault((j, 0), set())
                    if not la <= o or not o and (j, 0) not in work:
                        o |= la
                        work.append((j, 0))
        return items

    def build(self):
        start = {(0, 0): {'$end'}}
        self.kernels = [start]
        idx = {frozenset(start): 0}
        self.goto = {}
        work = [0]
        while work:
            n = work.pop()
            cl = self.closure(self.kernels[n])
            nxt = {}
            for (i, d), la in cl.items():
                rhs = self.prods[i][1]
                if d < len(rhs):
                    nxt.setdefault(rhs[d], {}).setdefault((i, d + 1), set()).update(la)
            for s, k in nxt.items():
                core = frozenset(k)
                if core not in idx:
                    idx[core] = len(self.kernels)
                    self.kernels.append(k)
                    work.append(idx[core])
                else:
                    old = self.kernels[idx[core]]
                    grew = False
                    for it, la in k.items():
                        if not la <= old[it]:
                            old[it] |= la
                            grew = True
                    if grew:
                        work.append(idx[core])
                self.goto[n, s] = idx[core]
        self.action = []
        self.conflicts = 0
        for n, k in enumerate(self.kernels):
            act = {}
            cl = self.closure(k)
            for (i, d), la in cl.items():
                rhs = self.prods[i][1]
                if d == len(rhs):
                    for t in la:
                        if i == 0:
                            act[t] = ('acc', 0)
                        elif t in act and act[t][0] == 'red':
                            self.conflicts += 1
                            if i < act[t][1]:
                                act[t] = ('red', i)
                        elif t not in act or act[t][0] != 'acc':
                            act[t] = ('red', i)
            shifts = {self.prods[i][1][d] for (i, d) in cl if d < len(self.prods[i][1]) and self.prods[i][1][d] not in self.nt}
            for t in shifts:
                if t in act and act[t][0] == 'red':
                    self.conflicts += 1
                    sp, sl = self.prec.get(t, ('right', 0))
                    rp, rl = self.prodprec(act[t][1])
                    if sl < rl or (sl == rl and rp == 'left'):
                        continue
                    if sl == rl and rp == 'nonassoc':
                        del act[t]
                        continue
                act[t] = ('shift', self.goto[n, t])
            self.action.append(act)

    def parse(self, toks):
        """[(type, value)] -> postfix program, or index of the offending token"""
        st = [0]
        out = []
        i = 0
        toks = list(toks) + [('$end', None)]
        while True:
            a = self.action[st[-1]].get(toks[i][0])
            if a is None:
                return i
            if a[0] == 'acc':
                return tuple(out)
            if a[0] == 'shift':
                out.append((None, 0, toks[i][1]))
                st.append(a[1])
                i += 1
            else:
                lhs, rhs, _, fn = self.prods[a[1]]
                if rhs:
                    del st[-len(rhs):]
                out.append((fn, len(rhs), None))
                st.append(self.goto[st[-1], lhs])


# ------------------------------------------------------------- reference
KEY = ('or', 'and', 'div', 'mod')
LEVELS = (('or',), ('and',), ('=', '!='), ('<', '<=', '>', '>='), ('+', '-'), ('div', 'mod'))
AXES = ('self', 'attribute', 'ancestor', 'ancestor-or-self', 'child', 'descendant', 'descendant-or-self', 'following', 'following-sibling', 'parent', 'preceding', 'preceding-sibling')


class Ref_:
    """recursive descent parser of MicroXPath over lexemes"""

    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.take(x):
            raise ValueError('%s expected at %d of %s' % (x, self.i, self.t))

    def name(self, k=0):
        x = self.peek(k)
        return x is not None and (x[0].isalpha() or x[0] == '_')

    def whole(self):
        e = self.binary(0)
        if self.i != len(self.t):
            raise ValueError('rest')
        return e

    def binary(self, lev):
        if lev == len(LEVELS):
            return self.unary()
        l = self.binary(lev + 1)
        while self.peek() in LEVELS[lev]:
            op = self.peek()
            self.i += 1
            l = ('bin', op, l, self.binary(lev + 1))
        return l

    def unary(self):
        if self.take('-'):
            return ('neg', self.unary())
        l = self.postfix()
        while self.take('|'):
            l = ('bin', '|', l, self.postfix())
        return l

    def postfix(self):
        e = self.primary()
        while self.peek() in ('/', '//', '['):
            if self.peek() == '[':
                ps = ()
                while self.take('['):
                    ps += (self.binary(0),)
                    self.need(']')
                e = ('pred', e, ps)
            else:
                op = self.peek()
                self.i += 1
                e = (e if e[0] == 'path' else ('path', e)) + (op, self.step())
        return e

    def stepstart(self):
        x = self.peek()
        if x in ('.', '..', '@', '*'):
            return True
        if not self.name():
            return False
        return self.peek(1) != '(' or x in ('text', 'node')

    def step(self):
        x = self.peek()
        if x in ('.', '..'):
            self.i += 1
            return ('abbr', x)
        axis = 'child'
        if self.take('@'):
            axis = 'attribute'
        elif self.name() and self.peek(1) == '::':
            axis = x
            if x not in AXES:
                raise ValueError('axis')
            self.i += 2
        x = self.peek()
        if x == '*':
            self.i += 1
            return ('step', axis, ('name', '*'))
        if not self.name():
            raise ValueError('step')
        self.i += 1
        if self.take('('):
            if x not in ('text', 'node'):
                raise ValueError('node test')
            self.need(')')
            return ('step', axis, ('type', x))
        return ('step', axis, ('name', x))

    def primary(self):
        x = self.peek()
        if x in ('/', '//'):
            self.i += 1
            if x == '/' and not self.stepstart():
                return ('abs', '/', None)
            return ('abs', x, self.step())
        if x == '(':
            self.i += 1
            l = ()
            if not self.take(')'):
                l = (self.binary(0),)
                while self.take(','):
                    l += (self.binary(0),)
                self.need(')')
            return ('seq', l)
        if x == '$':
            self.i += 2
            return ('var', self.t[self.i - 1])
        if x[0] in '"\'':
            self.i += 1
            return ('lit', x[1:-1])
        if x[0].isdigit() or x[0] == '.' and len(x) > 1 and x[1].isdigit():
            self.i += 1
            return ('lit', float(x) if '.' in x else int(x))
        if self.stepstart():
            return self.step()
        if self.name():
            self.i += 2
            l = ()
            if not self.take(')'):
                l = (self.binary(0),)
                while self.take(','):
                    l += (self.binary(0),)
                self.need(')')
            return ('call', x, l)
        raise ValueError('primary')


def shape(e):
    """same normal form as describe() of the driver: nested paths flat, absolute first step"""
    if e[0] == 'seq':
        return ('seq', tuple(shape(x) for x in e[1]))
    if e[0] == 'call':
        return ('call', e[1], tuple(shape(x) for x in e[2]))
    if e[0] == 'bin':
        return ('bin', e[1], shape(e[2]), shape(e[3]))
    if e[0] == 'neg':
        return ('neg', shape(e[1]))
    if e[0] == 'pred':
        return ('pred', shape(e[1]), tuple(shape(x) for x in e[2]))
    if e[0] == 'path':
        return ('path',) + tuple(x if type(x) is str else shape(x) for x in e[1:])
    return e


# ------------------------------------------------------------- sentences
BIN = (['or'], ['and'], ['='], ['<'], ['+'], ['-'], ['div'], ['|'])
BINALL = BIN + (['!='], ['<='], ['>='], ['>'], ['mod'])
ATOMS = [['a'], ['*'], ['.'], ['..'], ['@', 'a'], ['@', '*'], ['self', '::', 'a'], ['ancestor-or-self', '::', '*'], ['attribute', '::', 'a'], ['text', '(', ')'], ['node', '(', ')'],
         ['parent', '::', 'node', '(', ')'], ['@', 'node', '(', ')'], ['/'], ['/', 'a'], ['//', 'a'], ['/', 'text', '(', ')'], ['//', '@', 'a'], ['/', '.'], ['"x y"'], ["'x'"], ['""'], ["''"], ['" x "'], ["\"'x'\""], ["'x\"'"], ['"a/b[1] or ("'], ['1'], ['10'], ['042'], ['2.5'], ['.5'], ['3.'], ['10.25'], ['007.50'], ['.00001'], ['100000000000000000000.0'],
         ['$', 'v'], ['$', 'or'], ['f', '(', ')'], ['f', '(', 'a', ')'], ['f', '(', 'a', ',', '"s"', ')'], ['f', '(', 'a', ',', '1', ',', '.', ')'], ['(', ')'], ['(', 'a', ')'],
         ['(', 'a', ',', '1', ')'], ['(', 'a', ',', 'b', ',', '()', ')'], ['or'], ['and'], ['div'], ['mod'], ['div', '(', ')'], ['or', '(', 'a', ')'], ['@', 'mod'], ['child', '::', 'and'],
         ['a-b.c'], ['_x1'], ['string-length', '(', ')'], ['f', '(', 'a', 'or', 'b', ')'], ['(', 'a', '|', 'b', ')'], ['f', '(', 'f', '(', 'a', ')', ',', '-', '1', ')']]
ATOMS = [[y for x in a for y in (('(', ')') if x == '()' else (x,))] for a in ATOMS]
POST = [['[', 'p', ']'], ['/', 'b'], ['//', 'b']]
POST2 = POST + [['/', '..'], ['/', '@', 'b'], ['//', '*'], ['/', 'text', '(', ')'], ['//', 'node', '(', ')'], ['/', 'descendant', '::', 'b'], ['[', '1', ']'], ['[', '@', 'a', '=', '"x"', ']'],
                ['[', 'a', 'or', 'b', ']'], ['[', 'text', '(', ')', ']'], ['/', 'or'], ['//', 'self', '::', 'div'], ['[', 'a', '[', 'b', ']', ']'], ['[', '(', 'a', ',', 'b', ')', ']'], ['[', 'f', '(', ')', ']']]


def sentences(deep):
    seen = set()

    def put(t):
        t = tuple(t)
        if t not in seen:
            seen.add(t)
            return True
    a, b, c, d = (['a'], ['b'], ['c'], ['d'])
    # operators of each level against each other
    for x in ATOMS:
        put(x)
        put(['-'] + x)
        for p in POST2:
            put(x + p)
    for x in ATOMS:
        for o in BIN:
            put(x + o + b)
            put(b + o + x)
        for p in POST:
            for o in BIN[:2] + BIN[6:]:
                put(b + o + x + p)
    for o1 in BINALL:
        for o2 in BINALL:
            put(a + o1 + b + o2 + c)
            put(['-'] + a + o1 + b + o2 + c)
            put(a + o1 + ['-'] + b + o2 + c)
            put(a + o1 + ['(', 'b'] + o2 + ['c', ')'])
            put(['(', 'a'] + o1 + ['b', ')'] + o2 + c)
            put(['f', '(', 'a'] + o1 + ['b', ',', 'c'] + o2 + ['d', ')'])
            put(a + ['['] + b + o1 + c + [']'] + o2 + d)
    for o1 in BIN:
        for o2 in BIN:
            for p in POST:
                put(a + p + o1 + b + o2 + c)
                put(a + o1 + b + p + o2 + c)
                put(a + o1 + b + o2 + c + p)
                put(['/'] + a + o1 + ['//', 'b'] + o2 + c + p)
            for o3 in BIN:
                put(a + o1 + b + o2 + c + o3 + d)
    for p, q in itertools.product(POST2, POST2):
        put(a + p + q)
        put(['f', '(', ')'] + p + q)
        put(['//', 'a'] + p + q)
        put(['('] + a + p + [')'] + q)
        put(['1', '='] + a + p + q)
    for p, q, r in itertools.product(POST, POST, POST):
        for x in (a, ['/', 'a'], ['(', 'a', ')'], ['$', 'v']):
            put(x + p + q + r)
            put(['-'] + x + p + q + r + ['+', '1'])
    # longer lists, deeper nesting
    LONG = [['1'], ['"s"'], a, ['/'], ['@', 'b'], ['f', '(', ')'], ['$', 'v'], a + ['+'] + b, a + ['[', '1', ']'], ['(', ')'], ['-', '1'], ['2.5'], a + ['or'] + b, a + ['/'] + b]
    for i, x in enumerate(LONG):
        l = [LONG[(i + j) % len(LONG)] for j in range(5)]
        for n in (3, 4, 5):
            inner = [t for y in l[:n] for t in y + [',']][:-1]
            put(['('] + inner + [')'])
            put(['f', '('] + inner + [')'])
            put(a + [t for y in l[:n] for t in ['['] + y + [']']])
            put(['f', '(', 'g', '('] + inner + [')', ',', '('] + inner + [')', ')'])
        put(['-', '-'] + x)
        put(['-', '-', '-'] + x)
        put(['(', '('] + x + [')', ')'])
        put(a + ['[', 'b', '[', 'c', '[', 'd', '['] + x + [']', ']', ']', ']'])
    for o in BINALL:
        put(a + o + b + o + c + o + d + o + ['e'])
        put(['(', 'a'] + o + ['(', 'b'] + o + ['(', 'c'] + o + ['d', ')', ')', ')'])
    for o in (['/'], ['//']):
        for q in (['/'], ['//']):
            put(a + o + b + q + c + o + d + q + ['e'])
            put(['//'] + a + o + ['..'] + q + ['@', 'c'] + ['|', '/'] + d + q + ['e', '[', '1', ']'])
    if deep:
        for x, y in itertools.product(ATOMS, ATOMS):
            for o in BIN:
                put(x + o + y)
        for p, q, r in itertools.product(POST2, POST2, POST2):
            put(a + p + q + r)
        for o1, o2, o3 in itertools.product(BIN, BIN, BIN):
            for p in POST:
                put(a + o1 + b + p + o2 + c + o3 + d)
                put(['-'] + a + o1 + b + o2 + ['-'] + c + p + o3 + d)
    out = []
    for t in seen:
        # '/' and '//' alone before something that could be a step: not what is meant
        try:
            out.append((t, shape(Ref_(t).whole())))
        except (ValueError, IndexError, TypeError):
            pass
    return sorted(out, key=lambda x: (len(x[0]), x[0]))


REST = [['a'], ['@', 'a'], ['/', 'a'], ['//', 'a', '/', 'b'], ['a', '[', 'b', ']'], ['f', '(', 'a', ',', 'b', ')'], ['(', 'a', ',', '1', ')'], ['a', 'or', 'b'], ['-', 'a', '+', 'b'], ['a', '=', '"x"'],
        ['$', 'v'], ['child', '::', 'a'], ['a', '|', 'b'], ['.', '/', '..'], ['*', '[', '1', ']', '/', 'text', '(', ')'], ['2.5', 'div', '$', 'x']]
EXTRA = ['a', ')', '(', '[', ']', ',', '@', '::', '$', '=', '|', '/', '//', '1', '"s"', '+', 'or', '..']


def wrong():
    """token lists that are no expressions: one token left out, doubled, put in or replaced"""
    seen = set()
    for t in REST:
        for i in range(len(t) + 1):
            if i < len(t):
                seen.add(tuple(t[:i] + t[i + 1:]))
            for x in EXTRA:
                seen.add(tuple(t[:i] + [x] + t[i:]))
                if i < len(t):
                    seen.add(tuple(t[:i] + [x] + t[i + 1:]))
    for x in ('f', 'namespace', 'Child', 'sibling', 'or', 'text'):
        seen |= {(x, '::', 'a'), ('/', 'a', '/', x, '::', '*'), ('a', '[', x, '::', 'b', ']')}
    for x in ('f', 'comment', 'position'):
        seen |= {('child', '::', x, '(', ')'), ('@', x, '(', ')'), ('/', x, '(', ')'), ('a', '/', x, '(', ')'), ('a', '//', x, '(', 'b', ')')}
    out = []
    for t in sorted(seen):
        z = tuple(zip(t, t[1:]))
        # not claimed: / before a name like an operator, arguments of text() and node()
        if not t or any(x in ('/', '//') and y in KEY or x in ('text', 'node') and y == '(' for x, y in z):
            continue
        try:
            Ref_(t).whole()
        except (ValueError, IndexError, TypeError):
            out.append(t)
    return out


def texts(toks):
    """the expression written with blanks everywhere, and with as few as possible"""
    yield ' '.join(toks)
    s = toks[0]
    for x, y in zip(toks, toks[1:]):
        w = lambda c: c.isalnum() or c in '_-.' or ord(c) > 127
        if (w(x[-1]) and w(y[0])) or (x[-1] in '/<>!.:' and y[0] in '/=.:') or (x == '-' and False):
            s += ' '
        s += y
    yield s
    yield '\t' + '\n'.join(toks) + ' '


# ------------------------------------------------------------- lexer
def name_classes(pat):
    """(first characters, further characters) of a pattern of the form X(Y)*"""
    t = list(_p.parse(pat))
    while len(t) == 1 and t[0][0] is _c.SUBPATTERN:
        t = list(t[0][1][-1])
    if len(t) == 2 and t[1][0] in (_c.MAX_REPEAT,) and t[1][1][0] == 0 and t[1][1][1] is _c.MAXREPEAT:
        return regexset._node(*t[0]), regexset._seq(t[1][1][2])
    return None, None


NAMESTART = regexset.norm([(ord('A'), ord('Z')), (95, 95), (ord('a'), ord('z')), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D),
                           (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)])
NAMECHAR = regexset.union(NAMESTART, regexset.norm([(45, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]))


class Lexer:
    def __init__(self, ns, patterns, call):
        fn, st = [], []
        self.ignore = ''
        for k, v in ns.items():
            if k == 't_ignore':
                self.ignore = v
            elif k in ('t_error', 't_eof') or not k.startswith('t_'):
                continue
            elif k.startswith('t_ignore_') or k.startswith('t_ANY') or '_' in k[2:] and k[2:] not in self.tokens(ns):
                raise Skip('token rule %s not understood' % k)
            elif type(v) is Fn:
                pat = patterns.get(v.code)
                if pat is None:
                    co = v.code.co
                    pat = co.co_consts[0] if co.co_consts and isinstance(co.co_consts[0], str) else None
                if not isinstance(pat, str):
                    raise Skip('pattern of %s not known' % k)
                fn.append((v.code.co.co_firstlineno, k[2:], pat, v))
            elif isinstance(v, str):
                st.append((k[2:], v))
            else:
                raise Skip('token rule %s not understood' % k)
        fn.sort(key=lambda x: x[0])
        st.sort(key=lambda x: -len(x[1]))
        self.rules = [(n, p, f) for _, n, p, f in fn] + [(n, p, None) for n, p in st]
        self.re = [re.compile(p) for n, p, f in self.rules]
        self.call = call
        self.cache = {}

    def tokens(self, ns):
        return self.names if hasattr(self, 'names') else ()

    def __call__(self, text):
        out = []
        i = 0
        while i < len(text):
            if text[i] in self.ignore:
                i += 1
                continue
            for (n, p, f), r in zip(self.rules, self.re):
                m = r.match(text, i)
                if m and m.end() > i:
                    break
            else:
                return None
            v = m.group()
            if f is None:
                out.append((n, v))
            else:
                k = (n, v)
                if k not in self.cache:
                    self.cache[k] = self.call(f, n, v)
                if self.cache[k] is not None:
                    out.append(self.cache[k])
            i = m.end()
        return out


def chunk(a):
    repo, part, parts, deep, pid = a
    d = lazy.Driver(repo, 1, budget=600)
    vm = d.vm
    got = []
    vm.natives['__emit__'] = lambda vm, st, v: got.append((v,)) if st.taint is None else None
    src = open(os.path.join(report.HERE, 'drivers', 'gram.pysrc')).read()
    d.setup(src, {n: ('amara3.uxml.uxpath.xast', n) for n in XA + ('serialize',)})
    vm.initing = True
    lexmod = vm.base[vm.load_module('amara3.uxml.uxpath.lexrules').a].d
    pmod = vm.base[vm.load_module('amara3.uxml.uxpath.parserules').a].d
    vm.initing = False
    und = []
    viol = {}
    n = 0

    def call(f, kind, value):
        del got[:]
        d.run('token', f, kind, value)
        if d.viol:
            v = next(iter(d.viol.values()))
            d.viol = {}
            viol['lexer', kind, value] = V('lexer', kind, 'the action of token %s raises for %s: %s' % (kind, value, v.text), v.detail if hasattr(v, 'detail') else '')
            return None
        if len(got) != 1:
            raise Skip('token action %s not decided' % kind)
        return got[0][0]
    try:
        toks = pmod.get('tokens') or lexmod.get('tokens')
        prec = pmod.get('precedence', ())
        if type(prec) is Ref:
            prec = vm.base[prec.a].items
        prec = tuple(tuple(vm.base[x.a].items) if type(x) is Ref else x for x in prec)
        if not all(type(x) is tuple and all(isinstance(y, str) for y in x) for x in prec):
            raise Skip('precedence not understood')
        fns = [v for k, v in pmod.items() if k.startswith('p_') and k != 'p_error' and type(v) is Fn]
        prods = productions(fns)
        if not prods:
            raise Skip('no grammar rules found')
        names = vm.base[toks.a].items if type(toks) is Ref else toks
        Lexer.names = tuple(names)
        lexer = Lexer(lexmod, vm.token_patterns, call)
        nts = {p[0] for p in prods}
        for p in prods:
            for s in p[1]:
                if s not in nts and s not in names:
                    raise Skip('symbol %s is neither token nor nonterminal' % s)
        start = pmod.get('start')
        if isinstance(start, str):
            prods.sort(key=lambda p: p[0] != start)
        g = LALR(prods, prec)
    except Skip as e:
        return {'viol': [], 'und': [str(e)], 'n': 0, 'prods': 0, 'states': 0, 'steps': vm.nsteps}
    if pid == 'C22':
        return again(d, got, lexer, g, part, parts, deep, prods)
    done = {}
    if part == 0:
        n += 1
        for nm, p, f in lexer.rules:
            if nm == 'NAME':
                a, b = name_classes(p)
                if a is None or b is None:
                    und.append('form of the name pattern not understood')
                else:
                    for x, y, w in ((a, NAMESTART, 'first character'), (b, NAMECHAR, 'further characters')):
                        if x != y:
                            viol['names', w] = V('lexer', 'names: ' + w, 'the %s of a name token differ from those of MicroXML names: missing %s, additional %s' % (
                                w, regexset.show(regexset.minus(y, x)), regexset.show(regexset.minus(x, y))), '')
        for nm, ns, key in (('parser', pmod, 'p_error'), ('lexer', lexmod, 't_error')):
            if type(ns.get(key)) is not Fn:
                und.append('no %s function found' % key)
                continue
            for kind in (None, 'NAME') if key == 'p_error' else ('error',):
                del got[:]
                d.run('erring', ns[key], kind)
                d.viol = {}
                if len(got) != 1:
                    und.append('%s not decided' % key)
                elif got[0][0] is not True:
                    viol[nm, kind] = V(nm, key, '%s returns normally when called with %s: what follows the error is guessed' % (key, 'None (end of input)' if kind is None else 'a token'), '')
    for k, lex in enumerate(wrong()):
        if k % parts != part:
            continue
        text = ' '.join(lex)
        n += 1
        try:
            ts = lexer(text)
        except Skip as e:
            und.append(str(e))
            continue
        prog = g.parse(ts) if ts is not None else 0
        if isinstance(prog, int):
            continue
        del got[:]
        d.run('build', prog)
        if d.viol:
            d.viol = {}
        elif len(got) != 1:
            und.append('reductions of %s not decided' % text)
        elif ('accepted', sign(lex)) not in viol:
            viol['accepted', sign(lex)] = V('accepted', sign(lex), '%s is no expression but is parsed as %s' % (text, got[0][0]), 'tokens: %s' % (ts,))
    for k, (lex, want) in enumerate(sentences(deep)):
        if k % parts != part:
            continue
        for text in texts(lex):
            n += 1
            try:
                ts = lexer(text)
            except Skip as e:
                und.append(str(e))
                continue
            kinds = ' '.join(lex) if len(lex) < 12 else ' '.join(lex[:12]) + ' ...'

            def bad(rule, why):
                c = sign(lex)
                if (rule, c) not in viol and len(viol) < 200:
                    viol[rule, c] = V(rule, c, 'expression %s: %s' % (text, why), 'tokens: %s\nexpected: %s' % (ts, want))
            if ts is None:
                bad('lexer', 'contains a character which no token rule matches')
                continue
            prog = g.parse(ts)
            if isinstance(prog, int):
                bad('syntax', 'a syntax error is reported at token %d (%s)' % (prog + 1, ts[prog][1] if prog < len(ts) else 'end'))
                continue
            if done.get(prog) == want:
                continue
            done[prog] = want
            del got[:]
            v0 = dict(d.viol)
            u0 = dict(vm.inconclusive)
            d.run('build', prog)
            new = [v for q, v in d.viol.items() if q not in v0]
            d.viol = {}
            if new:
                bad('raises', new[0].text)
            elif len(got) != 1:
                und.append('reductions of %s not decided: %s' % (kinds, [x for x in vm.inconclusive if vm.inconclusive[x] != u0.get(x)]))
            elif 'other' in flat(got[0][0]):
                und.append('unknown kind of expression for %s' % kinds)
            elif typed(got[0][0]) != typed(want):
                bad('structure', 'parsed as %s instead of %s' % (got[0][0], want))
    return {'viol': list(viol.values()), 'und': und, 'n': n, 'prods': len(prods), 'states': len(g.kernels), 'steps': vm.nsteps}


def again(d, got, lexer, g, part, parts, deep, prods):
    """C22: what serialize() writes for an expression is parsed as the same expression"""
    viol, und, n, done = {}, [], 0, set()

    def tree(prog, fn):
        """(result, None) or (None, why)"""
        del got[:]
        d.viol = {}
        d.run(fn, prog)
        if d.viol:
            v = next(iter(d.viol.values()))
            d.viol = {}
            return None, v.text
        if len(got) != 1 or 'other' in flat(got[0][0]):
            raise Skip('not decided')
        return got[0][0], None

    def check(lex, text, prog):
        r, why = tree(prog, 'written')
        if r is None:
            if tree(prog, 'build')[0] is None:
                return          # C21
            return 'serialize() raises: %s' % why
        r, s = r
        if not isinstance(s, str):
            raise Skip('text not decided')
        ts = lexer(s)
        p2 = g.parse(ts) if ts is not None else 0
        if isinstance(p2, int):
            return 'serialize() gives %s, which is no expression' % s
        r2, why = tree(p2, 'build')
        if r2 is None:
            return 'serialize() gives %s, which is no expression: %s' % (s, why)
        if r2 != r:      # 3. and 3 are the same
            return 'serialize() gives %s, which is a different expression: %s instead of %s' % (s, r2, r)
    for k, (lex, want) in enumerate(sentences(deep)):
        z = tuple(zip(lex, lex[1:]))
        if k % parts != part or len(lex) > 7 and not deep or any(x in ('/', '//') and y in ('/', '//') for x, y in z):
            continue
        text = ' '.join(lex)
        try:
            ts = lexer(text)
            prog = g.parse(ts) if ts is not None else 0
            if isinstance(prog, int) or prog in done:
                continue
            done.add(prog)
            n += 1
            why = check(lex, text, prog)
        except Skip as e:
            und.append('%s: %s' % (text, e))
            continue
        if why is not None and len(viol) < 200:
            viol[text] = V('serialize', text, 'expression %s: %s' % (text, why), '')
    return {'viol': list(viol.values()), 'und': und, 'n': n, 'prods': len(prods), 'states': len(g.kernels), 'steps': d.vm.nsteps}


def typed(x):
    if type(x) is tuple:
        return tuple(typed(y) for y in x)
    return (type(x).__name__, x)


def flat(x):
    if type(x) is tuple:
        for y in x:
            yield from flat(y)
    else:
        yield x


def sign(lex):
    return ' '.join(lex)


def run(pid, repo, tier):
    import multiprocessing as mp
    with mp.Pool(8) as p:
        res = p.map(chunk, [(repo, i, 8, tier == 'thorough', pid) for i in range(8)], 1)
    viol, und = [], []
    for r in res:
        viol += r['viol']
        und += r['und']
    n = sum(r['n'] for r in res)
    if not n and not und:
        raise AnalysisBroken('no expression was analysed')
    cov = {'explanation': 'serialize() interpreted abstractly on the tree of each expression; its text run through the lexer and the LALR(1) automaton extracted from the source',
           'rule': 'the text which serialize() gives is parsed as an equal tree'} if pid == 'C22' else {}
    cov = {'explanation': 'LALR(1) automaton computed from the productions, precedences and token rules found in the source, its reductions interpreted abstractly, compared with a reference parser',
           'rule': 'tree of each expression equals that of the reference (operator precedence and associativity, steps, predicates, names which are operators, literals)',
           **cov, 'expressions': n, 'productions': res[0]['prods'], 'automaton_states': res[0]['states'], 'bytecode_steps': sum(r['steps'] for r in res)}
    viol.sort(key=lambda v: (len(v.construct.split()), v.construct))
    return {'violations': viol[:40], 'coverage': cov, 'undecided': sorted(set(und))[:20],
            'assumptions': ['PLY builds the LALR(1) automaton with its documented conflict resolution and token rule order', 'expressions of up to three operators, each kind of operand in each position']}
