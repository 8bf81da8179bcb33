"""Heap-shape domain: documents of unknown shape, materialised only where the code looks.

A driver (Python source, interpreted abstractly together with the analysed code) builds symbolic
nodes, calls the code and compares with a reference written in the driver.  Node lists are
`Rest` segments: nothing is known about them until somebody inspects them, then the state forks on
"no further item / an element / a text".  At most `K` nodes are materialised on one path (k-limiting);
paths beyond are cut and counted.
"""
import os
import time
from .vm import *
from .vm import MISSING, PUSHED
from . import vm as V
from .report import V as Violation


class Cut(Kill):
    def __init__(self):
        Kill.__init__(self, 'k-limit', False)


class Dom:
    """per-state harness data"""
    __slots__ = ('n', 'made', 'events', 'chain')

    def __init__(self, n=0, made=(), events=(), chain=None):
        self.n = n
        self.made = made
        self.events = events
        self.chain = chain          # states passed at loop heads on this path (not part of the state's identity)

    def copy(self):
        return Dom(self.n, self.made, self.events, self.chain)

    def canon(self, f):
        return (self.n, f(self.made), f(self.events))


class LazyHooks(Hooks):
    def __init__(self, vm, limit):
        self.vm = vm
        self.limit = limit
        self.templates = {}
        self.cut = 0
        self.width = None
        self.heads = set()
        self.on_loop = None
        self.expat = None

    def on_key(self, vm, st, key):
        h = hash(key)
        if h in self.heads:
            c = st.dom.chain
            while c:
                if c[0] == h:
                    self.on_loop(st)
                    return True
                c = c[1]
            return False
        self.heads.add(h)
        st.dom.chain = (h, st.dom.chain)
        return False

    # ------------------------------------------------------------ items
    def make_item(self, vm, st, seg, ref):
        kind = seg.src[0]
        if kind == 'kids':
            if st.dom.n >= self.limit:
                self.cut += 1
                raise Cut()
            ks = seg.src[2]
            k = vm.choose_from(st, ks, ['next child is a %s' % x for x in ks]) if len(ks) > 1 else ks[0]
            st.dom.n += 1
            r = self.clone(vm, st, k, seg.src[1])
            st.dom.made += (r,)
            return r
        if kind == 'attrs':
            if sum(1 for x in vm.get(st, ref).pairs if type(x) is tuple) >= seg.src[2] :
                self.cut += 1
                raise Cut()
            o = vm.get(st, ref)
            i = len([x for x in o.pairs if type(x) is tuple])
            k = AStr((Atom('aname%d' % i, seg.src[1], IDMAP),))
            st.facts[('nonempty', k.segs[0])] = True
            for p in o.pairs:
                if type(p) is tuple and type(p[0]) is AStr:
                    a, b = sorted((p[0].segs[0], k.segs[0]), key=repr)
                    st.facts[('streq2', a, b)] = False
            return (k, AStr((Atom('aval%d' % i, seg.src[1], IDMAP),)))
        if kind == 'strs':
            if st.dom.n >= self.limit:
                self.cut += 1
                raise Cut()
            st.dom.n += 1
            return AStr((Atom('item%d' % st.dom.n, seg.src[1], IDMAP),))
        raise Kill('unknown summary', True)

    def clone(self, vm, st, kind, parent):
        tref, pref = self.templates[kind]
        m = {pref.a: parent}

        def g(v):
            t = type(v)
            if t is Ref:
                if v.a in m:
                    return m[v.a]
                if v.a not in self.tmpl:
                    return v
                n = vm.alloc(st, None)
                m[v.a] = n
                o = self.tmpl[v.a]
                st.heap[n.a] = type(o)(*[g(getattr(o, x)) for x in o._f])
                return n
            if t is tuple:
                return tuple([g(x) for x in v])
            if t is dict:
                return {k: g(x) for k, x in v.items()}
            if isinstance(v, Rec):
                return type(v)(*[g(x) for x in v.tup()])
            return v
        r = g(tref)
        st.facts[('nonempty', Atom('name', r, IDMAP))] = True
        return r

    def on_call(self, vm, st, f, args, kwargs, mode):
        if type(f) is Opaque and self.expat is not None and f.name.endswith('expat.ParserCreate'):
            vm.call(st, self.expat, args, kwargs, mode)
            return PUSHED
        return None

    # ------------------------------------------------------------ strings
    def is_name(self, g):
        return type(g) is Atom and not g.map.items and (g.kind in ('name', 'newname', 'n') or g.kind.startswith(('aname', 'name:')))

    def lacks_char(self, g, c):
        return self.is_name(g) and not (c.isalnum() or c in '-._' or ord(c) > 127)

    def on_split(self, vm, st, x, a, k, how='split'):
        if type(x) is not AStr or k:
            return None
        rp = a and a[0] == '\0rpartition'
        if rp:
            a = a[1:]
        sep = a[0] if a else None
        n = a[1] if len(a) > 1 else -1
        if sep is not None and (type(sep) is not str or len(sep) != 1) or type(n) is not int:
            return None
        toks, cur = [], []
        for g in x.segs:
            if type(g) is not str:
                if not (self.is_name(g) if sep is None or sep.isspace() else self.lacks_char(g, sep)):
                    return None
                cur.append(g)
                continue
            for c in g:
                if c == sep or sep is None and c.isspace():
                    if cur or sep is not None:
                        toks.append(cur)
                    cur = []
                else:
                    cur.append(c)
        if cur or sep is not None:
            toks.append(cur)
        toks = [mkstr(t) for t in toks]
        if rp:
            if len(toks) == 1:
                return ('', '', toks[0])
            return (self.joined(toks[:-1], sep), sep, toks[-1])
        if n >= 0 and len(toks) > n + 1:
            if sep is None:
                return None
            if how == 'rsplit':
                toks = [self.joined(toks[:len(toks) - n], sep)] + toks[len(toks) - n:]
            else:
                toks = toks[:n] + [self.joined(toks[n:], sep)]
        return vm.alloc(st, OList(tuple(toks), None))

    def on_rsplit(self, vm, st, x, a, k):
        return self.on_split(vm, st, x, a, k, 'rsplit')

    def joined(self, toks, sep):
        out = []
        for i, t in enumerate(toks):
            out += ([sep] if i else []) + list(segs_of(t))
        return mkstr(out)

    def on_streq(self, vm, st, x, y):
        """decide a comparison of two texts from what is already known; None: not known"""
        a, b = list(segs_of(x)), list(segs_of(y))
        while a and b:          # common literal prefix, common leading atom
            p, q = a[0], b[0]
            if type(p) is str and type(q) is str:
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    return False
                a[0], b[0] = p[n:], q[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
            elif p == q:
                a.pop(0)
                b.pop(0)
            else:
                break
        while a and b:
            p, q = a[-1], b[-1]
            if type(p) is str and type(q) is str:
                n = min(len(p), len(q))
                if p[-n:] != q[-n:]:
                    return False
                a[-1], b[-1] = p[:-n], q[:-n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
            elif p == q:
                a.pop()
                b.pop()
            else:
                break
        if not a and not b:
            return True
        for p, q in ((a, b), (b, a)):
            if len(p) == 1 and self.is_name(p[0]):
                for g in q:
                    if type(g) is str and any(not (c.isalnum() or c in '-._' or ord(c) > 127) for c in g):
                        return False
                if q and type(q[0]) is str and (q[0][0] in '-.' or q[0][0].isdigit()):
                    return False
            if not p:
                for g in q:
                    if type(g) is str:
                        return False
                    if type(g) is Atom and (self.atom_nonempty(vm, st, g.base()) or st.facts.get(('nonempty', g.base()))):
                        return False
        if len(a) > 1 or len(b) > 1:
            if (len(a), len(b)) != (len(segs_of(x)), len(segs_of(y))):
                return vm.models.str_eq(vm, st, mkstr(a), mkstr(b))
            return None
        if not a or not b:
            g = (a or b)[0]
            if type(g) is Atom and x == AStr((g,)) and y == '':
                return None
            return self.emptiness(vm, st, g)
        a, b = a[0], b[0]
        # closure of the known equalities
        cls = {}

        def find(v):
            while v in cls:
                v = cls[v]
            return v
        diff = []
        for k, v in st.facts.items():
            if type(k) is tuple and k[0] in ('streq', 'streq2') and len(k) == 3 and v is not None:
                if v:
                    p, q = find(k[1]), find(k[2])
                    if p != q:
                        if type(p) is str:
                            p, q = q, p
                        cls[p] = q
                else:
                    diff.append((k[1], k[2]))
        p, q = find(a), find(b)
        if p == q:
            return True
        if type(p) is str and type(q) is str:
            return False
        for u, v in diff:
            u, v = find(u), find(v)
            if (u, v) == (p, q) or (v, u) == (p, q):
                return False
        for u, v in ((p, q), (q, p)):
            if type(u) is str:
                for n in list(cls) + [a, b]:
                    if find(n) == v and self.is_name(n):
                        if any(not (c.isalnum() or c in '-._' or ord(c) > 127) for c in u):
                            return False
        if (type(a), type(b)) == (type(segs_of(x)[0]), type(segs_of(y)[0])) and len(segs_of(x)) == 1 and len(segs_of(y)) == 1:
            return None
        return vm.models.str_eq(vm, st, mkstr([a]), mkstr([b]))

    def emptiness(self, vm, st, g):
        if type(g) is str:
            return not g
        return vm.models.str_eq(vm, st, AStr((g,)), '')

    # ---------------------------------------------------------- list models
    def settle(self, vm, st, l):
        while True:
            o = vm.get(st, l)
            for i, x in enumerate(o.items):
                if type(x) in (Rest, Past, GSeg):
                    vm.models.settle_rest(vm, st, l, i, True)
                    break
            else:
                return o.items

    def list_contains(self, vm, st, l, x):
        # scan left to right, stopping at the first equal item as list membership does
        i = 0
        while True:
            o = vm.get(st, l)
            if i >= len(o.items):
                return False
            if type(o.items[i]) is Rest:
                if not vm.models.settle_rest(vm, st, l, i, True):
                    continue
            r = vm.models.eq(vm, st, vm.get(st, l).items[i], x)
            if r is not True and r is not False:
                r = vm.models.truth(vm, st, r)
            if r:
                return True
            i += 1

    def find(self, vm, st, l, x):
        i = 0
        while True:
            o = vm.get(st, l)
            if i >= len(o.items):
                return None
            if type(o.items[i]) is Rest:
                if not vm.models.settle_rest(vm, st, l, i, True):
                    continue
            r = vm.models.eq(vm, st, vm.get(st, l).items[i], x)
            if r is not True and r is not False:
                r = vm.models.truth(vm, st, r)
            if r:
                return i
            i += 1

    def list_remove(self, vm, st, l, x):
        i = self.find(vm, st, l, x)
        if i is None:
            raise PyExc('ValueError', 'list.remove(x): x not in list')
        o = vm.get(st, l)
        vm.put(st, l, o.rep(items=o.items[:i] + o.items[i + 1:]))
        return True

    def list_index(self, vm, st, l, x):
        i = self.find(vm, st, l, x)
        if i is None:
            raise PyExc('ValueError', 'x is not in list')
        return i

    def list_insert(self, vm, st, l, i, x):
        if not isinstance(i, int):
            return False
        items = list(self.settle(vm, st, l))
        items.insert(i, x)
        vm.put(st, l, vm.get(st, l).rep(items=tuple(items)))
        return True

    def settle_end(self, vm, st, ref, j):
        self.settle(vm, st, ref)
        return True

    def reverse_items(self, vm, st, items):
        return None

    def dict_rest_get(self, vm, st, ref, rest, k):
        """another, not yet seen entry may have this key"""
        if rest.src[0] != 'attrs':
            return Hooks.dict_rest_get(self, vm, st, ref, rest, k)
        o = vm.get(st, ref)
        i = o.pairs.index(rest)
        while vm.models.settle_dict_rest(vm, st, ref, i):
            p = vm.get(st, ref).pairs[i]
            r = vm.models.eq(vm, st, p[0], k)
            if r is not True and r is not False:
                r = vm.models.truth(vm, st, r)
            if r:
                return p[1]
            i += 1
        return MISSING

    def atom_nonempty(self, vm, st, g):
        return self.is_name(g)


class LazyVM(VM):
    snapshot = True
    WIDEN = 0
    WEAK = True
    HASHKEYS = True
    COPY_SETTLES = True

    def __init__(self, repo='/repo', limit=6):
        VM.__init__(self, repo)
        self.lhooks = LazyHooks(self, limit)


ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
CHAR_ESCAPES = {c: ['&%s;' % n for n, x in ENT.items() if x == c] + ['&#x%X;' % ord(c), '&#x%x;' % ord(c)] for c in '&<>"\'\r\n\t'}


def decode(x):
    """the character which a MicroXML reference stands for (None if it is none)"""
    if len(x) == 1:
        return x
    if not (x.startswith('&') and x.endswith(';')):
        return None
    x = x[1:-1]
    if x in ENT:
        return ENT[x]
    if x[:2] == '#x':
        try:
            return chr(int(x[2:], 16))
        except ValueError:
            return None
    return None


class Driver:
    """explores a driver function and collects failed checks"""

    def __init__(self, repo, limit=6, maxstates=200000, budget=300):
        self.vm = LazyVM(repo, limit)
        self.vm.MAXSTATES = maxstates
        self.hooks = self.vm.lhooks
        self.hooks.on_loop = self.on_loop
        self.budget = budget
        self.viol = {}
        self.nchecks = 0
        self.npaths = 0
        self.case = ''
        vm = self.vm
        N = vm.natives
        me = self

        def n_check(vm, st, cond, rule, what, text):
            ok = vm.models.truth(vm, st, cond)
            me.nchecks += 1
            if not ok:
                me.report(st, rule, what, text)
                raise Kill('reported')
            return None

        def n_str(vm, st, kind, nonempty=True):
            a = Atom(kind, None, IDMAP)
            if nonempty:
                st.facts[('nonempty', a)] = True
            return AStr((a,))

        def n_open(vm, st, lst, owner, *kinds):
            o = vm.get(st, lst)
            if type(o) is not OList:
                raise Kill('children are not a plain list', True)
            vm.put(st, lst, o.rep(items=o.items + (Rest(('kids', owner, kinds or ('element', 'text')), False),)))

        def n_attrs(vm, st, owner, n=2):
            return vm.alloc(st, ODict((Rest(('attrs', owner, n), False),), None))

        def n_fail(vm, st, rule, what, text):
            me.nchecks += 1
            me.report(st, rule, what, text)
            raise Kill('reported')

        def n_choose(vm, st, n, *labels):
            return vm.choose(st, n, labels=labels if len(labels) == n else None)

        def n_stop(vm, st):
            raise Kill('assumed away')

        def n_sym(vm, st, typ, name):
            return SymV(typ, name)

        def n_struct(vm, st, a, b):
            """structural equality of strings/constants, never forks on unknown equalities"""
            x, y = vm.models.str_value(vm, st, a), vm.models.str_value(vm, st, b)
            if x is not None and y is not None:
                if x == y:
                    return True
                for s in (x, y):
                    if type(s) is AStr and any(type(g) is Atom and g.kind == 'str' for g in s.segs):
                        raise Kill('text not understood', True)
                return vm.models.str_eq(vm, st, x, y)
            return teq(a, b)

        def n_seal(vm, st, lst):
            me.hooks.settle(vm, st, lst)

        def n_exc(vm, st, e):
            return vm.exc_name(st, e)

        def n_show(vm, st, v):
            return AStr((Atom('show', v, IDMAP),))

        def n_live(vm, st, v):
            return None
        def n_shape(vm, st, v):
            """frozen image of everything reachable from v, for detecting changes"""
            return me.shape(st, v)
        def n_undecided(vm, st, why):
            raise Kill(why, True)
        def n_match(vm, st, s, pieces, rule, what):
            me.nchecks += 1
            bad = me.match(st, s, pieces)
            if bad:
                me.report(st, rule, '%s: %s' % (what, bad.split(':')[0]), 'the output of %s is wrong: %s; output shape %s' % (what, bad, me.show(st, s)))
                raise Kill('reported')

        def n_cutoff(vm, st):
            raise Cut()
        for k, f in (('check', n_check), ('str', n_str), ('open', n_open), ('attrs', n_attrs), ('fail', n_fail), ('choose', n_choose),
                     ('stop', n_stop), ('sym', n_sym), ('streq', n_struct), ('seal', n_seal), ('excname', n_exc), ('undecided', n_undecided), ('cut', n_cutoff), ('match', n_match)):
            N['__%s__' % k] = f

    def shape(self, st, v):
        return None

    def show(self, st, s):
        v = self.vm.models.str_value(self.vm, st, s)
        if v is None:
            return repr(s)[:200]
        return ''.join(g if type(g) is str else '{%s%s}' % (g.kind, '' if not g.map.items else ' escaped') if type(g) is Atom else repr(g) for g in segs_of(v))[:300]

    def match(self, st, s, pieces):
        """match an abstract string against expected pieces; returns a complaint or None"""
        vm = self.vm
        v = vm.models.str_value(vm, st, s)
        if v is None:
            return 'not a string'
        segs = list(segs_of(v))
        for g in segs:
            if type(g) is Atom and g.kind in ('str', 'repr', 'sym'):
                raise Kill('text not understood', True)
            if type(g) not in (str, Atom):
                raise Kill('text not understood', True)
        i = 0

        def peek():
            nonlocal i
            while i < len(segs):
                g = segs[i]
                if type(g) is str and not g:
                    i += 1
                    continue
                if type(g) is Atom and st.facts.get(('streq', g.base(), '')) is True or type(g) is Atom and st.facts.get(('nonempty', g.base())) is False:
                    i += 1
                    continue
                return g
            return None

        def lit(t):
            nonlocal i
            while t:
                g = peek()
                if type(g) is not str:
                    return False
                n = min(len(g), len(t))
                if g[:n] != t[:n]:
                    return False
                segs[i] = g[n:]
                t = t[n:]
            return True

        def const(a):
            """known value of an atom"""
            for k, val in st.facts.items():
                if val is True and k[0] == 'streq' and k[1] == a.base() and type(k[2]) is str:
                    return k[2]
            return None

        def same_atom(a, b):
            if a.base() == b.base():
                return True
            x, y = sorted((a.base(), b.base()), key=repr)
            return st.facts.get(('streq2', x, y)) is True

        def value(want, quote):
            """consume escaped text for the segments of want"""
            nonlocal i
            for w in segs_of(want):
                if type(w) is str:
                    for c in w:
                        if not self.char(lit, c, quote):
                            return 'a constant character is missing or not escaped'
                    continue
                if type(w) is not Atom:
                    raise Kill('text not understood', True)
                g = peek()
                if type(w) is Atom and (st.facts.get(('nonempty', w.base())) is False or const(w) == ''):
                    continue
                if type(g) is not Atom or not same_atom(g, w):
                    return 'a value is missing or misplaced'
                if w.map.items:
                    raise Kill('mapped value expected', True)
                for c in ('&', '<', '>') + (('\t', '\n', quote) if quote else ()):
                    img = c
                    for k, x in g.map.items:
                        if k == c:
                            img = x
                    if img == c:
                        if c == '>':
                            continue
                        if c == quote and self.lacks(st, g.base(), quote):
                            continue
                        return 'unescaped %s: in a value' % {'&': 'ampersand', '<': 'less-than sign', '\r': 'carriage return', '\t': 'tab', '\n': 'line feed'}.get(c, 'quote')
                for k, x in g.map.items:
                    if decode(x) != k:
                        return 'wrong escape: %r is written as %r' % (k, x)
                i += 1
            return None
        for p in vm.get(st, pieces).items:
            if p[0] == 'lit':
                if not lit(p[1]):
                    return 'markup: expected %r' % p[1]
            elif p[0] == 'name':
                want = vm.models.str_value(vm, st, p[1])
                for w in segs_of(want):
                    if type(w) is str:
                        if not lit(w):
                            return 'name: expected %r' % w
                        continue
                    g = peek()
                    c = const(w)
                    if type(g) is Atom and same_atom(g, w):
                        if g.map.items != w.map.items:
                            return 'name: altered'
                        i += 1
                    elif c is not None and lit(c):
                        pass
                    else:
                        return 'name: missing or misplaced'
            elif p[0] == 'text':
                bad = value(vm.models.str_value(vm, st, p[1]), None)
                if bad:
                    return 'character data: ' + bad
            elif p[0] == 'attr':
                g = peek()
                if type(g) is not str or g[0] not in '"\'':
                    return 'attribute value: not quoted'
                q = g[0]
                segs[i] = g[1:]
                bad = value(vm.models.str_value(vm, st, p[1]), q)
                if bad:
                    return 'attribute value: ' + bad
                if not lit(q):
                    return 'attribute value: not closed by the same quote'
            elif p[0] == 'ws':
                while True:
                    g = peek()
                    if type(g) is not str:
                        break
                    t = g.lstrip(' \t\n')
                    segs[i] = t
                    if t:
                        break
        if peek() is not None:
            return 'trailing output'
        return None

    def char(self, lit, c, quote):
        if c not in '&<' and (not quote or c not in '\t\n' + quote):
            if lit(c):
                return True
        for x in CHAR_ESCAPES.get(c, ()):
            if lit(x):
                return True
        return False

    def lacks(self, st, a, c):
        return st.facts.get(('haschar', a, c)) is False

    def on_loop(self, st):
        q = [fr.code.qual for fr in st.frames if fr.code.path.startswith(self.vm.repo)]
        self.report(st, 'endless', '%s: loop in %s' % (self.case, q[-1] if q else 'driver'), 'a program state repeats: the computation does not terminate')

    def report(self, st, rule, what, text):
        if st.taint is not None:
            self.vm.inconclusive[st.taint] = self.vm.inconclusive.get(st.taint, 0) + 1
            return
        k = (rule, what)
        if k not in self.viol:
            tr = ['%s:%s %s: %s' % x if type(x) is tuple and len(x) == 4 else str(x) for x in st.trail(60)]
            self.viol[k] = Violation(rule, what, text, '\n'.join(tr))

    def module(self, name):
        return self.vm.load_module(name)

    def setup(self, src, names, overrides=None, expat=None):
        """load driver source with `names` (name -> (module, attr)) bound in it.
        overrides: (module, attr) -> driver function taking its place before dependent modules are loaded"""
        vm = self.vm
        vm.initing = True
        ref = vm.load_source('__driver__', src, 'driver')
        for (m, a), fn in (overrides or {}).items():
            mod = vm.load_module(m)
            o = vm.base[mod.a]
            if a not in o.d:
                raise AnalysisBroken('%s.%s is gone' % (m, a))
            new = vm.base[ref.a].d[fn]
            was = o.d[a]
            mods = {id(m): m for m in vm.modules.values()}.values()
            for m in [mod] + list(mods):
                o = vm.base[m.a] if isinstance(m, Ref) else None
                if o is not None and isinstance(o.d, dict):
                    same = [k for k, v in o.d.items() if v is was or (isinstance(v, Ref) and isinstance(was, Ref) and v.a == was.a)]
                    if same:
                        vm.base[m.a] = o.rep(d=dict(o.d, **{k: new for k in same}))
        if expat:
            self.hooks.expat = vm.base[ref.a].d[expat]
        d = {}
        for n, (m, a) in names.items():
            mod = vm.load_module(m)
            o = vm.base[mod.a]
            if a is None:
                d[n] = mod
            elif a not in o.d:
                raise AnalysisBroken('%s.%s is gone' % (m, a))
            else:
                d[n] = o.d[a]
        d['LIMIT'] = self.hooks.limit
        vm.initing = True
        ns = vm.base[ref.a]
        nd = dict(ns.d)
        nd.update(d)
        vm.base[ref.a] = ns.rep(d=nd)
        self.drv = ref
        return ref

    def run(self, fname, *args, on_state=None):
        vm = self.vm
        fn = vm.base[self.drv.a].d[fname]
        vm.initing = False
        vm.hooks = self.hooks
        st = State()
        st.dom = Dom()
        self.case = fname
        vm.push_fn(st, fn, args, {}, ('top',))
        vm.DEADLINE = time.time() + self.budget
        self.hooks.heads = set()
        lim = vm.nstates + vm.MAXSTATES

        def on_end(st, kind, v):
            self.npaths += 1
            if kind == 'raise':
                o = vm.get(st, v)
                nm = vm.exc_name(st, v)
                where = o.d.get('__where__', '?')
                msg = o.d.get('__msg__')
                self.report(st, 'raises', '%s: %s in %s' % (fname, nm, qual_of(where)), 'unexpected %s: %s at %s' % (nm, msg if isinstance(msg, str) else '...', where))
        vm.explore([st], on_end, limit=lim)

    def result(self):
        vm = self.vm
        return {'viol': list(self.viol.values()), 'undecided': ['%s (x%d)' % x for x in vm.inconclusive.items()],
                'stats': {'abstract_states': vm.nstates, 'loop_head_states': vm.nheads, 'bytecode_steps': vm.nsteps, 'paths': self.npaths,
                          'obligations_checked': self.nchecks, 'k_limited_paths_cut': self.hooks.cut, 'k_limit_nodes': self.hooks.limit,
                          'functions': sorted(vm.analysed)}}


def qual_of(where):
    return str(where).split(':')[0].split('/')[-1]


TEMPLATES = '''
def make_element(parent):
    return element(__str__('name'), {}, parent)

def make_text(parent):
    return text(__str__('text', False), parent)
'''


def templates(drv, element=('amara3.uxml.tree', 'element'), text=('amara3.uxml.tree', 'text'), nattrs=2):
    """construct one element and one text through their public constructors; later items are copies of them"""
    vm = drv.vm
    hooks = drv.hooks
    src = TEMPLATES
    em = vm.base[vm.load_module(element[0]).a].d
    ref = vm.load_source('__templates__', src, 'driver')
    nd = dict(vm.base[ref.a].d)
    nd['element'] = em[element[1]]
    nd['text'] = vm.base[vm.load_module(text[0]).a].d[text[1]]
    vm.base[ref.a] = vm.base[ref.a].rep(d=nd)
    hooks.tmpl = {}
    hooks.templates = {}
    for kind in ('element', 'text'):
        was = vm.initing
        vm.initing = False
        vm.hooks = hooks
        st = State()
        st.dom = Dom()
        st.nxt = -1000000 - len(hooks.tmpl) * 1000
        parent = vm.alloc(st, OInst(nd['element'], {}, None, None, None))
        got = []
        vm.push_fn(st, nd['make_' + kind], (parent,), {}, ('top',))
        vm.explore([st], lambda s, k, v: got.append((s, k, v)))
        vm.initing = was
        ok = [(s, v) for s, k, v in got if k == 'return']
        if len(ok) != 1 or len(got) != 1:
            raise AnalysisBroken('cannot construct a %s: %s' % (kind, [vm.exc_text(s, v) for s, k, v in got if k == 'raise']))
        s, v = ok[0]
        # replace owner-dependent parts
        heap = dict(s.heap)
        new = {}

        def g(x):
            t = type(x)
            if t is Atom and x.kind in ('name', 'text') and x.owner is None:
                return Atom(x.kind, v, IDMAP)
            if t is tuple:
                return tuple([g(y) for y in x])
            if t is dict:
                return {k: g(y) for k, y in x.items()}
            if isinstance(x, Rec):
                return type(x)(*[g(y) for y in x.tup()])
            return x
        for a, o in heap.items():
            if o is not None and a != parent.a:
                new[a] = type(o)(*[g(getattr(o, n)) for n in o._f])
        # the children list
        if kind == 'element':
            o = new[v.a]
            lists = [(n, x) for n, x in o.d.items() if type(x) is Ref and x.a in new and type(new[x.a]) is OList]
            if 'xml_children' in dict(lists):
                l = dict(lists)['xml_children']
            elif len(lists) == 1:
                l = lists[0][1]
            else:
                raise AnalysisBroken('cannot find the list of children of an element')
            m = o.d.get('xml_attributes')
            if type(m) is not Ref or type(new.get(m.a)) is not ODict:
                raise AnalysisBroken('cannot find the attributes of an element')
            new[m.a] = new[m.a].rep(pairs=(Rest(('attrs', v, nattrs), False),))
            new[l.a] = new[l.a].rep(items=(Rest(('kids', v, ('element', 'text')), False),))
        hooks.tmpl.update(new)
        hooks.templates[kind] = (v, parent)
