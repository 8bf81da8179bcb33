"""Abstract interpreter over CPython 3.12 bytecode (the compiler's IR).

The repository's source is compiled with the builtin compile() -- never imported
or executed -- and its bytecode is interpreted over *abstract* values.  Unknown
conditions split the abstract state; states that agree modulo renaming are
merged at loop heads, and loop-carried sequences are folded into summary
symbols there, so the exploration reaches a fixpoint that covers every input.
"""
import time
import dis
import os
import builtins
import sys
import types

MISSING = type('Missing', (), {'__repr__': lambda s: '<missing>'})()


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
class Val:
    __slots__ = ()

    def canon(self, f):
        return self


class Ref(Val):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return type(o) is Ref and o.a == self.a

    def __hash__(self):
        return hash(('R', self.a))

    def __repr__(self):
        return '&%d' % self.a


class Rec(Val):
    """Small immutable record value; fields in _f."""
    _f = ()
    __slots__ = ()

    def __init__(self, *args):
        assert len(args) == len(self._f), (type(self), args)
        for n, a in zip(self._f, args):
            object.__setattr__(self, n, a)

    def tup(self):
        return tuple(getattr(self, n) for n in self._f)

    def __eq__(self, o):
        return type(o) is type(self) and teq(self.tup(), o.tup())

    def __hash__(self):
        return hash((type(self).__name__, self.tup()))

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(x) for x in self.tup()))

    def canon(self, f):
        return type(self)(*[f(x) for x in self.tup()])


def teq(a, b):
    """equality that does not confuse True/1/1.0"""
    if type(a) is not type(b):
        return False
    if type(a) is tuple:
        return len(a) == len(b) and all(teq(x, y) for x, y in zip(a, b))
    return a == b


class Builtin(Rec):
    _f = __slots__ = ('name',)


class NBound(Rec):
    """native method bound to a receiver"""
    _f = __slots__ = ('name', 'self')


class Bound(Rec):
    _f = __slots__ = ('fn', 'self')


class Fn(Rec):
    _f = __slots__ = ('code', 'mod', 'defaults', 'kwdefaults', 'closure', 'name', 'qual', 'cls')


class Opaque(Rec):
    """something outside the analysed program"""
    _f = __slots__ = ('name',)


class Top(Rec):
    """any value at all (imprecision: branching on it taints the state)"""
    _f = __slots__ = ('why',)


class SymV(Rec):
    """unknown immutable value of a known python type ('str','int','float','bool',...)"""
    _f = __slots__ = ('typ', 'name')


class WeakRef(Rec):
    _f = __slots__ = ('target',)


class CharMap(Rec):
    """per-character string map: tuple of (char, image), identity elsewhere"""
    _f = __slots__ = ('items',)


IDMAP = CharMap(())


class Atom(Rec):
    """unknown string: kind + owner (a value) seen through a per-character map"""
    _f = __slots__ = ('kind', 'owner', 'map')

    def base(self):
        return Atom(self.kind, self.owner, IDMAP)


class GSeg(Rec):
    """folded sequence content: the accumulated content of ghost `name`"""
    _f = __slots__ = ('name',)


class Rest(Rec):
    """unknown remaining items of a symbolic list; `src` tells how to make an item"""
    _f = __slots__ = ('src', 'nonempty')


class Past(Rec):
    """already traversed, forgotten items of a symbolic list"""
    _f = __slots__ = ('src',)


class AStr(Rec):
    """partly unknown string: tuple of host strings / Atom / GSeg"""
    _f = __slots__ = ('segs',)


def mkstr(segs):
    out = []
    for s in segs:
        if type(s) is str:
            if not s:
                continue
            if out and type(out[-1]) is str:
                out[-1] += s
                continue
        out.append(s)
    if not out:
        return ''
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return AStr(tuple(out))


def segs_of(s):
    if type(s) is str:
        return (s,) if s else ()
    if type(s) is AStr:
        return s.segs
    raise TypeError(s)


# --------------------------------------------------------------------------
# heap objects (immutable records, replaced on write)
# --------------------------------------------------------------------------
class Obj:
    __slots__ = ()
    _f = ()

    def __init__(self, *args):
        for n, a in zip(self._f, args):
            object.__setattr__(self, n, a)

    def rep(self, **kw):
        return type(self)(*[kw.get(n, getattr(self, n)) for n in self._f])

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (n, getattr(self, n)) for n in self._f))


class ONS(Obj):          # module or class-body namespace
    _f = __slots__ = ('d', 'name')


class OClass(Obj):
    _f = __slots__ = ('name', 'bases', 'd', 'mro', 'mod', 'native')


class OInst(Obj):
    """instance. cls: Ref of class, or None when `kinds` (tuple of class refs) still open.
    lazy: tag for lazily materialised attributes. sval: payload of a str subclass"""
    _f = __slots__ = ('cls', 'd', 'kinds', 'lazy', 'sval')


class OList(Obj):
    _f = __slots__ = ('items', 'tag')


class ODict(Obj):
    _f = __slots__ = ('pairs', 'tag')


class OSet(Obj):
    _f = __slots__ = ('items',)


class OCell(Obj):
    _f = __slots__ = ('v',)


class OGen(Obj):
    _f = __slots__ = ('frame', 'state', 'qual')   # state: new/susp/run/done


class OIter(Obj):
    _f = __slots__ = ('src', 'idx', 'kind')


class OProp(Obj):
    _f = __slots__ = ('fget', 'fset')


class OStatic(Obj):
    _f = __slots__ = ('fn', 'kind')


# --------------------------------------------------------------------------
class Code:
    cache = {}

    def __init__(self, co, module, path):
        self.co = co
        self.module = module
        self.path = path
        self.name = co.co_name
        self.qual = co.co_qualname
        self.ins = []
        self.idx = {}
        for i in dis.get_instructions(co):
            self.idx[i.offset] = len(self.ins)
            ln = i.positions.lineno if i.positions else None
            self.ins.append((i.opname, i.arg, i.argval, ln, i.offset))
        self.exc = []
        for e in dis._parse_exception_table(co):
            self.exc.append((e.start, e.end, e.target, e.depth, e.lasti))
        self.nargs = co.co_argcount
        self.nkw = co.co_kwonlyargcount
        self.varnames = co.co_varnames
        self.star = bool(co.co_flags & 4)
        self.starstar = bool(co.co_flags & 8)
        self.isgen = bool(co.co_flags & 0x20)
        self.sub = {}
        # names used as loop heads
        self.heads = set()
        for k, (op, arg, av, ln, off) in enumerate(self.ins):
            if op in ('JUMP_BACKWARD',):
                self.heads.add(self.idx[av])

    def child(self, co):
        k = id(co)
        if k not in self.sub:
            self.sub[k] = (co, Code(co, self.module, self.path))
        return self.sub[k][1]

    def __repr__(self):
        return '<code %s.%s>' % (self.module, self.qual)

    def handler(self, off):
        best = None
        for e in self.exc:
            if e[0] <= off < e[1]:
                best = e
                # table entries are non-overlapping, innermost
                return best
        return best


class Frame:
    __slots__ = ('code', 'mod', 'loc', 'ns', 'stack', 'pc', 'mode', 'gen', 'kwnames', 'loops', 'hist', 'cls')

    def __init__(self, code, mod, loc, ns=None, mode=('push',), gen=None):
        self.code = code
        self.mod = mod
        self.loc = loc
        self.ns = ns
        self.stack = []
        self.pc = 0
        self.mode = mode
        self.gen = gen
        self.kwnames = ()
        self.loops = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.code = self.code
        f.mod = self.mod
        f.loc = dict(self.loc)
        f.ns = self.ns
        f.stack = list(self.stack)
        f.pc = self.pc
        f.mode = self.mode
        f.gen = self.gen
        f.kwnames = self.kwnames
        f.loops = dict(self.loops)
        return f

    @property
    def line(self):
        k = min(self.pc, len(self.code.ins) - 1)
        while k >= 0:
            ln = self.code.ins[k][3]
            if ln:
                return ln
            k -= 1
        return 0


class State:
    __slots__ = ('frames', 'heap', 'nxt', 'facts', 'dom', 'taint', 'path', 'dec', 'deci', 'excs', 'steps')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.nxt = 0
        self.facts = {}
        self.dom = None          # harness state: object with copy()/canon(f)
        self.taint = None
        self.path = None
        self.dec = ()
        self.deci = 0
        self.excs = ()           # stack of exceptions being handled
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.nxt = self.nxt
        s.facts = dict(self.facts)
        s.dom = self.dom.copy() if self.dom is not None else None
        s.taint = self.taint
        s.path = self.path
        s.dec = self.dec
        s.deci = self.deci
        s.excs = self.excs
        s.steps = self.steps
        return s

    def note(self, msg):
        self.path = (self.path, msg)

    def trail(self, n=40):
        out = []
        p = self.path
        while p and len(out) < n:
            out.append(p[1])
            p = p[0]
        return out[::-1]


class NeedFork(Exception):
    def __init__(self, n):
        self.n = n


class PyExc(Exception):
    """raise an exception inside the interpreted program"""

    def __init__(self, cls, msg='', ref=None):
        self.cls = cls
        self.msg = msg
        self.ref = ref


class Kill(Exception):
    """drop this path (infeasible, or outside the property's domain)"""

    def __init__(self, why='', inconclusive=False):
        self.why = why
        self.inconclusive = inconclusive


class Pushed(Exception):
    """internal: handler pushed a frame / already arranged the stack"""


class Unsupported(Exception):
    pass


class AnalysisBroken(Exception):
    pass


PUSHED = object()

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'StopIteration': 'Exception',
    'GeneratorExit': 'BaseException', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'AttributeError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'AssertionError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'OSError': 'Exception', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
    'SyntaxError': 'Exception', 'DeprecationWarning': 'Exception', 'Warning': 'Exception',
    'UserWarning': 'Exception', 'FutureWarning': 'Exception', 'KeyboardInterrupt': 'BaseException',
}
BUILTIN_TYPES = ['object', 'str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bytes',
                 'type', 'property', 'staticmethod', 'classmethod', 'NoneType', 'function', 'generator', 'iterator',
                 'weakref', 'module', 'Enum', 'Iterable', 'bytearray', 'Pattern', 'complex', 'slice', 'builtin']
TYPE_BASE = {'bool': 'int', 'object': None}


# natives which look at all items of their arguments
TAKES_ITEMS = {'type.set', 'type.frozenset', 'type.dict', 'dict.update', 'set.update', 'set.union', '__sort__', '__reversed__'}


class VM:
    MAXSTATES = 400000
    WIDEN = 2
    MAXDEPTH = 60
    taint_facts = False
    COPY_SETTLES = False
    snapshot = False

    def __init__(self, repo='/repo', prelude=None):
        self.repo = repo
        self.base = {}
        self.addr = 1
        self.modules = {}
        self.files = {}
        self.natives = {}
        self.hooks = None           # harness domain hooks
        self.inconclusive = {}
        self.nstates = 0
        self.nsteps = 0
        self.nheads = 0
        self.analysed = set()
        self.initing = True
        self.types = {}
        for n in BUILTIN_TYPES:
            self.types[n] = Ref(self.balloc(None))
        for n in BUILTIN_TYPES:
            if n == 'object':
                bases = ()
            else:
                bases = (self.types[TYPE_BASE.get(n, 'object')],)
            mro = (self.types[n],)
            if n != 'object':
                mro += (self.types['int'],) if n == 'bool' else ()
                mro += (self.types['object'],)
            self.base[self.types[n].a] = OClass(n, bases, {}, mro, 'builtins', n)
        for n, b in BUILTIN_EXC.items():
            self.types[n] = Ref(self.balloc(None))
            base = self.types[b] if b else self.types['object']
            bo = self.base[base.a]
            self.base[self.types[n].a] = OClass(n, (base,), {}, (self.types[n],) + bo.mro, 'builtins', 'exc')
        from . import models
        models.install(self)
        self.models = models
        self.prelude_mod = None
        pl = os.path.join(os.path.dirname(__file__), 'prelude.pysrc')
        self.prelude_mod = self.load_source('__prelude__', open(pl).read(), pl)
        sax = models.saxutils_source()
        self.sax_mod = self.load_source('xml.sax.saxutils', sax, 'stdlib/xml/sax/saxutils.py')
        self.modules['xml.sax.saxutils'] = self.sax_mod

    # ---------------------------------------------------------------- heap
    def balloc(self, obj):
        a = self.addr
        self.addr += 1
        self.base[a] = obj
        return a

    def alloc(self, st, obj):
        if self.initing:
            return Ref(self.balloc(obj))
        st.nxt -= 1
        st.heap[st.nxt] = obj
        return Ref(st.nxt)

    def get(self, st, ref):
        o = st.heap.get(ref.a) if st is not None else None
        if o is None:
            o = self.base[ref.a]
        return o

    def put(self, st, ref, obj):
        if self.initing:
            self.base[ref.a] = obj
        else:
            if type(obj) in (OList, ODict) and obj.tag == 'sent':
                self.hooks.sent_changed(self, st, ref)
            st.heap[ref.a] = obj

    # ------------------------------------------------------------- modules
    def find_module(self, name):
        if name == 'amara3':
            return os.path.join(self.repo, 'pylib', '__init__.py')
        if name.startswith('amara3.'):
            parts = name.split('.')[1:]
            p = os.path.join(self.repo, 'pylib', *parts)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py')
            if os.path.exists(p + '.py'):
                return p + '.py'
        return None

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            return None
        try:
            src = open(path, encoding='utf-8').read()
        except OSError as e:
            raise AnalysisBroken('cannot read %s: %s' % (path, e))
        # load parents first
        par = name.rpartition('.')[0]
        if par and par != 'amara3':
            self.load_module(par)
        if name in self.modules:
            return self.modules[name]
        ref = self.load_source(name, src, path)
        return ref

    def load_source(self, name, src, path):
        was = self.initing
        self.initing = True
        ref = Ref(self.balloc(ONS({'__name__': name, '__file__': path}, name)))
        self.modules[name] = ref
        if path and path.startswith(self.repo):
            self.files[name] = path
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                co = compile(src, path, 'exec')
        except SyntaxError as e:
            raise AnalysisBroken('%s does not compile: %s' % (path, e))
        code = Code(co, name, path)
        st = State()
        fr = Frame(code, ref, {}, ns=ref)
        st.frames.append(fr)
        hooks, self.hooks = self.hooks, None
        try:
            while st.frames:
                r = self.step(st)
                if r is not None:
                    if r[0] == 'done':
                        break
                    if r[0] == 'exc':
                        raise AnalysisBroken('module %s: initialisation raises %s' % (name, self.exc_text(st, r[1])))
                    if r[0] == 'fork':
                        # module initialisation is constant: an unknown condition takes the first option
                        st = r[1][0]
        finally:
            self.hooks = hooks
            self.initing = was
        return ref

    def modattr(self, modname, attr):
        m = self.load_module(modname)
        if m is None:
            raise AnalysisBroken('module %s not found' % modname)
        d = self.base[m.a].d
        if attr not in d:
            raise AnalysisBroken('%s has no %s' % (modname, attr))
        return d[attr]

    def exc_text(self, st, ref):
        o = self.get(st, ref)
        return '%s: %s' % (self.get(st, o.cls).name, o.d.get('__msg__', ''))

    def exc_name(self, st, ref):
        return self.get(st, self.get(st, ref).cls).name

    # ------------------------------------------------------------- choices
    def choose(self, st, n, label=None, labels=None):
        if n == 1:
            return 0
        if st.deci < len(st.dec):
            d = st.dec[st.deci]
            st.deci += 1
            if labels:
                fr = st.frames[-1]
                st.note((fr.code.path, fr.line, fr.code.qual, labels[d]))
            return d
        raise NeedFork(n)

    def choose_from(self, st, opts, labels=None):
        return opts[self.choose(st, len(opts), labels=labels)]

    def taint(self, st, why):
        if st.taint is None:
            st.taint = why
            fr = st.frames[-1]
            self.inconclusive.setdefault('%s at %s:%s' % (why, os.path.basename(fr.code.path), fr.line), 0)

    # ------------------------------------------------------------- exploration
    DEADLINE = None
    HASHKEYS = False

    def explore(self, states, on_end, limit=None):
        """run all states to the end. on_end(st, kind, value)"""
        seen = {}
        work = list(states)
        self.limit = limit or self.MAXSTATES
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.limit:
                self.inconclusive['state limit reached'] = 1
                break
            if self.DEADLINE and self.nstates % 64 == 0 and time.time() > self.DEADLINE:
                self.inconclusive['time limit reached'] = 1
                break
            while True:
                try:
                    r = self.step(st)
                except Kill as k:
                    if k.inconclusive:
                        self.inconclusive[k.why] = self.inconclusive.get(k.why, 0) + 1
                    break
                except (AnalysisBroken, PyExc, NeedFork):
                    raise
                except Exception as x:        # a construct the analyser does not model: this path is undecided
                    if 'VERIF_DEBUG' in os.environ:
                        raise
                    fr = st.frames[-1]
                    why = 'analyser limitation (%s: %s) at %s:%s' % (type(x).__name__, str(x)[:80], os.path.basename(fr.code.path), fr.line)
                    self.inconclusive[why] = self.inconclusive.get(why, 0) + 1
                    break
                if r is None:
                    continue
                if r[0] == 'fork':
                    work.extend(reversed(r[1]))
                    break
                if r[0] == 'head':
                    fr = st.frames[-1]
                    ck = (fr.code.qual, fr.pc, fr.line)
                    n = fr.loops.get(fr.pc, 0) + 1
                    if self.WIDEN:
                        fr.loops[fr.pc] = min(n, self.WIDEN + 1)
                    if self.hooks is not None:
                        try:
                            v = self.hooks.at_head(self, st, n > self.WIDEN)
                        except Kill as k:
                            v = 'stop'
                            if k.inconclusive:
                                self.inconclusive[k.why] = self.inconclusive.get(k.why, 0) + 1
                        if v == 'stop':
                            break
                    key = self.key(st)
                    if self.HASHKEYS:
                        key = hash(key)
                    if self.hooks is not None and self.hooks.on_key(self, st, key):
                        break
                    if key in seen:
                        break
                    seen[key] = True
                    self.nheads += 1
                    continue
                if r[0] == 'done':
                    on_end(st, 'return', r[1])
                    break
                if r[0] == 'exc':
                    on_end(st, 'raise', r[1])
                    break

    # --------------------------------------------------------------- keys
    def key(self, st):
        ren = {}
        objs = []
        out = []

        def f(v):
            t = type(v)
            if t is Ref:
                a = v.a
                if a >= 0 and a not in st.heap:
                    return ('B', a)
                if a not in ren:
                    ren[a] = len(ren)
                    objs.append(a)
                return ('r', ren[a])
            if t is tuple:
                return tuple([f(x) for x in v])
            if isinstance(v, Rec):
                return (t.__name__,) + tuple([f(x) for x in v.tup()])
            if t is Frame:
                return frame(v)
            if t is dict:
                return tuple([(f(k), f(x)) for k, x in v.items()])
            if t is Code:
                return id(v)
            if t in (str, int, float, bool, type(None), bytes):
                return (t.__name__, v)
            if t is frozenset:
                return ('fs', frozenset(f(x) for x in v))
            if isinstance(v, Val):
                return v.canon(f)
            return ('h', repr(v))

        def frame(fr):
            return (id(fr.code), fr.pc, tuple([(k, f(fr.loc[k])) for k in sorted(fr.loc)]),
                    tuple([f(x) for x in fr.stack]), f(fr.mode), f(fr.gen) if fr.gen is not None else None,
                    f(fr.ns) if fr.ns is not None else None, tuple(sorted(fr.loops.items())))
        out.append(tuple([frame(fr) for fr in st.frames]))
        out.append(tuple([f(x) for x in st.excs]))
        if st.dom is not None:
            out.append(st.dom.canon(f))
        i = 0
        body = []
        while i < len(objs):
            o = self.get(st, Ref(objs[i]))
            i += 1
            if o is None:
                body.append(None)
                continue
            body.append((type(o).__name__,) + tuple([f(getattr(o, n)) for n in o._f]))
        out.append(tuple(body))
        # facts on reachable things only
        fk = []
        for k, v in st.facts.items():
            try:
                fk.append((self._factkey(k, ren, st), f(v)))
            except KeyError:
                pass
        out.append(frozenset(fk))
        out.append(st.taint is not None)
        return tuple(out)

    def _factkey(self, k, ren, st):
        t = type(k)
        if t is Ref:
            if k.a >= 0 and k.a not in st.heap:
                return ('B', k.a)
            return ('r', ren[k.a])
        if t is tuple:
            return tuple([self._factkey(x, ren, st) for x in k])
        if isinstance(k, Rec):
            return (t.__name__,) + tuple([self._factkey(x, ren, st) for x in k.tup()])
        return (t.__name__, k) if isinstance(k, (str, int, float, bool, bytes, type(None))) else k

    # ------------------------------------------------------------- stepping
    def step(self, st):
        """run until something notable. None = keep going"""
        while True:
            fr = st.frames[-1]
            op, arg, av, ln, off = fr.code.ins[fr.pc]
            self.nsteps += 1
            saved = fr.stack[:]
            pc0 = fr.pc
            kw0 = fr.kwnames
            nfr = len(st.frames)
            nheap = st.nxt
            st.deci = 0
            fr.pc = pc0 + 1
            path0 = st.path
            if self.snapshot:
                heap0, facts0, excs0 = dict(st.heap), dict(st.facts), st.excs
                dom0 = st.dom.copy() if st.dom is not None else None
            try:
                r = getattr(self, 'op_' + op)(st, fr, arg, av)
            except NeedFork as nf:
                assert len(st.frames) == nfr and st.frames[-1] is fr
                fr.stack = saved
                fr.pc = pc0
                fr.kwnames = kw0
                st.path = path0
                if self.snapshot:
                    st.heap, st.facts, st.excs, st.nxt, st.dom = heap0, facts0, excs0, nheap, dom0
                out = []
                dec = st.dec
                for i in range(nf.n):
                    s2 = st.copy() if i < nf.n - 1 else st
                    s2.dec = dec + (i,)
                    out.append(s2)
                out.reverse()
                return ('fork', out)
            except PyExc as e:
                st.dec = ()
                r = self.raise_exc(st, e)
            st.dec = ()
            if r is not None:
                return r

    # ----------------------------------------------------------- exceptions
    def make_exc(self, st, clsname, msg=''):
        return self.alloc(st, OInst(self.types[clsname], {'__msg__': msg, 'args': (msg,)}, None, None, None))

    def raise_exc(self, st, e):
        ref = e.ref if e.ref is not None else self.make_exc(st, e.cls, e.msg)
        return self.unwind(st, ref)

    def unwind(self, st, ref):
        fr = st.frames[-1]
        self.record_raise(st, ref)
        while True:
            fr = st.frames[-1]
            # offset of the raising instruction
            off = fr.code.ins[fr.pc - 1][4]
            h = fr.code.handler(off)
            if h is not None:
                start, end, target, depth, lasti = h
                del fr.stack[depth:]
                if lasti:
                    fr.stack.append(off)
                fr.stack.append(ref)
                fr.pc = fr.code.idx[target]
                return None
            mode = fr.mode
            st.frames.pop()
            if fr.gen is not None:
                g = self.get(st, fr.gen)
                self.put(st, fr.gen, g.rep(frame=None, state='done'))
                if mode[0] == 'close':
                    n = self.exc_name(st, ref)
                    if n in ('GeneratorExit', 'StopIteration'):
                        st.frames[-1].stack.append(None)
                        return None
            if mode[0] == 'hasattr':
                if self.exc_name(st, ref) == 'AttributeError':
                    st.frames[-1].stack.append(mode[1])
                    return None
            if not st.frames:
                return ('exc', ref)
            if mode[0] in ('top',):
                return ('exc', ref)
            nm = self.exc_name(st, ref)
            if nm == 'StopIteration' and mode[0] == 'nextdef':
                st.frames[-1].stack.append(mode[1])
                return None

    def record_raise(self, st, ref):
        o = self.get(st, ref)
        if '__where__' not in o.d:
            fr = st.frames[-1]
            d = dict(o.d)
            d['__where__'] = '%s:%s (%s)' % (fr.code.path, fr.line, fr.code.qual)
            self.put(st, ref, o.rep(d=d))

    # -------------------------------------------------------------- frames
    def bind(self, st, fn, args, kwargs):
        code = fn.code
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        names = code.varnames
        npos = code.nargs
        co = code.co
        if len(args) > npos:
            if not code.star:
                raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' % (fn.qual, npos, len(args)))
            extra = tuple(args[npos:])
            args = args[:npos]
        else:
            extra = ()
        for n, a in zip(names, args):
            loc[n] = a
        for i in range(len(args), npos):
            n = names[i]
            if n in kwargs and i >= co.co_posonlyargcount:
                loc[n] = kwargs.pop(n)
            else:
                k = i - (npos - len(fn.defaults))
                if k >= 0:
                    loc[n] = fn.defaults[k]
                else:
                    raise PyExc('TypeError', '%s() missing required argument %r' % (fn.qual, n))
        kwd = dict(fn.kwdefaults)
        for i in range(npos, npos + code.nkw):
            n = names[i]
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            elif n in kwd:
                loc[n] = kwd[n]
            else:
                raise PyExc('TypeError', '%s() missing keyword-only argument %r' % (fn.qual, n))
        i = npos + code.nkw
        if code.star:
            loc[names[i]] = extra
            i += 1
        if code.starstar:
            loc[names[i]] = self.alloc(st, ODict(tuple(kwargs.items()), None))
        elif kwargs:
            raise PyExc('TypeError', '%s() got an unexpected keyword argument %r' % (fn.qual, sorted(kwargs)[0]))
        return loc

    def push_fn(self, st, fn, args, kwargs, mode=('push',)):
        if len(st.frames) > self.MAXDEPTH:
            raise Kill('call depth bound', True)
        loc = self.bind(st, fn, args, kwargs)
        fr = Frame(fn.code, fn.mod, loc, mode=mode)
        fr.loc['\0closure'] = fn.closure
        st.frames.append(fr)
        if fn.code.path.startswith(self.repo):
            self.analysed.add('%s.%s' % (fn.code.module, fn.code.qual))
        return None

    def call(self, st, f, args, kwargs=(), mode=('push',)):
        """call value f; the result lands on the current top frame's stack."""
        kwargs = dict(kwargs)
        if self.hooks is not None:
            r = self.hooks.on_call(self, st, f, args, kwargs, mode)
            if r is not None:
                if r is PUSHED:
                    return None
                return self.ret(st, r[0], mode)
        t = type(f)
        if t is Fn:
            return self.push_fn(st, f, args, kwargs, mode)
        if t is Bound:
            return self.call(st, f.fn, (f.self,) + tuple(args), kwargs, mode)
        if t is Builtin:
            return self.call_native(st, f.name, tuple(args), kwargs, mode)
        if t is NBound:
            return self.call_native(st, f.name, (f.self,) + tuple(args), kwargs, mode)
        if t is WeakRef:
            return self.ret(st, f.target if self.alive(st, f.target) else None, mode)
        if t is Ref:
            o = self.get(st, f)
            if type(o) is OClass:
                return self.instantiate(st, f, o, args, kwargs, mode)
            if type(o) is OInst:
                m = self.class_lookup(st, o.cls, '__call__') if o.cls else MISSING
                if m is not MISSING:
                    return self.call(st, Bound(m, f), args, kwargs, mode)
            if type(o) is OStatic:
                return self.call(st, o.fn, args, kwargs, mode)
            raise PyExc('TypeError', '%s object is not callable' % self.tname(st, f))
        if t is Opaque:
            return self.ret(st, self.opaque_call(st, f, args, kwargs), mode)
        if t is Top:
            return self.ret(st, Top(f.why), mode)
        h = getattr(f, 'call', None)
        if h is not None:
            return self.ret(st, h(self, st, args, kwargs), mode)
        raise PyExc('TypeError', '%s object is not callable' % self.tname(st, f))

    def opaque_call(self, st, f, args, kwargs):
        return Opaque(f.name + '()')

    WEAK = False        # model the collection of objects that are only weakly referenced

    def alive(self, st, target):
        if not self.WEAK or type(target) is not Ref:
            return True
        seen = set()
        work = []

        def f(v):
            t = type(v)
            if t is Ref:
                if v.a not in seen:
                    seen.add(v.a)
                    work.append(v.a)
            elif t is WeakRef or t in (str, int, bool, type(None), float, Code):
                return
            elif t is tuple or t is frozenset:
                for x in v:
                    f(x)
            elif t is dict:
                for k, x in v.items():
                    f(k)
                    f(x)
            elif t is Rest:
                return
            elif t is Atom:
                return
            elif isinstance(v, Rec):
                for x in v.tup():
                    f(x)
            elif t is Frame:
                frame(v)
            elif isinstance(v, Val):
                v.canon(f)

        def frame(fr):
            f(fr.loc)
            for x in fr.stack:
                f(x)
            f(fr.mode)
            if fr.gen is not None:
                f(fr.gen)
            if fr.ns is not None:
                f(fr.ns)
        for fr in st.frames:
            frame(fr)
        for x in st.excs:
            f(x)
        for a, o in list(st.heap.items()):
            if a in self.base and o is not None:      # mutated module-level object
                seen.add(a)
                work.append(a)
        while work:
            a = work.pop()
            if a == target.a:
                return True
            o = self.get(st, Ref(a))
            if o is None or (a not in st.heap and a in self.base):
                continue        # unmodified module-level objects refer to nothing created later
            for n in o._f:
                f(getattr(o, n))
        return target.a in self.base and target.a not in st.heap

    def ret(self, st, v, mode):
        """deliver a native result according to mode"""
        k = mode[0]
        if k == 'obj':
            v = mode[1]
        elif k == 'discard':
            return None
        elif k == 'truth':
            pass
        st.frames[-1].stack.append(v)
        return None

    def call_native(self, st, name, args, kwargs, mode):
        nf = self.natives.get(name)
        if name == 'range' and 1 <= len(args) <= 3 and not kwargs and all(type(a) is int for a in args) and (len(args) < 3 or args[2]) and len(range(*args)) <= 64:
            return self.ret(st, tuple(range(*args)), mode)
        if nf is None:
            pf = self.base[self.prelude_mod.a].d.get(name) if self.prelude_mod else None
            if pf is None and self.prelude_mod:
                pf = self.base[self.prelude_mod.a].d.get('_' + name.replace('.', '_'))
            if pf is not None:
                return self.call(st, pf, args, kwargs, mode)
            raise Kill('unmodelled builtin %s' % name, True)
        if name in TAKES_ITEMS:
            for a in args:
                if type(a) is Ref and type(self.get(st, a)) in (OGen, OIter):
                    pf = self.base[self.prelude_mod.a].d['__with_items__']
                    return self.push_fn(st, pf, (Builtin(name), tuple(args)), kwargs, mode)
        try:
            r = nf(self, st, *args, **kwargs)
        except TypeError as e:
            import traceback
            tb = traceback.extract_tb(sys.exc_info()[2])
            if len(tb) == 1:
                raise PyExc('TypeError', '%s: %s' % (name, e))
            raise
        if r is PUSHED:
            # native arranged frames with its own mode; only plain push supported
            return None
        return self.ret(st, r, mode)

    def instantiate(self, st, cref, c, args, kwargs, mode):
        # builtin types
        if c.native and c.native != 'exc':
            return self.call_native(st, 'type.' + c.native, tuple(args), kwargs, mode)
        root = self.native_root(st, c)
        if root == 'exc':
            msg = args[0] if args else ''
            ref = self.alloc(st, OInst(cref, {'__msg__': msg if isinstance(msg, str) else repr(msg), 'args': tuple(args)}, None, None, None))
            return self.ret(st, ref, mode)
        if root == 'Enum' and args:
            return self.ret(st, self.enum_by_value(st, c, args[0]), mode)
        new = self.class_lookup(st, cref, '__new__')
        init = self.class_lookup(st, cref, '__init__')
        if new is not MISSING and type(new) in (Fn, Ref):
            pf = self.base[self.prelude_mod.a].d['__construct__']
            if type(new) is Ref and type(self.get(st, new)) is OStatic:
                new = self.get(st, new).fn
            return self.push_fn(st, pf, (cref, new, tuple(args), self.alloc(st, ODict(tuple(kwargs.items()), None))), {}, mode)
        obj = self.alloc(st, OInst(cref, {}, None, None, self.subclass_payload(st, c, args)))
        if init is MISSING:
            if args and root is None:
                raise PyExc('TypeError', '%s() takes no arguments' % c.name)
            return self.ret(st, obj, mode)
        # run __init__, deliver obj
        if type(init) is Fn:
            if mode[0] != 'push':
                pf = self.base[self.prelude_mod.a].d['__construct2__']
                return self.push_fn(st, pf, (obj, init, tuple(args), self.alloc(st, ODict(tuple(kwargs.items()), None))), {}, mode)
            return self.push_fn(st, init, (obj,) + tuple(args), kwargs, ('obj', obj))
        return self.call(st, init, (obj,) + tuple(args), kwargs, ('obj', obj))

    def subclass_payload(self, st, c, args):
        for m in c.mro:
            o = self.get(st, m)
            if o.native == 'str':
                if args and (type(args[0]) in (str, AStr)):
                    return args[0]
                if args and type(args[0]) is Ref:
                    oo = self.get(st, args[0])
                    if type(oo) is OInst and oo.sval is not None:
                        return oo.sval
                return '' if not args else SymV('str', 'payload')
        return None

    def native_root(self, st, c):
        for m in c.mro:
            o = self.get(st, m)
            if o.native and o.native != 'object':
                return o.native
        return None

    def enum_by_value(self, st, c, v):
        for x in c.d.values():
            if type(x) is Ref:
                o = self.get(st, x)
                if type(o) is OInst and '_value_' in o.d and o.d['_value_'] == v:
                    return x
        raise PyExc('ValueError', 'not a valid enum value')

    # ----------------------------------------------------- generator support
    def resume_gen(self, st, gref, val, mode, fresh_ok=True):
        g = self.get(st, gref)
        if g.state == 'done':
            return self.gen_stop(st, mode, None)
        if g.state == 'run':
            raise PyExc('ValueError', 'generator already executing')
        if len(st.frames) > self.MAXDEPTH:
            raise Kill('call depth bound', True)
        fr = g.frame.copy()
        fr.mode = mode
        fr.gen = gref
        if g.state == 'new':
            if val is not None:
                raise PyExc('TypeError', "can't send non-None value to a just-started generator")
            fr.stack.append(None)     # consumed by POP_TOP after RETURN_GENERATOR
        else:
            fr.stack.append(val)
        self.put(st, gref, g.rep(frame=None, state='run'))
        st.frames.append(fr)
        return None

    def gen_stop(self, st, mode, value):
        """generator exhausted: tell the consumer"""
        k = mode[0]
        top = st.frames[-1]
        if k == 'for':
            top.stack.pop()
            top.pc = mode[1]
            return None
        if k == 'send':
            top.stack[-1] = value
            top.pc = mode[1]
            return None
        if k == 'nextdef':
            top.stack.append(mode[1])
            return None
        if k == 'close':
            top.stack.append(None)
            return None
        if k == 'prim':     # __next_or__ primitive
            top.stack.append(mode[1])
            return None
        e = self.make_exc(st, 'StopIteration', '')
        o = self.get(st, e)
        d = dict(o.d)
        d['value'] = value
        self.put(st, e, o.rep(d=d))
        return self.unwind(st, e)

    def gen_yield(self, st, mode, value):
        k = mode[0]
        top = st.frames[-1]
        if k == 'for':
            top.stack.append(value)
        elif k == 'send':
            top.stack[-1] = value
        elif k == 'close':
            raise PyExc('RuntimeError', 'generator ignored GeneratorExit')
        elif k == 'discard':
            pass
        else:
            top.stack.append(value)
        return None

    # ------------------------------------------------------------- opcodes
    def op_NOP(self, st, fr, arg, av):
        pass

    op_RESUME = op_EXTENDED_ARG = op_CACHE = op_NOP

    def op_POP_TOP(self, st, fr, arg, av):
        fr.stack.pop()

    def op_PUSH_NULL(self, st, fr, arg, av):
        fr.stack.append(MISSING)

    def op_COPY(self, st, fr, arg, av):
        fr.stack.append(fr.stack[-arg])

    def op_SWAP(self, st, fr, arg, av):
        s = fr.stack
        s[-1], s[-arg] = s[-arg], s[-1]

    def op_LOAD_CONST(self, st, fr, arg, av):
        if isinstance(av, types.CodeType):
            av = fr.code.child(av)
        fr.stack.append(av)

    def op_RETURN_CONST(self, st, fr, arg, av):
        fr.stack.append(av)
        return self.op_RETURN_VALUE(st, fr, arg, av)

    def op_RETURN_VALUE(self, st, fr, arg, av):
        v = fr.stack.pop()
        st.frames.pop()
        if fr.gen is not None:
            g = self.get(st, fr.gen)
            self.put(st, fr.gen, g.rep(frame=None, state='done'))
            if fr.mode[0] == 'top':
                return ('done', v)
            return self.gen_stop(st, fr.mode, v)
        if not st.frames or fr.mode[0] == 'top':
            return ('done', v)
        k = fr.mode[0]
        top = st.frames[-1]
        if k == 'push' or k == 'hasattr':
            top.stack.append(True if k == 'hasattr' and fr.mode[2] else v)
        elif k == 'obj':
            top.stack.append(fr.mode[1])
        elif k == 'discard':
            pass
        elif k == 'class':
            return self.finish_class(st, fr)
        elif k == 'attr2':
            top.stack.append(MISSING)
            top.stack.append(v)
        elif k in ('for', 'send', 'nextdef'):
            return self.gen_yield(st, fr.mode, v)
        elif k == 'module':
            top.stack.append(fr.mode[1])
        else:
            top.stack.append(v)
        return None

    def op_LOAD_FAST(self, st, fr, arg, av):
        v = fr.loc.get(av, MISSING)
        if v is MISSING:
            raise PyExc('UnboundLocalError', av)
        fr.stack.append(v)

    op_LOAD_FAST_CHECK = op_LOAD_FAST

    def op_LOAD_FAST_AND_CLEAR(self, st, fr, arg, av):
        fr.stack.append(fr.loc.pop(av, MISSING))

    def op_STORE_FAST(self, st, fr, arg, av):
        v = fr.stack.pop()
        if v is MISSING:
            fr.loc.pop(av, None)
        else:
            fr.loc[av] = v

    def op_DELETE_FAST(self, st, fr, arg, av):
        if av not in fr.loc:
            raise PyExc('UnboundLocalError', av)
        del fr.loc[av]

    def op_MAKE_CELL(self, st, fr, arg, av):
        v = fr.loc.get(av, MISSING)
        fr.loc['\0c:' + av] = self.alloc(st, OCell(v))
        fr.loc.pop(av, None)

    def op_COPY_FREE_VARS(self, st, fr, arg, av):
        for n, c in zip(fr.code.co.co_freevars, fr.loc.get('\0closure') or ()):
            fr.loc['\0c:' + n] = c

    def op_LOAD_CLOSURE(self, st, fr, arg, av):
        fr.stack.append(fr.loc['\0c:' + av])

    def op_LOAD_DEREF(self, st, fr, arg, av):
        v = self.get(st, fr.loc['\0c:' + av]).v
        if v is MISSING:
            raise PyExc('NameError', av)
        fr.stack.append(v)

    def op_STORE_DEREF(self, st, fr, arg, av):
        self.put(st, fr.loc['\0c:' + av], OCell(fr.stack.pop()))

    def op_LOAD_FROM_DICT_OR_DEREF(self, st, fr, arg, av):
        fr.stack.pop()
        self.op_LOAD_DEREF(st, fr, arg, av)

    def glob(self, st, fr, name):
        d = self.get(st, fr.mod).d
        if name in d:
            return d[name]
        return self.builtin(name)

    def builtin(self, name):
        if name in self.types and name not in ('Enum', 'Iterable', 'weakref', 'module', 'Pattern', 'iterator', 'function', 'generator', 'NoneType', 'builtin'):
            return self.types[name]
        if name in self.natives and '.' not in name:
            return Builtin(name)
        if name in ('NotImplemented', 'Ellipsis', '__debug__'):
            return {'NotImplemented': Opaque('NotImplemented'), 'Ellipsis': ..., '__debug__': True}[name]
        if self.prelude_mod is not None:
            d = self.base[self.prelude_mod.a].d
            if name in d and not name.startswith('__name__'):
                return d[name]
        if hasattr(builtins, name):
            return Builtin(name)        # not modelled: calls are not decided
        return MISSING

    def op_LOAD_GLOBAL(self, st, fr, arg, av):
        v = self.glob(st, fr, av)
        if v is MISSING:
            raise PyExc('NameError', av)
        if arg & 1:
            fr.stack.append(MISSING)
        fr.stack.append(v)

    def op_LOAD_NAME(self, st, fr, arg, av):
        d = self.get(st, fr.ns).d
        v = d.get(av, MISSING)
        if v is MISSING:
            v = self.glob(st, fr, av)
        if v is MISSING:
            raise PyExc('NameError', av)
        fr.stack.append(v)

    def op_STORE_NAME(self, st, fr, arg, av):
        o = self.get(st, fr.ns)
        v = fr.stack.pop()
        if self.initing:
            o.d[av] = v
        else:
            d = dict(o.d)
            d[av] = v
            self.put(st, fr.ns, o.rep(d=d))

    def op_DELETE_NAME(self, st, fr, arg, av):
        self.get(st, fr.ns).d.pop(av, None)

    def op_STORE_GLOBAL(self, st, fr, arg, av):
        o = self.get(st, fr.mod)
        v = fr.stack.pop()
        if self.initing:
            o.d[av] = v
        else:
            d = dict(o.d)
            d[av] = v
            self.put(st, fr.mod, o.rep(d=d))

    def op_LOAD_BUILD_CLASS(self, st, fr, arg, av):
        fr.stack.append(Builtin('__build_class__'))

    def op_LOAD_ASSERTION_ERROR(self, st, fr, arg, av):
        fr.stack.append(self.types['AssertionError'])

    def op_LOAD_LOCALS(self, st, fr, arg, av):
        fr.stack.append(fr.ns)

    # building
    def op_BUILD_TUPLE(self, st, fr, arg, av):
        if arg:
            v = tuple(fr.stack[-arg:])
            del fr.stack[-arg:]
        else:
            v = ()
        fr.stack.append(v)

    def op_BUILD_LIST(self, st, fr, arg, av):
        v = ()
        if arg:
            v = tuple(fr.stack[-arg:])
            del fr.stack[-arg:]
        fr.stack.append(self.alloc(st, OList(v, None)))

    def op_BUILD_SET(self, st, fr, arg, av):
        v = ()
        if arg:
            for x in fr.stack[-arg:]:
                if not self.models.set_has(self, st, v, x):
                    v += (x,)
            del fr.stack[-arg:]
        fr.stack.append(self.alloc(st, OSet(v)))

    def op_BUILD_MAP(self, st, fr, arg, av):
        pairs = []
        if arg:
            xs = fr.stack[-2 * arg:]
            del fr.stack[-2 * arg:]
            pairs = list(zip(xs[::2], xs[1::2]))
        r = self.alloc(st, ODict((), None))
        for k, v in pairs:
            self.models.dict_set(self, st, r, k, v)
        fr.stack.append(r)

    def op_BUILD_CONST_KEY_MAP(self, st, fr, arg, av):
        keys = fr.stack.pop()
        vals = fr.stack[-arg:]
        del fr.stack[-arg:]
        fr.stack.append(self.alloc(st, ODict(tuple(zip(keys, vals)), None)))

    def op_BUILD_STRING(self, st, fr, arg, av):
        xs = fr.stack[-arg:]
        del fr.stack[-arg:]
        r = ''
        for x in xs:
            r = self.models.str_concat(self, st, r, x)
        fr.stack.append(r)

    def op_BUILD_SLICE(self, st, fr, arg, av):
        xs = fr.stack[-arg:]
        del fr.stack[-arg:]
        if arg == 2:
            xs.append(None)
        fr.stack.append(self.models.SliceV(*xs))

    def op_FORMAT_VALUE(self, st, fr, arg, av):
        spec = fr.stack.pop() if arg & 4 else ''
        v = fr.stack.pop()
        conv = arg & 3
        if spec != '':
            if conv in (2, 3):
                v = self.models.to_repr(self, st, v)
            elif conv == 1:
                v = self.models.to_str(self, st, v)
            fr.stack.append(self.models.n_format(self, st, v, spec))
            return
        if getattr(v, 'pytype', None) == 'str' and conv < 2:
            fr.stack.append(v)
            return
        fr.stack.append(self.models.to_repr(self, st, v) if conv in (2, 3) else self.models.to_str(self, st, v))

    def op_LIST_EXTEND(self, st, fr, arg, av):
        it = fr.stack.pop()
        lst = fr.stack[-arg]
        return self.call_native(st, 'list.extend', (lst, it), {}, ('discard',))

    def op_LIST_APPEND(self, st, fr, arg, av):
        v = fr.stack.pop()
        self.models.list_append(self, st, fr.stack[-arg], v)

    def op_SET_ADD(self, st, fr, arg, av):
        v = fr.stack.pop()
        o = self.get(st, fr.stack[-arg])
        if not self.models.set_has(self, st, o.items, v):
            self.put(st, fr.stack[-arg], OSet(o.items + (v,)))

    def op_SET_UPDATE(self, st, fr, arg, av):
        it = fr.stack.pop()
        o = self.get(st, fr.stack[-arg])
        items = list(o.items)
        src = it if isinstance(it, (tuple, frozenset)) else self.models.exact_items(self, st, it)
        for x in sorted(src, key=repr) if isinstance(src, frozenset) else src:
            if not self.models.set_has(self, st, items, x):
                items.append(x)
        self.put(st, fr.stack[-arg], OSet(tuple(items)))

    def op_MAP_ADD(self, st, fr, arg, av):
        v = fr.stack.pop()
        k = fr.stack.pop()
        self.models.dict_set(self, st, fr.stack[-arg], k, v)

    def op_DICT_UPDATE(self, st, fr, arg, av):
        o = fr.stack.pop()
        self.models.dict_update(self, st, fr.stack[-arg], o)

    op_DICT_MERGE = op_DICT_UPDATE

    def op_UNPACK_SEQUENCE(self, st, fr, arg, av):
        v = fr.stack.pop()
        if type(v) is Ref and type(self.get(st, v)) in (OGen, OIter):
            # take all its items first, then this instruction again
            fr.pc -= 1
            return self.call_native(st, '__all_items__', (v,), {}, ('push',))
        items = self.models.exact_items(self, st, v, arg)
        if len(items) != arg:
            raise PyExc('ValueError', 'unpack: expected %d values, got %d' % (arg, len(items)))
        for x in reversed(items):
            fr.stack.append(x)

    def op_UNPACK_EX(self, st, fr, arg, av):
        v = fr.stack.pop()
        if type(v) is Ref and type(self.get(st, v)) in (OGen, OIter):
            fr.pc -= 1
            return self.call_native(st, '__all_items__', (v,), {}, ('push',))
        before, after = arg & 0xff, arg >> 8
        items = tuple(self.models.exact_items(self, st, v))
        if len(items) < before + after:
            raise PyExc('ValueError', 'not enough values to unpack (expected at least %d, got %d)' % (before + after, len(items)))
        mid = len(items) - after
        for x in reversed(items[mid:]):
            fr.stack.append(x)
        fr.stack.append(self.alloc(st, OList(items[before:mid], None)))
        for x in reversed(items[:before]):
            fr.stack.append(x)

    def op_GET_LEN(self, st, fr, arg, av):
        fr.stack.append(self.models.n_len(self, st, fr.stack[-1]))

    def op_MATCH_SEQUENCE(self, st, fr, arg, av):
        v = fr.stack[-1]
        if type(v) in (Top, Opaque):
            raise Kill('pattern matching on an unknown value', True)
        fr.stack.append(type(v) is tuple or type(v) is Ref and type(self.get(st, v)) is OList)

    def op_MATCH_CLASS(self, st, fr, arg, av):
        names = fr.stack.pop()
        cls = fr.stack.pop()
        v = fr.stack.pop()
        if arg and not (arg == 1 and type(cls) is Builtin):
            raise Kill('class pattern with positional patterns', True)
        r = self.models.isinstance_(self, st, v, cls)
        if type(r) is not bool:
            r = self.models.truth(self, st, r)
        if not r:
            fr.stack.append(None)
            return
        out = [v] * arg
        for n in names:
            try:
                x = self.getattr(st, v, n)
            except PyExc as e:
                if e.tname != 'AttributeError':
                    raise
                fr.stack.append(None)
                return
            if x is PUSHED:
                raise Kill('class pattern reading a property', True)
            out.append(x)
        fr.stack.append(tuple(out))

    def op_UNARY_INVERT(self, st, fr, arg, av):
        v = fr.stack.pop()
        fr.stack.append(~v if isinstance(v, int) else Top('~'))

    # subscripts & attributes
    def op_BINARY_SUBSCR(self, st, fr, arg, av):
        k = fr.stack.pop()
        o = fr.stack.pop()
        r = self.models.getitem(self, st, o, k)
        if r is not PUSHED:
            fr.stack.append(r)

    def op_BINARY_SLICE(self, st, fr, arg, av):
        e = fr.stack.pop()
        s = fr.stack.pop()
        o = fr.stack.pop()
        fr.stack.append(self.models.getitem(self, st, o, self.models.SliceV(s, e, None)))

    def op_STORE_SUBSCR(self, st, fr, arg, av):
        k = fr.stack.pop()
        o = fr.stack.pop()
        v = fr.stack.pop()
        self.models.setitem(self, st, o, k, v)

    def op_STORE_SLICE(self, st, fr, arg, av):
        e = fr.stack.pop()
        s = fr.stack.pop()
        o = fr.stack.pop()
        v = fr.stack.pop()
        if s in (None, 0) and e is None and type(o) is Ref and type(self.get(st, o)) is OList and type(v) is Ref and type(self.get(st, v)) not in (OList, OSet):
            return self.call_native(st, 'list.setall', (o, v), {}, ('discard',))
        self.models.setitem(self, st, o, self.models.SliceV(s, e, None), v)

    def op_DELETE_SUBSCR(self, st, fr, arg, av):
        k = fr.stack.pop()
        o = fr.stack.pop()
        self.models.delitem(self, st, o, k)

    def op_LOAD_ATTR(self, st, fr, arg, av):
        o = fr.stack.pop()
        if arg & 1:
            # method call form
            v = self.getattr(st, o, av, ('attr2',))
            if v is PUSHED:
                return None
            fr.stack.append(MISSING)
            fr.stack.append(v)
            return None
        v = self.getattr(st, o, av, ('push',))
        if v is not PUSHED:
            fr.stack.append(v)

    def op_LOAD_METHOD(self, st, fr, arg, av):
        return self.op_LOAD_ATTR(st, fr, 1, av)

    def op_STORE_ATTR(self, st, fr, arg, av):
        o = fr.stack.pop()
        v = fr.stack.pop()
        return self.setattr(st, o, av, v)

    def op_DELETE_ATTR(self, st, fr, arg, av):
        o = fr.stack.pop()
        ob = self.get(st, o)
        if av not in ob.d:
            raise PyExc('AttributeError', av)
        d = dict(ob.d)
        del d[av]
        self.put(st, o, ob.rep(d=d))

    def op_LOAD_SUPER_ATTR(self, st, fr, arg, av):
        self_ = fr.stack.pop()
        cls = fr.stack.pop()
        fr.stack.pop()
        v = self.super_attr(st, cls, self_, av)
        if arg & 1:
            fr.stack.append(MISSING)
        fr.stack.append(v)

    def super_attr(self, st, cls, self_, name):
        so = self.get(st, self_)
        if type(so) is OClass:
            mro = so.mro
            bind = None
        else:
            mro = self.get(st, so.cls).mro
            bind = self_
        i = mro.index(cls)
        for m in mro[i + 1:]:
            o = self.get(st, m)
            if name in o.d:
                f = o.d[name]
                if type(f) is Fn and bind is not None:
                    return Bound(f, bind)
                return f
            if o.native == 'str' and name == '__new__':
                return Builtin('str.__new__')
            if o.native == 'object' and name in ('__new__', '__init__'):
                return Builtin('object.' + name)
        raise PyExc('AttributeError', name)

    def class_lookup(self, st, cref, name):
        for m in self.get(st, cref).mro:
            if type(m) is not Ref:
                continue
            o = self.get(st, m)
            if name in o.d:
                return o.d[name]
        return MISSING

    def getattr(self, st, o, name, mode=('push',)):
        t = type(o)
        if self.hooks is not None:
            r = self.hooks.on_getattr(self, st, o, name, mode)
            if r is not None:
                return r if r is PUSHED else r[0]
        if t is Ref:
            ob = self.get(st, o)
            k = type(ob)
            if k is OInst:
                return self.inst_attr(st, o, ob, name, mode)
            if k is OClass:
                return self.class_attr(st, o, ob, name)
            if k is ONS:
                if name in ob.d:
                    return ob.d[name]
                m = self.load_module(ob.name + '.' + name) if ob.name.startswith('amara3') else None
                if m is not None:
                    return m
                raise PyExc('AttributeError', 'module %s has no attribute %s' % (ob.name, name))
            return self.models.native_attr(self, st, o, ob, name)
        if t is Opaque:
            return self.models.opaque_attr(self, st, o, name)
        if t is Top:
            return Top(o.why)
        h = getattr(o, 'getattr', None)
        if h is not None and isinstance(o, Val):
            return h(self, st, name)
        return self.models.native_attr(self, st, o, None, name)

    def class_attr(self, st, cref, c, name):
        for m in c.mro:
            mo = self.get(st, m) if type(m) is Ref else None
            if mo is not None and name in mo.d:
                v = mo.d[name]
                if type(v) is Ref:
                    vo = self.get(st, v)
                    if type(vo) is OStatic:
                        return Bound(vo.fn, cref) if vo.kind == 'classmethod' else vo.fn
                return v
        if name == '__name__':
            return c.name
        if name == '__mro__':
            return c.mro
        if name in ('__init__', '__new__'):
            root = self.native_root(st, c)
            if name == '__new__' and root == 'str':
                return Builtin('str.__new__')
            return Builtin('object.' + name)
        root = self.native_root(st, c) or c.native
        if root:
            m = self.models.type_method(self, root, name)
            if m is not None:
                return m
        if any(type(m) is not Ref for m in c.mro):
            return Opaque('%s.%s' % (c.name, name))
        raise PyExc('AttributeError', "type object '%s' has no attribute '%s'" % (c.name, name))

    def resolve_kind(self, st, ref, ob):
        """settle the class of a symbolic object (forks)"""
        if ob.cls is not None:
            return ob
        kinds = ob.kinds
        k = self.choose_from(st, kinds, ['item is a %s' % self.get(st, c).name for c in kinds])
        ob = ob.rep(cls=k, kinds=None)
        self.put(st, ref, ob)
        return ob

    def inst_attr(self, st, o, ob, name, mode):
        if ob.cls is None:
            ob = self.resolve_kind(st, o, ob)
        v = self.class_lookup(st, ob.cls, name)
        vo = None
        if type(v) is Ref:
            vo = self.get(st, v)
            if type(vo) is OProp:
                if ob.lazy is not None and self.hooks is not None:
                    r = self.hooks.on_prop(self, st, o, name, mode)
                    if r is not None:
                        return r if r is PUSHED else r[0]
                self.call(st, vo.fget, (o,), {}, mode)
                return PUSHED
        if name in ob.d:
            return ob.d[name]
        if ob.lazy is not None and self.hooks is not None:
            r = self.hooks.materialise(self, st, o, ob, name)
            if r is not MISSING:
                ob = self.get(st, o)
                d = dict(ob.d)
                d[name] = r
                self.put(st, o, ob.rep(d=d))
                return r
        if v is not MISSING:
            if type(v) in (Fn, Builtin):
                return Bound(v, o)
            if vo is not None and type(vo) is OStatic:
                if vo.kind == 'classmethod':
                    return Bound(vo.fn, ob.cls)
                return vo.fn
            return v
        if name == '__class__':
            return ob.cls
        if name == '__dict__':
            return self.alloc(st, ODict(tuple(ob.d.items()), None))
        c = self.get(st, ob.cls)
        root = self.native_root(st, c)
        if root in ('exc',):
            if name in ('with_traceback',):
                return NBound('exc.with_traceback', o)
        if root == 'Enum' and name in ('value', 'name'):
            return ob.d['_%s_' % name + ('' if name == 'value' else '')] if name == 'value' else ob.d['_name_']
        if ob.sval is not None:
            m = self.models.type_method(self, 'str', name)
            if m is not None:
                return NBound('str.' + name, o)
        if name in ('__init__',):
            return Bound(Builtin('object.__init__'), o)
        if any(type(m) is not Ref for m in c.mro):
            return Opaque('%s().%s' % (c.name, name))
        raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (c.name, name))

    def setattr(self, st, o, name, v):
        if self.hooks is not None:
            r = self.hooks.on_setattr(self, st, o, name, v)
            if r is not None:
                return None
        if type(o) is Ref:
            ob = self.get(st, o)
            if type(ob) is OInst:
                if ob.cls is None:
                    ob = self.resolve_kind(st, o, ob)
                cv = self.class_lookup(st, ob.cls, name)
                if type(cv) is Ref:
                    co = self.get(st, cv)
                    if type(co) is OProp:
                        if co.fset is None:
                            raise PyExc('AttributeError', "property '%s' of '%s' object has no setter" % (name, self.get(st, ob.cls).name))
                        return self.call(st, co.fset, (o, v), {}, ('discard',))
                d = dict(ob.d)
                d[name] = v
                self.put(st, o, ob.rep(d=d))
                return None
            if type(ob) in (OClass, ONS):
                d = dict(ob.d)
                d[name] = v
                self.put(st, o, ob.rep(d=d))
                return None
            raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (self.tname(st, o), name))
        if type(o) in (Opaque, Top):
            return None
        if type(o) is Fn:
            return None
        raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (self.tname(st, o), name))

    def hasattr(self, st, o, name):
        """True/False when decidable without running code"""
        try:
            if type(o) is Ref:
                ob = self.get(st, o)
                if type(ob) is OInst:
                    if ob.cls is None:
                        ob = self.resolve_kind(st, o, ob)
                    if name in ob.d:
                        return True
                    if self.class_lookup(st, ob.cls, name) is not MISSING:
                        return True
                    if ob.lazy is not None and self.hooks is not None:
                        r = self.hooks.has_lazy(self, st, o, ob, name)
                        if r is not None:
                            return r
            v = self.getattr(st, o, name)
            return True
        except PyExc as e:
            if e.cls == 'AttributeError':
                return False
            raise

    def tname(self, st, v):
        c = self.type_of(st, v)
        if type(c) is Ref:
            return self.get(st, c).name
        return str(c)

    def type_of(self, st, v):
        t = type(v)
        T = self.types
        if v is None:
            return T['NoneType']
        if t is bool:
            return T['bool']
        if t is int:
            return T['int']
        if t is float:
            return T['float']
        if t in (str, AStr):
            return T['str']
        if t is bytes:
            return T['bytes']
        if t is tuple:
            return T['tuple']
        if t is frozenset:
            return T['frozenset']
        if t in (Fn, Bound):
            return T['function']
        if t in (Builtin, NBound):
            return T['builtin']
        if t is WeakRef:
            return T['weakref']
        if t is SymV:
            return T.get(v.typ, T['object'])
        if t is Ref:
            o = self.get(st, v)
            k = type(o)
            if k is OInst:
                return o.cls
            return {OList: T['list'], ODict: T['dict'], OSet: T['set'], OClass: T['type'], OGen: T['generator'],
                    OIter: T['iterator'], ONS: T['module'], OProp: T['property']}.get(k, T['object'])
        h = getattr(v, 'pytype', None)
        if h:
            return T[h]
        return None

    # calls
    def op_KW_NAMES(self, st, fr, arg, av):
        fr.kwnames = fr.code.co.co_consts[arg]

    def op_CALL(self, st, fr, arg, av):
        s = fr.stack
        kwn = fr.kwnames
        fr.kwnames = ()
        args = s[len(s) - arg:]
        del s[len(s) - arg:]
        b = s.pop()
        a = s.pop()
        if a is not MISSING:
            f = a
            args = [b] + args
        else:
            f = b
        kw = {}
        if kwn:
            n = len(kwn)
            kw = dict(zip(kwn, args[-n:]))
            args = args[:-n]
        return self.call(st, f, tuple(args), kw)

    def op_CALL_FUNCTION_EX(self, st, fr, arg, av):
        kw = {}
        if arg & 1:
            d = fr.stack.pop()
            kw = dict(self.models.dict_pairs(self, st, d))
        args = fr.stack.pop()
        f = fr.stack.pop()
        fr.stack.pop()  # NULL
        items = self.models.exact_items(self, st, args)
        return self.call(st, f, tuple(items), kw)

    def op_CALL_INTRINSIC_1(self, st, fr, arg, av):
        v = fr.stack.pop()
        if arg == 3:      # STOPITERATION_ERROR
            if self.exc_name(st, v) == 'StopIteration':
                o = self.get(st, v)
                e = self.make_exc(st, 'RuntimeError', 'generator raised StopIteration')
                eo = self.get(st, e)
                d = dict(eo.d)
                if '__where__' in o.d:
                    d['__where__'] = o.d['__where__']
                self.put(st, e, eo.rep(d=d))
                v = e
            fr.stack.append(v)
        elif arg == 2:    # import *
            self.import_star(st, fr, v)
            fr.stack.append(None)
        elif arg == 6:    # list to tuple
            fr.stack.append(tuple(self.models.exact_items(self, st, v)))
        elif arg == 5:
            fr.stack.append(v)
        else:
            raise Unsupported('intrinsic %d' % arg)

    def import_star(self, st, fr, m):
        if type(m) is not Ref:
            return
        d = self.get(st, m).d
        names = d.get('__all__')
        if names is not None:
            names = self.models.exact_items(self, st, names)
        else:
            names = [n for n in d if not n.startswith('_')]
        tgt = self.get(st, fr.ns)
        for n in names:
            if n in d:
                tgt.d[n] = d[n]
            else:
                sub = self.load_module(self.get(st, m).name + '.' + n)
                if sub is None:
                    raise PyExc('AttributeError', 'module has no attribute %s' % n)
                tgt.d[n] = sub

    def op_MAKE_FUNCTION(self, st, fr, arg, av):
        code = fr.stack.pop()
        closure = ()
        kwd = ()
        dfl = ()
        if arg & 8:
            closure = fr.stack.pop()
        if arg & 4:
            fr.stack.pop()
        if arg & 2:
            kwd = self.models.dict_pairs(self, st, fr.stack.pop())
        if arg & 1:
            dfl = fr.stack.pop()
        fr.stack.append(Fn(code, fr.mod, tuple(dfl), tuple(kwd), tuple(closure), code.name, code.qual, None))

    # imports
    def op_IMPORT_NAME(self, st, fr, arg, av):
        fromlist = fr.stack.pop()
        level = fr.stack.pop()
        name = av
        if level:
            pkg = self.get(st, fr.mod).name
            path = self.get(st, fr.mod).d.get('__file__', '')
            if not path.endswith('__init__.py'):
                pkg = pkg.rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        m = self.load_module(name)
        if m is None:
            m = self.modules.get(name)
        if m is None:
            r = self.models.import_external(self, name)
            if r is MISSING:
                raise PyExc('ImportError', name)
            if not fromlist and '.' in name:
                r = Opaque(name.split('.')[0])
            fr.stack.append(r)
            return None
        if not fromlist and '.' in name:
            top = name.split('.')[0]
            r = self.modules.get(top)
            if r is None:
                r = self.load_module(top) or Opaque(top)
            fr.stack.append(r)
            return None
        fr.stack.append(m)

    def op_IMPORT_FROM(self, st, fr, arg, av):
        m = fr.stack[-1]
        if type(m) is Ref:
            o = self.get(st, m)
            if av in o.d:
                fr.stack.append(o.d[av])
                return None
            sub = self.load_module(o.name + '.' + av)
            if sub is not None:
                fr.stack.append(sub)
                return None
            raise PyExc('ImportError', 'cannot import name %s from %s' % (av, o.name))
        fr.stack.append(self.models.opaque_attr(self, st, m, av))

    # control
    def op_JUMP_FORWARD(self, st, fr, arg, av):
        fr.pc = fr.code.idx[av]

    def op_JUMP_BACKWARD(self, st, fr, arg, av):
        fr.pc = fr.code.idx[av]
        if self.initing:
            return None
        return ('head',)

    def op_JUMP_BACKWARD_NO_INTERRUPT(self, st, fr, arg, av):
        fr.pc = fr.code.idx[av]
        if self.initing:
            return None
        return None

    def op_POP_JUMP_IF_FALSE(self, st, fr, arg, av):
        v = fr.stack.pop()
        if not self.truth(st, v):
            fr.pc = fr.code.idx[av]

    def op_POP_JUMP_IF_TRUE(self, st, fr, arg, av):
        v = fr.stack.pop()
        if self.truth(st, v):
            fr.pc = fr.code.idx[av]

    def op_POP_JUMP_IF_NONE(self, st, fr, arg, av):
        v = fr.stack.pop()
        if self.models.is_(self, st, v, None):
            fr.pc = fr.code.idx[av]

    def op_POP_JUMP_IF_NOT_NONE(self, st, fr, arg, av):
        v = fr.stack.pop()
        if not self.models.is_(self, st, v, None):
            fr.pc = fr.code.idx[av]

    def truth(self, st, v):
        return self.models.truth(self, st, v)

    def op_UNARY_NOT(self, st, fr, arg, av):
        v = fr.stack.pop()
        fr.stack.append(not self.truth(st, v))

    def op_UNARY_NEGATIVE(self, st, fr, arg, av):
        fr.stack.append(self.models.negate(self, st, fr.stack.pop()))

    def op_BINARY_OP(self, st, fr, arg, av):
        b = fr.stack.pop()
        a = fr.stack.pop()
        opn = dis._nb_ops[arg][1].rstrip('=')
        inplace = arg >= 13
        if inplace and opn == '+' and type(a) is Ref and type(b) is Ref and type(self.get(st, b)) in (OGen, OIter) and type(self.get(st, a)) is OList:
            # list += iterator: take all its items first, then this instruction again
            fr.stack.append(a)
            fr.pc -= 1
            return self.call_native(st, '__all_items__', (b,), {}, ('push',))
        r = self.models.binop(self, st, opn, a, b, inplace)
        if r is not PUSHED:
            fr.stack.append(r)

    def op_COMPARE_OP(self, st, fr, arg, av):
        b = fr.stack.pop()
        a = fr.stack.pop()
        op = dis.cmp_op[arg >> 4]
        r = self.models.compare(self, st, op, a, b)
        if r is not PUSHED:
            fr.stack.append(r)

    def op_CONTAINS_OP(self, st, fr, arg, av):
        c = fr.stack.pop()
        x = fr.stack.pop()
        r = self.models.contains(self, st, c, x)
        if r is PUSHED:
            raise Unsupported('contains pushed')
        fr.stack.append((not r) if arg and type(r) is bool else (self.models.negbool(r) if arg else r))

    def op_IS_OP(self, st, fr, arg, av):
        b = fr.stack.pop()
        a = fr.stack.pop()
        r = self.models.is_(self, st, a, b)
        fr.stack.append((not r) if arg else r)

    # iteration
    def op_GET_ITER(self, st, fr, arg, av):
        v = fr.stack.pop()
        r = self.models.get_iter(self, st, v)
        if r is not PUSHED:
            fr.stack.append(r)

    def op_GET_YIELD_FROM_ITER(self, st, fr, arg, av):
        v = fr.stack[-1]
        if type(v) is Ref and type(self.get(st, v)) is OGen:
            return None
        fr.stack.pop()
        r = self.models.get_iter(self, st, v)
        if r is not PUSHED:
            fr.stack.append(r)

    def op_FOR_ITER(self, st, fr, arg, av):
        it = fr.stack[-1]
        end = fr.code.idx[av] + 1     # skip END_FOR
        mode = ('for', end)
        return self.next(st, it, mode)

    def next(self, st, it, mode):
        """advance iterator; deliver per mode"""
        if self.hooks is not None:
            r = self.hooks.on_next(self, st, it, mode)
            if r is not None:
                if r is PUSHED:
                    return None
                if r[0] == 'stop':
                    return self.gen_stop(st, mode, None)
                return self.gen_yield(st, mode, r[1])
        if type(it) is Ref:
            o = self.get(st, it)
            if type(o) is OGen:
                return self.resume_gen(st, it, None, mode)
            if type(o) is OIter:
                v = self.models.iter_next(self, st, it, o)
                if v is MISSING:
                    return self.gen_stop(st, mode, None)
                return self.gen_yield(st, mode, v)
            if type(o) is OInst and o.cls is not None:
                m = self.class_lookup(st, o.cls, '__next__')
                if m is not MISSING:
                    return self.call(st, Bound(m, it), (), {}, mode)
        if type(it) in (Top, Opaque):
            self.taint(st, 'iteration over an unknown value')
            if self.choose(st, 2) == 0:
                return self.gen_stop(st, mode, None)
            return self.gen_yield(st, mode, Top('item of unknown'))
        h = getattr(it, 'next', None)
        if h is not None:
            v = h(self, st)
            if v is MISSING:
                return self.gen_stop(st, mode, None)
            return self.gen_yield(st, mode, v)
        raise PyExc('TypeError', "'%s' object is not an iterator" % self.tname(st, it))

    def op_END_FOR(self, st, fr, arg, av):
        fr.stack.pop()
        fr.stack.pop()

    def op_SEND(self, st, fr, arg, av):
        v = fr.stack[-1]
        recv = fr.stack[-2]
        mode = ('send', fr.code.idx[av])
        if type(recv) is Ref and type(self.get(st, recv)) is OGen:
            return self.resume_gen(st, recv, v, mode)
        return self.next(st, recv, mode)

    def op_END_SEND(self, st, fr, arg, av):
        v = fr.stack.pop()
        fr.stack.pop()
        fr.stack.append(v)

    def op_RETURN_GENERATOR(self, st, fr, arg, av):
        st.frames.pop()
        mode = fr.mode
        g = self.alloc(st, OGen(None, 'new', fr.code.qual))
        f2 = fr.copy()
        f2.mode = None
        f2.gen = g
        self.put(st, g, OGen(f2, 'new', fr.code.qual))
        if not st.frames or mode[0] == 'top':
            return ('done', g)
        if mode[0] == 'attr2':
            st.frames[-1].stack.append(MISSING)
            st.frames[-1].stack.append(g)
            return None
        if mode[0] in ('for', 'send', 'nextdef'):
            return self.gen_yield(st, mode, g)
        return self.ret(st, g, mode)

    def op_YIELD_VALUE(self, st, fr, arg, av):
        v = fr.stack.pop()
        mode = fr.mode
        st.frames.pop()
        f2 = fr.copy()
        f2.mode = None
        self.put(st, fr.gen, OGen(f2, 'susp', fr.code.qual))
        if not st.frames:
            return ('yield', v, fr.gen)
        return self.gen_yield(st, mode, v)

    def op_CLEANUP_THROW(self, st, fr, arg, av):
        exc = fr.stack.pop()
        fr.stack.pop()
        sub = fr.stack.pop()
        if self.exc_name(st, exc) == 'StopIteration':
            fr.stack.append(None)
            fr.stack.append(self.get(st, exc).d.get('value'))
            return None
        return self.unwind(st, exc)

    # exceptions
    def op_PUSH_EXC_INFO(self, st, fr, arg, av):
        v = fr.stack.pop()
        fr.stack.append(st.excs[-1] if st.excs else None)
        fr.stack.append(v)
        st.excs = st.excs + (v,)

    def op_POP_EXCEPT(self, st, fr, arg, av):
        fr.stack.pop()
        st.excs = st.excs[:-1]

    def op_CHECK_EXC_MATCH(self, st, fr, arg, av):
        cls = fr.stack.pop()
        exc = fr.stack[-1]
        o = self.get(st, exc)
        mro = self.get(st, o.cls).mro
        cl = cls if type(cls) is tuple else (cls,)
        fr.stack.append(any(c in mro for c in cl))

    def op_RAISE_VARARGS(self, st, fr, arg, av):
        if arg == 0:
            if not st.excs:
                raise PyExc('RuntimeError', 'No active exception to reraise')
            return self.unwind(st, st.excs[-1])
        if arg == 2:
            fr.stack.pop()
        e = fr.stack.pop()
        if type(e) is Ref:
            o = self.get(st, e)
            if type(o) is OClass:
                e = self.alloc(st, OInst(e, {'__msg__': '', 'args': ()}, None, None, None))
            return self.unwind(st, e)
        if type(e) in (Opaque, Top):
            raise PyExc('Exception', 'opaque')
        raise PyExc('TypeError', 'exceptions must derive from BaseException')

    def op_RERAISE(self, st, fr, arg, av):
        e = fr.stack.pop()
        st.excs = st.excs[:-1] if st.excs and st.excs[-1] == e else st.excs
        return self.unwind(st, e)

    def op_SETUP_ANNOTATIONS(self, st, fr, arg, av):
        pass

    # classes
    def build_class(self, st, fn, name, bases, kw):
        ns = self.alloc(st, ONS({'__module__': self.get(st, fn.mod).name, '__qualname__': name}, name))
        fr = Frame(fn.code, fn.mod, {}, ns=ns, mode=('class', name, bases, ns))
        fr.loc['\0closure'] = fn.closure
        st.frames.append(fr)
        return PUSHED

    def finish_class(self, st, fr):
        _, name, bases, ns = fr.mode
        d = dict(self.get(st, ns).d)
        bases = bases or (self.types['object'],)
        ref = self.alloc(st, None)
        mro = [ref]
        # C3 approximation good enough for the simple hierarchies here
        seqs = []
        for b in bases:
            if type(b) is Ref:
                seqs.append(list(self.get(st, b).mro))
            else:
                seqs.append([b, self.types['object']])
        seqs.append(list(bases))
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            mro.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
                elif h in s:
                    s.remove(h)
        c = OClass(name, tuple(bases), d, tuple(mro), self.get(st, fr.mod).name, None)
        self.put(st, ref, c)
        for k, v in list(d.items()):
            if type(v) is Fn and v.cls is None:
                d[k] = Fn(v.code, v.mod, v.defaults, v.kwdefaults, v.closure, v.name, v.qual, name)
        if any(m == self.types['Enum'] for m in mro):
            nd = {}
            for k, v in d.items():
                if k.startswith('_') or type(v) in (Fn,):
                    nd[k] = v
                else:
                    nd[k] = self.alloc(st, OInst(ref, {'_name_': k, '_value_': v}, None, None, None))
            d = nd
        self.put(st, ref, c.rep(d=d))
        cc = fr.loc.get('\0c:__class__')
        if cc is not None:
            self.put(st, cc, OCell(ref))
        st.frames[-1].stack.append(ref)
        return None


class Hooks:
    """default (no-op) harness hooks"""

    def at_head(self, vm, st, widen):
        return None

    def on_key(self, vm, st, key):
        return False

    def on_call(self, vm, st, f, args, kwargs, mode):
        return None

    def on_getattr(self, vm, st, o, name, mode):
        return None

    def on_setattr(self, vm, st, o, name, v):
        return None

    def on_prop(self, vm, st, o, name, mode):
        return None

    def on_next(self, vm, st, it, mode):
        return None

    def materialise(self, vm, st, o, ob, name):
        return MISSING

    def has_lazy(self, vm, st, o, ob, name):
        return None

    def make_item(self, vm, st, src):
        raise Kill('no item maker', True)

    def item_options(self, vm, st, src):
        return 1

    def atom_nonempty(self, vm, st, g):
        return False

    def payload(self, vm, st, ref, o):
        return AStr((Atom('text', ref, IDMAP),))

    def lacks_char(self, g, c):
        return False

    def on_exhaust(self, vm, st, ref, seg):
        pass

    def settle_end(self, vm, st, ref, j):
        return None

    def reverse_items(self, vm, st, items):
        return None

    def list_contains(self, vm, st, l, x):
        return None

    def list_remove(self, vm, st, l, x):
        return False

    def list_insert(self, vm, st, l, i, x):
        return False

    def list_index(self, vm, st, l, x):
        return None

    def on_dict_get(self, vm, st, ref, k):
        return None

    def on_dict_set(self, vm, st, ref, k, v):
        return None

    def dict_rest_get(self, vm, st, ref, rest, k):
        vm.taint(st, 'lookup in an unbounded mapping')
        return Top('dict value') if vm.choose(st, 2) == 0 else MISSING

    def on_sort(self, vm, st, l, keys, reverse):
        return False

    def on_split(self, vm, st, s, a, k):
        return None

    def on_rsplit(self, vm, st, s, a, k):
        return None

    def on_streq(self, vm, st, a, b):
        return None

    def on_print(self, vm, st, a, k):
        pass
