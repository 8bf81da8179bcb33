"""Input-tape abstract domain: the text given to the parser is an unbounded,
lazily revealed sequence of character classes, tracked together with the state
of the MicroXML reference automaton (mxspec).  Positions already passed are
summarised; only the positions the analysed code can still refer to are kept.
"""
from .vm import *
from .vm import Val, Rec, MISSING, PUSHED
from . import models, regexset as R, mxspec
from .models import SliceV, RegexMatch
from .live import map_state

END = 'END'


class StrVal(Rec):
    __slots__ = ()
    pytype = 'str'
    joinable = True

    def getattr(self, vm, st, name):
        if (name in RUNPREDS or name in RUNCHANGES) and run_sets(st.dom, self) is not None:
            return RunMeth(self, name)
        if name in RUNCHANGES and type(self) is Bad:
            return RunMeth(self, name)
        return NBound('str.' + name, self)

    def strip(self, vm, st, how, *a):
        """three cases: nothing to strip, something at the ends, everything"""
        if len(a) > 1 or a and type(a[0]) is not str and a[0] is not None:
            return None
        if type(self) is Bad:
            return self
        sets = run_sets(st.dom, self)
        if sets is None:
            return None
        ws = pred_set('isspace') if not a or a[0] is None else R.chars(a[0]) if a[0] else ()
        if not sets:
            return ''
        can = lambda x: x is None or bool(R.inter(x, ws))
        cannot = lambda x: x is None or bool(R.minus(x, ws))
        ends = {'strip': (0, -1), 'lstrip': (0,), 'rstrip': (-1,)}[how]
        opts = []
        value = is_value(st.dom, self)
        if all(cannot(sets[i]) for i in ends) and not value:
            opts.append((self, 'text with nothing to strip'))
        if any(can(sets[i]) for i in ends) and any(cannot(x) for x in sets) and (len(sets) > 1 or sets[0] is None):
            opts.append((Bad('characters at the ends of the text are stripped'), 'text with characters to strip at its ends'))
        if value and not opts:
            return self
        if all(can(x) for x in sets) and not (value and opts):
            opts.append(('', 'text which consists of characters to strip'))
        r = opts[vm.choose(st, len(opts), labels=[o[1] for o in opts]) if len(opts) > 1 else 0][0]
        return r

    def length(self, vm, st):
        return SymV('int', 'len')

    def getitem(self, vm, st, k):
        return Top('item of tape string')

    def get_iter(self, vm, st):
        return Top('characters of tape string')

    def truth(self, vm, st):
        return True

    def binop(self, vm, st, op, y, sw):
        if op == '+' and (isinstance(y, (str, StrVal)) or type(y) in (SymV, AStr)):
            return concat(vm, st, y, self) if sw else concat(vm, st, self, y)
        if op == '%' and sw and type(y) is str:
            return SymV('str', 'formatted')
        if op in ('*', '%'):
            return SymV('str', 'formatted')
        return None

    def compare(self, vm, st, op, y, sw):
        if op != '==':
            return Top('ordering of tape strings')
        if isinstance(y, (StrVal, str)):
            return str_eq(vm, st, self, y)
        if type(y) in (AStr, SymV, Top, Opaque) or type(y) is models.Expr:
            return Top('comparison of tape string')
        return False


RUNCHANGES = ('replace', 'lower', 'upper', 'casefold', 'expandtabs', 'swapcase')
RUNPREDS = ('isspace', 'isascii', 'isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isprintable')


def run_sets(d, v):
    """what is known of the characters of a stretch of content or of an attribute value, in order: character sets, and
    None for any number (at least one) of unknown ones.  None when nothing can be said about the text"""
    if type(v) is Sym and v.kind == 'd':
        return (None,)
    if type(v) not in (Win, Dec):
        return None
    a, b = (v.a, v.e) if type(v) is Win else (v.a, v.b)
    if b == END or a not in d.info or b not in d.bds or d.info[a][0][0] not in ('CONTENT', 'CCR', 'AVAL'):
        return None
    i, j = d.bds.index(a), d.bds.index(b)
    ref = {d.bds.index(x): (d.bds.index(y), val) for x, y, val in d.refs} if type(v) is Dec else {}
    out = []
    while i < j:
        if i in ref:
            i, val = ref[i]
            out.append(R.chars(val[1]) if val[0] == 'lit' else None)
            continue
        it = d.items[i]
        if it[0] == 'c':
            e = it[1]
            if type(v) is Dec and e[3] == 'nl':
                out.append(R.chars('\n'))
            elif type(v) is Dec and e[3] == '':
                if e[4] is not None or e[2][0][:1] == 'R' or e[2] == mxspec.ERR:
                    return None
            elif e[2] == mxspec.ERR or e[4] == 'refstart' or e[2][0][:1] == 'R':
                return None
            else:
                out.append(it[2])
        elif it[0] == 'd' or it[0] == 'b' and it[1] != 'err':
            out.append(None)
        else:
            return None
        i += 1
    return tuple(out)


def change_set(name):
    """the characters the method of that name replaces with something else"""
    if name not in _pred:
        f = getattr(str, name)
        _pred[name] = R.norm([(i, i) for i in range(R.MAXC) if f(chr(i)) != chr(i)])
    return _pred[name]


def is_value(d, v):
    """an attribute value: only the case in which it is altered is followed, since the others would multiply with each other"""
    return type(v) is Sym or d.info[v.a][0][0] == 'AVAL'


class RunMeth(Rec):
    _f = __slots__ = ('v', 'name')

    def change(self, vm, st, args, kw):
        """text which the method leaves alone, or text it alters"""
        v = self.v
        if type(v) is Bad:
            return v
        sets = run_sets(st.dom, v)
        if kw or sets is None or type(v) is Win and not st.dom.plain(v.a, v.e):
            return Top(self.name)
        if self.name == 'replace':
            if len(args) != 2 or type(args[0]) is not str or type(args[1]) is not str or len(args[0]) != 1:
                return Top('replace')
            if args[0] == args[1]:
                return v
            s = R.chars(args[0])
        elif args:
            return Top(self.name)
        else:
            s = change_set(self.name)
        yes = any(x is None or R.inter(x, s) for x in sets)
        no = all(x is None or R.minus(x, s) for x in sets)
        what = self.name + ('(%r, %r)' % tuple(args) if args else '()')
        bad = Bad('the text is changed by %s' % what)
        if yes and no and not is_value(st.dom, v) and vm.choose(st, 2, labels=['text which %s changes' % what, 'text which %s leaves alone' % what]):
            return v
        return bad if yes else v

    def call(self, vm, st, args, kw):
        if self.name in RUNCHANGES:
            return self.change(vm, st, args, kw)
        sets = run_sets(st.dom, self.v)
        if sets is None:
            return Top(self.name)
        s = pred_set(self.name)
        if not sets:
            return self.name in ('isascii', 'isprintable')
        yes = all(x is None or R.inter(x, s) for x in sets)
        no = any(x is None or R.minus(x, s) for x in sets)
        if yes and no:
            return vm.choose(st, 2, labels=['text for which %s() holds' % self.name, 'text for which %s() does not hold' % self.name]) == 0
        return bool(yes)


class Win(StrVal):
    """raw text between two boundaries; e may be END"""
    _f = __slots__ = ('a', 'e')

    def length(self, vm, st):
        return Idx(self.a, self.e, 0)

    def truth(self, vm, st):
        if self.a == self.e:
            return False
        d = st.dom
        if self.e != END or self.a != d.frontier:
            return True
        if d.closed:
            return False
        if d.must:
            return True
        k = vm.choose(st, 2, labels=['more text', 'no more text'])
        d = st.dom.copy()
        if k == 0:
            d.must = True
        else:
            d.closed = True
        st.dom = d
        return k == 0

    def getitem(self, vm, st, k):
        if type(k) is SliceV:
            return txn(vm, st, lambda d: win_slice(vm, st, d, self, k))
        if type(k) in (SymV, Top) or type(k) is models.Expr:
            return Top('window index')
        if not isinstance(k, (int, Idx)):
            raise PyExc('TypeError', 'string indices must be integers')
        rewrite_int(vm, st, self, k)
        return txn(vm, st, lambda d: d.read(vm, st, self, to_pos(vm, st, d, self, k)))

    def startswith(self, vm, st, p, pos=0, *a):
        if a or not isinstance(p, (str, tuple)):
            return Top('startswith')

        def f(d):
            for s in (p if type(p) is tuple else (p,)):
                w = to_pos(vm, st, d, self, pos)
                for ch in s:
                    try:
                        c = d.read(vm, st, self, w)
                    except PyExc:
                        break
                    if not ch_test(vm, st, c, R.chars(ch), d):
                        break
                    w = (c.e, 0)
                else:
                    return True
            return False
        return txn(vm, st, f)

    def get_iter(self, vm, st):
        return vm.alloc(st, OIter(self, Idx(self.a, self.a, 0), 'tape'))

    def iter_next(self, vm, st, it, o):
        if o.src is None:
            return MISSING
        try:
            c = txn(vm, st, lambda d: d.read(vm, st, self, to_pos(vm, st, d, self, o.idx)))
        except PyExc as e:
            if e.cls != 'IndexError':
                raise
            return MISSING
        vm.put(st, it, o.rep(idx=Idx(self.a, c.e, 0)))
        return c

    def rx_match(self, vm, st, rx, how, a):
        cs = R.char_class(rx.pat, rx.flags)
        if cs is None or how != 'match' or len(a) > 1:
            return Top('regular expression over unbounded text')
        pos = a[0] if a else 0

        def f(d):
            try:
                c = d.read(vm, st, self, to_pos(vm, st, d, self, pos))
            except PyExc:
                return None
            return TapeMatch(self.a, c) if ch_test(vm, st, c, cs, d) else None
        return txn(vm, st, f)

    def to_int(self, vm, st, base):
        d = st.dom
        if self.a == self.e:
            raise PyExc('ValueError', 'invalid literal for int()')
        if self.e == END:
            return Top('int of window')
        q, rs, ds = d.info[self.e]
        if ds == self.a and q[0] in ('RX', 'RD'):
            ok = (base or 10) == (16 if q[0] == 'RX' else 10)
            return HexVal(self.a, self.e, ok)
        if q == mxspec.ERR:
            raise PyExc('ValueError', 'invalid literal for int()')
        vm.taint(st, 'int of tape text')
        return Top('int of tape text')


class Dec(StrVal):
    """decoded content of [a, b) as the specification defines it"""
    _f = __slots__ = ('a', 'b')


class Bad(StrVal):
    """text that differs from what the specification prescribes"""
    _f = __slots__ = ('why',)

    def compare(self, vm, st, op, y, sw):
        if isinstance(y, (StrVal, str)) or op != '==' or type(y) in (AStr, SymV, Top, Opaque):
            return Top('comparison of wrong text')
        return False


class Sym(StrVal):
    """a completed name (n) or value (d)"""
    _f = __slots__ = ('kind', 'k')

    def getitem(self, vm, st, k):
        if self.kind == 'n' and (type(k) is int or (type(k) is SliceV and k.tup() != (None, None, None) and
                                                    all(x is None or type(x) is int for x in k.tup()))):
            return Feat(self, ('item', repr(k)))
        return Top('item of tape string')

    def length(self, vm, st):
        return Feat(self, ('len',)) if self.kind == 'n' else SymV('int', 'len')

    def getattr(self, vm, st, name):
        if self.kind == 'n' and name in ('lower', 'upper', 'casefold'):
            return FeatM(self, name)
        return StrVal.getattr(self, vm, st, name)


class FeatM(Rec):
    _f = __slots__ = ('sym', 'name')

    def call(self, vm, st, args, kw):
        return Feat(self.sym, ('case',))


class Feat(Rec):
    """a part of a name that does not determine it: different names may agree in it"""
    _f = __slots__ = ('sym', 'key')

    def compare(self, vm, st, op, y, sw):
        d = st.dom
        if op != '==':
            return Top('ordering of name parts')
        if type(y) is Ch and y.b is not None and self.key in (('item', '0'),):
            for kind, a, b, s in d.toks:
                if kind == 'n' and a == y.b:
                    y = Feat(s, self.key)
                    break
        if type(y) is Win and self.key == ('len',):
            y = d.resolve(y)
        if type(y) is Feat and y.key == self.key:
            if y.sym == self.sym:
                return True
            if (y.sym, self.sym) in d.neq or (self.sym, y.sym) in d.neq:
                return vm.choose(st, 2, labels=['two different names that agree in this respect', 'they differ in this respect']) == 0
        return Top('comparison of parts of names')

    def truth(self, vm, st):
        return True


class Ch(StrVal):
    _f = __slots__ = ('c', 'b', 'e')

    def length(self, vm, st):
        return 1

    def compare(self, vm, st, op, y, sw):
        d = st.dom
        if type(y) is Ch:
            a, b = mxspec.single(d.cset(self)), mxspec.single(d.cset(y))
            if op != '==':
                return Top('ordering')
            if b is not None:
                return ch_test(vm, st, self, R.chars(b))
            if a is not None:
                return ch_test(vm, st, y, R.chars(a))
            if self == y:
                return True
            return Top('comparison of two characters')
        if type(y) is not str:
            return StrVal.compare(self, vm, st, op, y, sw)
        if op == '==':
            return len(y) == 1 and ch_test(vm, st, self, R.chars(y))
        if len(y) != 1:
            return Top('ordering')
        o = ord(y)
        if sw:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        s = {'<': ((0, o - 1),), '<=': ((0, o),), '>': ((o + 1, R.MAXC - 1),), '>=': ((o, R.MAXC - 1),)}[op]
        return ch_test(vm, st, self, R.norm(s))

    def member_of(self, vm, st, other):
        if type(other) is str:
            return ch_test(vm, st, self, R.chars(other))
        if type(other) is Ch:
            return self.compare(vm, st, '==', other, False)
        if isinstance(other, StrVal):
            return Top('membership in tape text')
        return None

    def contains(self, vm, st, other):
        if isinstance(other, (str, Ch)):
            if other == '':
                return True
            return self.compare(vm, st, '==', other, False)
        return None

    def rx_match(self, vm, st, rx, how, a):
        cs = R.char_class(rx.pat, rx.flags)
        if cs is None or a or how not in ('match', 'fullmatch', 'search'):
            return Top('regular expression')
        return TapeMatch(None, self) if ch_test(vm, st, self, cs) else None

    def getattr(self, vm, st, name):
        if name in PREDS or name in ('lower', 'upper', 'casefold'):
            return ChMeth(self, name)
        return NBound('str.' + name, self)

    def startswith(self, vm, st, p, *a):
        if a:
            return Top('startswith')
        if p == '':
            return True
        ps = p if type(p) is tuple else (p,)
        return any(type(x) is str and (x == '' or self.compare(vm, st, '==', x, False)) for x in ps)

    def getitem(self, vm, st, k):
        if k in (0, -1) and isinstance(k, int):
            return self
        return Top('item of character')

    def to_ord(self, vm, st):
        return OrdV(self)

    def to_int(self, vm, st, base):
        s = mxspec.single(st.dom.cset(self))
        return Top('int of character') if s is None else models.n_int(vm, st, s, base)


PREDS = ('isspace', 'isalpha', 'isdigit', 'isalnum', 'isnumeric', 'isdecimal', 'isidentifier', 'isprintable',
         'isascii', 'isupper', 'islower')
_pred = {}


def pred_set(name):
    if name not in _pred:
        f = getattr(str, name)
        _pred[name] = R.norm([(i, i) for i in range(R.MAXC) if f(chr(i))])
    return _pred[name]


class ChMeth(Rec):
    _f = __slots__ = ('ch', 'name')

    def call(self, vm, st, args, kw):
        if self.name in PREDS:
            return ch_test(vm, st, self.ch, pred_set(self.name))
        s = mxspec.single(st.dom.cset(self.ch))
        if s is not None:
            return getattr(s, self.name)()
        return Top('case mapping')


class OrdV(Rec):
    _f = __slots__ = ('ch',)
    pytype = 'int'

    def compare(self, vm, st, op, y, sw):
        if not isinstance(y, int):
            return Top('comparison of code points')
        if y < 0 or y >= R.MAXC:
            lt = {'<': y > 0, '<=': y > 0, '>': y < 0, '>=': y < 0, '==': False}
            return lt[{'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op) if sw else op]
        return self.ch.compare(vm, st, op, chr(y), sw)

    def to_chr(self, vm, st):
        return self.ch

    def binop(self, vm, st, op, y, sw):
        return SymV('int', 'ord')


class TapeMatch(Rec):
    _f = __slots__ = ('base', 'ch')

    def truth(self, vm, st):
        return True

    def getattr(self, vm, st, name):
        return MatchMeth(self, name)


class MatchMeth(Rec):
    _f = __slots__ = ('m', 'name')

    def call(self, vm, st, args, kw):
        if self.name == 'group' and args in ((), (0,)):
            return self.m.ch
        if self.m.base is not None and self.name in ('end', 'start'):
            return Idx(self.m.base, self.m.ch.e if self.name == 'end' else self.m.ch.b, 0)
        if self.m.base is None and self.name in ('end', 'start'):
            return 1 if self.name == 'end' else 0
        return Top('match.' + self.name)


class Idx(Rec):
    """number of characters from boundary a to boundary b (or END), plus over"""
    _f = __slots__ = ('a', 'b', 'over')
    pytype = 'int'

    def binop(self, vm, st, op, y, sw):
        if op == '+' and type(y) is int:
            if y == 0:
                return self
            return txn(vm, st, lambda d: idx_add(vm, st, d, self, y))
        if op == '-' and type(y) is int and not sw:
            return self if y == 0 else txn(vm, st, lambda d: idx_add(vm, st, d, self, -y))
        if op == '+' and type(y) is Idx:
            p, q = (y, self) if sw else (self, y)
            for p, q in ((p, q), (q, p)):
                if p.b == q.a and p.over == 0:
                    return Idx(p.a, q.b, q.over)
                if p.a == p.b and p.over == 0:
                    return q
        if op == '-' and type(y) is Idx and not sw:
            d = st.dom
            n = d.distance(y, self)
            if n is not None:
                return n
            if y.a == self.a and y.over == 0:
                return Idx(y.b, self.b, self.over)
        return SymV('int', 'arith')

    def compare(self, vm, st, op, y, sw):
        if type(y) not in (int, Idx):
            return Top('comparison of a position') if type(y) is not bool else None
        if type(y) is Idx and y.a != self.a:
            return Top('comparison of positions in different windows')
        if sw:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        return txn(vm, st, lambda d: idx_cmp(vm, st, d, op, self, y))

    def truth(self, vm, st):
        r = self.compare(vm, st, '==', 0, False)
        if r is True or r is False:
            return not r
        return models.truth(vm, st, r)

    def index_into(self, vm, st, o):
        return Top('position used as an index elsewhere')


class HexVal(Rec):
    _f = __slots__ = ('a', 'b', 'ok')
    pytype = 'int'

    def cls(self, st):
        for ra, b2, val in st.dom.refs:
            if val[0] == 'cp' and val[1] == self.a and val[2] == self.b:
                return val[3]
        raise Kill('character number examined before its end was read', True)

    def to_chr(self, vm, st):
        if self.cls(st) == 'big':
            raise PyExc('ValueError', 'chr() arg not in range(0x110000)')
        return CpCh(self.a, self.b, self.ok)

    def compare(self, vm, st, op, y, sw):
        c = self.cls(st)
        if not isinstance(y, int):
            return Top('comparison of character number')
        if sw:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if c == 'big':
            if y > 0x10FFFF:
                return Top('comparison beyond the code point range')
            return {'<': False, '<=': False, '==': False, '>': True, '>=': True}[op]
        if y < 0 or y >= R.MAXC:
            return {'<': y > 0, '<=': y > 0, '==': False, '>': y < 0, '>=': y < 0}[op]
        s = {'<': ((0, y - 1),), '<=': ((0, y),), '>': ((y + 1, R.MAXC - 1),), '>=': ((y, R.MAXC - 1),), '==': ((y, y),)}[op]
        return cp_test(vm, st, self, R.norm(s))

    def member_of(self, vm, st, other):
        return None

    def binop(self, vm, st, op, y, sw):
        return SymV('int', 'arith')


class CpCh(StrVal):
    _f = __slots__ = ('a', 'b', 'ok')

    def cls(self, st):
        return HexVal(self.a, self.b, self.ok).cls(st)

    def rx_match(self, vm, st, rx, how, a):
        cs = R.char_class(rx.pat, rx.flags)
        if cs is None or a or not self.ok:
            return Top('regular expression')
        return RegexMatch(rx, self, how) if cp_test(vm, st, self, cs) else None

    def compare(self, vm, st, op, y, sw):
        if op == '==' and type(y) is str:
            return len(y) == 1 and cp_test(vm, st, self, R.chars(y))
        if type(y) is str and len(y) == 1:
            return HexVal(self.a, self.b, self.ok).compare(vm, st, op, ord(y), sw)
        return Top('comparison of a referenced character')

    def member_of(self, vm, st, other):
        if type(other) is str:
            return cp_test(vm, st, self, R.chars(other))
        return None

    def to_ord(self, vm, st):
        return HexVal(self.a, self.b, self.ok)


class HandlerV(Rec):
    _f = __slots__ = ()

    def getattr(self, vm, st, name):
        return HandlerMeth(name)

    def next(self, vm, st):
        return None


class HandlerMeth(Rec):
    _f = __slots__ = ('name',)

    def call(self, vm, st, args, kw):
        if self.name == 'send' and len(args) == 1:
            vm.hooks.on_event(vm, st, args[0])
            return None
        if self.name in ('close', '__next__'):
            return None
        return Top('handler.' + self.name)


# ------------------------------------------------------------------ helpers
def ch_test(vm, st, ch, s, d=None):
    """is the character in s?  Splits the input when both are possible"""
    dd = d if d is not None else st.dom
    have = dd.cset(ch)
    x = R.inter(have, s)
    if x == have:
        return True
    if not x:
        return False
    if ch.b is None:
        raise Kill('test of a remembered character', True)
    k = vm.choose(st, 2, labels=SetLabels(x, R.minus(have, s)))
    if d is None:
        d = st.dom.copy()
        st.dom = d
    d.refine(ch.b, x if k == 0 else R.minus(have, s))
    return k == 0


class SetLabels:
    def __init__(self, *sets):
        self.sets = sets

    def __getitem__(self, i):
        return 'input character in %s' % R.show(self.sets[i])


def cp_test(vm, st, v, s):
    have = v.cls(st)
    if have == 'big':
        return False
    x = R.inter(have, s)
    if x == have:
        return True
    if not x:
        return False
    k = vm.choose(st, 2, labels=SetLabels(x, R.minus(have, s)))
    d = st.dom.copy()
    new = x if k == 0 else R.minus(have, s)
    i = d.bds.index(v.b)
    it = d.items[i]
    e = it[1]
    d.items[i] = ('c', (e[0], ('cp', new)) + e[2:], it[2])
    st.dom = d
    return k == 0


def txn(vm, st, f):
    d = st.dom.copy()
    try:
        r = f(d)
    except PyExc:
        st.dom = d
        commit(vm, st, d)
        raise
    st.dom = d
    commit(vm, st, d)
    return r


def commit(vm, st, d):
    """apply a pending refinement of the folded element stack to the code's lists"""
    if not d.pend:
        return
    for new in d.pend:
        for a, o in list(st.heap.items()):
            if type(o) is OList and any(type(x) is Rest and x.src == ('stk',) for x in o.items):
                items = []
                for x in o.items:
                    items.extend(new if type(x) is Rest and x.src == ('stk',) else (x,))
                st.heap[a] = o.rep(items=tuple(items))
    d.pend = ()


def win_end(d, w):
    return w.e


def to_pos(vm, st, d, w, k):
    """position (boundary, over) of index k in window w"""
    if type(k) is Idx:
        if k.a != w.a:
            if k.a == k.b and k.over >= 0:      # a small known number
                return d.advance(vm, st, w.a, k.over)
            vm.taint(st, 'position of another window')
            raise Kill('position used with another window', True)
        if k.b == END:
            if not d.closed:
                if d.must or k.over < 0:
                    raise Kill('index relative to the unread end', True)
                if vm.choose(st, 2, labels=['end of text', 'more text']) == 1:
                    d.must = True
                    raise PyExc('IndexError', 'string index out of range')
                d.closed = True
            if k.over >= 0:
                return (d.frontier, k.over + 1000)
            return d.back(vm, st, d.frontier, -k.over)
        return d.advance(vm, st, k.b, k.over)
    if k < 0:
        if w.e == END:
            if not d.closed:
                raise Kill('negative index into unread text', True)
            return d.back(vm, st, d.frontier, -k)
        return d.back(vm, st, w.e, -k)
    return d.advance(vm, st, w.a, k)


def rewrite_int(vm, st, w, k):
    """a concrete index becomes a symbolic position wherever the same number is held"""
    if type(k) is not int or k < 0:
        return
    d = st.dom
    v = None
    if k == 0:
        v = Idx(w.a, w.a, 0)
    else:
        b = w.a
        n = k
        while n and b != d.frontier:
            i = d.bds.index(b)
            if d.items[i][0] != 'c':
                return
            b = d.bds[i + 1]
            n -= 1
        v = Idx(w.a, b, n)
    for fr in st.frames:
        for n, x in list(fr.loc.items()):
            if type(x) is int and x == k:
                fr.loc[n] = v
    for a, o in list(st.heap.items()):
        if type(o) is OCell and type(o.v) is int and o.v == k:
            st.heap[a] = OCell(v)
        elif type(o) is OInst and any(type(x) is int and x == k for x in o.d.values()):
            st.heap[a] = o.rep(d={n: v if type(x) is int and x == k else x for n, x in o.d.items()})


def idx_add(vm, st, d, x, k):
    if abs(k) > 3:
        return SymV('int', 'arith')
    if x.b == END:
        return Idx(x.a, END, x.over + k)
    if k > 0:
        if x.over < 0:
            return Idx(x.a, x.b, x.over + k)
        b, o = d.advance(vm, st, x.b, x.over + k)
        return Idx(x.a, b, o)
    n = x.over + k
    b = x.b
    if n < 0:
        i = d.bds.index(b)
        while n < 0 and i > 0 and d.items[i - 1][0] == 'c' and b != x.a:
            i -= 1
            b = d.bds[i]
            n += 1
    return Idx(x.a, b, n)


OPS = {'<': lambda n: n < 0, '<=': lambda n: n <= 0, '>': lambda n: n > 0, '>=': lambda n: n >= 0, '==': lambda n: n == 0}


def idx_cmp(vm, st, d, op, x, y):
    """x op y for positions of the same window, or a position against a number"""
    cmpf = OPS[op]
    for _ in range(12):
        if type(y) is int:
            lo, hi = d.span(x.a, x.b)
            lo += x.over
            hi = None if hi is None else hi + x.over
            if hi is not None:
                if lo == hi:
                    return cmpf(lo - y)
                if cmpf(lo - y) == cmpf(hi - y) and (op != '==' or not (lo <= y <= hi)):
                    return cmpf(lo - y)
                raise Kill('internal span', True)
            if lo > y:
                return cmpf(1)
            if lo == y and op in ('>=', '<'):
                return op == '>='
            if x.b == END and not d.closed and (x.a == d.frontier or d.span(x.a, d.frontier)[1] is not None):
                d.gen_or_end(vm, st, cheap=(lo == y))
                continue
            return Top('length comparison')
        if x == y:
            return cmpf(0)
        if END in (x.b, y.b) and x.b != y.b:
            if d.closed:
                x = Idx(x.a, d.frontier, x.over) if x.b == END else x
                y = Idx(y.a, d.frontier, y.over) if y.b == END else y
                continue
            p, e = (x, y) if y.b == END else (y, x)
            sg = 1 if y.b == END else -1      # sign of (p - e) as (x - y)
            lo, hi = d.span(p.b, d.frontier)
            # e - p = span(p.b, frontier) + unread + e.over - p.over
            least = lo + (1 if d.must else 0) + e.over - p.over
            if least > 0:
                return cmpf(-sg)
            if hi is None:
                return Top('position comparison')
            if least == 0 and ((sg == 1 and op in ('<=', '>')) or (sg == -1 and op in ('>=', '<'))):
                return op in ('<=', '>=')
            d.gen_or_end(vm, st, cheap=(least == 0 and not d.must))
            continue
        if x.b == y.b:
            return cmpf(x.over - y.over)
        bx, by = d.bds.index(x.b), d.bds.index(y.b)
        lo, hi = d.span(x.b, y.b) if bx < by else d.span(y.b, x.b)
        n_lo = (-1 if bx < by else 1) * lo + x.over - y.over
        if hi is not None:
            return cmpf(n_lo)
        # distance at least lo
        if bx < by and n_lo < 0:
            return cmpf(-1)
        if bx > by and n_lo > 0:
            return cmpf(1)
        return Top('position comparison')
    return Top('position comparison')


def win_slice(vm, st, d, w, k):
    for x in (k.a, k.b, k.c):
        if not (x is None or type(x) in (int, Idx)):
            return SymV('str', 'excerpt')
    if k.c is not None:
        return SymV('str', 'excerpt')

    def bound(x, dflt):
        if x is None:
            return dflt
        if type(x) is Idx and x.b == END and x.over == 0 and x.a == w.a:
            return (w.e, 0)
        if type(x) is Idx and x.b == END and not d.closed:
            return None
        if type(x) is int and x < 0:
            return None
        try:
            b, o = to_pos(vm, st, d, w, x)
        except PyExc:
            return (w.e, 0)
        while o > 0 and b == d.frontier and not d.closed and w.e == END:
            if not d.gen_or_end(vm, st):
                break
            b, o = d.advance(vm, st, b, o)
        if o > 0:
            return (w.e if w.e != END else d.frontier, 0)
        if o < 0:
            return None
        return (b, 0)
    a = bound(k.a, (w.a, 0))
    b = bound(k.b, (w.e, 0))
    if a is None or b is None:
        return SymV('str', 'excerpt')
    a, b = a[0], b[0]
    if b == END and d.closed:
        b = d.frontier
    if a == END:
        a = d.frontier if d.closed else END
    if a == END:
        return ''
    if b != END:
        if w.e != END and d.bds.index(b) > d.bds.index(w.e):
            b = w.e
        if d.bds.index(a) > d.bds.index(b):
            return ''
    return d.mkwin(a, b)


def as_text(d, v):
    """(a, b, raw?) of a positional string"""
    t = type(v)
    if t is Win and v.e != END:
        return v.a, v.e, True
    if t is Ch and v.b is not None:
        return v.b, v.e, True
    if t is Dec:
        return v.a, v.b, False
    return None


def concat(vm, st, x, y):
    d = st.dom
    if type(y) is Win and y.a == y.e and x != '':
        return x
    if x == '' or y == '':
        o = y if x == '' else x
        if type(o) is Ch and o.b is not None:
            return d.mkwin(o.b, o.e)
        if type(o) is CpCh:
            return add_ref(d, None, o)
        if type(o) is Win and o.e != END and o.a != o.e:
            pair = d.crlf(o.a)
            if pair and d.plain(pair[1], o.e):
                return Dec(pair[0], o.e)
        return o
    for v in (x, y):
        if type(v) is Bad:
            return v
    if type(x) is Win and type(y) is Win and x.e == y.a:
        return d.mkwin(x.a, y.e)
    if type(x) is Win and x.a == x.e and type(y) in (Win, Ch, Dec):
        tx = as_text(d, y)
        if tx is not None and tx[0] == x.a:
            return d.mkwin(tx[0], tx[1]) if tx[2] else y
        if tx is not None and tx[2] and d.bds.index(x.a) < d.bds.index(tx[0]):
            pair = d.crlf(tx[0])
            if pair and d.gap(x.a, pair[0]) is True and d.plain(pair[1], tx[1]):
                return Dec(x.a, tx[1])
        return y if type(y) is not Ch else (d.mkwin(y.b, y.e) if y.b is not None else SymV('str', 'text'))
    if END in (getattr(x, 'e', 0), getattr(y, 'e', 0)):
        return SymV('str', 'text')
    if type(x) is str and as_text(d, y):
        # literal before text: a reference or newline decoded at the very start
        r = add_lit(d, None, x, as_text(d, y)[0])
        if r is None:
            return SymV('str', 'text')
        x = r
        if type(x) is Bad:
            return x
    tx = as_text(d, x)
    if tx is None:
        if type(x) is CpCh:
            x = add_ref(d, None, x)
            tx = as_text(d, x)
        if tx is None:
            return SymV('str', 'text')
    a, b, raw = tx
    if raw:
        if not d.plain(a, b):
            w = d.why_not_plain(a, b)
            return Bad(w) if w else SymV('str', 'text')
    if type(y) is str:
        r = add_lit(d, (a, b), y, None)
        return r if r is not None else SymV('str', 'text')
    if type(y) is CpCh:
        return add_ref(d, (a, b), y)
    ty = as_text(d, y)
    if ty is None:
        return SymV('str', 'text')
    c, e, raw2 = ty
    if c == e:
        return x
    pair = d.crlf(c) if raw2 else None
    if pair and d.bds.index(b) <= d.bds.index(pair[0]) and d.gap(b, pair[0]) is True and d.plain(pair[1], e):
        return Dec(a, e)
    g = d.gap(b, c)
    if g is not True:
        return Bad(g) if g else SymV('str', 'text')
    if raw2 and not d.plain(c, e):
        w = d.why_not_plain(c, e)
        return Bad(w) if w else SymV('str', 'text')
    return Dec(a, e)


def add_ref(d, pos, cp):
    if not cp.ok:
        return Bad('a character number is read in the wrong base')
    for ra, b2, val in d.refs:
        if val[0] == 'cp' and val[1] == cp.a and val[2] == cp.b:
            if pos is None:
                return Dec(ra, b2)
            g = d.gap(pos[1], ra)
            if g is True:
                return Dec(pos[0], b2)
            return Bad(g) if g else SymV('str', 'text')
    return SymV('str', 'text')


def add_lit(d, pos, s, nxt):
    """text [pos) followed by literal s: find the reference or line break it stands for"""
    cands = []
    for ra, b2, val in d.refs:
        if pos is None or d.bds.index(ra) >= d.bds.index(pos[1]):
            cands.append((ra, b2, val))
    if len(s) == 1 and pos is not None:
        # a line break or a character written as itself at the current position
        i = d.bds.index(pos[1])
        if i < len(d.items) and d.items[i][0] == 'c':
            e = d.items[i][1]
            c = mxspec.single(d.items[i][2])
            if e[3] == 'nl' and s == '\n':
                return Dec(pos[0], d.bds[i + 1])
            if e[3] == '' and e[4] is None and i + 1 < len(d.items) and d.items[i + 1][0] == 'c':
                e2 = d.items[i + 1][1]
                if mxspec.single(d.items[i + 1][2]) == s and e2[3] == 'id':
                    return Dec(pos[0], d.bds[i + 2])
            if e[3] == 'id' and e[4] in (None, 'mayrej') and c == s:
                return Dec(pos[0], d.bds[i + 1])
    if cands:
        ra, b2, val = cands[0] if pos is not None else cands[-1]
        ok = True if pos is None else d.gap(pos[1], ra)
        if ok is not True:
            return Bad(ok) if ok else None
        if val[0] == 'lit':
            if val[1] != s:
                return Bad('a character reference for %r yields %r' % (val[1], s))
            return Dec(ra if pos is None else pos[0], b2)
        return None
    if pos is None:
        # newline produced at the start of the text
        i = 0
        lim = d.bds.index(nxt) if nxt is not None else len(d.items)
        for i in range(lim - 1, -1, -1):
            it = d.items[i]
            if it[0] == 'c' and it[1][3] == 'nl' and s == '\n':
                return Dec(d.bds[i], d.bds[i + 1])
            if it[0] == 'c' and it[1][3] == '':
                continue
            break
        for i in range(len(d.items) - 1, -1, -1):
            it = d.items[i]
            if it[0] != 'c':
                break
            if mxspec.single(it[2]) == s and it[1][3] == 'id' and nxt is None:
                return d.mkwin(d.bds[i], d.bds[i + 1])
    return None


def str_eq(vm, st, x, y):
    d = st.dom
    if type(y) is str and type(x) is not str:
        pass
    elif type(x) is str:
        x, y = y, x
    x = d.resolve(x)
    y = d.resolve(y)
    if x == y and type(x) is not Bad:
        return True
    if type(y) is str:
        if type(x) is Sym:
            if y == '' or (x.kind == 'n' and not all(R.has(mxspec.NAMECHAR, c) for c in y)):
                return False
            return Top('comparison of a name with a literal')
        if type(x) is Win and x.e != END:
            return win_lit(vm, st, d, x, y)
        if type(x) is Win:
            if y == '':
                return not x.truth(vm, st)
            return Top('comparison of a window')
        if type(x) is Dec and y == '':
            return False
        return Top('comparison of text')
    if type(x) is Sym and type(y) is Sym:
        if x.kind == y.kind == 'n':
            if (x, y) in d.neq or (y, x) in d.neq:
                return False
            if x in d.names_open() and y in d.names_open() and x != y and d.dup is None:
                return Top('comparison of unrelated names')
        return Top('comparison of unrelated names')
    tx, ty = as_text(d, x), as_text(d, y)
    if tx and ty and tx[:2] == ty[:2]:
        return True
    w, s = (x, y) if type(x) is Win else (y, x)
    if type(w) is Win and type(s) is Sym and s.kind == 'n' and w.e != END and w.a != w.e and d.info[w.e][0] == mxspec.ERR:
        # text that begins after a well-formedness error is arbitrary, so it may equal the name
        i, j = d.bds.index(w.a), d.bds.index(w.e)
        if all(it[0] != 'c' or R.inter(it[2], mxspec.NAMECHAR) for it in d.items[i:j]) and d.info[w.a][0] == mxspec.ERR:
            return vm.choose(st, 2, labels=['the texts are equal', 'the texts differ']) == 0
    return Top('comparison of texts')


def win_lit(vm, st, d, x, s):
    if x.a == x.e:
        return s == ''
    qa, qe = d.info[x.a], d.info[x.e]
    if qa[0][0] == 'RS':
        if qe[0][0] == 'RN' and qe[1] == qa[1]:
            return qe[0][2] == s
        if qe[0] == mxspec.ERR and s in mxspec.TRIE:
            return False
    lo, hi = d.span(x.a, x.e)
    if hi is not None:
        if hi != len(s):
            return False
        i = d.bds.index(x.a)
        for n, ch in enumerate(s):
            it = d.items[i + n]
            x = R.inter(it[2], R.chars(ch))
            if not x:
                return False
            if x != it[2]:
                return Top('comparison of text with a literal')
        return True
    if len(s) < lo:
        return False
    if qe[0] == mxspec.ERR:
        return vm.choose(st, 2) == 0        # text after a well-formedness error is arbitrary
    return Top('comparison of unbounded text with a literal')


class Labels:
    def __init__(self, spec, q, edges, end):
        self.x = spec, q, edges, end

    def __getitem__(self, i):
        spec, q, edges, end = self.x
        if end:
            if i == 0:
                return 'input ends'
            i -= 1
        e = edges[i]
        return 'input character %r %s%s' % (mxspec.rep(e[0]), mxspec.show_state(q), '' if not e[1] else ' (%s)' % (e[1],))


class Dom:
    F = ('bds', 'items', 'info', 'closed', 'must', 'final', 'mayrej', 'toks', 'tstart', 'gi', 'an', 'attrs', 'stack',
         'queue', 'dup', 'neq', 'serial', 'nser', 'nsym', 'attgen', 'inp', 'hist', 'pend', 'mode')

    def __init__(self, spec):
        self.spec = spec
        self.bds = [0]
        self.items = []
        self.info = {0: (('PRE0',), None, None)}
        self.closed = False
        self.must = False
        self.final = False
        self.mayrej = False
        self.toks = ()            # (kind, a, b, sym)
        self.tstart = None
        self.gi = None
        self.an = None
        self.attrs = ()
        self.stack = ()
        self.queue = ()
        self.dup = None
        self.neq = ()
        self.serial = {0: 0}
        self.nser = 1
        self.nsym = 0
        self.attgen = 0
        self.inp = None
        self.hist = ()
        self.pend = ()
        self.mode = ''

    def copy(self):
        d = Dom.__new__(Dom)
        d.spec = self.spec
        for f in self.F:
            v = getattr(self, f)
            if type(v) is list:
                v = v[:]
            elif type(v) is dict:
                v = dict(v)
            setattr(d, f, v)
        return d

    def canon(self, f):
        return (tuple(self.bds), tuple(self.items), tuple(sorted((k, v) for k, v in self.info.items())),
                self.closed, self.must, self.final, self.mayrej, f(self.toks), self.tstart, f(self.gi), f(self.an), f(self.attrs),
                f(self.stack), f(self.queue), f(self.dup), f(self.neq), self.mode)

    def map(self, g):
        self.toks = g(self.toks)
        self.gi = g(self.gi)
        self.an = g(self.an)
        self.attrs = g(self.attrs)
        self.stack = g(self.stack)
        self.queue = g(self.queue)
        self.dup = g(self.dup)
        self.neq = g(self.neq)

    @property
    def frontier(self):
        return self.bds[-1]

    @property
    def q(self):
        return self.info[self.bds[-1]][0]

    def sample(self):
        out = []
        p = self.inp
        while p:
            out.append(p[1] if type(p[1]) is str else mxspec.rep(p[1][1]))
            p = p[0]
        return ''.join(reversed(out))

    def cset(self, ch):
        if ch.b is None:
            return ch.c
        return self.items[self.bds.index(ch.b)][2]

    def refine(self, b, s):
        i = self.bds.index(b)
        it = self.items[i]
        self.items[i] = it[:2] + (s,)
        ser = self.serial[b]
        back = []
        p = self.inp
        n = 0
        while p and n < 6:
            if type(p[1]) is tuple and p[1][0] == ser:
                p = (p[0], (ser, s))
                for x in reversed(back):
                    p = (p, x)
                self.inp = p
                break
            back.append(p[1])
            p = p[0]
            n += 1

    # -------------------------------------------------------------- growth
    def newb(self):
        b = self.nser
        self.nser += 1
        self.serial[b] = b
        return b

    def newsym(self, kind):
        self.nsym += 1
        return Sym(kind, self.nsym)

    def gen_or_end(self, vm, st, cheap=False):
        """reveal the next character (True) or the end of the text (False)"""
        self.hist = ()
        if self.closed:
            return False
        if cheap and not self.must:
            if vm.choose(st, 2, labels=['input ends', 'input continues']) == 0:
                self.closed = True
                return False
            self.must = True
            return True
        q = self.q
        edges = self.live_edges(q)
        end = 0 if self.must else 1
        k = vm.choose(st, len(edges) + end, labels=Labels(self.spec, q, edges, end))
        if end and k == 0:
            self.closed = True
            return False
        self.must = False
        self.grow(vm, st, edges[k - end])
        return True

    def live_edges(self, q):
        es = self.spec.edges(q)
        if q[0] == 'ANAME' and not self.attrs:
            es = [e for e in es if e[1] != 'dup']
        return es

    def nextinfo(self, b, e):
        q, rs, ds = self.info[b]
        q2, act = e[2], e[4]
        if q2[0][0] == 'R':
            if act == 'refstart':
                rs = b
                ds = None
            if act == 'digstart':
                ds = b
        else:
            rs = ds = None
        return (q2, rs, ds)

    @property
    def refs(self):
        out = []
        for i, it in enumerate(self.items):
            if it[0] == 'c' and it[1][4] == 'refend':
                b = self.bds[i]
                q, rs, ds = self.info[b]
                if rs is not None and rs in self.bds:
                    val = ('lit', mxspec.NAMES[q[2]]) if q[0] == 'RN' else ('cp', ds, b, it[1][1][1])
                    out.append((rs, self.bds[i + 1], val))
        return out

    def grow(self, vm, st, e):
        b = self.frontier
        q = self.info[b][0]
        nb = self.newb()
        acts = (e[4] or '').split()
        lab = e[1]
        self.mayrej = 'mayrej' in acts or e[2][0] == 'RD' or q[0] == 'RD'
        info = self.nextinfo(b, e)
        for act in acts:
            if act == 'namestart':
                self.tstart = b
            elif act == 'giend':
                self.gi = self.newsym('n')
                self.toks += (('n', self.tstart, b, self.gi),)
            elif act == 'start':
                self.queue += (('s', self.gi, self.attrs, self.stack),)
                self.stack += (self.gi,)
                self.attrs = ()
                self.attgen += 1
                self.tstart = nb
                self.gi = self.an = None
            elif act == 'anend':
                if lab == 'dup':
                    exp = [x for x in self.attrs if type(x) is tuple]
                    folded = len(exp) < len(self.attrs)
                    k = vm.choose(st, len(exp) + (1 if folded else 0))
                    if k < len(exp):
                        self.an = exp[k][0]
                        self.dup = self.an
                    else:
                        self.an = self.newsym('n')
                        self.dup = self.an
                        self.neq += tuple((x[0], self.an) for x in exp)
                else:
                    self.an = self.newsym('n')
                    self.neq += tuple((x[0], self.an) for x in self.attrs if type(x) is tuple)
                self.toks += (('n', self.tstart, b, self.an),)
            elif act == 'valstart':
                self.tstart = nb
            elif act == 'valend':
                v = '' if self.tstart == b else self.newsym('d')
                self.toks += (('d', self.tstart, b, v),)
                self.attrs += ((self.an, v),)
                self.an = None
            elif act == 'text':
                if self.tstart != b:
                    v = self.newsym('d')
                    self.toks += (('d', self.tstart, b, v),)
                    self.queue += (('c', v),)
            elif act == 'ctend':
                self.need_top(vm, st)
                top = self.stack[-1]
                if lab == 'match':
                    self.gi = top
                else:
                    self.gi = self.newsym('n')
                    self.neq += ((top, self.gi),)
                self.toks += (('n', self.tstart, b, self.gi),)
            elif act == 'end':
                self.need_top(vm, st)
                gi = self.stack[-1]
                self.stack = self.stack[:-1]
                self.queue += (('e', gi, self.stack),)
                self.tstart = nb
                self.gi = None
                if not self.stack:
                    info = (('EPI',), None, None)
                    e = e[:2] + (('EPI',),) + e[3:]
        if info[0] == mxspec.ERR:
            self.tstart = None
        self.info[nb] = info
        self.bds.append(nb)
        self.items.append(('c', e, e[0]))
        r = (self.serial[b], e[0])
        if type(lab) is tuple and lab[0] == 'cp':
            x = 0x110000 if lab[1] == 'big' else ord(mxspec.rep(lab[1]))
            p = self.inp
            while p and (type(p[1]) is str or p[1][1] != R.chars('&')):
                p = p[0]
            self.inp = (p, '#x%X;' % x if q[0] == 'RX' else '#%d;' % x)
        else:
            self.inp = (self.inp, r)

    def need_top(self, vm, st):
        if len(self.stack) == 1 and type(self.stack[0]) is Rest:
            k = vm.choose(st, 2, labels=['more than one enclosing element', 'one enclosing element'])
            s = self.newsym('n')
            self.subst_stack((Rest(('stk',), True), s) if k == 0 else (s,))

    def subst_stack(self, new):
        def f(t):
            out = []
            for x in t:
                if type(x) is Rest and x.src == ('stk',):
                    out.extend(new)
                else:
                    out.append(x)
            return tuple(out)
        self.stack = f(self.stack)
        q = []
        for ev in self.queue:
            if ev[0] == 's':
                ev = ev[:3] + (f(ev[3]),)
            elif ev[0] == 'e':
                ev = ev[:2] + (f(ev[2]),)
            q.append(ev)
        self.queue = tuple(q)
        self.pend += (new,)

    def split(self, vm, st, i):
        """reveal the first character of the folded run items[i]"""
        b, c = self.bds[i], self.bds[i + 1]
        plain = self.items[i][1]
        q, q2 = self.info[b][0], self.info[c][0]
        opts = []
        sp = self.spec
        rs = self.info[c][1]
        mode = 'ref' if not plain and rs is not None and rs in self.bds and self.bds.index(rs) <= i else plain
        for e in sp.inner(q, mode):
            if e[2] == q2:
                opts.append((e, False))
            if any(sp.reaches(e3[2], q2, mode) for e3 in sp.inner(e[2], mode)):
                opts.append((e, True))
        if not opts:
            raise Kill('unsplittable run', True)
        k = vm.choose(st, len(opts), labels=['re-reading %s%s' % (R.show(e[0]) if hasattr(R, 'show') else '', ' and more' if m else '') for e, m in opts])
        e, more = opts[k]
        self.mayrej = 'mayrej' in (e[4] or '') or e[2][0] == 'RD' or q[0] == 'RD'
        if more:
            nb = self.newb()
            self.info[nb] = self.nextinfo(b, e)
            self.bds.insert(i + 1, nb)
            self.items[i:i + 1] = [('c', e, e[0]), ('b', plain)]
        else:
            self.items[i] = ('c', e, e[0])

    def advance(self, vm, st, b, k):
        while k > 0:
            if b == self.frontier:
                return b, k
            i = self.bds.index(b)
            t = self.items[i][0]
            if t == 'b':
                self.split(vm, st, i)
            elif t == 'd':
                raise Kill('position inside discarded text', True)
            b = self.bds[i + 1]
            k -= 1
        return b, k

    def back(self, vm, st, b, k):
        i = self.bds.index(b)
        while k > 0:
            if i == 0:
                raise PyExc('IndexError', 'string index out of range')
            if self.items[i - 1][0] != 'c':
                raise Kill('backward reading of summarised text', True)
            i -= 1
            k -= 1
        return self.bds[i], 0

    def read(self, vm, st, w, pos):
        b, over = pos
        if over < 0:
            raise Kill('negative position', True)
        if over >= 1000:
            raise PyExc('IndexError', 'string index out of range')
        if w.e != END:
            if self.bds.index(b) >= self.bds.index(w.e) or over:
                raise PyExc('IndexError', 'string index out of range')
        while True:
            if b == self.frontier:
                if not self.gen_or_end(vm, st):
                    raise PyExc('IndexError', 'string index out of range')
            i = self.bds.index(b)
            t = self.items[i]
            if t[0] == 'b':
                self.split(vm, st, i)
            elif t[0] == 'd':
                raise Kill('reading discarded text', True)
            if over == 0:
                return Ch(None, b, self.bds[i + 1])
            b = self.bds[i + 1]
            over -= 1

    def span(self, a, b):
        """(at least, exactly or None) number of characters"""
        if b == END:
            if self.closed:
                return self.span(a, self.frontier)
            lo, hi = self.span(a, self.frontier)
            return lo + (1 if self.must else 0), None
        i, j = self.bds.index(a), self.bds.index(b)
        lo = j - i
        return lo, (lo if all(it[0] == 'c' for it in self.items[i:j]) else None)

    def distance(self, x, y):
        if x.a != y.a:
            return None
        if x == y:
            return 0
        if x.b == y.b:
            return y.over - x.over
        bx, by = x.b, y.b
        if END in (bx, by):
            if not self.closed:
                return None
            bx = self.frontier if bx == END else bx
            by = self.frontier if by == END else by
        if self.bds.index(bx) <= self.bds.index(by):
            lo, hi = self.span(bx, by)
            return None if hi is None else hi + y.over - x.over
        lo, hi = self.span(by, bx)
        return None if hi is None else -hi + y.over - x.over

    # ------------------------------------------------------------ contents
    def mkwin(self, a, e):
        return self.resolve(Win(a, e))

    def resolve(self, v):
        t = type(v)
        if t is Win and v.e != END:
            for kind, a, b, s in self.toks:
                if a == v.a and b == v.e and (kind == 'n' or self.plain(a, b)):
                    return s
        elif t is Dec:
            for kind, a, b, s in self.toks:
                if kind == 'd' and a == v.a and b == v.b:
                    return s
        elif t is Ch and v.b is not None:
            for kind, a, b, s in self.toks:
                if a == v.b and b == v.e and (kind == 'n' or self.plain(a, b)):
                    return s
        return v

    def plain(self, a, b):
        i, j = self.bds.index(a), self.bds.index(b)
        for it in self.items[i:j]:
            if it[0] == 'c':
                e = it[1]
                if not self.spec.plain(e) or e[2][0][:1] == 'R':
                    if e[4] in ('namestart', 'digstart'):
                        continue
                    return False
            elif it[0] != 'b' or it[1] is not True:
                return False
        return True

    def why_not_plain(self, a, b):
        i, j = self.bds.index(a), self.bds.index(b)
        for it in self.items[i:j]:
            if it[0] == 'c':
                e = it[1]
                if e[2] == mxspec.ERR:
                    return None
                if e[3] == 'nl':
                    return 'a carriage return is kept instead of becoming a newline'
                if e[3] == '':
                    return 'the newline of a CR LF pair is kept'
                if e[4] == 'refstart' or e[2][0][:1] == 'R':
                    return 'the text of a character reference is kept undecoded'
        return None

    def crlf(self, c):
        """boundary before the CR when a CR LF pair is split at c"""
        i = self.bds.index(c)
        if 0 < i < len(self.items) and self.items[i][0] == 'c' and self.items[i][1][3] == '' and \
                self.items[i - 1][0] == 'c' and self.items[i - 1][1][3] == 'nl':
            return self.bds[i - 1], self.bds[i + 1]
        return None

    def gap(self, b, c):
        """True when nothing of the document is lost between b and c; else a reason or None if unknown"""
        i, j = self.bds.index(b), self.bds.index(c)
        if i > j:
            return 'input text is used twice'
        for n in range(i, j):
            it = self.items[n]
            if it[0] != 'c':
                return 'input text is lost' if it == ('b', True) else None
            e = it[1]
            if e[2] == mxspec.ERR:
                return None
            if e[3] == '':
                continue
            if e[3] == 'nl' and n + 1 < len(self.items) and self.items[n + 1][0] == 'c' and n + 1 >= j \
                    and self.items[n + 1][1][3] == '':
                continue
            if e[3] == 'id':
                return 'the input character %r is lost' % mxspec.rep(it[2]) if e[4] in (None, 'mayrej') and e[2][0][:1] != 'R' else \
                    'a character reference is lost'
            return 'a line break is lost' if e[3] == 'nl' else 'a character reference is lost'
        return True

    def names_open(self):
        return ()

    # ------------------------------------------------------------- merging
    def prune_info(self):
        keep = set(self.bds)
        self.info = {b: v for b, v in self.info.items() if b in keep}
        self.serial = {b: v for b, v in self.serial.items() if b in keep}


def bounds_of(v):
    """[(boundary, is a reading position)]"""
    t = type(v)
    if t is Idx:
        return ((v.a, False), (v.b, True))
    if t is Win:
        return ((v.a, v.e != END), (v.e, False))
    if t is Dec:
        return ((v.a, True), (v.b, False))
    if t is Ch:
        return ((v.b, True), (v.e, False)) if v.b is not None else ()
    if t in (HexVal, CpCh):
        return ((v.a, True), (v.b, False))
    return ()


TAPE_TYPES = (Idx, Win, Dec, Ch, HexVal, CpCh)


def force_end(vm, st):
    """the current text ends here: later text is a new fragment"""
    d = st.dom
    if not d.closed and (d.must or vm.choose(st, 2, labels=['the fragment ends here', 'the fragment goes on']) == 1):
        raise Kill('fragment left partly unread', True)
    d = d.copy()
    d.closed = True
    f = d.frontier

    def sub(v):
        t = type(v)
        if t is Idx and v.b == END:
            return Idx(v.a, f, v.over)
        if t is Win and v.e == END:
            return Win(v.a, f)
        return None
    st.dom = d
    map_state(vm, st, sub)


INNER_ACTS = (None, 'mayrej', 'refstart', 'refend', 'digstart')


def compress(vm, st, widen=False):
    d = st.dom.copy()
    st.dom = d
    sp = d.spec
    if d.q == mxspec.ERR:
        d.queue = ()
    # 1. normalise values, collect boundaries
    ptrs = set()
    keep = set()
    chs = []

    err = d.q == mxspec.ERR

    def norm(v):
        t = type(v)
        if t is AStr:
            return SymV('str', 'text')
        if t is str:
            return '\n' if err and len(v) > 1 and not v.strip('\n') else v
        if t is Idx:
            b, o = v.b, v.over
            if b != END and o > 0 and b != d.frontier:
                while o > 0 and b != d.frontier:
                    i = d.bds.index(b)
                    if d.items[i][0] != 'c':
                        break
                    b = d.bds[i + 1]
                    o -= 1
                v = Idx(v.a, b, o)
            keep.add(v.a)
            if v.b == END:
                pass
            else:
                keep.add(v.b)
                ptrs.add(v.b)
            return v
        if t is Rest and v.src[0] == 'att':
            return Rest(('att', 0 if v.src[1] == d.attgen else v.src[1] + 1), v.nonempty)
        if t in (Win, Dec):
            r = d.resolve(v)
            if r is not v:
                return r
            keep.add(v.a)
            if t is Win and v.e == END:
                return v
            keep.add(v.b if t is Dec else v.e)
            ptrs.add(v.a)
            if t is Dec:
                ptrs.add(v.b)
            return v
        if t is Ch:
            r = d.resolve(v)
            if r is not v and type(r) is Sym:
                return r
            chs.append(v)
            return v
        if t in (HexVal, CpCh):
            keep.update((v.a, v.b))
            ptrs.add(v.a)
            ptrs.add(v.b)
            return v
        return None
    map_state(vm, st, norm)
    d.attrs = tuple(Rest(('att', 0), True) if type(x) is Rest else x for x in d.attrs)
    d.attgen = 0
    for v in chs:
        if v.b is not None and mxspec.single(d.cset(v)) is None:
            keep.update((v.b, v.e))
            ptrs.add(v.b)
    keep.add(d.frontier)
    if d.tstart is not None:
        keep.add(d.tstart)
    order = {b: i for i, b in enumerate(d.bds)}
    for b in ptrs:
        i = order[b]
        if i < len(d.items) and d.items[i][0] == 'c':
            keep.add(d.bds[i + 1])
    minp = min([order[b] for b in ptrs] + [order[d.frontier]])
    d.toks = tuple(t for t in d.toks if order[t[2]] > minp or order[t[1]] >= minp)
    for t in d.toks:
        keep.update(t[1:3])
    for i in range(minp, len(d.items)):
        it = d.items[i]
        if it[0] == 'c' and (it[1][4] not in INNER_ACTS or it[1][1] in ('dup', 'mismatch')):
            keep.update(d.bds[i:i + 2])
    todo = list(keep)
    while todo:
        b = todo.pop()
        if b not in d.info:
            continue
        for x in d.info[b][1:]:
            if x is not None and x not in keep and x in order:
                keep.add(x)
                todo.append(x)
    chset = {v: d.cset(v) for v in chs}
    for b in (list(keep) if d.q != mxspec.ERR else ()):
        i = order.get(b)
        if i is not None and i < len(d.items) and d.items[i][0] == 'c' and d.items[i][1][3] == '':
            ptrs.add(b)
            keep.add(d.bds[i + 1])
            if i and d.items[i - 1][0] == 'c':
                keep.add(d.bds[i - 1])
                ptrs.add(d.bds[i - 1])
    # 2. merge
    bds = [b for b in d.bds if b in keep]
    items = []
    for x, y in zip(bds, bds[1:]):
        its = d.items[order[x]:order[y]]
        if order[y] <= minp:
            items.append(('d',))
        elif len(its) == 1 and (its[0][0] in 'bd' or x in ptrs or its[0][1][4] not in INNER_ACTS or its[0][1][1] in ('dup', 'mismatch')):
            items.append(its[0])
        elif any(it[0] == 'd' or (it[0] == 'c' and (it[1][4] not in INNER_ACTS or it[1][1] in ('dup', 'mismatch'))) for it in its):
            items.append(('d',))
        elif d.info[y][0] == mxspec.ERR != d.info[x][0]:
            items.append(('b', 'err'))
        else:
            plain = all((it[0] == 'b' and it[1] is True) or (it[0] == 'c' and d.spec.plain(it[1]) and it[1][2][0][:1] != 'R') for it in its)
            plain = plain and sp.reaches(d.info[x][0], d.info[y][0], True)
            if not plain and not sp.reaches(d.info[x][0], d.info[y][0], False):
                items.append(('d',))
            else:
                items.append(('b', plain))
    d.bds = bds
    d.items = items
    d.prune_info()
    # 3. renumber
    ren = {b: i for i, b in enumerate(d.bds)}
    syms = {}

    def rsym(s):
        k = syms.get(s)
        if k is None:
            k = syms[s] = Sym(s.kind, len(syms) + 1)
        return k

    def rb(b):
        return b if b in (None, END) else ren[b]

    def sub(v):
        t = type(v)
        if t is Sym:
            return rsym(v)
        if t is Idx:
            return Idx(rb(v.a), rb(v.b), v.over)
        if t in (Win, Dec):
            return t(rb(v.a), rb(v.e if t is Win else v.b))
        if t is Ch:
            if v.b is None:
                return v
            if v.b in ren and v.e in ren and ren[v.e] == ren[v.b] + 1 and d.items[ren[v.b]][0] == 'c' and v.b in keep:
                return Ch(None, ren[v.b], ren[v.e])
            c = chset[v]
            return mxspec.single(c) or Ch(c, None, None)
        if t in (HexVal, CpCh):
            return t(rb(v.a), rb(v.b), v.ok)
        return None
    d.info = {ren[b]: (v[0], ren.get(v[1]), ren.get(v[2])) for b, v in d.info.items()}
    d.serial = {ren[b]: v for b, v in d.serial.items()}
    base = d.nser
    d.bds = [ren[b] for b in d.bds]
    d.tstart = ren.get(d.tstart)
    d.toks = tuple((k, ren[a], ren[b], s) for k, a, b, s in d.toks)
    # facts about names are kept only while both names are alive
    neq, d.neq = d.neq, ()
    map_state(vm, st, sub)
    d.neq = tuple((syms[a], syms[b]) for a, b in neq if a in syms and b in syms)
    d.nsym = len(syms) + 1
    d.nser = max(base, len(d.bds))
    return d


def mentions(vm, st, syms, skip):
    """is one of the symbols used anywhere but in the folded collections"""
    found = []

    def f(v):
        if type(v) is Sym and v in syms:
            found.append(v)
        return None
    t = st.copy()
    t.dom = st.dom.copy()
    d = t.dom
    d.stack = d.attrs = d.queue = d.toks = d.neq = ()
    for a in skip:
        o = t.heap[a]
        t.heap[a] = o.rep(items=()) if type(o) is OList else o.rep(pairs=())
    map_state(vm, t, f)
    return bool(found)


def fold(vm, st):
    """fold the common part of the element stack and of the attribute list"""
    d = st.dom
    R1 = (Rest(('stk',), True),)
    for n in (len(d.stack), len(d.stack) - 1):
        if n < 1 or (n == 1 and type(d.stack[0]) is Rest):
            continue
        pre = d.stack[:n]
        lists = [(a, o) for a, o in st.heap.items() if type(o) is OList and o.items and (o.items[0] == pre[0])]
        evs = [ev[3] if ev[0] == 's' else ev[2] for ev in d.queue if ev[0] != 'c']
        evs = [e for e in evs if e]
        if not all(o.items[:n] == pre for a, o in lists) or not all(e[:n] == pre for e in evs):
            continue
        if n == len(d.stack) and any(pre[-1] in p for p in d.neq):
            continue
        if n == len(d.stack) and mentions(vm, st, {x for x in pre if type(x) is Sym}, [a for a, o in lists]):
            continue
        for a, o in lists:
            st.heap[a] = o.rep(items=R1 + o.items[n:])
        d.stack = R1 + d.stack[n:]
        d.queue = tuple(ev if ev[0] == 'c' else
                        (ev[:3] + (R1 + ev[3][n:] if ev[3] else (),) if ev[0] == 's' else ev[:2] + (R1 + ev[2][n:] if ev[2] else (),))
                        for ev in d.queue)
        break
    R1 = (Rest(('att', d.attgen), True),)
    for n in (len(d.attrs), len(d.attrs) - 1):
        if n < 1 or (n == 1 and type(d.attrs[0]) is Rest):
            continue
        pre = d.attrs[:n]
        dicts = [(a, o) for a, o in st.heap.items() if type(o) is ODict and o.pairs and o.pairs[0] == pre[0]]
        if not all(o.pairs[:n] == pre for a, o in dicts) or not dicts:
            continue
        if n == len(d.attrs) and (d.dup in [x[0] for x in pre if type(x) is tuple] or
                                  mentions(vm, st, {x[0] for x in pre if type(x) is tuple}, [a for a, o in dicts])):
            continue
        for a, o in dicts:
            st.heap[a] = o.rep(pairs=R1 + o.pairs[n:])
        d.attrs = R1 + d.attrs[n:]
        break


def merge_pieces(vm, st):
    """a list of text fragments that is only ever joined is summarised by their concatenation"""
    for a, o in list(st.heap.items()):
        if type(o) is OList and len(o.items) == 1 and type(o.items[0]) is str and len(o.items[0]) == 1:
            r = add_lit(st.dom, None, o.items[0], None)
            if type(r) is Dec:
                st.heap[a] = OList((r,), 'pieces')
        if type(o) is OList and len(o.items) > 1 and all(type(x) in (str, Win, Dec, Ch, CpCh, Bad, SymV, AStr) for x in o.items):
            its = o.items
            if st.dom.q == mxspec.ERR:
                if len(its) > 2:
                    st.heap[a] = OList((SymV('str', 'text'),), 'pieces')
                continue
            if not (any(type(x) in (str, Dec, Bad, CpCh, SymV, AStr) for x in its) or
                    any(type(x) is Win and type(y) is Win and END not in (x.e, y.e) and
                        type(concat(vm, st, x, y)) in (Win, Dec) for x, y in zip(its, its[1:]))):
                continue
            r = its[0]
            for x in its[1:]:
                if type(x) is Ch:
                    x = concat(vm, st, '', x)
                r = r + x if type(r) is str and type(x) is str else models.binop(vm, st, '+', r, x)
            st.heap[a] = OList((r,), 'pieces')
