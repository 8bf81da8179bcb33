"""Abstract models of Python builtins and of the few library names the code uses."""
import operator
import ast
import re as _re
import unicodedata  # noqa

from .vm import *
from .vm import Val, Rec, MISSING, PUSHED, teq
from . import regexset


class SliceV(Rec):
    _f = __slots__ = ('a', 'b', 'c')


class Expr(Rec):
    """uninterpreted term over abstract values, with a python result type"""
    _f = __slots__ = ('op', 'args', 'typ')


class DictView(Rec):
    _f = __slots__ = ('ref', 'kind')


class Regex(Rec):
    """compiled regular expression (pattern text, flags)"""
    _f = __slots__ = ('pat', 'flags')

    def getattr(self, vm, st, name):
        if name in ('match', 'fullmatch', 'search', 'sub', 'findall', 'finditer', 'split'):
            return NBound('re.' + name, self)
        if name == 'pattern':
            return self.pat
        return Opaque('regex.' + name)


class RegexMatch(Rec):
    _f = __slots__ = ('rx', 'subj', 'how')

    def truth(self, vm, st):
        return True

    def getattr(self, vm, st, name):
        return NBound('match.' + name, self)


STR_TYPES = (str, AStr)


def saxutils_source():
    """the escaping functions of the installed standard library, as source"""
    import os
    p = os.path.join(os.path.dirname(os.__file__), 'xml', 'sax', 'saxutils.py')
    src = open(p, encoding='utf-8').read()
    tree = ast.parse(src)
    keep = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in
            ('escape', 'unescape', 'quoteattr', '__dict_replace')]
    return '\n\n'.join(ast.unparse(n) for n in keep) + '\n'


# ------------------------------------------------------------------ helpers
def is_str(vm, st, v):
    if type(v) in STR_TYPES:
        return True
    if type(v) is SymV and v.typ == 'str':
        return True
    if type(v) is Expr and v.typ == 'str':
        return True
    if getattr(v, 'pytype', None) == 'str':
        return True
    if type(v) is Ref:
        o = vm.get(st, v)
        return type(o) is OInst and o.sval is not None
    return False


def str_value(vm, st, v):
    """plain string payload of a str or str-subclass instance (AStr/str), or None"""
    if type(v) in STR_TYPES:
        return v
    if type(v) in (SymV, Expr) and v.typ == 'str':
        return AStr((Atom('sym', v, IDMAP),))
    if getattr(v, 'pytype', None) == 'str':
        return AStr((Atom('tape', v, IDMAP),))
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OInst and o.cls is None:
            o = vm.resolve_kind(st, v, o)
        if type(o) is OInst and o.sval is not None:
            if o.sval == '\0lazy':
                s = vm.hooks.payload(vm, st, v, o)
                vm.put(st, v, vm.get(st, v).rep(sval=s))
                return s
            return o.sval
    return None


def to_str(vm, st, v):
    s = str_value(vm, st, v)
    if s is not None:
        if type(v) is Ref:
            o = vm.get(st, v)
            m = vm.class_lookup(st, o.cls, '__str__')
            if m is not MISSING:
                return AStr((Atom('str', v, IDMAP),))
        return s
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    return AStr((Atom('str', v, IDMAP),))


def to_repr(vm, st, v):
    if type(v) is str or v is None or isinstance(v, (bool, int, float, bytes)):
        return repr(v)
    return AStr((Atom('repr', v, IDMAP),))


def str_concat(vm, st, a, b):
    for x, y, sw in ((a, b, False), (b, a, True)):
        if getattr(x, 'pytype', None) == 'str':
            r = x.binop(vm, st, '+', y, sw)
            if r is not None:
                return r
    x, y = str_value(vm, st, a), str_value(vm, st, b)
    if x is None or y is None:
        for v in (a, b):
            if type(v) in (Top, Opaque):
                return Top('concatenation with unknown')
        raise PyExc('TypeError', 'can only concatenate str (not "%s") to str' % vm.tname(st, b if x is not None else a))
    return mkstr(segs_of(x) + segs_of(y))


def cm_get(m, c):
    for k, v in m.items:
        if k == c:
            return v
    return c


def cm_make(d):
    return CharMap(tuple(sorted((k, v) for k, v in d.items() if v != k)))


def cm_compose(m, f, chars):
    """apply string function f (a per-char homomorphism on strings) after m"""
    d = {}
    for k, v in m.items:
        d[k] = f(v)
    for c in chars:
        if c not in d:
            d[c] = f(c)
    return cm_make(d)


def str_replace(vm, st, s, old, new, cnt=-1):
    v = str_value(vm, st, s)
    new = str_value(vm, st, new)
    old = str_value(vm, st, old)
    if cnt != -1 or type(old) is not str or type(new) is not str:
        return Top('replace')
    if type(v) is str:
        return v.replace(old, new)
    if type(v) is not AStr:
        return Top('replace')
    out = []
    for g in v.segs:
        if type(g) is str:
            out.append(g.replace(old, new))
        elif type(g) is Atom and len(old) == 1:
            out.append(Atom(g.kind, g.owner, cm_compose(g.map, lambda x: x.replace(old, new), [old])))
        else:
            return AStr((Atom('replaced', (v, old, new), IDMAP),))
    return mkstr(out)


def str_translate(vm, st, s, table):
    v = str_value(vm, st, s)
    pairs = dict_pairs(vm, st, table)
    d = {}
    for k, x in pairs:
        if isinstance(k, int):
            k = chr(k)
        if x is None:
            x = ''
        if isinstance(x, int):
            x = chr(x)
        d[k] = x
    f = lambda t: ''.join(d.get(c, c) for c in t)
    if type(v) is str:
        return f(v)
    out = []
    for g in v.segs:
        if type(g) is str:
            out.append(f(g))
        elif type(g) is Atom:
            out.append(Atom(g.kind, g.owner, cm_compose(g.map, f, list(d))))
        else:
            return Top('translate')
    return mkstr(out)


def fact(vm, st, key, labels=None):
    """boolean fact about the input: remembered once chosen"""
    if key in st.facts:
        return st.facts[key]
    if vm.taint_facts:
        vm.taint(st, 'unmodelled condition %s' % (str(key)[:60],))
    r = vm.choose(st, 2, labels=labels or ['%r true' % (key,), '%r false' % (key,)]) == 0
    st.facts[key] = r
    return r


def str_contains(vm, st, hay, needle):
    h = str_value(vm, st, hay)
    n = str_value(vm, st, needle)
    if type(h) is str and type(n) is str:
        return n in h
    if n == '':
        return True
    if type(h) is AStr and type(n) is str:
        unknown = []
        for g in h.segs:
            if type(g) is str:
                if n in g:
                    return True
            else:
                unknown.append(g)
        if len(n) == 1:
            for g in unknown:
                if type(g) is Atom:
                    src = [c for c in set([k for k, _ in g.map.items] + [n]) if n in cm_get(g.map, c)]
                    for c in sorted(src):
                        if vm.hooks is not None and vm.hooks.lacks_char(g.base(), c):
                            continue
                        if fact(vm, st, ('haschar', g.base(), c),
                                ['string contains %r' % c, 'string has no %r' % c]):
                            return True
                else:
                    if fact(vm, st, ('ghas', g, n)):
                        return True
            return False
    return Expr('in', (n if n is not None else needle, h if h is not None else hay), 'bool')


def truth(vm, st, v):
    t = type(v)
    if v is None:
        return False
    if t in (bool, int, float, str, bytes, tuple, frozenset):
        return bool(v)
    if t is AStr:
        if any(type(g) is str for g in v.segs):
            return True
        for g in v.segs:
            if type(g) is Atom:
                if any(im == '' for _, im in g.map.items):
                    if fact(vm, st, ('nonempty', g)):
                        return True
                    continue
                if vm.hooks is not None and vm.hooks.atom_nonempty(vm, st, g):
                    return True
                if fact(vm, st, ('nonempty', g.base()), ['string non-empty', 'string empty']):
                    return True
            else:
                if fact(vm, st, ('gnonempty', g)):
                    return True
        return False
    if t is Ref:
        o = vm.get(st, v)
        if type(o) is OInst:
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            if o.sval is not None:
                return truth(vm, st, str_value(vm, st, v))
            for m in ('__bool__', '__len__'):
                if vm.class_lookup(st, o.cls, m) is not MISSING:
                    vm.taint(st, 'user-defined truth value')
                    return vm.choose(st, 2) == 0
            return True
        if type(o) is OList:
            if not o.items:
                return False
            return seq_nonempty(vm, st, v)
        if type(o) is ODict:
            if not o.pairs:
                return False
            return dict_nonempty(vm, st, v)
        if type(o) is OSet:
            return bool(o.items)
        return True
    if t in (Expr, SymV):
        if t is Expr and v.op == 'not':
            return not truth(vm, st, v.args[0])
        if t is Expr and v.op == 'len' and type(v.args[0]) is AStr and vm.COPY_SETTLES:
            return truth(vm, st, v.args[0])
        return fact(vm, st, ('truth', v), ['%s is true' % show(v), '%s is false' % show(v)])
    if t in (Top, Opaque):
        vm.taint(st, 'branch on unknown value (%s)' % (v.why if t is Top else v.name))
        return vm.choose(st, 2, labels=['unknown condition true', 'unknown condition false']) == 0
    h = getattr(v, 'truth', None)
    if h is not None:
        return h(vm, st)
    return True


def show(v):
    if type(v) is Expr:
        return '%s(%s)' % (v.op, ', '.join(show(a) for a in v.args))
    if type(v) is SymV:
        return v.name if type(v.name) is str else repr(v.name)
    if type(v) is AStr:
        return '+'.join(show(a) if type(a) is not str else repr(a) for a in v.segs)
    if type(v) is Atom:
        return '%s%s' % (v.kind, '*' if v.map.items else '')
    return repr(v)


def negbool(v):
    if type(v) is bool:
        return not v
    if type(v) is Expr:
        return Expr('not', (v,), 'bool')
    return v


def negate(vm, st, v):
    if isinstance(v, (int, float)):
        return -v
    if type(v) in (SymV, Expr) and v.typ in ('int', 'float', 'bool', 'num'):
        return Expr('neg', (v,), v.typ)
    if type(v) in (Top, Opaque):
        return Top('negation')
    refuse(vm, st, '-x', (v,), "bad operand type for unary -: '%s'" % vm.tname(st, v))


NUM = ('int', 'float', 'bool', 'num')


def stand_in(vm, st, v):
    """a value of the built-in type that v has, to ask Python whether it supports an operation at all; None when v is
    not of a built-in type"""
    if v is None or isinstance(v, (bool, int, float)):
        return (v,)
    t = type(v)
    if is_str(vm, st, v):
        return ('a',)
    if t is bytes:
        return (b'a',)
    if t is tuple:
        return ((0,),)
    if t is frozenset:
        return (v,)
    if t in (SymV, Expr):
        return {'int': (1,), 'float': (1.0,), 'num': (1,), 'bool': (True,)}.get(v.typ)
    if t in (Fn, Bound, NBound):
        return (stand_in,)
    if t is DictView:
        return ({1: 1}.keys() if v.kind == 'keys' else {1: 1}.values() if v.kind == 'values' else {1: 1}.items(),)
    if t is Ref:
        k = type(vm.get(st, v))
        if k is OList:
            return ([0],)
        if k is ODict:
            return ({0: 0},)
        if k is OSet:
            return ({0},)
        if k is OGen:
            if 'prelude' in vm.get(st, v).qual or vm.get(st, v).qual == 'range':
                return (range(2),)
            return ((x for x in ()),)
        if k is OIter:
            return (iter([0]),)
    return None


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '@': operator.matmul,
       '-x': operator.neg}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '&': 'and', '|': 'or',
          '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '-x': 'neg'}


def refuse(vm, st, op, vals, msg, cls='TypeError'):
    """an operation the models have no rule for: the exception Python raises when its types have none either,
    else the path is undecided"""
    for v in vals:
        if type(v) is Ref and type(vm.get(st, v)) is OInst:
            o = vm.get(st, v)
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            for n in ('__%s__', '__r%s__'):
                if vm.class_lookup(st, o.cls, n % DUNDER.get(op, op)) is not MISSING:
                    raise Kill('user-defined %s' % op, True)
            raise PyExc(cls, msg)
        if type(v) in (Top, Opaque):
            raise Kill('%s on an unknown value' % op, True)
    reps = [stand_in(vm, st, v) for v in vals]
    if any(r is None for r in reps):
        raise PyExc(cls, msg)
    reps = [r[0] for r in reps]
    try:
        if op in OPS:
            OPS[op](*reps)
        elif hasattr(type(reps[0]), '__%s__' % op) or (op == 'contains' and hasattr(type(reps[0]), '__iter__')):
            pass
        else:
            raise TypeError
    except TypeError:
        raise PyExc(cls, msg)
    except Exception:
        pass
    raise Kill('unmodelled %s of %s' % (op, ' and '.join(type(r).__name__ for r in reps)), True)


def set_like(vm, st, v):
    """the items of a set, a frozenset or the keys of a dict; None for anything else"""
    if type(v) is frozenset:
        return tuple(sorted(v, key=repr))
    if type(v) is DictView and v.kind == 'keys' and type(vm.get(st, v.ref)) is ODict:
        return tuple(k for k, _ in dict_pairs(vm, st, v.ref))
    if type(v) is Ref and type(vm.get(st, v)) is OSet:
        return vm.get(st, v).items
    return None


def set_binop(vm, st, op, x, y):
    if op == '&':
        r = tuple(i for i in x if set_has(vm, st, y, i))
    elif op == '-':
        r = tuple(i for i in x if not set_has(vm, st, y, i))
    elif op == '|':
        r = x + tuple(i for i in y if not set_has(vm, st, x, i))
    else:
        r = tuple(i for i in x if not set_has(vm, st, y, i)) + tuple(i for i in y if not set_has(vm, st, x, i))
    return vm.alloc(st, OSet(r))


def set_compare(vm, st, op, x, y):
    if op in ('>', '>='):
        op, x, y = {'>': '<', '>=': '<='}[op], y, x
    if op == '==' and len(x) != len(y) or op == '<' and len(x) >= len(y):
        return False
    return all(set_has(vm, st, y, i) for i in x)


def typ_of(vm, st, v):
    if type(v) in (SymV, Expr):
        return v.typ
    if type(v) is bool:
        return 'bool'
    if isinstance(v, (int, float)):
        return type(v).__name__
    if is_str(vm, st, v):
        return 'str'
    if v is None:
        return 'none'
    return None


def binop(vm, st, op, a, b, inplace=False):
    for x, y, sw in ((a, b, False), (b, a, True)):
        h = getattr(x, 'binop', None)
        if h is not None and isinstance(x, Val):
            r = h(vm, st, op, y, sw)
            if r is not None:
                return r
    ta, tb = type(a), type(b)
    if ta in (Top, Opaque) or tb in (Top, Opaque):
        if op == '%' and is_str(vm, st, a):
            return AStr((Atom('fmt', (a, b), IDMAP),))
        return Top('%s on unknown' % op)
    prim = (bool, int, float, str, bytes, tuple)
    if ta in prim and tb in prim and not (op == '%' and ta is str):
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            if op == '//':
                return a // b
            if op == '%':
                return a % b
            if op == '**':
                return a ** b
            if op == '&':
                return a & b
            if op == '|':
                return a | b
            if op == '<<':
                return a << b
            if op == '>>':
                return a >> b
            if op == '^':
                return a ^ b
        except ZeroDivisionError:
            raise PyExc('ZeroDivisionError', 'division by zero')
        except TypeError as e:
            raise PyExc('TypeError', str(e))
    if op == '%' and is_str(vm, st, a):
        return str_percent(vm, st, str_value(vm, st, a), b)
    if op == '+' and is_str(vm, st, a) and is_str(vm, st, b):
        return str_concat(vm, st, a, b)
    if op == '*' and (is_str(vm, st, a) or is_str(vm, st, b)):
        s, n = (a, b) if is_str(vm, st, a) else (b, a)
        sv = str_value(vm, st, s)
        if isinstance(n, int):
            return mkstr(segs_of(sv) * n)
        return AStr((Atom('rep', (sv, n), IDMAP),))
    if op in ('&', '|', '-', '^') and (ta in (Ref, frozenset, DictView)) and (tb in (Ref, frozenset, DictView)):
        x, y = set_like(vm, st, a), set_like(vm, st, b)
        if x is not None and y is not None:
            r = set_binop(vm, st, op, x, y)
            if inplace and ta is Ref:
                vm.put(st, a, vm.get(st, r))
                return a
            return r
    if op in '+*' and (ta is Ref or tb is Ref):
        whole(vm, st, a)
        whole(vm, st, b)
    if op == '+' and ta is Ref and tb is Ref:
        oa, ob = vm.get(st, a), vm.get(st, b)
        if type(oa) is OList and type(ob) is OList:
            nopieces(ob)
            if inplace:
                vm.put(st, a, oa.rep(items=oa.items + ob.items))
                return a
            return vm.alloc(st, OList(oa.items + ob.items, None))
    if op == '+' and inplace and ta is Ref and type(vm.get(st, a)) is OList:
        oa = vm.get(st, a)
        items = exact_items(vm, st, b)
        vm.put(st, a, oa.rep(items=oa.items + tuple(items)))
        return a
    if op == '*' and ta is Ref and type(vm.get(st, a)) is OList and isinstance(b, int):
        return vm.alloc(st, OList(vm.get(st, a).items * b, None))
    if op == '|' and ta is Ref and tb is Ref and type(vm.get(st, a)) is ODict:
        r = vm.alloc(st, vm.get(st, a))
        dict_update(vm, st, r, b)
        return r
    na, nb = typ_of(vm, st, a), typ_of(vm, st, b)
    if na in NUM and nb in NUM:
        # light arithmetic normalisation
        if op == '+' and b == 0 and type(b) is int:
            return a
        if op == '-' and b == 0 and type(b) is int:
            return a
        if op in '+-' and isinstance(b, int) and type(a) is Expr and a.op == '+' and isinstance(a.args[1], int):
            k = a.args[1] + (b if op == '+' else -b)
            return a.args[0] if k == 0 else Expr('+', (a.args[0], k), a.typ)
        if op == '-' and isinstance(b, int):
            return Expr('+', (a, -b), 'int' if na != 'float' else 'float')
        if op == '+' and isinstance(a, int) and not isinstance(b, int):
            return binop(vm, st, '+', b, a)
        if op in ('%', '/', '//'):
            if not isinstance(b, (int, float)) and fact(vm, st, ('zero', b), ['divisor is zero', 'divisor not zero']):
                raise PyExc('ZeroDivisionError', 'division by zero')
            if isinstance(b, (int, float)) and b == 0:
                raise PyExc('ZeroDivisionError', 'division by zero')
        if op == '/':
            t = 'float'
        elif 'float' in (na, nb) or 'num' in (na, nb):
            t = 'float' if 'float' in (na, nb) else 'num'
        else:
            t = 'int'
        return Expr(op, (a, b), t)
    refuse(vm, st, op, (a, b), "unsupported operand type(s) for %s: '%s' and '%s'" % (op, vm.tname(st, a), vm.tname(st, b)))


def str_percent(vm, st, f, arg):
    if type(f) is not str:
        return AStr((Atom('fmt', (f, arg), IDMAP),))
    args = list(arg) if type(arg) is tuple else [arg]
    out = []
    i = 0
    pos = 0
    for m in _re.finditer(r'%(\(\w*\))?([-+ #0]*[0-9*]*(?:\.[0-9*]*)?)(.)', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, spec, c = m.groups()
        if c == '%':
            out.append('%')
            continue
        if key is not None or '*' in spec:
            return Top('% formatting')
        if i >= len(args):
            raise PyExc('TypeError', 'not enough arguments for format string')
        x = args[i]
        i += 1
        w = str_value(vm, st, x) if is_str(vm, st, x) else x
        if type(w) in (str, int, float, bool) and not (c in 'ra' and w is not x):
            try:
                out.append(('%' + spec + c) % (w,))
            except (ValueError, TypeError, OverflowError) as e:
                raise PyExc(type(e).__name__, str(e))
            continue
        if spec or c not in 'sdr' or c == 'd' and type(w) in (SymV, Expr) and w.typ != 'int':
            return Top('% formatting')
        if c == 'd' and not (type(w) in (SymV, Expr)):
            if type(w) in (Top, Opaque):
                return Top('% formatting')
            raise PyExc('TypeError', '%d format: a real number is required')
        s = to_str(vm, st, x) if c in 'sd' else to_repr(vm, st, x)
        out.extend(segs_of(s))
    out.append(f[pos:])
    if i < len(args):
        raise PyExc('TypeError', 'not all arguments converted during string formatting')
    return mkstr(out)


def n_decimal(vm, st, v=0, *a):
    if type(v) in (str, int, float) and not a:
        import decimal
        try:
            return Opaque('Decimal:%s' % decimal.Decimal(v))
        except decimal.InvalidOperation:
            raise PyExc('ValueError', 'invalid decimal')      # an ArithmeticError really
    return Top('Decimal()')


def n_format(vm, st, v, spec=''):
    """format(v, spec)"""
    if type(v) is Opaque and v.name.startswith('Decimal:') and type(spec) is str:
        import decimal
        try:
            return format(decimal.Decimal(v.name[8:]), spec)
        except ValueError as e:
            raise PyExc('ValueError', str(e))
    if spec == '' or spec == 's' and is_str(vm, st, v):
        return to_str(vm, st, v)
    w = str_value(vm, st, v) if is_str(vm, st, v) else v
    if type(w) in (str, int, float, bool) and type(spec) is str:
        try:
            return format(w, spec)
        except ValueError as e:
            raise PyExc('ValueError', str(e))
    return AStr((Atom('fmt', (spec, v), IDMAP),))


def str_format(vm, st, f, *args, **kw):
    f = str_value(vm, st, f)
    if type(f) is not str:
        return AStr((Atom('fmt', (f, args), IDMAP),))
    out = []
    pos = 0
    auto = 0
    for m in _re.finditer(r'\{\{|\}\}|\{([^{}]*)\}', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        spec = m.group(1)
        name = _re.match(r'[^!:.\[]*', spec).group(0)
        rest = spec[len(name):]
        if name == '':
            k = auto
            auto += 1
        elif name.isdigit():
            k = int(name)
        else:
            k = name
        if isinstance(k, int):
            if k >= len(args):
                raise PyExc('IndexError', 'Replacement index %d out of range for positional args tuple' % k)
            v = args[k]
        else:
            if k not in kw:
                raise PyExc('KeyError', k)
            v = kw[k]
        if rest.startswith('!r'):
            s = to_repr(vm, st, v)
        elif rest.startswith(':'):
            s = n_format(vm, st, v, rest[1:])
        elif rest:
            s = AStr((Atom('fmt', (spec, v), IDMAP),))
        else:
            s = to_str(vm, st, v)
        out.extend(segs_of(s))
    out.append(f[pos:])
    return mkstr(out)


# ---------------------------------------------------------------- comparison
def definitely_distinct(vm, st, a, b):
    """types that can never be == """
    def cls(v):
        if v is None:
            return 'none'
        if type(v) in (SymV, Expr):
            return 'num' if v.typ in NUM else v.typ
        if isinstance(v, (bool, int, float)):
            return 'num'
        if is_str(vm, st, v):
            return 'str'
        if type(v) is tuple:
            return 'tuple'
        if type(v) is Ref:
            return type(vm.get(st, v)).__name__
        if type(v) in (Fn, Bound, Builtin, NBound, WeakRef):
            return type(v).__name__
        return None
    x, y = cls(a), cls(b)
    return x is not None and y is not None and x != y


def eq(vm, st, a, b):
    """True / False / Expr"""
    for x, y in ((a, b), (b, a)):
        h = getattr(x, 'compare', None)
        if h is not None and isinstance(x, Val):
            r = h(vm, st, '==', y, x is b)
            if r is not None:
                return r
    ta, tb = type(a), type(b)
    if ta is Ref:
        vm_o = vm.get(st, a)
        if type(vm_o) is OInst and vm_o.cls is None:
            vm.resolve_kind(st, a, vm_o)
    if tb is Ref:
        vm_o = vm.get(st, b)
        if type(vm_o) is OInst and vm_o.cls is None:
            vm.resolve_kind(st, b, vm_o)
    if ta in (Top, Opaque) or tb in (Top, Opaque):
        if ta is tb is Opaque and a == b:
            return True
        return Top('== on unknown')
    prim = (bool, int, float, str, bytes, type(None))
    if ta in prim and tb in prim:
        return a == b
    sa, sb = is_str(vm, st, a), is_str(vm, st, b)
    if sa and sb:
        if ta is Ref and tb is Ref and a == b:
            return True
        return str_eq(vm, st, str_value(vm, st, a), str_value(vm, st, b))
    if definitely_distinct(vm, st, a, b):
        return False
    if ta is not tb and ta in (Ref, frozenset, DictView) and tb in (Ref, frozenset, DictView):
        x, y = set_like(vm, st, a), set_like(vm, st, b)
        if x is not None and y is not None:
            return set_compare(vm, st, '==', x, y)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            r = eq(vm, st, x, y)
            if r is False:
                return False
            if r is not True:
                if not truth(vm, st, r):
                    return False
        return True
    if ta is Ref and tb is Ref:
        if a == b:
            return True
        oa, ob = vm.get(st, a), vm.get(st, b)
        if type(oa) is OInst and type(ob) is OInst:
            m = vm.class_lookup(st, oa.cls, '__eq__')
            if m is MISSING:
                return False
            vm.taint(st, 'user-defined __eq__')
            return Top('user-defined __eq__')
        if type(oa) is OSet and type(ob) is OSet:
            return set_compare(vm, st, '==', oa.items, ob.items)
        if type(oa) is OList and type(ob) is OList:
            if has_sym(oa.items) or has_sym(ob.items):
                return Top('list equality')
            return eq(vm, st, oa.items, ob.items)
        if type(oa) is ODict and type(ob) is ODict:
            if any(type(p) is not tuple for p in oa.pairs + ob.pairs):
                return Top('dict equality')
            if len(oa.pairs) != len(ob.pairs):
                return False
            for k, x in oa.pairs:
                y = dict_get(vm, st, b, k)
                if y is MISSING:
                    return False
                r = eq(vm, st, x, y)
                if r is not True and (r is False or not truth(vm, st, r)):
                    return False
            return True
        return False
    if ta is Expr and a.op == 'id' or tb is Expr and b.op == 'id':
        x, y = (v.args[0] if type(v) is Expr and v.op == 'id' else MISSING for v in (a, b))
        if type(x) is Ref and type(y) is Ref:
            return x == y
        if (x is MISSING and typ_of(vm, st, a) not in NUM) or (y is MISSING and typ_of(vm, st, b) not in NUM):
            return False
        if type(x) is Ref and y in (None, True, False) or type(y) is Ref and x in (None, True, False):
            return False
    r = len_compare(vm, st, '==', a, b)
    if r is not None:
        return r
    if ta in (SymV, Expr) or tb in (SymV, Expr):
        if teq(a, b) and typ_of(vm, st, a) != 'float' and typ_of(vm, st, a) != 'num':
            return True
        x, y = sorted((a, b), key=repr)
        return Expr('==', (x, y), 'bool')
    return a == b


def whole(vm, st, v):
    """before the items of a list go somewhere else: in the lazy domain all of them are decided, since
    the open end of a list stands for items which exist once, whichever list they are read from"""
    if vm.COPY_SETTLES and type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OList and has_sym(o.items):
            vm.hooks.settle(vm, st, v)


def has_sym(items):
    return any(type(x) in (Rest, Past, GSeg) for x in items)


def opaque_text(vm, st, x):
    """the text of a value whose str() or repr() is not modelled: what is concluded from it is undecided"""
    for g in segs_of(x):
        if type(g) is Atom and g.kind in ('str', 'repr', 'fmt'):
            vm.taint(st, 'text of a value examined')


def str_eq(vm, st, a, b):
    if type(a) is str and type(b) is str:
        return a == b
    if a == b:
        return True
    opaque_text(vm, st, a)
    opaque_text(vm, st, b)
    x, y = (a, b) if type(a) is AStr else (b, a)
    if vm.hooks is not None:
        r = vm.hooks.on_streq(vm, st, x, y)
        if r is not None:
            return r
    # x is AStr
    if type(y) is str and vm.COPY_SETTLES:
        for k, v in st.facts.items():
            if type(k) is tuple and k[0] == 'lencmp' and k[2] == x and LENOPS[k[1][0]](len(y), k[1][1]) != v:
                return False
    if type(y) is str:
        if len(x.segs) == 1 and type(x.segs[0]) is Atom and not x.segs[0].map.items:
            g = x.segs[0]
            if y == '':
                return not fact(vm, st, ('nonempty', g), ['string non-empty', 'string empty'])
            for k, v in st.facts.items():
                if type(k) is tuple and k[0] == 'streq' and k[1] == g and v is True:
                    return k[2] == y
            if st.facts.get(('nonempty', g)) is False:
                return False
            r = fact(vm, st, ('streq', g, y), ['%s == %r' % (g.kind, y), '%s != %r' % (g.kind, y)])
            if r:
                st.facts[('nonempty', g)] = True
            return r
        # literal prefix/suffix mismatch
        f, l = x.segs[0], x.segs[-1]
        if type(f) is str and not y.startswith(f):
            return False
        if type(l) is str and not y.endswith(l):
            return False
        if sum(len(s) for s in x.segs if type(s) is str) > len(y):
            return False
    else:
        if len(x.segs) == 1 and len(y.segs) == 1 and type(x.segs[0]) is Atom and type(y.segs[0]) is Atom:
            p, q = sorted((x.segs[0], y.segs[0]), key=repr)
            return fact(vm, st, ('streq2', p, q), ['two strings equal', 'two strings differ'])
    p, q = sorted((x, y), key=repr)
    return fact(vm, st, ('streq2', p, q))


LENOPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}
MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '=='}


def len_compare(vm, st, op, a, b):
    """length of a text against a number, in agreement with what else is known about the length (lazy domain)"""
    if not vm.COPY_SETTLES:
        return None
    if type(b) is Expr and b.op == 'len':
        a, b, op = b, a, MIRROR[op]
    if type(a) is not Expr or a.op != 'len' or type(b) not in (int, bool) or type(a.args[0]) is not AStr:
        return None
    s = a.args[0]
    if not truth(vm, st, s):
        return LENOPS[op](0, b)
    least = max(1, sum(len(g) for g in s.segs if type(g) is str))
    known = {k[1]: v for k, v in st.facts.items() if type(k) is tuple and k[0] == 'lencmp' and k[2] == s}
    top = max([b, least] + [k[1] for k in known]) + 2
    for k, v in st.facts.items():
        if type(k) is tuple and k[0] == 'streq' and v is True and len(s.segs) == 1 and k[1] == s.segs[0]:
            return LENOPS[op](len(k[2]), b)
    cand = [n for n in range(least, top) if all(LENOPS[o](n, m) == v for (o, m), v in known.items())]
    poss = {LENOPS[op](n, b) for n in cand}
    if len(poss) == 1:
        return poss.pop()
    return fact(vm, st, ('lencmp', (op, b), s), ['length %s %d' % (op, b), 'length not %s %d' % (op, b)])


def compare(vm, st, op, a, b):
    if op == '==':
        return eq(vm, st, a, b)
    if op == '!=':
        return negbool(eq(vm, st, a, b))
    for x, y, sw in ((a, b, False), (b, a, True)):
        h = getattr(x, 'compare', None)
        if h is not None and isinstance(x, Val):
            r = h(vm, st, op, y, sw)
            if r is not None:
                return r
    ta, tb = type(a), type(b)
    if ta in (Top, Opaque) or tb in (Top, Opaque):
        return Top('comparison of unknown')
    prim = (bool, int, float, str, bytes)
    if ta in prim and tb in prim:
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        except TypeError as e:
            raise PyExc('TypeError', str(e))
    r = len_compare(vm, st, op, a, b)
    if r is not None:
        return r
    na, nb = typ_of(vm, st, a), typ_of(vm, st, b)
    if na in NUM and nb in NUM:
        # normalise > to <
        if op == '>':
            return Expr('<', (b, a), 'bool')
        if op == '>=':
            return Expr('<=', (b, a), 'bool')
        return Expr(op, (a, b), 'bool')
    if na == 'str' and nb == 'str':
        if op in ('>', '>='):
            op = {'>': '<', '>=': '<='}[op]
            a, b = b, a
        return Expr('s' + op, (str_value(vm, st, a), str_value(vm, st, b)), 'bool')
    if ta in (Ref, frozenset, DictView) and tb in (Ref, frozenset, DictView):
        x, y = set_like(vm, st, a), set_like(vm, st, b)
        if x is not None and y is not None:
            return set_compare(vm, st, op, x, y)
    r = order_compare(vm, st, op, a, b)
    if r is not None:
        return r
    refuse(vm, st, op, (a, b), "'%s' not supported between instances of '%s' and '%s'" % (op, vm.tname(st, a), vm.tname(st, b)))


def order_compare(vm, st, op, a, b):
    """< and the like on two tuples or two lists"""
    if type(a) is Ref and type(b) is Ref and type(vm.get(st, a)) is type(vm.get(st, b)) is OList:
        x, y = vm.get(st, a).items, vm.get(st, b).items
        if has_sym(x) or has_sym(y):
            return Top('list comparison')
    elif type(a) is type(b) is tuple:
        x, y = a, b
    else:
        return None
    for i, j in zip(x, y):
        r = eq(vm, st, i, j)
        if r is True or (r is not False and truth(vm, st, r)):
            continue
        return compare(vm, st, op, i, j)
    return OPS[op](len(x), len(y))


def is_(vm, st, a, b):
    if type(a) in (Top, Opaque) or type(b) in (Top, Opaque):
        if type(a) is type(b) is Opaque and a == b:
            return True
        vm.taint(st, 'identity test on unknown')
        return vm.choose(st, 2) == 0
    h = getattr(a, 'is_', None) or (getattr(b, 'is_', None))
    if type(a) is Ref and type(b) is Ref:
        return a == b
    if a is None or b is None:
        return a is b
    if type(a) is bool or type(b) is bool:
        if type(a) is type(b):
            return a == b
        if type(a) in (Expr, SymV) and a.typ == 'bool':
            return truth(vm, st, a) == b
        if type(b) in (Expr, SymV) and b.typ == 'bool':
            return truth(vm, st, b) == a
        return False
    return teq(a, b) if type(a) is type(b) else False


# ---------------------------------------------------------------- sequences
def nopieces(o):
    if o.tag == 'pieces':
        raise Kill('list of text pieces examined', True)


def seq_items(vm, st, v):
    if type(v) is tuple:
        return v
    if type(v) is Ref:
        whole(vm, st, v)
        o = vm.get(st, v)
        if type(o) is OList:
            return o.items
        if type(o) is OSet:
            return o.items
    return None


def settle_rest(vm, st, ref, i, want_item):
    """items[i] is Rest/Past: decide whether another item exists. returns True if item materialised"""
    o = vm.get(st, ref)
    seg = o.items[i]
    if type(seg) is Rest:
        if seg.nonempty:
            n = 1
        else:
            n = vm.choose(st, 2, labels=['list %s has a(nother) item' % (seg.src[0],), 'list %s exhausted' % (seg.src[0],)])
            n = 1 if n == 0 else 0
        if n == 0:
            vm.put(st, ref, o.rep(items=o.items[:i] + o.items[i + 1:]))
            vm.hooks.on_exhaust(vm, st, ref, seg)
            return False
        item = vm.hooks.make_item(vm, st, seg, ref)
        o = vm.get(st, ref)
        vm.put(st, ref, o.rep(items=o.items[:i] + (item, Rest(seg.src, False)) + o.items[i + 1:]))
        return True
    if type(seg) is Past:
        vm.taint(st, 'second traversal of a summarised list')
        n = vm.choose(st, 2)
        if n == 1:
            vm.put(st, ref, o.rep(items=o.items[:i] + o.items[i + 1:]))
            return False
        item = vm.hooks.make_item(vm, st, Rest(seg.src, False), ref)
        o = vm.get(st, ref)
        vm.put(st, ref, o.rep(items=o.items[:i] + (item, seg) + o.items[i + 1:]))
        return True
    if type(seg) is GSeg:
        vm.taint(st, 'inspection of a summarised sequence')
        n = vm.choose(st, 2)
        if n == 1:
            vm.put(st, ref, o.rep(items=o.items[:i] + o.items[i + 1:]))
            return False
        vm.put(st, ref, o.rep(items=o.items[:i] + (Top('item of summary'), seg) + o.items[i + 1:]))
        return True
    return True


def seq_nonempty(vm, st, ref):
    while True:
        o = vm.get(st, ref)
        if not o.items:
            return False
        if type(o.items[0]) not in (Rest, Past, GSeg):
            return True
        if type(o.items[0]) is Past:
            return True
        if type(o.items[0]) is Rest and o.items[0].nonempty:
            return True
        if any(type(x) not in (Rest, Past, GSeg) for x in o.items):
            return True
        if any(type(x) is Past for x in o.items):
            return True
        if settle_rest(vm, st, ref, 0, True):
            return True


def exact_items(vm, st, v, want=None):
    """concrete item tuple or taint/kill"""
    if type(v) is tuple:
        return v
    if type(v) is frozenset:
        return tuple(sorted(v, key=repr))
    if type(v) is str:
        return tuple(v)
    if type(v) is DictView:
        ps = dict_pairs(vm, st, v.ref)
        return tuple(p if v.kind == 'items' else p[0] if v.kind == 'keys' else p[1] for p in ps)
    if type(v) is Ref:
        whole(vm, st, v)
        o = vm.get(st, v)
        if type(o) is OSet and want is None:
            return set_order(vm, st, o.items)
        if type(o) in (OList, OSet):
            if type(o) is OList and has_sym(o.items):
                if want is not None:
                    i = 0
                    while i <= want:
                        o = vm.get(st, v)
                        if i >= len(o.items):
                            break
                        if type(o.items[i]) in (Rest, Past, GSeg):
                            if not settle_rest(vm, st, v, i, True):
                                continue
                        i += 1
                    return tuple(x for x in vm.get(st, v).items if type(x) not in (Rest, Past, GSeg))
                raise Kill('exact contents of an unbounded list needed', True)
            return o.items
        if type(o) is ODict:
            return tuple(k for k, _ in dict_pairs(vm, st, v))
        if type(o) is OGen:
            raise Kill('unpacking a generator', True)
        if type(o) is OInst and o.sval is not None:
            return exact_items(vm, st, str_value(vm, st, v))
    if type(v) in (Top, Opaque):
        if want is not None:
            return tuple(Top('unpacked') for _ in range(want))
        raise Kill('unpacking an unknown value', True)
    if type(v) is AStr:
        raise Kill('unpacking an unknown string', True)
    h = getattr(v, 'unpack', None)
    if h is not None:
        return h(vm, st, want)
    x = set_like(vm, st, v)
    if x is not None:
        return set_order(vm, st, x)
    refuse(vm, st, 'iter', (v,), 'cannot unpack non-iterable %s object' % vm.tname(st, v))


def list_append(vm, st, ref, v):
    o = vm.get(st, ref)
    vm.put(st, ref, o.rep(items=o.items + (v,)))


def norm_index(vm, st, ref, i):
    """resolve integer index i on list ref; returns absolute index or raises IndexError"""
    if i >= 0:
        k = 0
        while k <= i:
            o = vm.get(st, ref)
            if k >= len(o.items):
                raise PyExc('IndexError', 'list index out of range')
            if type(o.items[k]) in (Rest, Past, GSeg):
                if not settle_rest(vm, st, ref, k, True):
                    continue
            k += 1
        return i
    o = vm.get(st, ref)
    n = -i
    k = 0
    while True:
        o = vm.get(st, ref)
        if k >= n:
            return len(o.items) - n
        j = len(o.items) - 1 - k
        if j < 0:
            raise PyExc('IndexError', 'list index out of range')
        if type(o.items[j]) in (Rest, Past, GSeg):
            r = vm.hooks.settle_end(vm, st, ref, j)
            if r is None:
                raise Kill('negative index into an unbounded list', True)
            continue
        k += 1


def getitem(vm, st, o, k):
    h = getattr(o, 'getitem', None)
    if h is not None and isinstance(o, Val):
        return h(vm, st, k)
    t = type(o)
    if t in (Top, Opaque):
        return Top('item of unknown')
    if type(k) is SliceV:
        return getslice(vm, st, o, k)
    h = getattr(k, 'index_into', None)
    if h is not None and isinstance(k, Val):
        return h(vm, st, o)
    if t is Ref:
        ob = vm.get(st, o)
        if type(ob) is ODict:
            r = dict_get(vm, st, o, k)
            if r is MISSING:
                raise PyExc('KeyError', k if type(k) is str else 'key')
            return r
        if type(ob) is OList:
            nopieces(ob)
            if not isinstance(k, int):
                if type(k) in (SymV, Expr, Top):
                    return Top('symbolic index')
                raise PyExc('TypeError', 'list indices must be integers')
            i = norm_index(vm, st, o, k)
            return vm.get(st, o).items[i]
        if type(ob) is OInst:
            if ob.cls is None:
                ob = vm.resolve_kind(st, o, ob)
            if ob.sval is not None:
                return getitem(vm, st, str_value(vm, st, o), k)
            m = vm.class_lookup(st, ob.cls, '__getitem__')
            if m is not MISSING:
                vm.call(st, Bound(m, o), (k,))
                return PUSHED
        if type(ob) is OClass:
            if k in ob.d:
                return ob.d[k]
            raise PyExc('KeyError', 'enum')
        refuse(vm, st, 'getitem', (o,), "'%s' object is not subscriptable" % vm.tname(st, o))
    if t in (tuple, str, bytes):
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyExc('IndexError', '%s index out of range' % t.__name__)
        if type(k) in (SymV, Expr, Top):
            return Top('symbolic index')
        raise PyExc('TypeError', 'indices must be integers')
    if t is AStr:
        if isinstance(k, int):
            return str_index(vm, st, o, k)
        return Top('symbolic string index')
    refuse(vm, st, 'getitem', (o,), "'%s' object is not subscriptable" % vm.tname(st, o))


def str_index(vm, st, s, k):
    segs = s.segs
    if k == 0 and type(segs[0]) is str:
        return segs[0][0]
    if k == -1 and type(segs[-1]) is str:
        return segs[-1][-1]
    return AStr((Atom('char', (s, k), IDMAP),))


def getslice(vm, st, o, k):
    a, b, c = k.a, k.b, k.c
    t = type(o)
    conc = all(x is None or isinstance(x, int) for x in (a, b, c))
    if t in (str, bytes, tuple) and conc:
        return o[a:b:c]
    if t is Ref:
        ob = vm.get(st, o)
        if type(ob) is OInst and ob.sval is not None:
            return getslice(vm, st, str_value(vm, st, o), k)
        if type(ob) is OList:
            whole(vm, st, o)
            ob = vm.get(st, o)
        if type(ob) is OList and conc:
            if not has_sym(ob.items):
                return vm.alloc(st, OList(ob.items[a:b:c], None))
            if c in (None, 1) and (a is None or a >= 0) and b is None:
                a = a or 0
                i = 0
                while i < a:
                    ob = vm.get(st, o)
                    if i >= len(ob.items):
                        break
                    if type(ob.items[i]) in (Rest, Past, GSeg):
                        if not settle_rest(vm, st, o, i, True):
                            continue
                    i += 1
                return vm.alloc(st, OList(vm.get(st, o).items[i:], None))
            if c in (None, 1) and a in (None, 0) and b is not None and b >= 0:
                i = 0
                while i < b:
                    ob = vm.get(st, o)
                    if i >= len(ob.items):
                        break
                    if type(ob.items[i]) in (Rest, Past, GSeg):
                        if not settle_rest(vm, st, o, i, True):
                            continue
                    i += 1
                return vm.alloc(st, OList(vm.get(st, o).items[:i], None))
        if type(ob) is OList and (c == -1 and a is None and b is None) and vm.hooks is not None:
            r = vm.hooks.reverse_items(vm, st, ob.items)
            if r is not None:
                return vm.alloc(st, OList(r, None))
        return Top('slice of unbounded list')
    if t is AStr:
        return Expr('slice', (o, a, b, c), 'str')
    if t in (str,):
        return Expr('slice', (o, a, b, c), 'str')
    return Top('slice')


def setitem(vm, st, o, k, v):
    if type(o) is Ref:
        ob = vm.get(st, o)
        if type(ob) is OList:
            nopieces(ob)
        if type(ob) is ODict:
            dict_set(vm, st, o, k, v)
            return
        if type(ob) is OList:
            if type(k) is SliceV:
                if k.a is None and k.b is None and k.c is None:
                    vm.put(st, o, ob.rep(items=tuple(exact_items_or_syms(vm, st, v))))
                    return
                raise Kill('slice assignment', True)
            if not isinstance(k, int):
                raise Kill('symbolic index store', True)
            i = norm_index(vm, st, o, k)
            items = list(vm.get(st, o).items)
            items[i] = v
            vm.put(st, o, vm.get(st, o).rep(items=tuple(items)))
            return
        refuse(vm, st, 'setitem', (o,), "'%s' object does not support item assignment" % vm.tname(st, o))
    if type(o) in (Top, Opaque):
        return
    refuse(vm, st, 'setitem', (o,), "'%s' object does not support item assignment" % vm.tname(st, o))


def exact_items_or_syms(vm, st, v):
    whole(vm, st, v)
    if type(v) is Ref and type(vm.get(st, v)) is OList:
        return vm.get(st, v).items
    return exact_items(vm, st, v)


def delitem(vm, st, o, k):
    if type(o) is Ref:
        ob = vm.get(st, o)
        if type(ob) is ODict:
            r = dict_get(vm, st, o, k)
            if r is MISSING:
                raise PyExc('KeyError', 'key')
            ob = vm.get(st, o)
            vm.put(st, o, ob.rep(pairs=tuple(p for p in ob.pairs if type(p) is not tuple or not teq(p[0], k))))
            return
        if type(ob) is OList:
            if type(k) is SliceV:
                whole(vm, st, o)
                ob = vm.get(st, o)
                conc = all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c))
                if conc and not has_sym(ob.items):
                    items = list(ob.items)
                    del items[k.a:k.b:k.c]
                    vm.put(st, o, ob.rep(items=tuple(items)))
                    return
                raise Kill('del slice', True)
            if not isinstance(k, int):
                raise Kill('symbolic index del', True)
            i = norm_index(vm, st, o, k)
            items = list(vm.get(st, o).items)
            del items[i]
            vm.put(st, o, vm.get(st, o).rep(items=tuple(items)))
            return
    raise Kill('del item', True)


# ---------------------------------------------------------------- dicts
def dict_pairs(vm, st, v):
    o = vm.get(st, v) if type(v) is Ref else None
    if type(o) is ODict:
        if any(type(p) is not tuple for p in o.pairs):
            raise Kill('exact contents of an unbounded dict needed', True)
        return o.pairs
    if v == ():
        return ()
    raise Kill('unknown mapping', True)


def dict_get(vm, st, ref, k):
    """value or MISSING; forks for symbolic dicts"""
    if vm.hooks is not None:
        r = vm.hooks.on_dict_get(vm, st, ref, k)
        if r is not None:
            return r[0]
    o = vm.get(st, ref)
    if type(k) in (Top, Opaque):
        vm.taint(st, 'lookup with unknown key')
        return Top('dict value') if vm.choose(st, 2) == 0 else MISSING
    maybe = []
    for p in o.pairs:
        if type(p) is tuple:
            r = eq(vm, st, p[0], k)
            if r is True:
                return p[1]
            if r is False:
                continue
            if truth(vm, st, r):
                return p[1]
    for p in o.pairs:
        if type(p) is not tuple:
            return vm.hooks.dict_rest_get(vm, st, ref, p, k)
    return MISSING


def dict_set(vm, st, ref, k, v):
    if vm.hooks is not None:
        r = vm.hooks.on_dict_set(vm, st, ref, k, v)
        if r is not None:
            return
    o = vm.get(st, ref)
    pairs = list(o.pairs)
    for i, p in enumerate(pairs):
        if type(p) is tuple:
            r = eq(vm, st, p[0], k)
            if r is not True and r is not False:
                r = truth(vm, st, r)
            if r:
                pairs[i] = (p[0], v)
                vm.put(st, ref, o.rep(pairs=tuple(pairs)))
                return
    pairs.append((k, v))
    vm.put(st, ref, o.rep(pairs=tuple(pairs)))


def dict_update(vm, st, ref, other):
    if type(other) is Ref and type(vm.get(st, other)) is ODict:
        oo = vm.get(st, other)
        if any(type(p) is not tuple for p in oo.pairs):
            o = vm.get(st, ref)
            if not o.pairs:
                vm.put(st, ref, o.rep(pairs=oo.pairs))
                return
            raise Kill('update from an unbounded dict', True)
        for k, v in oo.pairs:
            dict_set(vm, st, ref, k, v)
        return
    raise Kill('update from unknown mapping', True)


def dict_nonempty(vm, st, ref):
    o = vm.get(st, ref)
    if any(type(p) is tuple or type(p) is Past for p in o.pairs):
        return True
    return settle_dict_rest(vm, st, ref, 0)


def settle_dict_rest(vm, st, ref, i):
    o = vm.get(st, ref)
    seg = o.pairs[i]
    if type(seg) is Rest:
        n = 0
        if not seg.nonempty:
            n = vm.choose(st, 2, labels=['mapping %s has a(nother) entry' % (seg.src[0],), 'mapping %s exhausted' % (seg.src[0],)])
        if n == 1:
            vm.put(st, ref, o.rep(pairs=o.pairs[:i] + o.pairs[i + 1:]))
            vm.hooks.on_exhaust(vm, st, ref, seg)
            return False
        item = vm.hooks.make_item(vm, st, seg, ref)
        o = vm.get(st, ref)
        vm.put(st, ref, o.rep(pairs=o.pairs[:i] + (item, Rest(seg.src, False)) + o.pairs[i + 1:]))
        return True
    vm.taint(st, 'second traversal of a summarised mapping')
    if vm.choose(st, 2) == 1:
        vm.put(st, ref, o.rep(pairs=o.pairs[:i] + o.pairs[i + 1:]))
        return False
    item = vm.hooks.make_item(vm, st, Rest(seg.src, False), ref)
    o = vm.get(st, ref)
    vm.put(st, ref, o.rep(pairs=o.pairs[:i] + (item, seg) + o.pairs[i + 1:]))
    return True


def contains(vm, st, c, x):
    for v, other in ((c, x), (x, c)):
        h = getattr(v, 'contains' if v is c else 'member_of', None)
        if h is not None and isinstance(v, Val):
            r = h(vm, st, other)
            if r is not None:
                return r
    t = type(c)
    if t in (Top, Opaque) or type(x) in (Top, Opaque):
        return Top('membership')
    if t in STR_TYPES or (t is Ref and type(vm.get(st, c)) is OInst and vm.get(st, c).sval is not None):
        if not is_str(vm, st, x):
            raise PyExc('TypeError', "'in <string>' requires string as left operand")
        if t is str and type(x) is AStr and len(c) and not has_atoms_ok(x):
            pass
        return str_contains(vm, st, c, x)
    if t is DictView:
        return contains(vm, st, c.ref, x) if c.kind == 'keys' else Top('membership in view')
    if t is Ref:
        o = vm.get(st, c)
        if type(o) is ODict:
            return dict_get(vm, st, c, x) is not MISSING
        if type(o) is OList and has_sym(o.items):
            r = vm.hooks.list_contains(vm, st, c, x) if vm.hooks else None
            if r is not None:
                return r
            return Top('membership in unbounded list')
        items = seq_items(vm, st, c)
        if items is None:
            if type(o) is OClass:
                return x in o.d.values()
            refuse(vm, st, 'contains', (c,), "argument of type '%s' is not iterable" % vm.tname(st, c))
    elif t in (tuple, frozenset):
        items = c if t is tuple else sorted(c, key=repr)
    else:
        refuse(vm, st, 'contains', (c,), "argument of type '%s' is not iterable" % vm.tname(st, c))
    for i in items:
        r = eq(vm, st, i, x)
        if r is True:
            return True
        if r is False:
            continue
        if truth(vm, st, r):
            return True
    return False


def has_atoms_ok(x):
    return True


# ---------------------------------------------------------------- iteration
def get_iter(vm, st, v):
    t = type(v)
    if t is tuple:
        return vm.alloc(st, OIter(v, 0, 'tuple'))
    if t is str:
        return vm.alloc(st, OIter(tuple(v), 0, 'tuple'))
    if t is frozenset:
        return vm.alloc(st, OIter(tuple(sorted(v, key=repr)), 0, 'tuple'))
    if t is DictView:
        return vm.alloc(st, OIter(v.ref, 0, v.kind))
    if t is Ref:
        o = vm.get(st, v)
        k = type(o)
        if k is OList:
            nopieces(o)
            return vm.alloc(st, OIter(v, 0, 'list'))
        if k is ODict:
            return vm.alloc(st, OIter(v, 0, 'keys'))
        if k is OSet:
            return vm.alloc(st, OIter(set_order(vm, st, o.items), 0, 'tuple'))
        if k in (OGen, OIter):
            return v
        if k is OClass:
            return vm.alloc(st, OIter(tuple(x for x in o.d.values() if type(x) is Ref and type(vm.get(st, x)) is OInst), 0, 'tuple'))
        if k is OInst:
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            if o.sval is not None:
                s = str_value(vm, st, v)
                if type(s) is str:
                    return get_iter(vm, st, s)
                return vm.alloc(st, OIter(s, 0, 'str'))
            m = vm.class_lookup(st, o.cls, '__iter__')
            if m is not MISSING:
                vm.call(st, Bound(m, v), ())
                return PUSHED
    if t is AStr:
        return vm.alloc(st, OIter(v, 0, 'str'))
    if t in (Top, Opaque):
        return v
    h = getattr(v, 'get_iter', None)
    if h is not None:
        return h(vm, st)
    if t in (SymV, Expr) and v.typ == 'str':
        return Top('characters of a string')
    refuse(vm, st, 'iter', (v,), "'%s' object is not iterable" % vm.tname(st, v))


def iter_next(vm, st, it, o):
    if o.kind == 'tuple':
        if o.idx >= len(o.src):
            return MISSING
        vm.put(st, it, o.rep(idx=o.idx + 1))
        return o.src[o.idx]
    if o.kind == 'str':
        vm.taint(st, 'iteration over characters of an unknown string')
        if vm.choose(st, 2) == 0:
            return Top('character')
        return MISSING
    if o.kind == 'list':
        if o.src is None:
            return MISSING
        while True:
            lo = vm.get(st, o.src)
            if o.idx >= len(lo.items):
                vm.put(st, it, o.rep(src=None))
                return MISSING
            if type(lo.items[o.idx]) in (Rest, Past, GSeg):
                if not settle_rest(vm, st, o.src, o.idx, True):
                    continue
                lo = vm.get(st, o.src)
            vm.put(st, it, o.rep(idx=o.idx + 1))
            return lo.items[o.idx]
    if o.kind in ('keys', 'values', 'items'):
        if o.src is None:
            return MISSING
        while True:
            d = vm.get(st, o.src)
            if o.idx >= len(d.pairs):
                vm.put(st, it, o.rep(src=None))
                return MISSING
            if type(d.pairs[o.idx]) is not tuple:
                if not settle_dict_rest(vm, st, o.src, o.idx):
                    continue
                d = vm.get(st, o.src)
            vm.put(st, it, o.rep(idx=o.idx + 1))
            k, v = d.pairs[o.idx]
            return k if o.kind == 'keys' else v if o.kind == 'values' else (k, v)
    h = getattr(o.src, 'iter_next', None)
    if h is not None:
        return h(vm, st, it, o)
    if o.kind == 'tape':
        return MISSING
    raise Unsupported(o.kind)


# ---------------------------------------------------------------- attributes
LIST_M = ('appendleft', 'popleft', 'extendleft', 'append', 'extend', 'insert', 'pop', 'remove', 'index', 'copy', 'clear', 'reverse', 'sort', 'count')
DICT_M = ('items', 'keys', 'values', 'get', 'copy', 'setdefault', 'pop', 'update', 'clear', 'fromkeys', 'popitem')
STR_M = ('join', 'split', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'startswith', 'endswith', 'partition',
         'rpartition', 'encode', 'lower', 'upper', 'find', 'index', 'translate', 'isspace', 'isdigit', 'isalpha',
         'rsplit', 'count', 'splitlines', 'title', 'isalnum', 'removeprefix', 'removesuffix', 'rfind', 'casefold', 'zfill',
         'isidentifier', 'isnumeric', 'isdecimal', 'maketrans')
SET_M = ('add', 'discard', 'remove', 'update', 'copy', 'union', 'clear', 'pop', 'issubset', 'issuperset', 'isdisjoint',
         'intersection', 'difference')
GEN_M = ('send', 'close', 'throw', '__next__')


def type_method(vm, root, name):
    table = {'list': LIST_M, 'dict': DICT_M, 'str': STR_M, 'set': SET_M, 'tuple': ('index', 'count')}
    if name in table.get(root, ()):
        return Builtin(root + '.' + name)
    return None


def native_attr(vm, st, o, ob, name):
    t = type(o)
    if ob is not None:
        k = type(ob)
        if k is OList and name in LIST_M:
            if ob.tag == 'pieces' and name not in ('append', 'extend', 'clear'):
                raise Kill('list of text pieces examined', True)
            return NBound('list.' + name, o)
        if k is ODict and name in DICT_M:
            return NBound('dict.' + name, o)
        if k is OSet and name in SET_M:
            return NBound('set.' + name, o)
        if k is OGen and name in GEN_M:
            return NBound('gen.' + name, o)
        if k is OProp and name in ('setter', 'getter', 'deleter', 'fget', 'fset'):
            if name in ('fget', 'fset'):
                return getattr(ob, name)
            return NBound('property.' + name, o)
        if k is OList and name == '__len__':
            return NBound('len', o)
    if t in STR_TYPES or (t in (SymV, Expr) and o.typ == 'str'):
        if name in STR_M:
            return NBound('str.' + name, o)
    if t is bytes:
        return NBound('bytes.' + name, o)
    if t is tuple and name in ('index', 'count'):
        return NBound('tuple.' + name, o)
    if t is Fn:
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            c = o.code.co.co_consts
            return c[0] if c and isinstance(c[0], str) else None
        if name in ('__module__', '__dict__', '__wrapped__'):
            return Opaque('fn.' + name)
    if t is Builtin:
        if name in ('from_iterable',):
            return Builtin('chain_from_iterable')
        if name == '__name__':
            return o.name
    if t is float or t is int or (t in (SymV, Expr) and o.typ in NUM):
        if name in ('is_integer', 'bit_length'):
            return NBound('num.' + name, o)
    if t is NBound or t is Bound:
        if name == '__self__':
            return o.self
    r = stand_in(vm, st, o)
    if r is not None and hasattr(type(r[0]), name):
        raise Kill('unmodelled attribute %s of %s' % (name, type(r[0]).__name__), True)
    raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (vm.tname(st, o), name))


EXTERNAL = {
    'weakref.ref': Builtin('weakref.ref'),
    'weakref.proxy': Builtin('weakref.ref'),
    're.compile': Builtin('re.compile'),
    're.match': Builtin('re.fmatch'),
    're.sub': Builtin('re.fsub'),
    'itertools.dropwhile': Builtin('itertools.dropwhile'),
    'itertools.takewhile': Builtin('itertools.takewhile'),
    'itertools.chain': Builtin('itertools.chain'),
    'itertools.islice': Builtin('itertools.islice'),
    'itertools.count': Builtin('itertools.count'),
    'itertools.repeat': Builtin('itertools.repeat'),
    'itertools.filterfalse': Builtin('itertools.filterfalse'),
    'operator.attrgetter': Builtin('operator.attrgetter'),
    'operator.itemgetter': Builtin('operator.itemgetter'),
    'functools.wraps': Builtin('functools.wraps'),
    'functools.partial': Builtin('functools.partial'),
    'functools.reduce': Builtin('functools.reduce'),
    'functools.lru_cache': Builtin('ident_deco'),
    'amara3.util.coroutine': Builtin('coroutine'),
    'collections.deque': Builtin('collections.deque'),
    'ply.lex.TOKEN': Builtin('ply.TOKEN'),
    'decimal.Decimal': Builtin('decimal.Decimal'),
    'math.floor': Builtin('math.floor'),
    'math.ceil': Builtin('math.ceil'),
    'math.isnan': Builtin('math.isnan'),
    'math.isinf': Builtin('math.isinf'),
    'math.isfinite': Builtin('math.isfinite'),
    'math.nan': float('nan'),
    'math.inf': float('inf'),
    'math.fmod': Builtin('math.fmod'),
    'math.copysign': Builtin('math.copysign'),
    're.UNICODE': 32,
    're.VERBOSE': 64,
    're.IGNORECASE': 2,
    'os.environ': None,
    'os.access': Builtin('os.access'),
    'operator.eq': Builtin('op.=='), 'operator.ne': Builtin('op.!='), 'operator.lt': Builtin('op.<'),
    'operator.le': Builtin('op.<='), 'operator.gt': Builtin('op.>'), 'operator.ge': Builtin('op.>='),
    'operator.add': Builtin('op2.+'), 'operator.sub': Builtin('op2.-'), 'operator.mul': Builtin('op2.*'),
    'operator.truediv': Builtin('op2./'), 'operator.mod': Builtin('op2.%'),
}


def import_external(vm, name):
    if name in ('saxutils',):
        return vm.sax_mod
    top = name.split('.')[0]
    known = ('re', 'os', 'sys', 'enum', 'weakref', 'xml', 'itertools', 'operator', 'functools', 'collections', 'amara3',
             'tempfile', 'ply', 'html5lib', 'errno', 'math', 'string', 'io', 'typing', 'types', 'abc', 'warnings', 'copy',
             'argparse', 'urllib', 'logging', 'unicodedata', 'contextlib', 'dataclasses', 'inspect', 'numbers', 'bisect',
             'heapq', 'decimal', 'textwrap', 'codecs', 'asyncio', 'threading', 'queue', 'json', 'pprint', 'random', 'time',
             'datetime', 'traceback', 'gc', 'locale', 'struct', '__future__')
    if top not in known:
        return MISSING
    if name.startswith('amara3.') and vm.find_module(name) is None and name not in ('amara3.util', 'amara3.iri', 'amara3.inputsource'):
        if name.startswith('amara3.cmodules'):
            return Opaque(name)
        return MISSING
    return Opaque(name)


def opaque_attr(vm, st, o, name):
    full = '%s.%s' % (o.name, name)
    if full in EXTERNAL and EXTERNAL[full] is not None:
        return EXTERNAL[full]
    if full in ('enum.Enum', 'enum.IntEnum', 'enum.Flag'):
        return vm.types['Enum']
    if full in ('collections.abc.Iterable', 'typing.Iterable', 'collections.abc.Iterator', 'collections.Iterable'):
        return vm.types['Iterable']
    if full == 'xml.sax.saxutils':
        return vm.sax_mod
    if full == 'os.environ':
        return vm.alloc(st, ODict((), None))
    if full == 'sys.stdout' or full == 'sys.stderr':
        return Opaque(full)
    return Opaque(full)


# ---------------------------------------------------------------- natives
def isinstance_(vm, st, v, cls):
    if type(cls) is tuple:
        for c in cls:
            if isinstance_(vm, st, v, c):
                return True
        return False
    if type(cls) in (Opaque, Top):
        if type(v) in (Top, Opaque):
            vm.taint(st, 'isinstance on unknown')
            return vm.choose(st, 2) == 0
        return False
    h = getattr(v, 'isinstance', None)
    if h is not None and isinstance(v, Val):
        r = h(vm, st, cls)
        if r is not None:
            return r
    co = vm.get(st, cls)
    if type(co) is not OClass:
        raise PyExc('TypeError', 'isinstance() arg 2 must be a type')
    if cls == vm.types['Iterable']:
        t = type(v)
        if t in STR_TYPES or t in (tuple, bytes, frozenset, DictView):
            return True
        if t in (Top, Opaque):
            vm.taint(st, 'isinstance on unknown')
            return vm.choose(st, 2) == 0
        if t is Ref:
            o = vm.get(st, v)
            if type(o) is OInst:
                if o.cls is None:
                    o = vm.resolve_kind(st, v, o)
                return o.sval is not None or vm.class_lookup(st, o.cls, '__iter__') is not MISSING
            return type(o) in (OList, ODict, OSet, OGen, OIter)
        return t in (SymV, Expr) and v.typ == 'str'
    if type(v) in (Top,):
        vm.taint(st, 'isinstance on unknown')
        return vm.choose(st, 2) == 0
    if type(v) is Opaque:
        if co.native and co.native not in ('object',):
            vm.taint(st, 'isinstance on unknown')
            return vm.choose(st, 2) == 0
        return co.native == 'object'
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OInst and o.cls is None:
            yes = tuple(k for k in o.kinds if cls in vm.get(st, k).mro)
            no = tuple(k for k in o.kinds if cls not in vm.get(st, k).mro)
            if yes and no:
                r = vm.choose(st, 2, labels=['item is a %s' % co.name, 'item is not a %s' % co.name]) == 0
                ks = yes if r else no
            else:
                r = bool(yes)
                ks = o.kinds
            if len(ks) == 1:
                vm.put(st, v, o.rep(cls=ks[0], kinds=None))
            else:
                vm.put(st, v, o.rep(kinds=ks))
            return r
    if type(v) in (SymV, Expr) and v.typ == 'num':
        if co.native == 'float':
            return fact(vm, st, ('isfloat', v), ['number is a float', 'number is an int'])
        if co.native == 'int':
            return not fact(vm, st, ('isfloat', v), ['number is a float', 'number is an int'])
        return co.native == 'object'
    c = vm.type_of(st, v)
    if c is None:
        return False
    return cls in vm.get(st, c).mro


def n_len(vm, st, v):
    h = getattr(v, 'length', None)
    if h is not None and isinstance(v, Val):
        return h(vm, st)
    t = type(v)
    if t in (str, bytes, tuple, frozenset):
        return len(v)
    if t is Ref:
        o = vm.get(st, v)
        if type(o) is OList:
            nopieces(o)
            if not has_sym(o.items):
                return len(o.items)
            return Expr('len', (v,), 'int')
        if type(o) is ODict:
            if all(type(p) is tuple for p in o.pairs):
                return len(o.pairs)
            return Expr('len', (v,), 'int')
        if type(o) is OSet:
            return len(o.items)
        if type(o) is OInst:
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            if o.sval is not None:
                return n_len(vm, st, str_value(vm, st, v))
            m = vm.class_lookup(st, o.cls, '__len__')
            if m is not MISSING:
                vm.call(st, Bound(m, v), ())
                return PUSHED
        refuse(vm, st, 'len', (v,), "object of type '%s' has no len()" % vm.tname(st, v))
    if t is AStr or (t in (SymV, Expr) and v.typ == 'str'):
        return Expr('len', (v,), 'int')
    if t in (Top, Opaque):
        return Top('len of unknown')
    refuse(vm, st, 'len', (v,), "object of type '%s' has no len()" % vm.tname(st, v))


def n_next(vm, st, it, *dflt):
    mode = ('nextdef', dflt[0]) if dflt else ('push',)
    if type(it) is Ref and type(vm.get(st, it)) in (OList, ODict, OSet):
        raise PyExc('TypeError', "'%s' object is not an iterator" % vm.tname(st, it))
    if type(it) in (str, tuple, int, float, bool, type(None), AStr):
        raise PyExc('TypeError', "'%s' object is not an iterator" % vm.tname(st, it))
    vm.next(st, it, mode)
    return PUSHED


def n_iter(vm, st, v, *s):
    if s:
        raise Kill('iter with sentinel', True)
    return get_iter(vm, st, v)


def n_hasattr(vm, st, o, name):
    return vm.hasattr(st, o, name)


def n_getattr(vm, st, o, name, *d):
    if type(name) is not str:
        return Top('getattr with computed name')
    if d:
        if not vm.hasattr(st, o, name):
            return d[0]
    v = vm.getattr(st, o, name)
    return v


def n_setattr(vm, st, o, name, v):
    r = vm.setattr(st, o, name, v)
    return None


def n_isinstance(vm, st, v, c):
    return isinstance_(vm, st, v, c)


def n_build_class(vm, st, fn, name, *bases, **kw):
    return vm.build_class(st, fn, name, bases, kw)


def n_super(vm, st, *a):
    if not a:
        fr = st.frames[-1]
        cell = fr.loc.get('\0c:__class__')
        cls = vm.get(st, cell).v
        me = fr.loc.get(fr.code.varnames[0])
        if me is None:
            me = vm.get(st, fr.loc['\0c:' + fr.code.varnames[0]]).v
        return SuperV(cls, me)
    return SuperV(*a)


class SuperV(Rec):
    _f = __slots__ = ('cls', 'me')

    def getattr(self, vm, st, name):
        return vm.super_attr(st, self.cls, self.me, name)


def n_str(vm, st, *a, **kw):
    if not a:
        return ''
    v = a[0]
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OInst:
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            m = vm.class_lookup(st, o.cls, '__str__')
            if m is MISSING and o.sval is None:
                m = vm.class_lookup(st, o.cls, '__repr__')
            if m is not MISSING:
                vm.call(st, Bound(m, v), ())
                return PUSHED
            if o.sval is None and type(o.d.get('args', None)) is tuple and '__msg__' in o.d:
                args = o.d['args']
                if not args:
                    return ''
                if len(args) == 1:
                    return n_str(vm, st, args[0])
    if type(v) in (SymV, Expr) and v.typ in NUM:
        return Expr('str', (v,), 'str')
    if getattr(v, 'pytype', None) == 'str':
        return v
    return to_str(vm, st, v)


def n_repr(vm, st, v):
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OInst and o.cls is not None:
            m = vm.class_lookup(st, o.cls, '__repr__')
            if m is not MISSING:
                vm.call(st, Bound(m, v), ())
                return PUSHED
    return to_repr(vm, st, v)


def numeric_text(s):
    try:
        return float(s)
    except ValueError:
        return None


def n_float(vm, st, v=0.0):
    if isinstance(v, (bool, int, float)):
        return float(v)
    s = str_value(vm, st, v) if is_str(vm, st, v) else None
    if type(s) is str:
        try:
            return float(s)
        except ValueError:
            raise PyExc('ValueError', 'could not convert string to float: %r' % s)
    if s is not None:
        if fact(vm, st, ('numeric', s), ['string is numeric', 'string is not numeric']):
            return Expr('float', (s,), 'float')
        raise PyExc('ValueError', 'could not convert string to float')
    if type(v) in (SymV, Expr) and v.typ in NUM:
        return Expr('float', (v,), 'float') if v.typ != 'float' else v
    if type(v) in (Top, Opaque):
        return Top('float of unknown')
    raise PyExc('TypeError', "float() argument must be a string or a real number, not '%s'" % vm.tname(st, v))


def n_int(vm, st, v=0, base=None):
    h = getattr(v, 'to_int', None)
    if h is not None and isinstance(v, Val):
        return h(vm, st, base)
    if base is None:
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            try:
                return int(v)
            except ValueError:
                raise PyExc('ValueError', 'cannot convert float NaN to integer')
            except OverflowError:
                raise PyExc('OverflowError', 'cannot convert float infinity to integer')
        if type(v) in (SymV, Expr) and v.typ in NUM:
            if v.typ in ('float', 'num'):
                if fact(vm, st, ('nonfinite', v), ['number is NaN or infinite', 'number is finite']):
                    raise PyExc('ValueError', 'cannot convert float NaN to integer')
            return Expr('int', (v,), 'int') if v.typ != 'int' else v
    s = str_value(vm, st, v) if is_str(vm, st, v) else None
    if type(s) is str:
        try:
            return int(s) if base is None else int(s, base)
        except ValueError:
            raise PyExc('ValueError', 'invalid literal for int()')
    if s is not None:
        if fact(vm, st, ('intlit', s, base), ['string is an integer literal', 'string is not an integer literal']):
            return Expr('int', (s, base), 'int')
        raise PyExc('ValueError', 'invalid literal for int()')
    if type(v) in (Top, Opaque):
        return Top('int of unknown')
    raise PyExc('TypeError', "int() argument must be a string or a real number, not '%s'" % vm.tname(st, v))


def n_bool(vm, st, v=False):
    if type(v) is Expr and v.typ == 'bool':
        return v
    return truth(vm, st, v)


def n_type(vm, st, v, *a):
    if a:
        raise Kill('dynamic type()', True)
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OInst and o.cls is None:
            vm.resolve_kind(st, v, o)
    c = vm.type_of(st, v)
    return c if c is not None else Opaque('type')


def n_dict(vm, st, *a, **kw):
    r = vm.alloc(st, ODict((), None))
    if a:
        v = a[0]
        if type(v) is Ref and type(vm.get(st, v)) is ODict:
            src = vm.get(st, v)
            vm.put(st, r, ODict(src.pairs, None))
        elif type(v) is DictView:
            src = vm.get(st, v.ref)
            vm.put(st, r, ODict(src.pairs, None))
        else:
            for p in exact_items(vm, st, v):
                k, x = exact_items(vm, st, p, 2)
                dict_set(vm, st, r, k, x)
    for k, x in kw.items():
        dict_set(vm, st, r, k, x)
    return r


def n_set(vm, st, *a):
    items = []
    if a:
        whole(vm, st, a[0])
        if type(a[0]) is Ref and type(vm.get(st, a[0])) is OList and has_sym(vm.get(st, a[0]).items):
            return Top('set of unbounded list')
        for x in exact_items(vm, st, a[0]):
            if not set_has(vm, st, items, x):
                items.append(x)
    return vm.alloc(st, OSet(tuple(items)))


def set_has(vm, st, items, v):
    for x in items:
        if teq(x, v):
            return True
        r = eq(vm, st, x, v)
        if r is not True and r is not False:
            r = truth(vm, st, r)
        if r:
            return True
    return False


def set_order(vm, st, items):
    """sets are iterated in an order which depends on hash values"""
    if len(items) > 1 and not vm.initing and vm.hooks is not None and vm.choose(st, 2, labels=['a set is iterated in one order', 'a set is iterated in another order']):
        return tuple(items)[::-1]
    return tuple(items)


def n_property(vm, st, fget=None, fset=None, fdel=None, doc=None):
    return vm.alloc(st, OProp(fget, fset))


def n_property_setter(vm, st, p, f):
    return vm.alloc(st, OProp(vm.get(st, p).fget, f))


def n_static(vm, st, f):
    return vm.alloc(st, OStatic(f, 'staticmethod'))


def n_classm(vm, st, f):
    return vm.alloc(st, OStatic(f, 'classmethod'))


def n_str_new(vm, st, cls, *a):
    payload = ''
    if a:
        s = str_value(vm, st, a[0])
        if s is None:
            s = to_str(vm, st, a[0])
        payload = s
    return vm.alloc(st, OInst(cls, {}, None, None, payload))


def n_object_new(vm, st, cls, *a, **k):
    return vm.alloc(st, OInst(cls, {}, None, None, None))


def n_object_init(vm, st, *a, **k):
    return None


def n_weakref(vm, st, v, cb=None):
    return WeakRef(v)


def n_re_compile(vm, st, pat, flags=0):
    if type(pat) is Regex:
        return pat
    if type(pat) is str and isinstance(flags, int):
        return Regex(pat, flags)
    return Opaque('regex')


def rx_method(how):
    def f(vm, st, rx, s, *a):
        if type(rx) is not Regex:
            return Top('regex')
        h = getattr(s, 'rx_match', None)
        if h is not None and isinstance(s, Val):
            return h(vm, st, rx, how, a)
        v = str_value(vm, st, s)
        if type(v) is str and not a and how in ('match', 'fullmatch', 'search'):
            try:
                m = getattr(_re.compile(rx.pat, rx.flags), how)(v)
            except _re.error:
                return Top('bad regex')
            return None if m is None else RegexMatch(rx, v, how)
        if v is not None and how in ('match', 'fullmatch', 'search'):
            if fact(vm, st, (how, rx, v), ['pattern matches', 'pattern does not match']):
                return RegexMatch(rx, v, how)
            return None
        return Top('regex ' + how)
    return f


def rx_opaque(how):
    def f(vm, st, *a, **k):
        return Top('regex ' + how)
    return f


# list methods
def l_append(vm, st, l, v):
    list_append(vm, st, l, v)
    return None


def l_insert(vm, st, l, i, v):
    o = vm.get(st, l)
    if isinstance(i, int) and not has_sym(o.items):
        items = list(o.items)
        items.insert(i, v)
        vm.put(st, l, o.rep(items=tuple(items)))
        return None
    if isinstance(i, int) and i == 0:
        vm.put(st, l, o.rep(items=(v,) + o.items))
        return None
    r = vm.hooks.list_insert(vm, st, l, i, v)
    if r:
        return None
    raise Kill('insert into unbounded list', True)


def l_pop(vm, st, l, i=-1):
    if not isinstance(i, int):
        raise Kill('symbolic pop', True)
    o = vm.get(st, l)
    if not o.items:
        raise PyExc('IndexError', 'pop from empty list')
    k = norm_index(vm, st, l, i)
    o = vm.get(st, l)
    v = o.items[k]
    vm.put(st, l, o.rep(items=o.items[:k] + o.items[k + 1:]))
    return v


def l_remove(vm, st, l, v):
    o = vm.get(st, l)
    if has_sym(o.items):
        r = vm.hooks.list_remove(vm, st, l, v)
        if r:
            return None
        raise Kill('remove from unbounded list', True)
    for k, x in enumerate(o.items):
        r = eq(vm, st, x, v)
        if r is not True and r is not False:
            r = truth(vm, st, r)
        if r:
            vm.put(st, l, o.rep(items=o.items[:k] + o.items[k + 1:]))
            return None
    raise PyExc('ValueError', 'list.remove(x): x not in list')


def l_index(vm, st, l, v, *a):
    o = vm.get(st, l) if type(l) is Ref else None
    items = o.items if o is not None else l
    if has_sym(items):
        r = vm.hooks.list_index(vm, st, l, v)
        if r is not None:
            return r
        raise Kill('index in unbounded list', True)
    for k, x in enumerate(items):
        r = eq(vm, st, x, v)
        if r is not True and r is not False:
            r = truth(vm, st, r)
        if r:
            return k
    raise PyExc('ValueError', 'x not in list')


def l_copy(vm, st, l):
    whole(vm, st, l)
    o = vm.get(st, l)
    nopieces(o)
    return vm.alloc(st, OList(o.items, None))


def l_clear(vm, st, l):
    o = vm.get(st, l)
    vm.put(st, l, o.rep(items=()))
    return None


def l_reverse(vm, st, l):
    whole(vm, st, l)
    o = vm.get(st, l)
    if has_sym(o.items):
        r = vm.hooks.reverse_items(vm, st, o.items)
        if r is None:
            raise Kill('reverse of unbounded list', True)
        vm.put(st, l, o.rep(items=tuple(r)))
        return None
    vm.put(st, l, o.rep(items=o.items[::-1]))
    return None


def n_reversed(vm, st, v):
    items = seq_items(vm, st, v)
    if items is None:
        return Top('reversed')
    if has_sym(items):
        r = vm.hooks.reverse_items(vm, st, items)
        if r is None:
            raise Kill('reversed of unbounded list', True)
        return get_iter(vm, st, vm.alloc(st, OList(tuple(r), None)))
    return vm.alloc(st, OIter(items[::-1], 0, 'tuple'))


def n_sort(vm, st, l, keys, reverse):
    if vm.hooks is not None:
        r = vm.hooks.on_sort(vm, st, l, keys, reverse)
        if r:
            return None
    ks = vm.get(st, keys).items
    o = vm.get(st, l)
    if len(o.items) <= 1 and not has_sym(o.items):
        return None
    def plain(k):
        return isinstance(k, (int, float, str)) or type(k) is tuple and all(plain(x) for x in k)
    if all(plain(k) for k in ks):
        idx = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(reverse))
        vm.put(st, l, o.rep(items=tuple(o.items[i] for i in idx)))
        return None
    vm.put(st, l, o.rep(items=(Top('sorted item'),) * len(o.items)))
    vm.taint(st, 'sort of unknown keys')
    return None


# dict methods
def d_items(vm, st, d):
    return DictView(d, 'items')


def d_keys(vm, st, d):
    return DictView(d, 'keys')


def d_values(vm, st, d):
    return DictView(d, 'values')


def d_get(vm, st, d, k, dflt=None):
    r = dict_get(vm, st, d, k)
    return dflt if r is MISSING else r


def d_copy(vm, st, d):
    o = vm.get(st, d)
    return vm.alloc(st, ODict(o.pairs, None))


def d_setdefault(vm, st, d, k, dflt=None):
    r = dict_get(vm, st, d, k)
    if r is MISSING:
        dict_set(vm, st, d, k, dflt)
        return dflt
    return r


def d_pop(vm, st, d, k, *dflt):
    r = dict_get(vm, st, d, k)
    if r is MISSING:
        if dflt:
            return dflt[0]
        raise PyExc('KeyError', 'key')
    delitem(vm, st, d, k)
    return r


def d_update(vm, st, d, *a, **kw):
    if a:
        dict_update(vm, st, d, a[0])
    for k, v in kw.items():
        dict_set(vm, st, d, k, v)
    return None


def d_clear(vm, st, d):
    vm.put(st, d, vm.get(st, d).rep(pairs=()))
    return None


# generator methods
def g_send(vm, st, g, v):
    vm.resume_gen(st, g, v, ('push',))
    return PUSHED


def g_next(vm, st, g):
    vm.resume_gen(st, g, None, ('push',))
    return PUSHED


def g_close(vm, st, g):
    o = vm.get(st, g)
    if o.state in ('done', 'new'):
        vm.put(st, g, o.rep(state='done', frame=None))
        return None
    if o.state == 'run':
        raise PyExc('ValueError', 'generator already executing')
    fr = o.frame.copy()
    fr.mode = ('close',)
    fr.gen = g
    fr.stack.append(None)
    vm.put(st, g, o.rep(frame=None, state='run'))
    st.frames.append(fr)
    e = vm.make_exc(st, 'GeneratorExit', '')
    vm.unwind(st, e)
    return PUSHED


# string methods
def s_startswith(vm, st, s, p, *a):
    h = getattr(s, 'startswith', None)
    if h is not None and isinstance(s, Val):
        return h(vm, st, p, *a)
    x, y = str_value(vm, st, s), (p if type(p) is tuple else str_value(vm, st, p))
    if a and (y is None or type(x) is not str or any(type(i) is not int for i in a) or type(y) is AStr):
        return Top('startswith from a position')
    if a and type(y) in (str, tuple):
        try:
            return x.startswith(y, *a)
        except TypeError:
            return Top('startswith')
    if type(x) is str and type(y) is str and not a:
        return x.startswith(y)
    if type(x) is str and type(y) is tuple and not a:
        return x.startswith(y)
    if y == '':
        return True
    return Expr('startswith', (x, y) + a, 'bool')


def s_endswith(vm, st, s, p, *a):
    x, y = str_value(vm, st, s), (p if type(p) is tuple else str_value(vm, st, p))
    if type(x) is str and type(y) in (str, tuple) and not a:
        return x.endswith(y)
    return Expr('endswith', (x, y) + a, 'bool')


def s_strip(how):
    def f(vm, st, s, *a):
        h = getattr(s, 'strip', None)
        if h is not None and isinstance(s, Val):
            r = h(vm, st, how, *a)
            if r is not None:
                return r
        x = str_value(vm, st, s)
        if type(x) is str:
            return getattr(x, how)(*a)
        if type(x) is AStr and all(type(g) is str and not g.strip() for g in x.segs):
            return ''
        return AStr((Atom(how, (x,) + a, IDMAP),))
    return f


def split_method(how):
    def s_split(vm, st, s, *a, **k):
        x = str_value(vm, st, s)
        if type(x) is str and all(type(v) in (str, int, type(None)) for v in a + tuple(k.values())):
            return vm.alloc(st, OList(tuple(getattr(x, how)(*a, **k)), None))
        if k and set(k) <= {'sep', 'maxsplit'}:
            a = (a[0] if a else k.get('sep'), a[1] if len(a) > 1 else k.get('maxsplit', -1))
            k = {}
        if vm.hooks is not None:
            r = vm.hooks.on_split(vm, st, x, a, k) if how == 'split' else vm.hooks.on_rsplit(vm, st, x, a, k)
            if r is not None:
                return r
        return Top('split')
    return s_split


def s_partition(vm, st, s, sep):
    x, y = str_value(vm, st, s), str_value(vm, st, sep)
    if type(x) is str and type(y) is str:
        if y == '':
            raise PyExc('ValueError', 'empty separator')
        return x.partition(y)
    if type(y) is AStr and not truth(vm, st, y):
        raise PyExc('ValueError', 'empty separator')
    if y == '':
        raise PyExc('ValueError', 'empty separator')
    return (Expr('before', (x, y), 'str'), Expr('sep', (x, y), 'str'), Expr('after', (x, y), 'str'))


def s_rpartition(vm, st, s, sep):
    x, y = str_value(vm, st, s), str_value(vm, st, sep)
    if type(x) is str and type(y) is str:
        return x.rpartition(y)
    if vm.hooks is not None:
        r = vm.hooks.on_split(vm, st, x, ('\0rpartition', y), {})
        if r is not None:
            return r
    return (Expr('rbefore', (x, y), 'str'), Expr('rsep', (x, y), 'str'), Expr('rafter', (x, y), 'str'))


def s_pure(name):
    def f(vm, st, s, *a, **k):
        x = str_value(vm, st, s)
        if type(x) is str and not k and all(type(v) in (str, int) or v is None for v in a):
            r = getattr(x, name)(*a)
            return r if not isinstance(r, list) else vm.alloc(st, OList(tuple(r), None))
        typ = {'lower': 'str', 'upper': 'str', 'find': 'int', 'index': 'int', 'count': 'int', 'isspace': 'bool',
               'isdigit': 'bool', 'isalpha': 'bool', 'isalnum': 'bool', 'title': 'str', 'casefold': 'str'}.get(name)
        if typ:
            return Expr(name, (x,) + tuple(a), typ)
        return Top(name)
    return f


def n_join_exact(vm, st, sep, lst):
    items = seq_items(vm, st, lst)
    if items is None:
        items = exact_items(vm, st, lst)
    out = []
    sp = str_value(vm, st, sep)
    if any(getattr(x, 'joinable', False) and isinstance(x, Val) for x in items):
        r = ''
        for i, x in enumerate(items):
            if i and sp != '':
                r = binop(vm, st, '+', r, sp)
            r = binop(vm, st, '+', r, x)
        return r
    for i, x in enumerate(items):
        if i:
            out.extend(segs_of(sp))
        if type(x) is GSeg:
            out.append(x)
            continue
        s = str_value(vm, st, x)
        if s is None:
            if type(x) in (Top, Opaque):
                return Top('join of unknown')
            raise PyExc('TypeError', 'sequence item %d: expected str instance, %s found' % (i, vm.tname(st, x)))
        out.extend(segs_of(s))
    return mkstr(out)


def n_exact_list(vm, st, v):
    if type(v) in (tuple, str):
        return True
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OList:
            return True
    return False


def n_copy_list(vm, st, v):
    whole(vm, st, v)
    if type(v) is Ref:
        o = vm.get(st, v)
        return vm.alloc(st, OList(o.items, None))
    return vm.alloc(st, OList(tuple(v), None))


def n_list_extend_exact(vm, st, l, v):
    whole(vm, st, l)
    whole(vm, st, v)
    o = vm.get(st, l)
    items = vm.get(st, v).items if type(v) is Ref else tuple(v)
    vm.put(st, l, o.rep(items=o.items + tuple(items)))
    return None


def n_to_tuple(vm, st, v):
    return tuple(exact_items(vm, st, v))


def n_is_tuple(vm, st, v):
    return type(v) is tuple


def n_need_str(vm, st, v):
    if is_str(vm, st, v):
        return str_value(vm, st, v)
    if type(v) in (Top, Opaque):
        return Top('join item')
    raise PyExc('TypeError', 'sequence item: expected str instance, %s found' % vm.tname(st, v))


def n_callable(vm, st, v):
    if type(v) in (Fn, Bound, Builtin, NBound):
        return True
    if type(v) is Ref:
        o = vm.get(st, v)
        if type(o) is OClass:
            return True
        if type(o) is OInst:
            if o.cls is None:
                o = vm.resolve_kind(st, v, o)
            return vm.class_lookup(st, o.cls, '__call__') is not MISSING
        return False
    if type(v) in (Top, Opaque):
        vm.taint(st, 'callable of unknown')
        return vm.choose(st, 2) == 0
    h = getattr(v, 'call', None)
    return h is not None and isinstance(v, Val)


def n_chr(vm, st, v):
    h = getattr(v, 'to_chr', None)
    if h is not None and isinstance(v, Val):
        return h(vm, st)
    if isinstance(v, int):
        try:
            return chr(v)
        except (ValueError, OverflowError):
            raise PyExc('ValueError', 'chr() arg not in range')
    return Top('chr')


def n_ord(vm, st, v):
    if type(v) is str and len(v) == 1:
        return ord(v)
    h = getattr(v, 'to_ord', None)
    if h is not None and isinstance(v, Val):
        return h(vm, st)
    return Top('ord')


def n_print(vm, st, *a, **k):
    if vm.hooks is not None:
        vm.hooks.on_print(vm, st, a, k)
    return None


def n_hash(vm, st, v):
    return Expr('hash', (v,), 'int')


def n_id(vm, st, v):
    return Expr('id', (v,), 'int')


def n_issubclass(vm, st, c, d):
    if type(d) is tuple:
        return any(x in vm.get(st, c).mro for x in d)
    return d in vm.get(st, c).mro


def n_num1(name):
    def f(vm, st, v, *a):
        if isinstance(v, (int, float)) and not a:
            import math
            try:
                return {'abs': abs, 'round': round, 'math.floor': math.floor, 'math.ceil': math.ceil,
                        'math.isnan': lambda x: x != x, 'math.isinf': lambda x: x in (float('inf'), float('-inf')),
                        'math.isfinite': math.isfinite}[name](v)
            except (ValueError, OverflowError) as e:
                raise PyExc(type(e).__name__, str(e))
        if type(v) in (SymV, Expr) and v.typ in NUM:
            if name in ('math.isnan', 'math.isinf', 'math.isfinite'):
                if v.typ in ('int', 'bool'):
                    return name == 'math.isfinite'
                return Expr(name, (v,), 'bool')
            if name in ('round', 'math.floor', 'math.ceil') and v.typ in ('float', 'num'):
                if fact(vm, st, ('nonfinite', v), ['number is NaN or infinite', 'number is finite']):
                    raise PyExc('ValueError', 'cannot convert float NaN to integer')
            return Expr(name, (v,) + a, 'int' if name != 'abs' else v.typ)
        if type(v) in (Top, Opaque):
            return Top(name)
        raise PyExc('TypeError', '%s needs a number' % name)
    return f


def n_rename(vm, st, g, f):
    return g


def n_ident_deco(vm, st, *a, **k):
    if len(a) == 1 and type(a[0]) is Fn:
        return a[0]
    return Builtin('ident1')


def n_ident1(vm, st, f):
    return f


def n_token(vm, st, pat):
    return NBound('ply.settoken', pat)


def n_settoken(vm, st, pat, f):
    """ply TOKEN decorator: remember the pattern on the function (module constant phase only)"""
    vm.token_patterns[f.code] = pat
    return f


def n_opcmp(op):
    return lambda vm, st, a, b: compare(vm, st, op, a, b)


def n_opbin(op):
    return lambda vm, st, a, b: binop(vm, st, op, a, b)


def n_bytes_decode(vm, st, b, *a, **k):
    if type(b) is bytes:
        try:
            return b.decode(*[x for x in a if isinstance(x, str)])
        except UnicodeDecodeError:
            raise PyExc('UnicodeDecodeError', 'bytes')
    return Top('decode')


def n_slice(vm, st, *a):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def set_add(vm, st, s, v):
    o = vm.get(st, s)
    if not set_has(vm, st, o.items, v):
        vm.put(st, s, OSet(o.items + (v,)))
    return None


def set_discard(vm, st, s, v):
    o = vm.get(st, s)
    vm.put(st, s, OSet(tuple(x for x in o.items if not set_has(vm, st, (x,), v))))
    return None


def install(vm):
    vm.token_patterns = {}
    N = vm.natives
    N.update({
        '__build_class__': n_build_class, 'isinstance': n_isinstance, 'issubclass': n_issubclass, 'len': n_len, 'next': n_next,
        'iter': n_iter, 'hasattr': n_hasattr, 'getattr': n_getattr, 'setattr': n_setattr, 'super': n_super,
        'type.str': n_str, 'repr': n_repr, 'type.float': n_float, 'type.int': n_int, 'type.bool': n_bool,
        'type.type': n_type, 'type.dict': n_dict, 'type.set': n_set, 'type.frozenset': n_set, 'type.property': n_property,
        'type.slice': n_slice,
        'type.object': lambda vm, st: vm.alloc(st, OInst(vm.types['object'], {}, None, None, None)),
        'property.setter': n_property_setter, 'type.staticmethod': n_static, 'type.classmethod': n_classm,
        'str.__new__': n_str_new, 'object.__new__': n_object_new, 'object.__init__': n_object_init,
        'weakref.ref': n_weakref, 're.compile': n_re_compile,
        'os.access': lambda vm, st, *a: True,
        'list.append': l_append, 'list.insert': l_insert, 'list.pop': l_pop, 'list.remove': l_remove, 'list.index': l_index,
        'list.copy': l_copy, 'list.clear': l_clear, 'list.reverse': l_reverse, 'tuple.index': l_index,
        'dict.items': d_items, 'dict.keys': d_keys, 'dict.values': d_values, 'dict.get': d_get, 'dict.copy': d_copy,
        'dict.setdefault': d_setdefault, 'dict.pop': d_pop, 'dict.update': d_update, 'dict.clear': d_clear,
        'gen.send': g_send, 'gen.close': g_close, 'gen.__next__': g_next,
        'str.replace': str_replace, 'str.translate': str_translate, 'str.format': str_format, 'str.startswith': s_startswith, 'str.endswith': s_endswith,
        'str.strip': s_strip('strip'), 'str.lstrip': s_strip('lstrip'), 'str.rstrip': s_strip('rstrip'),
        'str.split': split_method('split'), 'str.partition': s_partition, 'str.rpartition': s_rpartition,
        'str.rsplit': split_method('rsplit'),
        'format': n_format, 'decimal.Decimal': n_decimal,
        '__is_iterator__': lambda vm, st, v: type(v) is Ref and type(vm.get(st, v)) in (OGen, OIter),
        '__join_exact__': n_join_exact, '__exact_list__': n_exact_list, '__copy_list__': n_copy_list,
        '__list_extend_exact__': n_list_extend_exact, '__to_tuple__': n_to_tuple, '__is_tuple__': n_is_tuple,
        '__need_str__': n_need_str, '__reversed__': n_reversed, '__sort__': n_sort, '__rename__': n_rename,
        'callable': n_callable, 'chr': n_chr, 'ord': n_ord, 'print': n_print, 'hash': n_hash, 'id': n_id,
        'ident_deco': n_ident_deco, 'ident1': n_ident1, 'ply.TOKEN': n_token, 'ply.settoken': n_settoken,
        'bytes.decode': n_bytes_decode,
        'set.add': set_add, 'set.discard': set_discard, 'set.remove': set_discard,
        'exc.with_traceback': lambda vm, st, e, tb: e,
        'globals': lambda vm, st: Opaque('globals'), 'locals': lambda vm, st: Opaque('locals'),
        'vars': lambda vm, st, *a: Opaque('vars'), 'dir': lambda vm, st, *a: Opaque('dir'),
        'input': lambda vm, st, *a: Opaque('input'), 'open': lambda vm, st, *a, **k: Opaque('file'),
        'type.bytes': lambda vm, st, *a: Opaque('bytes'),
        'num.is_integer': lambda vm, st, v: v.is_integer() if isinstance(v, float) else (True if isinstance(v, int) else Expr('is_integer', (v,), 'bool')),
    })
    for n in ('match', 'fullmatch', 'search'):
        N['re.' + n] = rx_method(n)
    for n in ('sub', 'findall', 'finditer', 'split', 'fmatch', 'fsub'):
        N['re.' + n] = rx_opaque(n)
    for n in ('end', 'start', 'group', 'groups', 'span'):
        N['match.' + n] = rx_opaque('match.' + n)
    for n in ('abs', 'round', 'math.floor', 'math.ceil', 'math.isnan', 'math.isinf', 'math.isfinite'):
        N[n] = n_num1(n)
    for n in STR_M:
        N.setdefault('str.' + n, s_pure(n)) if n not in ('join',) else None
    for op in ('==', '!=', '<', '<=', '>', '>='):
        N['op.' + op] = n_opcmp(op)
    for op in '+-*/%':
        N['op2.' + op] = n_opbin(op)
    N['math.fmod'] = lambda vm, st, a, b: binop(vm, st, 'fmod', a, b) if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) else Top('fmod')
    N['math.copysign'] = lambda vm, st, a, b: Expr('copysign', (a, b), 'float')
