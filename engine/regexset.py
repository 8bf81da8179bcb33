"""Character sets of single-character regular expressions, computed from the
pattern's syntax tree (re._parser); no matching is performed."""
import re._parser as _p
import re._constants as _c

MAXC = 0x110000


def norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def union(a, b):
    return norm(tuple(a) + tuple(b))


def complement(a):
    out = []
    p = 0
    for lo, hi in norm(a):
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p < MAXC:
        out.append((p, MAXC - 1))
    return tuple(out)


def inter(a, b):
    return complement(union(complement(a), complement(b)))


def minus(a, b):
    return inter(a, complement(b))


def has(a, c):
    c = ord(c) if isinstance(c, str) else c
    return any(lo <= c <= hi for lo, hi in a)


def chars(s):
    return norm([(ord(c), ord(c)) for c in s])


def _category(cat):
    n = str(cat)
    import sys
    pred = {'CATEGORY_DIGIT': str.isdecimal, 'CATEGORY_SPACE': str.isspace,
            'CATEGORY_WORD': lambda c: c.isalnum() or c == '_'}
    neg = 'NOT_' in n
    f = pred[n.replace('NOT_', '')]
    iv = [(i, i) for i in range(MAXC) if f(chr(i))]
    iv = norm(iv)
    return complement(iv) if neg else iv


def _items(items):
    out = ()
    neg = False
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            out += ((av, av),)
        elif op is _c.RANGE:
            out += (av,)
        elif op is _c.CATEGORY:
            out += tuple(_category(av))
        else:
            return None
    out = norm(out)
    return complement(out) if neg else out


def _node(op, av):
    if op is _c.LITERAL:
        return ((av, av),)
    if op is _c.NOT_LITERAL:
        return complement(((av, av),))
    if op is _c.IN:
        return _items(av)
    if op is _c.ANY:
        return complement(((10, 10),))
    if op is _c.SUBPATTERN:
        return _seq(av[-1])
    if op is _c.BRANCH:
        out = ()
        for b in av[1]:
            s = _seq(b)
            if s is None:
                return None
            out = union(out, s)
        return out
    return None


def _seq(p):
    p = list(p)
    if len(p) != 1:
        return None
    return _node(*p[0])


_cache = {}


def char_class(pat, flags=0):
    """intervals of the characters matched by a pattern that consumes exactly one character, else None"""
    k = (pat, flags)
    if k not in _cache:
        try:
            t = _p.parse(pat, flags)
            ok = not (flags & 2)
            _cache[k] = _seq(t) if ok else None
        except Exception:
            _cache[k] = None
    return _cache[k]


def partition(sets):
    """coarsest partition of all code points separating every given set.
    returns list of (intervals, frozenset(indices of sets containing it))"""
    cuts = {0, MAXC}
    for s in sets:
        for lo, hi in s:
            cuts.add(lo)
            cuts.add(hi + 1)
    cuts = sorted(cuts)
    groups = {}
    for lo, nx in zip(cuts, cuts[1:]):
        sig = frozenset(i for i, s in enumerate(sets) if has(s, lo))
        groups.setdefault(sig, []).append((lo, nx - 1))
    return [(norm(v), k) for k, v in groups.items()]


def show(iv, n=4):
    def c(x):
        return chr(x) if 33 <= x < 127 else 'U+%04X' % x
    s = ['%s' % c(a) if a == b else '%s-%s' % (c(a), c(b)) for a, b in iv[:n]]
    return '[' + ' '.join(s) + (' ...' if len(iv) > n else '') + ']'
