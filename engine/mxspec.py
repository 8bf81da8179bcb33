"""MicroXML reference automaton used as the typestate specification of the parser.

Character-class level automaton: states are small tuples, edges are
(class index, label, next state, output, action).  Outputs: 'id' the character
itself, '' nothing, 'nl' a newline, 'ref' the referenced character.
"""
from . import regexset as R

NAMESTART = R.norm([(0x41, 0x5A), (0x61, 0x7A), (0x5F, 0x5F), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF),
                    (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF),
                    (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)])
NAMECHAR = R.union(NAMESTART, R.norm([(0x30, 0x39), (0x2D, 0x2E), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]))
NONCHAR = R.norm([(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF) for p in range(17)] + [(0xFDD0, 0xFDEF)])
CHARACTER = R.minus(R.norm([(9, 10), (0x20, 0x7E), (0xA0, 0xD7FF), (0xE000, 0x10FFFF)]), NONCHAR)
HEX = R.norm([(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)])
DIG = R.norm([(0x30, 0x39)])
WS = R.chars(' \t\r\n')
NAMES = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
SINGLES = '<>&=/"\'#x;!?:\t\n\r \ufeff'
TRIE = sorted({n[:i] for n in NAMES for i in range(1, len(n) + 1)})
TRIECH = ''.join(sorted({c for n in NAMES for c in n}))

ERR = ('ERR',)
PRUNE = ('PRUNE',)
NICE = 'abcdefghzAZ019-._ \t\n\r<>&=/"\'#x;!?:'


def show_state(q):
    return {'PRE0': 'start of input', 'PRE': 'before the document element', 'LT0': "after '<' of the document element",
            'LT': "after '<'", 'GI': 'inside a start-tag name', 'TAGWS': 'between attributes', 'ANAME': 'inside an attribute name',
            'AEQ': "before '='", 'AVW': "after '='", 'AVAL': 'inside an attribute value', 'AFTERVAL': 'after an attribute value',
            'CONTENT': 'inside element content', 'CCR': 'inside element content, after CR', 'CT0': "after '</'",
            'CTGI': 'inside an end-tag name', 'CTWS': 'after an end-tag name', 'EPI': 'after the document element',
            'EPILT': "after '<' following the document element", 'ERR': 'after a well-formedness error'}.get(q[0], 'inside a reference')


def single(iv):
    return chr(iv[0][0]) if len(iv) == 1 and iv[0][0] == iv[0][1] else None


def rep(iv):
    for c in NICE:
        if R.has(iv, c):
            return c
    return chr(iv[0][0])


class Spec:
    """edges(q): [(character set, label, next state, output, action)]"""

    def __init__(self, names=None, opts=()):
        self.cut = set()
        self.opts = set(opts)
        if names is not None:
            keep = {n[:i] for n in names for i in range(1, len(n) + 1)}
            self.cut = {t for t in TRIE if t not in keep}
        sets = [NAMESTART, NAMECHAR, CHARACTER, HEX, DIG, WS, NONCHAR]
        sets += [R.chars(c) for c in SINGLES + TRIECH]
        self.parts = [p[0] for p in R.partition(sets)]
        self.n = len(self.parts)
        self.single = {}
        for i, iv in enumerate(self.parts):
            if single(iv) is not None:
                self.single[i] = single(iv)
        self._edges = {}
        self._sub = {}
        self._reach = {}

    def inside(self, i, s):
        """class i subset of interval set s: True / False (disjoint) / None (split)"""
        k = (i, s)
        r = self._sub.get(k, 0)
        if r == 0:
            x = R.inter(self.parts[i], s)
            r = False if not x else (True if x == self.parts[i] else None)
            self._sub[k] = r
        return r

    def edges(self, q):
        e = self._edges.get(q)
        if e is None:
            groups = {}
            for i in range(self.n):
                for lab, q2, out, act in self.step(q, i):
                    if q2 != PRUNE:
                        groups.setdefault((lab, q2, out, act), []).extend(self.parts[i])
            e = [(R.norm(iv),) + k for k, iv in groups.items()]
            self._edges[q] = e
        return e

    def step(self, q, i):
        """[(label, next, output, action)]"""
        c = self.single.get(i)
        ns = self.inside(i, NAMESTART)
        nc = self.inside(i, NAMECHAR)
        legal = self.inside(i, CHARACTER)
        ws = c is not None and c in ' \t\r\n'
        non = self.inside(i, NONCHAR)
        k = q[0]
        bad = [(None, ERR, 'id', None)]
        prune = [(None, PRUNE, 'id', None)]

        def to(*st, out='id', act=None, lab=None):
            return [(lab, tuple(st), out, act)]
        if k == 'ERR':
            return bad
        if k in ('PRE0', 'PRE'):
            if c == '\ufeff' and k == 'PRE0':
                return to('PRE')
            if ws:
                return to('PRE')
            if c == '<':
                return to('LT0')
            return bad
        if k in ('LT0', 'LT', 'CT0'):
            if ns:
                if non:
                    return prune
                return to('CTGI', act='namestart') if k == 'CT0' else to('GI', act='namestart')
            if c == '/' and k == 'LT':
                return to('CT0')
            if ws or (c is not None and c in '!?:' and k != 'CT0') or c == ':':
                return prune
            return bad
        if k == 'GI':
            if nc:
                return prune if non else to('GI')
            if ws:
                return to('TAGWS', act='giend')
            if c == '>':
                return to('CONTENT', act='giend start')
            if c in ('/', ':'):
                return prune
            return bad
        if k in ('TAGWS', 'AFTERVAL'):
            if ws:
                return to('TAGWS')
            if c == '>':
                return to('CONTENT', act='start')
            if ns:
                return prune if non or k == 'AFTERVAL' else to('ANAME', act='namestart')
            if c in ('/', ':'):
                return prune
            return bad
        if k == 'ANAME':
            if nc:
                return prune if non else to('ANAME')
            if ws and 'nows' in self.opts:
                return prune
            if ws:
                return to('AEQ', act='anend', lab='new') + to('ERR', act='anend', lab='dup')
            if c == '=':
                return to('AVW', act='anend', lab='new') + to('ERR', act='anend', lab='dup')
            if c == ':':
                return prune
            return bad
        if k == 'AEQ':
            if ws:
                return prune if 'nows' in self.opts else to('AEQ')
            if c == '=':
                return to('AVW')
            return bad
        if k == 'AVW':
            if ws:
                return prune if 'nows' in self.opts else to('AVW')
            if c == '"' and 'noquot' in self.opts:
                return prune
            if c is not None and c in '"\'':
                return to('AVAL', c, act='valstart')
            return bad
        if k in ('AVAL', 'CONTENT', 'CCR'):
            if k == 'AVAL':
                if c == q[1]:
                    return to('AFTERVAL', act='valend')
                if c == '<':
                    return bad
            elif c == '<':
                return to('LT', act='text')
            base = q if k == 'AVAL' else ('CONTENT',)
            if c == '&' and 'noref' in self.opts or c == '\r' and 'nocr' in self.opts:
                return prune
            if c == '&':
                return to('RS', base, act='refstart')
            if c == '>':
                return to(*base, act='mayrej')
            if k == 'CCR' and c == '\n':
                return to(*base, out='')
            if c == '\r':
                if k == 'AVAL':
                    return prune
                return to('CCR', out='nl')
            if legal:
                return to(*base)
            return bad
        if k == 'RS':
            if c == '#' and 'nonum' in self.opts:
                return prune
            if c == '#':
                return to('RH', q[1])
            if c in self.cut:
                return prune
            if c is not None and c in TRIE:
                return to('RN', q[1], c)
            return bad
        if k == 'RN':
            if c == ';':
                return to(*q[1], out='ref', act='refend') if q[2] in NAMES else bad
            if c is not None and q[2] + c in self.cut:
                return prune
            if c is not None and q[2] + c in TRIE:
                return to('RN', q[1], q[2] + c)
            return bad
        if k == 'RH':
            if c == 'x':
                return to('RX0', q[1])
            if self.inside(i, DIG):
                return to('RD', q[1], act='digstart')
            return bad
        if k in ('RX0', 'RX'):
            if self.inside(i, HEX):
                return to('RX', q[1], act='digstart' if k == 'RX0' else None)
            if c == ';' and k == 'RX':
                return self.cpedges(q[1])
            return bad
        if k == 'RD':
            if self.inside(i, DIG):
                return to('RD', q[1])
            if c == ';':
                return self.cpedges(q[1])
            return bad
        if k in ('CTGI', 'CTWS'):
            if k == 'CTGI':
                if nc:
                    return prune if non else to('CTGI')
                if c == ':':
                    return prune
                if ws and 'nows' in self.opts:
                    return prune
                if ws:
                    return to('CTWS', act='ctend', lab='match') + to('ERR', act='ctend', lab='mismatch')
                if c == '>':
                    return to('CONTENT', act='ctend end', lab='match') + to('ERR', act='ctend', lab='mismatch')
                return bad
            if ws:
                return to('CTWS')
            if c == '>':
                return to('CONTENT', act='end')
            return bad
        if k == 'EPI':
            if ws:
                return to('EPI')
            if c == '<':
                return to('EPILT')
            return bad
        if k == 'EPILT':
            if c is not None and c in '!?':
                return prune
            return bad
        raise AssertionError(q)

    def cpedges(self, r):
        return [(('cp', CHARACTER), r, 'ref', 'refend'), (('cp', R.complement(CHARACTER)), ERR, 'ref', 'refend'),
                (('cp', 'big'), ERR, 'ref', 'refend')]

    def plain(self, edge):
        return edge[3] == 'id' and (edge[4] in (None, 'mayrej'))

    def inner(self, q, plain):
        """edges usable inside a folded run (no event- or token-delimiting actions)"""
        k = ('in', q, plain)
        r = self._edges.get(k)
        if r is None:
            r = [e for e in self.edges(q) if (plain == 'err' and (e[1] is None or e[1][0] == 'cp') or (e[2] == ERR) == (q == ERR)) and
                 (e[2][0][:1] == 'R' if plain == 'ref' else (self.plain(e) and e[2][0][:1] != 'R') if plain is True else (e[4] in (None, 'mayrej', 'refstart', 'refend', 'digstart')))]
            self._edges[k] = r
        return r

    def reaches(self, q, q2, plain):
        """can a (possibly empty) run lead from q to q2"""
        k = (q, plain)
        s = self._reach.get(k)
        if s is None:
            s = {q}
            todo = [q]
            while todo:
                x = todo.pop()
                for e in self.inner(x, plain):
                    if e[2] not in s:
                        s.add(e[2])
                        todo.append(e[2])
            self._reach[k] = s
        return q2 in s
