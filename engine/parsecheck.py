"""Product of the parser (abstractly interpreted) with the MicroXML automaton."""
import os
import time
from .vm import *
from .vm import MISSING, PUSHED
from . import tape, mxspec, models
from .tape import *

DRIVER_A = '''
def drive(parser, handler):
    p = parser(handler)
    p.send((__text__(), __final__()))
    p.close()
'''
DRIVER_B = '''
def drive(parser, handler):
    p = parser(handler)
    while __more__():
        p.send((__text__(), False))
    if __more__():
        p.send((__text__(), __final__()))
    else:
        p.send(('', __end__()))
    p.close()
'''


class TapeVM(VM):
    WIDEN = 0
    taint_facts = True

    def taint(self, st, why):
        fr = st.frames[-1]
        raise Kill('%s at %s:%s' % (why, os.path.basename(fr.code.path), fr.line), True)


class ParseHooks(Hooks):
    def __init__(self, events, report):
        self.events = events
        self.report = report
        self.nev = 0

    def at_head(self, vm, st, widen):
        merge_pieces(vm, st)
        for o in st.heap.values():
            if (type(o) is OList and len(o.items) > 7) or (type(o) is ODict and len(o.pairs) > 3):
                if os.environ.get('DBG'):
                    print('UNB', *['\n   %s' % (p,) for p in st.trail(150)], o, st.dom.stack, st.dom.attrs, st.dom.q, st.dom.sample(), [x.qual if hasattr(x,'qual') else x.code.name for x in st.frames])
                raise Kill('unbounded collection', True)
            if type(o) is OInst and type(o.sval) is str and len(o.sval) > 40:
                raise Kill('unbounded string', True)
        for fr in st.frames:
            for v in fr.loc.values():
                if type(v) is int and abs(v) > 60:
                    raise Kill('unbounded counter', True)
        st.facts = {}
        h = st.dom.hist
        d = compress(vm, st)
        st.dom.hist = h
        fold(vm, st)
        return None

    def on_key(self, vm, st, key):
        d = st.dom
        e = (hash(key), tuple(d.serial[b] for b in d.bds))
        if e in d.hist:
            fr = st.frames[-1]
            self.report('loop', st, 'the parser loops forever at %s:%s' % (fr.code.path, fr.line))
            return True
        d.hist = d.hist + (e,)
        return False

    def settle_end(self, vm, st, ref, j):
        o = vm.get(st, ref)
        if o.items[j].src != ('stk',) or st.dom.stack[:1] != (o.items[j],):
            return None
        k = vm.choose(st, 2, labels=['more than one enclosing element', 'one enclosing element'])
        d = st.dom.copy()
        s = d.newsym('n')
        d.subst_stack((Rest(('stk',), True), s) if k == 0 else (s,))
        st.dom = d
        commit(vm, st, d)
        return True

    def dict_rest_get(self, vm, st, ref, rest, k):
        d = st.dom
        k = d.resolve(k)
        if rest.src == ('att', d.attgen) and type(k) is Sym:
            if d.dup is not None and k == d.dup:
                return SymV('str', 'earlier value')
            if k == d.an or any(type(x) is tuple and x[0] == k for x in d.attrs):
                return MISSING
        raise Kill('lookup in a summarised attribute mapping', True)

    def sent_changed(self, vm, st, ref):
        fr = st.frames[-1]
        self.report('event', st, 'a collection already delivered with an event is modified at %s:%s' % (fr.code.path, fr.line))
        raise Kill('reported')

    def on_event(self, vm, st, ev):
        d = st.dom.copy()
        d.hist = ()
        st.dom = d
        self.nev += 1
        fr = st.frames[-1]
        where = '%s:%s' % (fr.code.path, fr.line)
        if d.queue:
            exp, d.queue = d.queue[0], d.queue[1:]
        else:
            if d.q == mxspec.ERR:
                return
            exp = None
        if type(ev) is not tuple or not ev:
            raise Kill('event is not a tuple', True)
        kind = self.events.get(ev[0])
        if kind is None:
            raise Kill('unknown event kind', True)
        if exp is None:
            self.report('event', st, 'an event (%s) is delivered at %s that the input does not warrant' % (kind, where))
            raise Kill('reported')
        want = {'s': 'start_element', 'e': 'end_element', 'c': 'characters'}[exp[0]]
        if kind != want:
            self.bad(st, d, 'event %s delivered at %s where the input prescribes %s' % (kind, where, want))
        if exp[0] == 'c':
            if len(ev) < 2:
                self.bad(st, d, 'characters event without text at %s' % where)
            self.text(vm, st, d, ev[1], exp[1], 'the text', where)
            return
        if len(ev) < (4 if exp[0] == 's' else 3):
            self.bad(st, d, '%s event at %s lacks fields' % (kind, where))
        self.text(vm, st, d, ev[1], exp[1], 'the element name', where)
        if exp[0] == 's':
            self.attrs(vm, st, d, ev[2], exp[2], where)
        for x in ev[2:]:
            o = vm.get(st, x) if type(x) is Ref else None
            if type(o) in (OList, ODict):
                st.heap[x.a] = o.rep(tag='sent')
        self.stack(vm, st, d, ev[3] if exp[0] == 's' else ev[2], exp[3] if exp[0] == 's' else exp[2], kind, where)

    def bad(self, st, d, msg):
        if d.q != mxspec.ERR or True:
            self.report('event', st, msg)
        raise Kill('reported')

    def text(self, vm, st, d, v, exp, what, where):
        v = d.resolve(v)
        if v == exp:
            return
        if exp == '' and type(v) is Win and v.a == v.e:
            return
        if type(v) is Bad:
            self.bad(st, d, '%s delivered at %s is wrong: %s' % (what, where, v.why))
        if type(v) is Sym:
            if type(exp) is not Sym or v.kind != exp.kind or (v, exp) in d.neq or (exp, v) in d.neq or v.kind == 'd':
                self.bad(st, d, '%s delivered at %s is not the one in the input' % (what, where))
            raise Kill('relation of two names unknown', True)
        if type(v) is str and type(exp) is Sym:
            self.bad(st, d, '%s delivered at %s is %r whatever the input says' % (what, where, v))
        t = as_text(d, v)
        if t is not None:
            a, b, raw = t
            if raw and not d.plain(a, b):
                w = d.why_not_plain(a, b)
                if w:
                    self.bad(st, d, '%s delivered at %s is wrong: %s' % (what, where, w))
            for kind, x, y, s in d.toks:
                if s == exp and kind == ('n' if exp.kind == 'n' else 'd'):
                    i, j = sorted((d.bds.index(a), d.bds.index(x)))
                    k, l = sorted((d.bds.index(b), d.bds.index(y)))
                    if any(self.visible(it) for it in d.items[i:j] + d.items[k:l]):
                        self.bad(st, d, '%s delivered at %s is not exactly the prescribed part of the input' % (what, where))
                    if i == j and k == l and not raw:
                        return
                    raise Kill('text bounds unclear', True)
        raise Kill('delivered text not understood: %r at %s' % (v, where), True)

    def visible(self, it):
        return it == ('b', True) or (it[0] == 'c' and it[1][3] in ('id', 'nl'))

    def attrs(self, vm, st, d, v, exp, where):
        o = vm.get(st, v) if type(v) is Ref else None
        if type(o) is not ODict:
            raise Kill('attributes not a dict', True)
        have = [p for p in o.pairs if type(p) is tuple]
        hrest = [p for p in o.pairs if type(p) is not tuple]
        want = [p for p in exp if type(p) is tuple]
        wrest = [p for p in exp if type(p) is not tuple]
        if [r.src for r in hrest] != [r.src for r in wrest] or len(have) != len(want):
            self.bad(st, d, 'the attributes delivered at %s are not those in the tag' % where)
        for k, x in have:
            k = d.resolve(k)
            m = [w for w in want if w[0] == k]
            if not m:
                if type(k) is Sym or type(k) is str:
                    self.bad(st, d, 'an attribute name delivered at %s is not one in the tag' % where)
                raise Kill('attribute name not understood', True)
            self.text(vm, st, d, x, m[0][1], 'an attribute value', where)

    def stack(self, vm, st, d, v, exp, kind, where):
        o = vm.get(st, v) if type(v) is Ref else v
        items = o.items if type(o) is OList else o if type(o) is tuple else None
        if items is None:
            raise Kill('ancestor list not understood', True)
        if any(type(x) is Ref or type(x) is tuple for x in items):
            raise Kill('ancestor list not understood', True)
        items = tuple(d.resolve(x) for x in items)
        if items != exp:
            if all(type(x) in (Sym, Rest) for x in items):
                self.bad(st, d, 'the enclosing-element list of the %s event at %s is wrong' % (kind, where))
            raise Kill('ancestor list not understood', True)


def analyse(vmf, mode, limit=200000, modname='amara3.uxml.parser', names=None, opts=(), budget=600, kinds=None, late=60):
    """returns dict(violations, inconclusive, stats)"""
    vm = vmf()
    vm.MAXSTATES = limit
    parser = vm.modattr(modname, 'parser')
    evc = vm.modattr(modname, 'event')
    eo = vm.base[evc.a]
    events = {}
    for n in ('start_element', 'end_element', 'characters'):
        if n not in eo.d:
            raise AnalysisBroken('event.%s missing' % n)
        events[eo.d[n]] = n
    spec = mxspec.Spec(names, opts)
    found = {}

    def report(kind, st, msg):
        k = (kind, msg)
        if kinds is not None and kind not in kinds:
            return
        if not found:
            vm.DEADLINE = min(vm.DEADLINE, time.time() + late)
            vm.limit = min(vm.limit, vm.nstates + 20000)
        if k not in found:
            found[k] = (kind, msg, st.dom.sample(), [p for p in st.trail(40)])
            if os.environ.get('DBG'):
                D = st.dom
                print('DOM', msg[:90], D.bds, D.items, [D.info[b][0] for b in D.bds], D.toks, dict(st.frames[-1].loc) if st.frames else '')

    hooks = ParseHooks(events, report)
    drv = vm.load_source('__driver_%s__' % mode, DRIVER_A if mode == 'A' else DRIVER_B, 'driver')
    vm.hooks = hooks

    def n_text(vm, st):
        first = st.dom.mode == ''
        if not first:
            force_end(vm, st)
        d = st.dom.copy()
        d.mode = 'run'
        d.closed = False
        d.must = False
        d.hist = ()
        if d.inp is not None or not first:
            d.inp = (d.inp, '|')
        st.dom = d
        return Win(d.frontier, END)

    def n_final(vm, st):
        d = st.dom.copy()
        d.final = True
        st.dom = d
        return True

    def n_end(vm, st):
        if st.dom.mode != '':
            force_end(vm, st)
        d = st.dom.copy()
        d.final = d.closed = True
        d.hist = ()
        st.dom = d
        return True

    def n_more(vm, st):
        k = vm.choose(st, 2)
        d = st.dom.copy()
        d.hist = ()
        st.dom = d
        return k == 0
    def minmax(name):
        old = vm.natives.get(name)

        def f(vm, st, *a, **k):
            if any(type(x) in (Idx, SymV) for x in a):
                return SymV('int', name)
            return old(vm, st, *a, **k) if old else vm.call(st, vm.base[vm.prelude_mod.a].d[name], a, k) or PUSHED
        return f
    vm.natives['min'] = minmax('min')
    vm.natives['max'] = minmax('max')
    vm.natives['__text__'] = n_text
    vm.natives['__final__'] = n_final
    vm.natives['__end__'] = n_end
    vm.natives['__more__'] = n_more
    fn = vm.base[drv.a].d['drive']
    vm.initing = False
    st = State()
    st.dom = Dom(spec)
    vm.push_fn(st, fn, (parser, HandlerV()), {}, ('top',))
    ends = {'ok': 0, 'reject': 0}

    def on_end(st, kind, v):
        d = st.dom
        if kind == 'raise':
            o = vm.get(st, v)
            txt = '%s: %s' % (vm.exc_name(st, v), o.d.get('__msg__') if isinstance(o.d.get('__msg__'), str) else '...')
            where = o.d.get('__where__', '?')
            ends['reject'] += 1
            if d.q == mxspec.ERR or d.mayrej or d.q[0] == 'EPILT':
                return
            if d.closed and d.final:
                if d.q == ('EPI',):
                    report('reject', st, 'a complete well-formed document is rejected at %s with %s' % (where, txt))
                return
            report('reject', st, 'well-formed input is rejected %s at %s with %s' % (mxspec.show_state(d.q), where, txt))
            return
        ends['ok'] += 1
        if d.q == ('EPI',):
            if not d.closed:
                report('accept', st, 'parsing ends normally without reading everything after the document element')
            elif d.queue:
                report('event', st, 'parsing ends normally but a %s event was never delivered' %
                       {'s': 'start_element', 'e': 'end_element', 'c': 'characters'}[d.queue[0][0]])
            return
        if d.q == mxspec.ERR:
            qs = malformed_at(d)
            report('accept', st, 'a document with a well-formedness error is accepted')
        elif d.closed:
            report('accept', st, 'input that ends %s is accepted without an error' % mxspec.show_state(d.q))
        else:
            report('accept', st, 'parsing ends normally without reading the rest of the input')
    vm.DEADLINE = time.time() + budget
    vm.explore([st], on_end)
    stats = {'abstract_states': vm.nstates, 'loop_head_states': vm.nheads, 'bytecode_steps': vm.nsteps,
 'events_compared': hooks.nev, 'paths_accepting': ends['ok'], 'paths_rejecting': ends['reject'],
             'functions': sorted(vm.analysed)}
    return {'violations': sorted(found.values()), 'inconclusive': dict(vm.inconclusive), 'stats': stats, 'files': dict(vm.files)}


def malformed_at(d):
    return None


if __name__ == '__main__':
    import sys, time
    t = time.time()
    r = analyse(lambda: TapeVM(sys.argv[2] if len(sys.argv) > 2 else '/repo'), sys.argv[1], names=sys.argv[3].split(',') if len(sys.argv) > 3 else None, opts=sys.argv[4].split(',') if len(sys.argv) > 4 else (), limit=2000000)
    for v in r['violations']:
        print('*', v[0], v[1], '   INPUT', repr(v[2]))
    print(r['inconclusive'])
    print({k: v for k, v in r['stats'].items()}, '%.1fs' % (time.time() - t))
