"""Liveness of fast locals (backward dataflow over the bytecode) and reachable-state rewriting."""
from .vm import Frame, Ref, Rec, Val, OGen, OCell, Code

TERM = {'RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE'}
USE = {'LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'DELETE_FAST', 'MAKE_CELL'}
COND = {'POP_JUMP_IF_FALSE', 'POP_JUMP_IF_TRUE', 'POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE', 'FOR_ITER', 'SEND'}
_cache = {}


def liveness(code):
    r = _cache.get(id(code))
    if r is not None:
        return r[1]
    n = len(code.ins)
    succ = []
    use = [None] * n
    dfn = [None] * n
    for i, (op, arg, av, ln, off) in enumerate(code.ins):
        if op in TERM:
            s = []
        elif op in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT'):
            s = [code.idx[av]]
        elif op in COND:
            s = [i + 1, code.idx[av]]
        else:
            s = [i + 1]
        h = code.handler(off)
        if h is not None:
            s.append(code.idx[h[2]])
        succ.append([x for x in s if x < n])
        if op in USE:
            use[i] = av
        elif op == 'STORE_FAST':
            dfn[i] = av
    live = [frozenset()] * (n + 1)
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            out = frozenset().union(*[live[x] for x in succ[i]]) if succ[i] else frozenset()
            if dfn[i] is not None:
                # an exception handler may still see the old value
                h = code.handler(code.ins[i][4])
                keep = live[code.idx[h[2]]] if h is not None else frozenset()
                out = (out - {dfn[i]}) | keep
            if use[i] is not None:
                out = out | {use[i]}
            if out != live[i]:
                live[i] = out
                changed = True
    _cache[id(code)] = (code, live)
    return live


def map_state(vm, st, sub):
    """rewrite every reachable value through sub (None = recurse); drop dead locals and garbage"""
    todo = []
    seen = set()
    heap = st.heap
    for a in heap:
        if a >= 0:
            seen.add(a)
            todo.append(a)

    def g(v):
        r = sub(v)
        if r is not None:
            return r
        t = type(v)
        if t is Ref:
            if v.a in heap and v.a not in seen:
                seen.add(v.a)
                todo.append(v.a)
            return v
        if t is tuple:
            n = tuple([g(x) for x in v])
            return v if all(a is b for a, b in zip(n, v)) else n
        if t is Frame:
            return frame(v)
        if t is dict:
            return {k: g(x) for k, x in v.items()}
        if t is Code:
            return v
        if isinstance(v, Rec):
            return v.canon(g)
        if isinstance(v, Val):
            return v.canon(g)
        return v

    def frame(fr):
        f = fr.copy()
        live = liveness(f.code)[f.pc] if f.pc < len(f.code.ins) else ()
        f.loc = {k: g(v) for k, v in f.loc.items() if k in live or k[:1] == '\0'}
        f.stack = [g(x) for x in f.stack]
        f.mode = g(f.mode) if f.mode is not None else None
        if f.gen is not None:
            g(f.gen)
        if f.ns is not None:
            g(f.ns)
        return f
    st.frames = [frame(f) for f in st.frames]
    st.excs = tuple(g(x) for x in st.excs)
    if st.dom is not None:
        st.dom.map(g)
    new = {}
    while todo:
        a = todo.pop()
        o = heap[a]
        if o is None:
            new[a] = None
            continue
        new[a] = type(o)(*[g(getattr(o, n)) for n in o._f])
    st.heap = new
