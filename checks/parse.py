"""C02-C05: product of the abstractly interpreted parser with the MicroXML automaton."""
import re
import multiprocessing as mp
from engine import parsecheck
from engine.report import V

KINDS = {'C02': ('event', 'reject'), 'C03': ('event', 'reject', 'accept'), 'C04': ('accept',), 'C05': ('loop',)}
QUICK_B = [(['lt'], ['noref']), (['lt'], ['nows', 'noquot', 'nocr']), (['lt'], ['nonum', 'noquot', 'nows'])]
DEEP_B = [(['lt'], []), (['lt'], ['noref']), (['lt'], ['nows', 'noquot']), (['lt'], ['nonum', 'nows']), (['amp', 'apos'], ['nonum', 'noquot', 'nows', 'nocr']), ([], ['noquot'])]


def job(a):
    mode, repo, names, opts, budget, kinds, late = a
    r = parsecheck.analyse(lambda: parsecheck.TapeVM(repo), mode, limit=3000000, names=names, opts=opts, budget=budget, kinds=kinds, late=late)
    return a, r


def norm(msg):
    msg = re.sub(r'\b(Ch|Sym|Win|Atom|Num)\([^()]*\)', r'\1', msg)
    msg = re.sub(r'(\w+\.py):\d+', r'\1', msg)
    msg = re.sub(r'/\S*/', '', msg)
    return re.sub(r'\b\d+\b', 'N', msg)


def run(pid, repo, tier):
    kinds = KINDS[pid]
    if pid in ('C02', 'C04', 'C05'):
        jobs = [('A', repo, None, (), 600, kinds, 45)]
    else:
        jobs = [('B', repo, n, o, 800 if tier == 'thorough' else 480, kinds, 45) for n, o in (DEEP_B if tier == 'thorough' else QUICK_B)]
    if pid == 'C05' :
        jobs += [('B', repo, n, o, 480, kinds, 45) for n, o in QUICK_B[:1]]
    if tier == 'thorough' and pid in ('C02', 'C04'):
        jobs = [('A', repo, None, (), 850, kinds, 45)]
    if len(jobs) == 1:
        res = [job(jobs[0])]
    else:
        with mp.Pool(min(len(jobs), 6)) as p:
            res = p.map(job, jobs, 1)
    viol = []
    und = []
    states = steps = heads = ev = acc = rej = 0
    fns = set()
    confs = []
    for a, r in res:
        for kind, msg, sample, trail in r['violations']:
            if kind in kinds:
                viol.append(V('parser-' + kind, norm(msg), '%s; input of this shape: %r' % (msg, sample), '\n'.join(' '.join(str(y) for y in x) if type(x) is tuple else str(x) for x in trail)))
        for k, n in r['inconclusive'].items():
            und.append('%s (x%d, mode %s names=%s opts=%s)' % (k, n, a[0], a[2], ','.join(a[3])))
        s = r['stats']
        states += s['abstract_states']
        heads += s['loop_head_states']
        steps += s['bytecode_steps']
        ev += s['events_compared']
        acc += s['paths_accepting']
        rej += s['paths_rejecting']
        fns |= set(s['functions'])
        confs.append('mode %s, entity names %s, left out: %s: %d abstract states' % (a[0], a[2] or 'all', ','.join(a[3]) or 'nothing', s['abstract_states']))
    cov = {'explanation': 'abstract interpretation of the parser bytecode (compiled from the working tree, never executed) in lockstep with '
                          'a MicroXML automaton over character classes; a path is reported when its events, its acceptance or its rejection '
                          'differ from the automaton, or when a loop-head state repeats without consuming input',
           'rule': ' / '.join('parser-' + k for k in kinds), 'abstract_states': states, 'loop_head_states': heads, 'bytecode_steps': steps,
           'events_compared': ev, 'accepting_paths': acc, 'rejecting_paths': rej, 'functions': sorted(fns), 'configurations': confs}
    return {'violations': viol, 'coverage': cov, 'undecided': und,
            'assumptions': ['constructs of MicroXML left unspecified: comments, processing instructions, declarations, self-closing tags, colons in names, decimal references',
                            'CPython 3.12 bytecode semantics as modelled in engine/']}
