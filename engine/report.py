"""Shared driver of the registered checks: known findings, evidence, exit status."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')


class V:
    """one violation: rule + construct identify it (no line numbers); text and detail are for the reader"""

    def __init__(self, rule, construct, text, detail=''):
        self.rule = rule
        self.construct = construct
        self.text = text
        self.detail = detail

    @property
    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.rstrip('\n')
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)', ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def finish(pid, level, viol, coverage, assumptions, inconclusive, t0):
    kf = known(pid)
    seen = {}
    for v in viol:
        seen.setdefault(v.key, v)
    new = []
    hit = set()
    for k, v in seen.items():
        if any(k == a for a, b in kf):
            hit.add(k)
        else:
            new.append(v)
    coverage = dict(coverage)
    coverage['undecided'] = inconclusive
    ev = {'property': pid, 'tier': 'thorough' if TIER == 'thorough' else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': coverage,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for a, b in kf:
        if a in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, b))
    for w in inconclusive[:20]:
        print('UNDECIDED property=%s %s' % (pid, w))
    rp = os.path.join('evidence', pid + '.violation.txt')
    full = os.path.join(HERE, rp)
    if os.path.exists(full):
        os.unlink(full)
    if new:
        with open(full, 'w') as f:
            for v in new:
                f.write('rule: %s\nconstruct: %s\n%s\n%s\n\n' % (v.rule, v.construct, v.text, v.detail))
        for v in new[:25]:
            print('  [%s] %s: %s' % (v.rule, v.construct, v.text[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s (%s)' % (pid, ', '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    return 0
