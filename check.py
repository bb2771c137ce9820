#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]: decides one property of /repo."""
import argparse
import importlib
import json
import os
import resource
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(pid):
    """{key: text} of the committed findings of the property."""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line[len('finding: property=%s ' % pid):]
                key, _, text = rest.partition(' ')
                out[key[4:] if key.startswith('key=') else key] = text
    return out


def run(pid, tier):
    t0 = time.time()
    from sa.explore import Prop
    from sa.objs import AnchorLost
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        mod = importlib.import_module('rules.%s' % pid.lower())
        P = Prop(pid, tier)
        mod.run(P)
    except AnchorLost as e:
        print('ERROR property=%s anchor lost: %s' % (pid, e))
        return 2
    known = known_findings(pid)
    fresh = {k: v for k, v in P.violations.items() if k not in known}
    seen = {k: v for k, v in P.violations.items() if k in known}
    ob = sum(P.ob.values())
    ok = sum(P.ok.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + '  Decided from the source text of '
            + os.environ.get('SA_REPO', '/repo') + ' by path-sensitive abstract interpretation '
            'of its syntax tree; nothing of it is executed and no solver is used.',
            'rule': P.rule or (mod.__doc__ or '').strip().split('\n')[0],
            'scenarios': P.stat,
            'paths': P.paths, 'infeasible_paths': P.infeasible,
            'obligations': ob, 'discharged': ok,
            'obligations_by_kind': {k: [P.ob[k], P.ok.get(k, 0)] for k in sorted(P.ob)},
            'functions_analysed': sorted(x for x in P.ip.func_seen if x.startswith(
                'jaeger_client')),
            'library_functions_analysed': len([x for x in P.ip.func_seen
                                               if not x.startswith('jaeger_client')]),
            'paths_cut_at_a_bound': P.cut, 'undecided': P.undecided,
            'truncated': P.truncated, 'facts': P.facts,
        },
        'assumptions': P.assumptions + BASE_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
    print('property=%s scenarios=%d paths=%d obligations=%d discharged=%d functions=%d '
          'undecided=%d cut=%d %.1fs' % (
              pid, len(P.stat), P.paths, ob, ok, len(evidence['coverage']['functions_analysed']),
              sum(P.undecided.values()), sum(P.cut.values()), time.time() - t0))
    for k, n in sorted(P.undecided.items())[:8]:
        print('  undecided (%d): %s' % (n, k))
    for k in P.truncated:
        print('  truncated: %s' % k)
    for k, v in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    if fresh:
        path = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for k, v in sorted(fresh.items()):
                f.write('property %s violated: %s\n' % (pid, v.msg))
                f.write('  rule      %s\n  construct %s\n  scenario  %s\n  paths     %d\n' % (
                    k, v.loc, v.scenario, v.count))
                f.write('  on the path where\n')
                for d in v.path:
                    f.write('    %s\n' % d)
                for d in v.extra:
                    f.write('    %s\n' % d)
                f.write('\n')
        for k, v in sorted(fresh.items())[:12]:
            print('  %s: %s (%s) [%s]' % (k, v.msg[:600], v.loc, v.scenario))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if P.errors:
        for e in P.errors:
            print('ERROR property=%s %s' % (pid, e))
        return 2
    return 0


BASE_ASSUMPTIONS = [
    'CPython semantics as modelled in sa/ (documented in DESIGN.md); floats are treated as real '
    'numbers (no NaN, no rounding)',
    'containers of unknown content are unrolled to at most 2 elements, loops over unknown data '
    'to a stated bound; longer ones follow the same per-element code',
    'the clock reads between 1 and 2^43 seconds',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    code = [3]

    def go():
        try:
            code[0] = run(a.property, 'thorough' if a.tier == 'thorough' else 'quick')
        except BaseException:
            traceback.print_exc()
            code[0] = 3
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(code[0])


if __name__ == '__main__':
    main()
