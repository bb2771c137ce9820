#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the rule modules (run by hand)."""
import ast
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    text = open(p).read()
    a, b = text.index('<!-- rules -->'), text.index('<!-- end of rules -->')
    out = ['<!-- rules -->\n']
    for q in props.PROPS:
        i = q[0]
        f = os.path.join(HERE, 'rules', i.lower() + '.py')
        out.append('\n### %s %s\n\n' % (i, q[1]))
        if not os.path.exists(f):
            out.append('Not built yet; listed under `not_applicable` until it is.\n')
            continue
        tree = ast.parse(open(f).read())
        doc = ast.get_docstring(tree).split('\n', 2)
        out.append(doc[-1].strip() + '\n')
        sc = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == 'scenario' and n.args:
                x = n.args[0]
                sc.append(x.value if isinstance(x, ast.Constant) else '(one per variant)')
        out.append('\nScenarios: %s.  Reaches past the tests: %s\n' % (
            ', '.join(dict.fromkeys(sc)), q[5]))
    out.append('\n### Not applicable\n\n')
    for q in props.NOT_APPLICABLE:
        out.append('- **%s %s**: %s.\n' % (q[0], q[1], q[8]))
    out.append('\n')
    open(p, 'w').write(text[:a] + ''.join(out) + text[b:])


if __name__ == '__main__':
    main()
