"""Functions of /repo that no proof task executes in place.

cd /verif && python3-vt -m tools.coverage"""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from pv import interp                                    # noqa: E402
from pv.proofs import base, load                         # noqa: E402


def functions():
    d = os.path.dirname(interp.module('utils').__file__)
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith('.py'):
                mod = os.path.relpath(os.path.join(root, f), d)[:-3].replace(
                    '/', '.').replace('.__init__', '')

                def walk(n, p):
                    for x in ast.iter_child_nodes(n):
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            q = p + '.' + x.name
                            if isinstance(x, ast.FunctionDef):
                                out.append(q)
                                continue
                            walk(x, q)
                walk(ast.parse(open(os.path.join(root, f)).read()), mod)
    return sorted(out)


if __name__ == '__main__':
    print(load())
    got, status = set(), {}
    for r in base.run_tasks(base.TASKS, 300):
        got.update(r['inlined'])
        status[r['task']] = r['status']
    print([t for t, s in status.items() if s != 'proved'])
    fs = functions()
    print('executed in place by a proof: %d of %d' % (
        len([f for f in fs if f in got]), len(fs)))
    for f in fs:
        if f not in got:
            print('  ', f)
