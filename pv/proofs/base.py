"""Running proof tasks.

A task proves the contract of one or more functions of /repo: it builds the
arbitrary arguments the precondition allows, interprets the real function on
them and states the postcondition.  It yields obligations; its verdict is
  proved    every obligation was discharged (and there was at least one),
  refuted   some obligation is false on a feasible path,
  undecided the code left the subset, or an obligation was not decided.
"""
import inspect
import multiprocessing
import os
import re
import time
import traceback

from .. import core, interp, loops, val
from ..core import Unsupported

TASKS = []


class Task(object):
    def __init__(self, fn, props, functions, title, forms=1):
        self.forms = forms           # of the contract: one has to hold
        self.fn, self.props, self.functions = fn, props, functions
        self.title = title
        self.name = fn.__name__
        self.must = re.findall(r"c\.reach\('([^'%]+)'\)",
                               inspect.getsource(fn))


def task(props, functions, title='', forms=1):
    def deco(fn):
        t = Task(fn, props.split(), functions.split(),
                 title or (fn.__doc__ or '').strip(), forms)
        TASKS.append(t)
        fn.task = t
        return fn
    return deco


def expect_reject(spec, name):
    """The code rejected an element: so must the specification."""
    c = core.ctx()
    if spec.at is None:
        c.record(name, 'unknown', 'rejected outside of the stream')
        return
    g, e, rest = spec.at
    try:
        spec.step(g, e, rest)
    except loops.SpecReject:
        c.record(name, 'proved')
        return
    c.record(name, 'refuted', 'rejected: %r' % (e,))


def run_task(t, seconds):
    """The verdict on the first form of the contract that holds; it is
    refuted when every form is."""
    end = time.time() + seconds
    out = []
    for k in range(t.forms):
        out.append(run_form(t, max(1, end - time.time()), k))
        if out[-1]['status'] == 'proved':
            return out[-1]
    und = [r for r in out if r['status'] == 'undecided']
    r = out[0]
    if und and r['status'] == 'refuted':
        r['status'], r['reason'] = 'undecided', und[0]['reason']
        for f in r['failures']:
            f['verdict'] = 'unknown'
    return r


def run_form(t, seconds, form):
    t0 = time.time()
    c = core.Ctx(t.name, deadline=t0 + seconds)
    res = {'task': t.name, 'title': t.title, 'functions': t.functions,
           'reason': ''}
    reach = []

    def thunk():
        I = interp.Interp()
        I.form = form
        t.fn(I)
    try:
        c.explore(thunk)
        status = None
    except Unsupported as e:
        status = 'undecided'
        res['reason'] = str(e)[:300]
        if os.environ.get('PV_TRACE'):
            traceback.print_exc()
    except RecursionError:
        status = 'undecided'
        res['reason'] = 'recursion'
    except Exception as e:
        status = 'undecided'
        res['reason'] = 'engine: %r' % (e,)
        res['trace'] = traceback.format_exc()[-1500:]
    if c.unsupported and status is None:
        status = 'undecided'
        res['reason'] = c.unsupported[0][0][:300]
        sure = not any(step for _, step in c.unsupported)
    else:
        sure = status is None
    if not sure:
        for f in c.failures:             # an invariant may not be one
            if f['cut']:
                f['verdict'] = 'unknown'
    n = sum(sum(d.values()) for d in c.counts.values())
    ok = sum(d.get('proved', 0) for d in c.counts.values())
    bad = [f for f in c.failures if f['verdict'] == 'refuted']
    if bad:
        status = 'refuted'
    elif status is None:
        status = 'proved' if n == ok and n > 0 else 'undecided'
        if n == 0:
            res['reason'] = 'no obligation'
        miss = [m for m in t.must if m not in c.reached]
        if miss and status == 'proved':
            status = 'undecided'
            res['reason'] = 'vacuous: not reached: %s' % miss
    res.update(status=status, obligations=n, discharged=ok,
               counts=c.counts, failures=c.failures[:6], paths=c.paths,
               passes=c.passes, solver_s=round(c.solver_s, 2),
               queries=c.queries, seconds=round(time.time() - t0, 2),
               inlined=sorted(c.inlined), stubbed=sorted(c.stubbed),
               assumed=sorted(c.assumed), reached=sorted(c.reached))
    return res


def _child(t, seconds, conn):
    try:
        conn.send(run_task(t, seconds))
    except BaseException as e:       # the verdict must always arrive
        conn.send({'task': t.name, 'title': t.title, 'status': 'undecided',
                   'functions': t.functions, 'reason': repr(e)[:300],
                   'obligations': 0, 'discharged': 0, 'counts': {},
                   'failures': [], 'seconds': 0, 'solver_s': 0,
                   'inlined': [], 'stubbed': [], 'assumed': [],
                   'reached': [], 'queries': 0, 'paths': 0})
    conn.close()


def run_tasks(tasks, seconds, jobs=8, total=None):
    end = time.time() + (total or 10 ** 6)
    ctx = multiprocessing.get_context('fork')
    todo, running, out = list(tasks), [], []
    while todo or running:
        while todo and len(running) < jobs:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            left = max(1, min(seconds, end - time.time()))
            p = ctx.Process(target=_child, args=(t, left, b))
            p.start()
            b.close()
            running.append((t, p, a, time.time()))
        for r in list(running):
            t, p, a, t0 = r
            res = None
            if a.poll(0.02):
                try:
                    res = a.recv()
                except EOFError:
                    res = {'reason': 'the process died'}
            elif time.time() - t0 > seconds + 20 or \
                    time.time() > end + 20:
                p.kill()
                res = {'reason': 'out of time'}
            if res is None:
                continue
            base = {'task': t.name, 'title': t.title,
                    'functions': t.functions, 'status': 'undecided',
                    'reason': '', 'obligations': 0, 'discharged': 0,
                    'counts': {}, 'failures': [], 'seconds': seconds,
                    'solver_s': 0, 'inlined': [], 'stubbed': [],
                    'assumed': [], 'reached': [], 'queries': 0, 'paths': 0}
            base.update(res)
            out.append(base)
            p.join(5)
            running.remove(r)
    out.sort(key=lambda r: [t.name for t in tasks].index(r['task']))
    return out


def main(argv):
    from . import depends, load
    load()
    names = [a for a in argv if not a.startswith('-')]
    loops.TRACE = '-v' in argv
    want = set(names)
    for n in names:
        want.update(depends.names(n, TASKS))
    todo = [t for t in TASKS if not names or t.name in want]
    if '-1' in argv:
        for t in todo:
            show(run_task(t, 900), True)
        return
    for r in run_tasks(todo, 300):
        show(r, '-f' in argv)


def show(r, full=False):
    print('%-28s %-9s %4d/%-4d %6.1fs %s' % (
        r['task'], r['status'], r['discharged'], r['obligations'],
        r['seconds'], r['reason']))
    if full:
        print('  ', r['counts'])
        print('   reached', r['reached'])
        print('   paths', r['paths'], 'inlined', r['inlined'])
    if full or r['status'] != 'proved':
        for f in r['failures'][:3]:
            print('   FAIL', f['name'], f['verdict'], f['detail'][:900])
            print('       ', f['path'][-12:])
        if r.get('trace'):
            print(r['trace'])
