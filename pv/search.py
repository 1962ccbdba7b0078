"""Bounded search for a concrete failing input, and its replay."""
import json
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import cases

CASE_LIMIT = 20        # seconds for one case


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def run_check(fam, case, limit=CASE_LIMIT):
    """None, or the message of the violation on this case."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fam.check(case)
        return None
    except cases.Fail as e:
        return str(e)
    except Hang:
        return 'no result within %d s' % limit
    except AttributeError as e:
        if getattr(e, 'obj', None) is not None and \
                isinstance(e.obj, type(sys)):
            return None                 # a function the harness needs is gone
        return _exc(e)
    except ImportError:
        raise
    except (Exception, RecursionError) as e:
        return _exc(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ' < '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno,
                                     f.name) for f in tb[::-1][:4])
    return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)


def _worker(args):
    prop, wid, nw, seed, seconds, tier, max_cases = args
    fams = cases.FAMILIES[prop]
    t0 = time.time()
    out = {'n': 0, 'enum': 0, 'distinct': 0, 'fail': None, 'samples': []}
    seen = set()
    hist = []

    def failed(fam, c, msg):
        out['fail'] = (fam.name, c, msg)
        out['history'] = hist
        return out
    for fam in fams:
        if fam.enum is not None:
            for i, c in enumerate(fam.enum(tier)):
                if i % nw != wid:
                    continue
                if time.time() - t0 > seconds * 3 + 10:
                    out['truncated'] = True
                    break
                out['enum'] += 1
                msg = run_check(fam, c)
                if msg:
                    return failed(fam, c, msg)
                hist.append((fam.name, c))
    for fam in fams:
        rng = random.Random('%s/%s/%s/%s' % (seed, prop, fam.name, wid))
        end = time.time() + seconds * fam.share
        k = 0
        while time.time() < end and k < max_cases:
            c = fam.gen(rng)
            k += 1
            out['n'] += 1
            h = hash(json.dumps(c, sort_keys=True))
            if h not in seen and c:
                seen.add(h)
                out['distinct'] += 1
                if len(out['samples']) < 2 and rng.random() < .2:
                    out['samples'].append(c)
            msg = run_check(fam, c)
            if msg:
                return failed(fam, c, msg)
            hist.append((fam.name, c))
    return out


def load_all():
    for n in ('config', 'pattern_maker', 'pattern_matcher', 'formatter',
              'utils', 'parser', 'parse_utils', 'parsed_piece_view',
              'piece_pattern_node', 'pattern', 'exceptions', 'cmdline'):
        getattr(cases.m, n)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _start(mode, arg, hashseed):
    """A fresh process of this module under one hash seed."""
    f = tempfile.TemporaryFile('w+')
    json.dump(arg, f)
    f.seek(0)
    o = tempfile.TemporaryFile('w+')
    p = subprocess.Popen(
        [sys.executable, '-m', 'pv.search', mode], cwd=HERE, stdin=f,
        stdout=o,
        env=dict(os.environ, PYTHONHASHSEED=str(hashseed)),
        start_new_session=True)
    p.out = o
    return p


def _stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def _result(p):
    p.out.seek(0)
    for line in p.out.read().splitlines()[::-1]:
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    raise RuntimeError('a search process ended without a result')


def search(prop, seed, seconds, tier, workers=8, max_cases=10 ** 9):
    """Every worker is a process of its own, with its own hash seed."""
    res = {'n': 0, 'enum': 0, 'distinct': 0, 'fail': None, 'samples': []}
    running = [(w, _start('--worker', (prop, w, workers, seed, seconds, tier,
                                       max_cases), w))
               for w in range(workers)]
    try:
        while running and not res['fail']:
            time.sleep(.05)
            for w, p in list(running):
                if p.poll() is None:
                    continue
                running.remove((w, p))
                r = _result(p)
                for k in ('n', 'enum', 'distinct'):
                    res[k] += r[k]
                res['samples'] += r['samples']
                if r.get('truncated'):
                    res['truncated'] = True
                if r['fail'] and not res['fail']:
                    res['fail'], res['hashseed'] = r['fail'], w
                    res['history'] = r['history']
    finally:
        for _, p in running:
            _stop(p)
    res['samples'] = res['samples'][:3]
    return res


def forked(fn):
    """fn() in a forked process, its JSON value."""
    a, b = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            r = fn()
        except BaseException:
            r = None
        with os.fdopen(b, 'w') as f:
            json.dump(r, f)
        os._exit(0)
    os.close(b)
    with os.fdopen(a) as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


def fresh(seq, limit=60):
    """Run the cases in a forked process; the message of the last one."""
    def run():
        msg = None
        for prop, name, c in seq:
            msg = run_check(cases.family(prop, name), c, limit)
        return msg
    return forked(run)


def _settle(prop, fam, case, hist):
    """The smallest case, or sequence of cases, found that still fails when
    run in a process that ran nothing before."""
    small = forked(lambda: shrink(cases.family(prop, fam), case))
    for c in (small, case):
        msg = c is not None and fresh([(prop, fam, c)])
        if msg:
            return {'seq': [[prop, fam, c]], 'message': msg}
    # it needs what ran before it
    last = (prop, fam, case)
    pre = [(prop, n, c) for n, c in hist]
    if not fresh(pre + [last]):
        return None
    end = time.time() + 60
    k = 1
    while k < len(pre):
        if fresh(pre[-k:] + [last]):
            pre = pre[-k:]
            break
        k *= 2
    size = max(1, len(pre) // 2)
    while pre and time.time() < end:
        i = 0
        while i < len(pre) and time.time() < end:
            if fresh(pre[:i] + pre[i + size:] + [last]):
                pre = pre[:i] + pre[i + size:]
            else:
                i += size
        if size == 1:
            break
        size = max(1, size // 2)
    seq = pre + [last]
    return {'seq': seq, 'message': '%s (after %d earlier cases: %s)' % (
        fresh(seq), len(pre), repr([c for _, _, c in pre])[:300])}


def settle(prop, sr):
    """A reproducible counterexample for the failure the search found."""
    fam, case, msg = sr['fail']
    p = _start('--settle', (prop, fam, case, sr['history']), sr['hashseed'])
    try:
        p.wait(300)
        r = _result(p)
    except (subprocess.TimeoutExpired, RuntimeError):
        r = None
    finally:
        _stop(p)
    if r:
        r['hashseed'] = sr['hashseed']
    return r


def shrink(fam, case, seconds=15):
    """Greedy removal of list elements and characters."""
    end = time.time() + seconds

    def kind(msg):
        # a smaller case must fail the same way: not by a malformed case
        if not msg or not msg.startswith('unexpected'):
            return msg and re.match('[a-zA-Z_]*( [a-z]+)?', msg).group(0)
        return msg.split('(')[-1]

    first = run_check(fam, case)
    if not first:
        return case
    want = kind(first)

    def bad(c):
        try:
            msg = run_check(fam, c, 5)
            return msg is not None and kind(msg) == want and \
                msg.startswith('unexpected') == first.startswith('unexpected')
        except Exception:
            return False

    def variants(c):
        if isinstance(c, list):
            n = len(c)
            for size in (n // 2, n // 4, 1):
                if size:
                    for i in range(0, n, size):
                        yield c[:i] + c[i + size:]
            for i, x in enumerate(c):
                for v in variants(x):
                    yield c[:i] + [v] + c[i + 1:]
        elif isinstance(c, dict):
            for k in c:
                for v in variants(c[k]):
                    d = dict(c)
                    d[k] = v
                    yield d

    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(case):
            if time.time() > end:
                break
            try:
                ok = bad(v)
            except BaseException:
                ok = False
            if ok:
                case, progress = v, True
                break
    return case


def replay(path):
    """Run one recorded case on the real code; exit 1 when it fails."""
    d = json.load(open(path))
    if 'seq' not in d:
        print('no concrete input; failed obligation: %s' % d.get('obligation'))
        return 1
    if os.environ.get('PYTHONHASHSEED') != str(d['hashseed']):
        os.environ['PYTHONHASHSEED'] = str(d['hashseed'])
        os.execv(sys.executable, [sys.executable, '-m', 'pv.search', path])
    msg = fresh(d['seq'])
    print('property %s: %s' % (d['property'], msg or 'held on this case'))
    return 1 if msg else 0


def main(argv):
    if argv[0] in ('--worker', '--settle'):
        arg = json.load(sys.stdin)
        load_all()
        out, sys.stdout = sys.stdout, sys.stderr
        r = _worker(arg) if argv[0] == '--worker' else _settle(*arg)
        sys.stdout = out
        print('\nRESULT ' + json.dumps(r))
        return 0
    return replay(argv[0])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
