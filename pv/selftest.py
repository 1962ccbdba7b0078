"""Soundness test of the symbolic values (pv.val, pv.models).

Random symbolic arguments with a concrete witness: the operation is explored
on all its paths; at the end of each path the symbols are forced to the
witness.  At least one path must remain (no path may be lost), and on every
path that remains the result must be that of CPython.
"""
import random
import signal
import sys
import time

from . import core, val, interp, models
from .core import ctx, PathEnd, Unsupported
from .val import SStr, SSeq, SList, SeqAtom, Base, Atom, Sym, SInt, SBool, \
    SSet

ALPH = 'ab1.[]{}\\/'
RULES = ['a-z', 'A-Z', '0-9', '%', '_', '\\.', '\\[', '\\-']


class W(object):
    """symbolic value, its witness, and how to force it"""

    def __init__(self, mk, value):
        self.mk, self.value = mk, value


class Slow(BaseException):
    pass


def _alarm(*a):
    raise Slow()


def word(rng, alph, n=4):
    return ''.join(rng.choice(alph) for _ in range(rng.randint(0, n)))


def piece(rng, i):
    """description of one piece (made again on every path)"""
    k = rng.randrange(8)
    alph = ''.join(rng.sample(ALPH, rng.randint(1, 5)))
    if k == 0:
        return ('str', word(rng, ALPH, 3))
    if k == 1:
        return ('sym', alph, rng.choice(alph))
    if k == 2:
        rs = rng.sample(RULES, rng.randint(1, 4))
        return ('enum', rs, rng.choice(rs))
    if k == 3:
        w = word(rng, alph)
        return ('atom', alph, rng.choice([0, min(1, len(w)), len(w)]), w)
    if k == 4:
        return ('rep', alph, rng.choice(alph), rng.randint(0, 4))
    if k == 5:
        return ('dec', rng.choice([0, 1, 2, 9, 10, 12, 123]))
    if k == 6:
        return ('join', alph, rng.choice(['', '', '/']),
                [word(rng, alph, 2) for _ in range(rng.randint(0, 3))])
    return ('negatom', word(rng, ALPH))


def concrete(d):
    k = d[0]
    if k in ('str',):
        return d[1]
    if k in ('sym', 'enum'):
        return d[2]
    if k == 'atom':
        return d[3]
    if k == 'rep':
        return d[2] * d[3]
    if k == 'dec':
        return str(d[1])
    if k == 'join':
        return ''.join(x + d[2] for x in d[3])
    return d[1]


def build(d, i, force):
    k = d[0]
    n = 'x%d' % i
    if k == 'str':
        return d[1]
    if k == 'sym':
        s = Sym(n, d[1])
        force.append(lambda: val.decide_eq(SStr.mk((s,)), d[2]))
        return SStr.mk((s,))
    if k == 'enum':
        s = val.enum(n, d[1])
        force.append(lambda: val.decide_eq(s, d[2]))
        return s
    if k == 'atom':
        a = SStr.mk((Atom(n, d[1], d[2]),))
        force.append(lambda: val.decide_eq(a, d[3]))
        return a
    if k == 'rep':
        s = SStr.mk((Sym(n, d[1]),))
        m = val.new_int(n + 'n', 0)
        force.append(lambda: val.decide_eq(s, d[2]) and
                     ctx().branch(m.z == d[3], 'f'))
        return val.rep(s, m)
    if k == 'dec':
        m = val.new_int(n + 'n', 0)
        x = val.dec(m)
        force.append(lambda: val.decide_eq(x, str(d[1])) and
                     ctx().branch(m.z == d[1], 'f'))
        return x
    if k == 'join':
        b = Base(n + 'b', lambda nm: val.text(nm, d[1]))
        force.append(lambda: force_seq(b, d[3]))
        return val.join_text(b, val.ident, d[2])
    a = SStr.mk((Atom(n, val.excluding('#')),))
    force.append(lambda: val.decide_eq(a, d[1]))
    return a


def force_seq(b, values):
    for i in range(12):
        ps = SSeq((SeqAtom(b),)).parts
        for p in ps:
            if isinstance(p, SeqAtom):
                if ctx().entails(p.base.zlen == 0):
                    p.base.expand([])
                else:
                    val.seq_split_first(p.base)
                break
        else:
            return len(ps) == len(values) and all(
                val.decide_eq(p[1], v) for p, v in zip(ps, values))
    return False


def ops(rng):
    sub = rng.choice(['a', '/', '[', '{', '.', 'ab', '[.', '1', '\\.', '[a'])
    i = rng.randint(-3, 3)
    j = rng.randint(-3, 3)
    M = models.method
    return rng.choice([
        ('eq', lambda I, s, t: val.decide_eq(s, t), lambda s, t: s == t),
        ('eq', lambda I, s, t: val.decide_eq(s, t), lambda s, t: s == t),
        ('truth', lambda I, s, t: I.truth(s), lambda s, t: bool(s)),
        ('len', lambda I, s, t: models.b_len(I, s), lambda s, t: len(s)),
        ('at %d' % i, lambda I, s, t: models.getitem(I, s, i),
         lambda s, t: s[i]),
        ('slice %d %d' % (i, j),
         lambda I, s, t: models.getitem(I, s, slice(i, j)),
         lambda s, t: s[i:j]),
        ('find ' + sub, lambda I, s, t: M(I, s, 'find', [sub], {}),
         lambda s, t: s.find(sub)),
        ('rfind ' + sub, lambda I, s, t: M(I, s, 'rfind', [sub], {}),
         lambda s, t: s.rfind(sub)),
        ('index ' + sub, lambda I, s, t: M(I, s, 'index', [sub], {}),
         lambda s, t: s.index(sub)),
        ('sw ' + sub, lambda I, s, t: M(I, s, 'startswith', [sub], {}),
         lambda s, t: s.startswith(sub)),
        ('ew ' + sub, lambda I, s, t: M(I, s, 'endswith', [sub], {}),
         lambda s, t: s.endswith(sub)),
        ('split ' + sub[0], lambda I, s, t: M(I, s, 'split', [sub[0]], {}),
         lambda s, t: s.split(sub[0])),
        ('in ' + sub, lambda I, s, t: models.contains(I, s, sub),
         lambda s, t: sub in s),
        ('inset', lambda I, s, t: models.contains(I, frozenset(RULES), s),
         lambda s, t: s in RULES),
        ('sub', lambda I, s, t: models.getitem(I, s, slice(
            M(I, s, 'find', [sub], {}) + 1, None)),
         lambda s, t: s[s.find(sub) + 1:]),
        ('join', lambda I, s, t: M(I, sub, 'join', [[s, t, s]], {}),
         lambda s, t: sub.join([s, t, s])),
        ('veq', lambda I, s, t: val.str_veq(s, t), 'veq'),
    ])


def same(r, want):
    if isinstance(want, bool):
        if isinstance(r, SBool):
            return ctx().entails(r.z == want)
        return r is want or r == want
    if isinstance(want, int):
        return val.entails_eq(r, want)
    if isinstance(want, list):
        r = val.seq_of(r).concrete()
        return r is not None and len(r) == len(want) and all(
            val.entails_eq(x, y) for x, y in zip(r, want))
    return val.entails_eq(r, want)


def one(seed, verbose=False):
    rng = random.Random(seed)
    s = [piece(rng, i) for i in range(rng.randint(0, 3))]
    t = [piece(rng, i) for i in range(rng.randint(0, 3))]
    share = rng.random() < .4
    name, sym, con = ops(rng)
    cs, ct = ''.join(map(concrete, s)), ''.join(map(concrete, t))
    if share:
        ct = cs + ct if rng.random() < .5 else ct + cs
        front = ct.startswith(cs)
    out = []

    def thunk():
        force = []
        S, T = '', ''
        for i, d in enumerate(s):
            S = S + build(d, i, force)
        for i, d in enumerate(t):
            T = T + build(d, i + 5, force)
        if share:
            T = S + T if ct == cs + ''.join(map(concrete, t)) else T + S
        I = interp.Interp()
        try:
            r = ('ok', sym(I, S, T))
        except Exception as e:
            r = ('raised', type(e).__name__)
        if con == 'veq' and r[1] is not True and r[1] is not False:
            out.append(None)
            raise PathEnd()
        for f in force:
            if not f():
                raise PathEnd()
        if not ctx().feasible():
            raise PathEnd()
        try:
            w = ('ok', cs == ct if con == 'veq' else con(cs, ct))
        except Exception as e:
            w = ('raised', type(e).__name__)
        ok = r[0] == w[0] and (same(r[1], w[1]) if r[0] == 'ok'
                               else r[1] == w[1])
        if not ok and ctx().approx:
            ok = None
        out.append((ok, r, w, list(ctx().log)))
    try:
        c = core.Ctx('selftest', 500, max_paths=400)
        c.explore(thunk)
        partial = c.unsupported
    except Unsupported as e:
        return 'unsupported'
    desc = 'seed %r: %s s=%r t=%r share=%s' % (seed, name, s, t, share)
    if partial and all(o is None or o[0] is not False for o in out):
        return 'unsupported'
    if not out:
        return 'FAIL no path is left. ' + desc
    for o in out:
        if o is not None and o[0] is False:
            return 'FAIL %r. %s' % (o[1:], desc)
    return 'ok'


def run(n, start=0):
    bad, cnt = [], {}
    for k in range(start, start + n):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 4)
        try:
            r = one(k)
        except Slow:
            r = 'slow'
        except Exception as e:
            r = 'slow' if 'Slow' in repr(e) else \
                'FAIL seed %r %r' % (k, e)
        signal.setitimer(signal.ITIMER_REAL, 0)
        cnt[r.split(' ')[0]] = cnt.get(r.split(' ')[0], 0) + 1
        if r.startswith('FAIL'):
            bad.append(r)
    return bad, cnt


def _job(a):
    return run(*a)


if __name__ == '__main__':
    import multiprocessing
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    k = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    bad, cnt = [], {}
    pool = multiprocessing.Pool(8, maxtasksperchild=4)
    jobs = [pool.apply_async(_job, ((20, k + i),)) for i in range(0, n, 20)]
    end = time.time() + n * .12 + 60
    for j in jobs:
        try:
            b, c = j.get(max(.01, end - time.time()))
        except multiprocessing.TimeoutError:
            b, c = [], {'lost': 20}
        bad += b
        for x in c:
            cnt[x] = cnt.get(x, 0) + c[x]
    pool.terminate()
    for b in bad[:int(sys.argv[3]) if len(sys.argv) > 3 else 8]:
        print(b[:1500])
    print(cnt)
