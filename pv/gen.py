"""Random generators of concrete inputs (bounded searches)."""
import ast
import glob
import os
from . import spec

SRC = os.environ.get('PV_SRC', '/repo/src')
PATH_SIGNS = [c for c in spec.SIGNS if c not in '/?#;']
QUERY_SIGNS = [c for c in spec.SIGNS if c not in '&#']
FRAG_SIGNS = list(spec.SIGNS)
LENS = [1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
BAD_CHARS = [u'\u00e9', ' ', '\x00', u'\u0663', u'\u00b2', '`', u'\u4e2d',
             '\t', '\x7f', u'\u212a', u'\u0130']


def mine():
    """Constants of the code under test: lengths and texts worth trying."""
    ints, strs = set(), set()
    for f in glob.glob(os.path.join(SRC, 'os_urlpattern', '*.py')):
        try:
            tree = ast.parse(open(f).read())
        except Exception:
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int) and 1 <= n.value <= 70:
                    ints.update((n.value, n.value + 1, n.value - 1))
                elif isinstance(n.value, str) and 0 < len(n.value) <= 24 \
                        and all(c in spec.RULE for c in n.value):
                    strs.add(n.value)
    return sorted(i for i in ints if i > 0), sorted(strs)


_mined = []


def mined():
    if not _mined:
        _mined.append(mine())
    return _mined[0]


def length(rng):
    x = rng.random()
    if x < 0.72:
        return rng.choice(LENS[:8])
    if x < 0.93:
        return rng.choice(LENS)
    ints = mined()[0]
    if x < 0.98 and ints:
        return rng.choice(ints)
    return rng.choice([13, 15, 16, 17, 20, 25, 31, 32, 33, 64, 99, 100, 101])


def word(rng, kind, n=None):
    n = n or length(rng)
    alpha = {'a': 'abc', 'A': 'ABC', '0': '0123'}[kind]
    if rng.random() < 0.3:
        alpha = {'a': spec.LOWER, 'A': spec.UPPER, '0': spec.DIGITS}[kind]
    return ''.join(rng.choice(alpha) for _ in range(n))


def signs_for(where):
    return {'path': PATH_SIGNS, 'query': QUERY_SIGNS, 'frag': FRAG_SIGNS,
            'any': FRAG_SIGNS}[where]


def rand_string(rng, where='any', maxruns=8):
    """A string over the supported characters."""
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, maxruns])
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.55:
            out.append(word(rng, rng.choice('aA0')))
        elif x < 0.92:
            out.append(rng.choice(signs_for(where)) *
                       (1 if rng.random() < .6 else length(rng)))
        else:
            s = [t for t in mined()[1]
                 if all(c in spec.ALNUM_RULES or c in signs_for(where)
                        or c.isalnum() for c in t)]
            if s:
                out.append(rng.choice(s))
    return ''.join(out)


def template(rng, where):
    """A template: list of ('lit', s) / ('var', kind) / ('fix', kind, n)."""
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
    t = []
    common = [c for c in '.-_%' if c in signs_for(where)]
    for _ in range(n):
        x = rng.random()
        if x < .45:
            t.append(('var', rng.choice('aa00A')))
        elif x < .55:
            t.append(('fix', rng.choice('a0A'), length(rng)))
        elif x < .65:
            t.append(('lit', word(rng, rng.choice('a0A'))))
        elif x < .85:
            t.append(('lit', rng.choice(common) *
                      rng.choice([1, 1, 1, 2, 3])))
        elif x < .9:
            t.append(('rep', rng.choice(signs_for(where))))
        else:
            t.append(('lit', rng.choice(signs_for(where)) *
                      rng.choice([1, 1, 2])))
    if where == 'path' and rng.random() < .4:
        t += rng.choice([[('lit', '.html')], [('lit', '.mp3')],
                         [('lit', '.')], [('lit', '.'), ('var', 'a')],
                         [('lit', '.a')], [('lit', '.tar'), ('lit', '.gz')],
                         [('lit', '.'), ('var', 'a'), ('var', '0')],
                         [('lit', '.'), ('var', '0')],
                         [('lit', '.x1y')], [('lit', '.PHP')]])
    if n and rng.random() < .08:
        # alternating runs: many sub-pieces
        t += [('var', rng.choice('a0A')) for _ in range(rng.choice([4, 6, 9]))]
    return t


def instance(rng, t):
    out = []
    for x in t:
        if x[0] == 'lit':
            out.append(x[1])
        elif x[0] == 'rep':
            out.append(x[1] * rng.choice([1, 1, 2, 3]))
        elif x[0] == 'fix':
            out.append(word(rng, x[1], x[2]))
        else:
            out.append(word(rng, x[1], rng.choice([1, 1, 2, 2, 3, 4, 5])
                            if rng.random() < .95 else length(rng)))
    return ''.join(out)


def key(rng):
    x = rng.random()
    if x < .6:
        return rng.choice(['id', 'k', 'page', 'a1', 'Q', 'x_y'])
    s = rand_string(rng, 'query', 4).replace('=', '')
    return s or 'k'


def structure(rng, small=False):
    pd = rng.choice([1, 1, 1, 2, 2, 3] + ([] if small else [4, 6]))
    qd = rng.choice([0, 0, 0, 0, 1, 1, 2] + ([] if small else [3, 5]))
    keys = []
    for i in range(qd):
        k = key(rng)
        keys.append(k if rng.random() < .12 and qd > 1 else k + '=')
    if qd == 1 and rng.random() < .25:
        keys = ['']                      # key-less
    if qd == 0 and rng.random() < .04:
        keys = [None]                    # '?' alone
    frag = rng.random() < .2
    return pd, keys, frag


def host(rng):
    return rng.choice(['http://e.com', 'http://e.com', 'https://www.x.org',
                       'http://h:80', 'ftp://f'])


def build(h, st, pieces):
    pd, keys, frag = st
    u = h + ''.join('/' + p for p in pieces[:pd])
    if keys == [None]:
        u += '?'
    elif keys:
        u += '?' + '&'.join(
            k + v for k, v in zip(keys, pieces[pd:pd + len(keys)]))
    if frag:
        u += '#' + pieces[-1]
    return u


def st_templates(rng, st):
    pd, keys, frag = st
    tp = [template(rng, 'path') for _ in range(pd)]
    for k in keys:
        if k is None or (k and not k.endswith('=')):
            tp.append([])
        else:
            tp.append(template(rng, 'query'))
    if frag:
        tp.append(template(rng, 'frag'))
    return tp


def st_instance(rng, st, tp):
    ps = [instance(rng, t) for t in tp]
    if st[1] == ['']:
        i = st[0]
        ps[i] = ps[i].replace('=', '') or 'v'
    return ps


def url_set(rng, sizes=(1, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16, 20, 30)):
    """URLs of few structures and templates, so that clusters form."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        st = structure(rng)
        tps = []
        base = st_templates(rng, st)
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            t2 = [t if rng.random() < .5 else template(
                rng, 'path' if i < st[0] else 'query'
                if i < st[0] + len(st[1]) and t else 'frag')
                if (i < st[0] or t) else t for i, t in enumerate(base)]
            if st[2]:
                t2[-1] = base[-1]
            for i in range(st[0], st[0] + len(st[1])):
                if not base[i]:
                    t2[i] = base[i]
                elif any('&' in x[1] or '#' in x[1] for x in t2[i]):
                    t2[i] = base[i]
            tps.append(t2)
        tps.append(base)
        # positions that stay constant over the set
        fixed = {}
        for i in range(len(base)):
            if rng.random() < .25:
                fixed[i] = None
        for _ in range(rng.choice(sizes)):
            ps = st_instance(rng, st, rng.choice(tps))
            for i in fixed:
                if fixed[i] is None:
                    fixed[i] = ps[i]
                ps[i] = fixed[i]
            out.append(build(host(rng), st, ps))
    rng.shuffle(out)
    return out


def dense_url_set(rng):
    """Short URLs over few characters, so that collisions are frequent."""
    alpha = rng.sample(list('aabbAB01') + ['-', '.', '_', '%', '[', ']', '\\',
                                         '{', '}', '+', '='],
                       rng.choice([1, 2, 2, 3, 3, 4, 5]))
    big = rng.choice([2, 3, 4, 4, 6, 8])
    pd = rng.choice([1, 1, 2, 2, 3])
    q = rng.choice(['', '', '', '', '?k=', '?', '?k=&j='])
    f = rng.choice(['', '', '', '#'])
    tails = rng.choice([None, None, ['.a', '.b', '.ab'], ['.html', '.htm'],
                        ['.a1b', '.b1a', '.c2d', '.ab', '.x'],
                        ['.a1', '.b2', '.1', '.A'], ['.a-b', '..a', '.a.b']])
    lens = list(range(1, big + 1))
    if rng.random() < .3:
        lens = rng.sample(lens, min(2, big))

    def w(ok=''):
        return ''.join(rng.choice(alpha) for _ in range(rng.choice(lens)))

    pool = [[w() for _ in range(rng.choice([1, 2, 3, 6, 12]))]
            for _ in range(pd)]
    out = []
    for _ in range(rng.choice([2, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30])):
        ps = [rng.choice(p) if rng.random() < .7 else w() for p in pool]
        if tails:
            ps[-1] += rng.choice(tails)
        u = 'http://h/' + '/'.join(ps)
        for part in q.split('&') if q else []:
            u += part if part.startswith('?') else '&' + part
            u += w().replace('&', '') if '=' in part else \
                w().replace('=', '') or 'v'
        if f:
            u += f + w()
        out.append(u)
    return shifts(rng, out)


def shifts(rng, urls):
    """Add URLs in which a level boundary moved by a character."""
    out = list(urls)
    for u in urls:
        if rng.random() < .15:
            i = u.find('/', u.index('://') + 3)
            idx = [j for j in range(i + 2, len(u) - 1) if u[j] == '/']
            if idx:
                j = rng.choice(idx)
                if rng.random() < .5 and u[j + 1] not in '/?#' and \
                        u[j + 2:j + 3] not in ('', '/', '?', '#'):
                    out.append(u[:j] + u[j + 1] + '/' + u[j + 2:])
                elif u[j - 1] != '/' and u[j - 2] != '/':
                    out.append(u[:j - 1] + '/' + u[j - 1] + u[j + 1:])
    return out


def tail_start(u):
    """Index where the path, query or fragment of u starts."""
    i = u.index('://') + 3
    while i < len(u) and u[i] not in '/?#':
        i += 1
    return i


def any_url(rng):
    """A URL of any shape, possibly irregular or with bad characters."""
    x = rng.random()
    if x < .6:
        st = structure(rng)
        u = build(host(rng), st, st_instance(rng, st, st_templates(rng, st)))
    else:
        h = host(rng)
        n = rng.choice([0, 1, 1, 2, 3, 4])
        u = h + ''.join('/' + rng.choice(
            ['', rand_string(rng, 'path', 3), 'a', 'b1']) for _ in range(n))
        if n and rng.random() < .15:
            u += ';' + rand_string(rng, 'path', 2)
        if rng.random() < .5:
            u += '?' + rand_string(rng, 'frag', 4).replace('#', '&')
        if rng.random() < .4:
            u += '#' + rand_string(rng, 'frag', 4)
    if rng.random() < .08:
        i = rng.randrange(len(u) + 1)
        i = max(i, tail_start(u) + 1)
        if tail_start(u) == len(u):
            return u
        u = u[:i] + rng.choice([u'\u00e9', u'\u00b2', '`', u'\u4e2d']) + u[i:]
    return u


def pattern_text(rng):
    """A pattern text: canonical, hand-written or broken."""
    x = rng.random()
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5])):
        y = rng.random()
        if y < .3:
            out.append(word(rng, rng.choice('aA0')))
        else:
            k = rng.choice([1, 1, 1, 2, 2, 3, 4])
            rs = rng.sample(sorted(spec.RULES), k)
            if rng.random() < .6:
                rs = rng.sample(['a-z', 'A-Z', '0-9', '%', '\\-', '\\.',
                                 '\\\\', '\\]', '\\[', '_'], min(k, 5))
            if rng.random() < .7:
                rs = sorted(rs)
            z = rng.random()
            n = length(rng)
            suffix = '' if z < .25 else '+' if z < .5 else '{%d}' % n
            out.append('[' + ''.join(rs) + ']' + suffix)
    t = ''.join(out)
    if x > .8:
        # break it
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(t) + 1)
            c = rng.choice(list('[]{}+\\-09azAZ.') + BAD_CHARS)
            t = rng.choice([t[:i] + c + t[i:], t[:i] + t[i + 1:],
                            t[:i] + '{0}' + t[i:], t[:i]])
    return t


def canonical_pattern(rng, raw):
    """Some canonical pattern text covering the raw piece."""
    rs = spec.runs(raw)
    if not rs:
        return ''
    x = rng.random()
    if x < .35:
        return spec.piece_text(raw)
    if x < .5:
        return spec.specify(spec.fuzzy(raw), -1)
    if x < .65:
        return spec.specify(spec.fuzzy(raw), len(raw))
    out = []
    for r, t in rs:
        y = rng.random()
        if y < .4:
            out.append(spec.run_text(r, t))
        elif y < .7:
            out.append(spec.specify(r, -1))
        else:
            out.append(spec.specify(r, len(t)))
    return ''.join(out)
