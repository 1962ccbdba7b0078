"""Concrete oracles of the properties, on the real code's public functions.

A family has gen(rng) -> case (JSON values) and check(case) -> None or a
message describing how the real code breaks the property on this case.
"""
import itertools
import json
import os
import re
import sys
import tempfile
from collections import Counter

from . import gen, spec

sys.dont_write_bytecode = True
if gen.SRC not in sys.path:
    sys.path.insert(0, gen.SRC)


class M(object):
    """Modules of the code under test (imported on first use)."""
    _m = {}

    def __getattr__(self, name):
        import importlib
        if name not in self._m:
            self._m[name] = importlib.import_module('os_urlpattern.' + name)
        return self._m[name]


m = M()


class Fail(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def raises(fn, *a):
    """(result, exception)"""
    try:
        return fn(*a), None
    except Exception as e:          # noqa
        return None, e


def config(mcn):
    cfg = m.config.get_default_config()
    cfg.set('make', 'min_cluster_num', str(mcn))
    return cfg


def is_loadable(u):
    try:
        spec.loadable(u)
        return True
    except spec.Reject:
        return False


# ------------------------------------------------------------- clustering
def history_urls(rng):
    urls = gen.dense_url_set(rng) if rng.random() < .45 else \
        gen.shifts(rng, gen.url_set(rng))
    return [u for u in urls if is_loadable(u)]


def gen_cluster(rng):
    urls = history_urls(rng)
    ops = []
    for i, u in enumerate(urls):
        x = rng.random()
        meta = None if x < .1 else (i if x < .9 else rng.choice(
            ['', 0, 'm', i // 3]))
        ops.append(['load', u, meta])
        if rng.random() < .08:
            ops.append(['load', u, i + 1000])
        if rng.random() < .04:      # another object, written the same
            ops.append(['load', u, str(meta)])
        if rng.random() < .05:
            ops.append(['load', rng.choice(urls), i + 2000])
    if rng.random() < .06 and ops:
        ops.insert(rng.randrange(len(ops)), ['make'])
    return {'mcn': rng.choice([2, 3, 3, 3, 4, 5, 7]), 'ops': ops}


def large_urls():
    """Many URLs, long and deep ones."""
    h = 'http://e.com'
    for n in (80, 300, 1100):
        yield ['%s/a/%d' % (h, i) for i in range(n)]
        yield ['%s/p%d/x.html' % (h, i * 7) for i in range(n)]
        yield ['%s/%s' % (h, 'ab-'[i % 3] * (i + 1)) for i in range(min(
            n, 400))]
        yield ['%s/s?id=%d&k=%s' % (h, i, 'xyz'[i % 3]) for i in range(n)]
        yield ['%s/%s' % (h, 'a1' * n + 'bcd'[i]) for i in range(3)]
        yield ['%s/%s' % (h, '%d.htm' % i * 4) for i in range(n)]
    for d in (9, 40):
        yield ['%s%s/%d' % (h, '/a' * d, i) for i in range(9)]
        yield ['%s/%d%s' % (h, i, '/a%d' % i * d) for i in range(9)]
        yield ['%s/?%s' % (h, '&'.join('k%d=%d' % (j, i * j) for j in range(
            d))) for i in range(9)]
        yield ['%s%s' % (h, '/b' * i) for i in range(1, d)]


def enum_cluster(tier):
    for us in large_urls():
        for mcn in (2, 3, 70) if tier != 'quick' else (3, 70):
            yield {'mcn': mcn, 'ops': [['load', u, i] for i, u in enumerate(
                us)], 'rot': 1}


def run_history(case, strict=False):
    """Loads (and makes on the way); returns maker, paths, urls.

    paths: {(structure, pieces): set of metas}
    """
    pm = m.pattern_maker.PatternMaker(config(case['mcn']))
    paths, urls = {}, {}
    for op in case['ops']:
        if op[0] == 'make':
            for _ in pm.make():
                pass
            continue
        _, u, meta = op
        k = spec.loadable(u)
        _, is_new = pm.load(u, meta=meta)
        need(not strict or bool(is_new) == (k not in paths),
             'load(%r) reported is_new=%r but the path was %s', u, is_new,
             'new' if k not in paths else 'loaded before')
        paths.setdefault(k, set())
        urls.setdefault(k, u)
        if meta is not None:
            paths[k].add(meta)
    return pm, paths, urls


def walk(node, path=()):
    """Root to leaf paths of a tree, by the children only."""
    path = path + (node,)
    kids = list(node.children)
    if not kids:
        yield path
    for c in kids:
        for p in walk(c, path):
            yield p


def clusters(pm):
    """[(structure, root, pattern text, [(piece texts, leaf)])]"""
    out = []
    for um, root in pm.make():
        pats = list(m.formatter.pformat('pattern', um, root))
        need(len(pats) == 1, 'the pattern format of a cluster gave %r', pats)
        paths = [(tuple(n.piece for n in nodes[1:]), nodes[-1])
                 for nodes in walk(root)]
        out.append(((um.path_depth, tuple(um.query_keys),
                     bool(um.has_fragment)), root, pats[0], paths))
    return out


def cluster_urls(cls, urls):
    """(pattern text, url) for every path of every cluster."""
    index = {}
    for k, u in urls.items():
        index[(k[0], tuple(spec.piece_text(p) for p in k[1]))] = u
    for st, root, text, paths in cls:
        for texts, leaf in paths:
            u = index.get((st, texts))
            if u is not None:
                yield text, u


def check_c01(case):
    pm, paths, urls = run_history(case)
    for text, u in cluster_urls(clusters(pm), urls):
        ok, e = raises(spec.covers, text, u)
        need(e is None and ok, 'the pattern %r of a cluster does not match '
             'its URL %r', text, u)


def check_c02(case):
    pm, paths, urls = run_history(case, True)
    cls = clusters(pm)
    seen = {}
    total = 0
    want = dict(((k[0], tuple(spec.piece_text(p) for p in k[1])), v)
                for k, v in paths.items())
    for st, root, text, pp in cls:
        need(root.count == len(pp), 'cluster %r has count %r and %d paths',
             text, root.count, len(pp))
        total += root.count
        for texts, leaf in pp:
            k = (st, texts)
            need(k not in seen, 'the path %r occurs in two clusters', k)
            seen[k] = leaf
            need(k in want, 'the path %r was never loaded', k)
            got = set(leaf.meta) if leaf.meta is not None else set()
            need(got == want[k], 'the path %r was loaded with meta %r and '
                 'has %r', k, want[k], got)
    need(len(seen) == len(want), 'paths %r are in no cluster',
         [k for k in want if k not in seen][:3])
    need(total == len(want), 'counts sum to %r, %d paths were loaded', total,
         len(want))
    # combined trees
    by = {}
    for st, root, text, pp in cls:
        sig = (st, tuple(spec.fuzzy(spec.decode(t)) for t in pp[0][0]))
        pat = tuple(spec.pattern_parts(text)[1])
        by.setdefault(sig, Counter())[pat] += root.count
    got = []
    for um, root in pm.make(combine=True):
        st = (um.path_depth, tuple(um.query_keys), bool(um.has_fragment))
        c = Counter()
        for nodes in walk(root):
            c[tuple(str(n.value) for n in nodes[1:])] += nodes[-1].count
            for n in nodes:
                if not n.leaf():
                    need(n.count == sum(x.count for x in n.children),
                         'combined tree: a node has count %r, its children '
                         'sum to %r', n.count,
                         sum(x.count for x in n.children))
        got.append((st, sorted(c.items())))
    exp = [(k[0], sorted(c.items())) for k, c in by.items()]
    need(sorted(got) == sorted(exp), 'combined trees %r, clusters %r', got,
         exp)


def check_c05(case):
    pm, paths, urls = run_history(case)
    owner = {}
    for text, u in cluster_urls(clusters(pm), urls):
        owner[u] = text
    pm2 = m.pattern_matcher.PatternMatcher()
    texts = sorted(set(owner.values()))
    k = case.get('rot', 0) % max(1, len(texts))
    for t in texts[k:] + texts[:k]:
        r, e = raises(lambda: pm2.load(t, meta=t))
        need(e is None, 'loading the made pattern %r raises %r', t, e)
    for u, t in owner.items():
        r, e = raises(pm2.match, u)
        need(e is None, 'match(%r) raises %r with made patterns', u, e)
        need(t in [n.meta for n in r], 'match(%r) gives %r, without the '
             'pattern %r of its cluster', u, [n.meta for n in r], t)


def gen_c05(rng):
    c = gen_cluster(rng)
    c['rot'] = rng.randrange(20)
    return c


def check_views(case):
    """Every pattern that can be made of the parts of a view of a piece
    matches that piece."""
    piece, tail = case['piece'], '' if case['last'] else '/z'
    rs, seen = spec.runs(piece), set()
    for v in ('multi', 'mixed') + (('lastdot',) if case['last'] else ()):
        parts = spec.cut(v, rs)
        if len(parts) < 2:
            continue
        ch = [spec.part_patterns(p) for p in parts]
        if v == 'lastdot':
            ch[-1] = ch[-1][:1]        # kept as it is written
        for combo in itertools.product(*ch):
            t = '/' + ''.join(combo) + tail
            if t in seen:
                continue
            seen.add(t)
            pm = m.pattern_matcher.PatternMatcher()
            r, e = raises(lambda: pm.load(t, meta=t))
            need(e is None, 'loading the pattern %r raises %r', t, e)
            u = 'http://h.com/' + piece + tail
            r, e = raises(pm.match, u)
            need(e is None and [n.meta for n in r] == [t],
                 'match(%r) gives %r, not the pattern %r', u, e or r, t)


def enum_views(tier):
    for n in range(2, 5 if tier == 'quick' else 6):
        for seq in itertools.product('a0.-%', repeat=n):
            if any(x == y for x, y in zip(seq, seq[1:])):
                continue
            for k in (1, 2):
                for last in (0, 1):
                    yield {'piece': ''.join(c * k for c in seq),
                           'last': last}


def gen_views(rng):
    n = rng.choice([2, 3, 4, 4, 5, 5, 6])
    cs = [rng.choice(rng.choice(['aZ0', '.', '.-%', spec.SIGNS.replace(
        '/', '').replace('?', '').replace('#', '').replace(';', '')]))
        for _ in range(n)]
    return {'piece': ''.join(c * rng.choice([1, 1, 2, 3, 11]) for c in cs),
            'last': rng.randrange(2)}


def check_c03_made(case):
    pm, paths, urls = run_history(case)
    for text, u in cluster_urls(clusters(pm), urls):
        d, e = raises(m.parser.fuzzy_digest, text)
        need(e is None, 'fuzzy_digest(%r) of a made pattern raises %r', text,
             e)
        need(d == m.parser.fuzzy_digest(u), 'the made pattern %r and its URL '
             '%r have different fuzzy digests', text, u)


def gen_c03(rng):
    a = gen.any_url(rng)
    while not is_loadable(a):
        a = gen.any_url(rng)
    x = rng.random()
    b = a
    for _ in range(20):
        if x < .3:
            b = gen.any_url(rng)
        elif x < .6:      # other characters of the same spaces
            b = ''.join(
                (rng.choice({'a-z': 'xyz', 'A-Z': 'XYZ', '0-9': '789'}.get(
                    spec.RULE.get(c), c)) if i > gen.tail_start(a) and rng.random() < .5
                 else c) for i, c in enumerate(a))
        else:
            i = rng.randrange(gen.tail_start(a) + 1, len(a) + 1)
            c = rng.choice(['a', 'A', '0', '/', '&', '=', '?', '#', '-', '.',
                            '%', 'a-z', '0-9', '\\', '[', ']', '', '',
                            rng.choice(spec.SIGNS)])
            b = a[:i] + c + a[i + (rng.random() < .5):]
        if is_loadable(b):
            return {'a': a, 'b': b}
    return {'a': a, 'b': a}


def check_c03(case):
    a, b = case['a'], case['b']
    same = spec.signature(a) == spec.signature(b)
    da, db = m.parser.fuzzy_digest(a), m.parser.fuzzy_digest(b)
    need((da == db) == same, 'fuzzy digests of %r and %r are %s, structure '
         'and character spaces are %s', a, b,
         'equal' if da == db else 'different', 'the same' if same
         else 'different')
    da2 = m.parser.fuzzy_digest(*m.parser.parse(a))
    need(da2 == da, 'fuzzy_digest of the parsed %r differs from that of the '
         'text', a)


def check_c17(case):
    pm, paths, urls = run_history(case)
    group = {}
    for k in paths:
        sig = (k[0], tuple(frozenset(r for r, _ in spec.runs(p))
                           for p in k[1]))
        group.setdefault(sig, set()).add(k)
    for text, u in cluster_urls(clusters(pm), urls):
        k = spec.loadable(u)
        if len(group[spec.signature(u)]) < case['mcn']:
            lit = tuple(spec.piece_text(p) for p in k[1])
            got = spec.pattern_parts(text)[1]
            need(got == lit, '%d paths of the digest of %r, min_cluster_num '
                 '%d, and the pattern is %r', len(group[spec.signature(u)]),
                 u, case['mcn'], text)


def gen_c17(rng):
    c = gen_cluster(rng)
    if rng.random() < .7:
        n = rng.choice([2, 3, 4, 5, 7, 9])
        c['mcn'] = n
        urls = [u for u in gen.url_set(rng, sizes=(n - 1, n, n - 1))
                if is_loadable(u)]
        c['ops'] = [['load', u, i] for i, u in enumerate(urls)]
        for op in list(c['ops']):
            if rng.random() < .3:
                c['ops'].append(op)
    return c


# ---------------------------------------------------------------- matcher
def gen_patterns_urls(rng, hand=True):
    """Patterns (made by several makers, or hand-written) and URLs."""
    urls = history_urls(rng)
    pats = []
    made = []
    for _ in range(rng.choice([1, 2, 3])):
        sub = [u for u in urls if rng.random() < .8]
        made.append([rng.choice([2, 3, 4]), sub])
    if hand:
        for u in rng.sample(urls, min(len(urls), 4)):
            meta, pieces = spec.loadable(u)
            for _ in range(3):
                pats.append(packed(meta, [gen.canonical_pattern(rng, p)
                                          for p in pieces]))
        for _ in range(2):
            st = gen.structure(rng, True)
            pats.append('/' + '/'.join(
                gen.pattern_text(rng).replace('/', '')
                for _ in range(st[0])))
    probes = list(urls[:12])
    for u in urls[:6]:
        i = rng.randrange(gen.tail_start(u) + 1, len(u) + 1)
        v = u[:i] + rng.choice(['a', '0', 'A', '-', 'aa', '']) + \
            u[i + (rng.random() < .5):]
        if is_loadable(v):
            probes.append(v)
    return {'made': made, 'patterns': pats, 'urls': probes,
            'seed': rng.randrange(1000)}


def enum_patterns(tier):
    for i, us in enumerate(large_urls()):
        ks = [spec.loadable(u) for u in us[:200]]
        yield {'made': [[3, us]], 'patterns': [
            packed(k[0], [spec.piece_text(p) for p in k[1]]) for k in ks],
               'urls': us[:12] + us[-5:], 'seed': i}


def packed(st, texts):
    pd, keys, frag = st
    s = '/' + '/'.join(texts[:pd])
    if keys:
        s += '[\\?]' + '&'.join(k + v for k, v in zip(keys, texts[pd:]))
    if frag:
        s += '#' + texts[-1]
    return s


def all_patterns(case):
    pats = list(case['patterns'])
    for mcn, urls in case['made']:
        pm = m.pattern_maker.PatternMaker(config(mcn))
        for u in urls:
            pm.load(u)
        for um, root in pm.make():
            for p in m.formatter.pformat('pattern', um, root):
                pats.append(p)
    import random
    r = random.Random(case['seed'])
    pats = sorted(set(pats))
    r.shuffle(pats)
    return pats


def check_c04(case):
    mt = m.pattern_matcher.PatternMatcher()
    bound = {}
    for i, p in enumerate(all_patterns(case)):
        meta = 'meta%d' % i
        r, e = raises(lambda: mt.load(p, meta=meta))
        if e is None:
            bound[meta] = p
            if i % 5 == 4:           # bind another object to it
                del bound[meta]
                mt.load(p, meta=meta + 'b')
                bound[meta + 'b'] = p
    for u in case['urls']:
        res, e = raises(mt.match, u)
        need(e is None, 'match(%r) raises %r', u, e)
        metas = [n.meta for n in res]
        need(len(set(metas)) == len(metas), 'match(%r) gives a pattern '
             'twice: %r', u, metas)
        for x in metas:
            need(x in bound, 'match(%r) gives meta %r, bound to no pattern',
                 u, x)
            ok, e = raises(spec.strict_match, bound[x], u)
            need(e is None and ok, 'match(%r) gives the pattern %r, which '
                 'does not strictly match it', u, bound[x])
    for p in sorted(bound.values())[:3]:
        r, e = raises(mt.match, p)
        need(isinstance(e, ValueError), 'match(%r) of a pattern text gives '
             '%r', p, e if e is not None else r)


def gen_c11(rng):
    return gen_patterns_urls(rng, hand=False)


def above(p, q):
    """Does pattern text p rank above q (True/False/None: not decided)?"""
    a, b = spec.pattern_parts(p)[1], spec.pattern_parts(q)[1]
    for x, y in list(zip(a, b))[::-1]:
        if x != y:
            rx, ry = spec.pattern_rank(x), spec.pattern_rank(y)
            if rx != ry:
                return rx > ry
            return None
    return None


def check_c11(case):
    pats = all_patterns(case)
    orders = []
    for k in range(2):
        mt = m.pattern_matcher.PatternMatcher()
        for p in (pats if k == 0 else pats[::-1]):
            mt.load(p, meta=p)
        order = []
        for u in case['urls']:
            res = mt.match(u)
            for a in res:
                need(not a < a, 'a result is below itself: %r', a.meta)
                for b in res:
                    if a is b:
                        continue
                    need(not (a < b and b < a), 'both orders hold for %r '
                         'and %r', a.meta, b.meta)
                    need(a < b or b < a, 'results %r and %r of %r are not '
                         'ordered', a.meta, b.meta, u)
                    w = above(a.meta, b.meta)
                    if w is not None:
                        need((b < a) == w, 'for %r, %r must rank %s %r', u,
                             a.meta, 'above' if w else 'below', b.meta)
            for a, b, c in itertools.islice(
                    itertools.permutations(res, 3), 120):
                need(not (a < b and b < c) or a < c, 'not transitive: %r %r '
                     '%r', a.meta, b.meta, c.meta)
            order.append([n.meta for n in sorted(res, reverse=True)])
        orders.append(order)
    need(orders[0] == orders[1], 'the ranking depends on the load order: %r '
         '%r', *[x for x in zip(*orders) if x[0] != x[1]][0]
         if orders[0] != orders[1] else ('', ''))


def gen_spelled(rng):
    """Patterns of one URL, some of them with rules in another order."""
    u = rng.choice(['http://e.com/a/b/x1', 'http://e.com/a1/b2',
                    'http://e.com/a/x1?k=b2', 'http://e.com/aB1/c-2/d'])
    meta, pieces = spec.loadable(u)
    pats = []
    for _ in range(rng.choice([3, 4, 6])):
        ps = []
        for p in pieces:
            t = gen.canonical_pattern(rng, p)
            rules = sorted(spec.rule_set(t))
            if rng.random() < .5:
                rng.shuffle(rules)
                t = '[%s]+' % ''.join(rules)
            ps.append(t)
        pats.append(packed(meta, ps))
    return {'patterns': pats, 'url': u}


def check_spelled(case):
    for k in range(2):
        mt = m.pattern_matcher.PatternMatcher()
        for p in case['patterns'][::-1 if k else 1]:
            mt.load(p, meta=p)
        res = mt.match(case['url'])
        for a, b, c in itertools.islice(
                itertools.permutations(res, 3), 120):
            need(not (a < b and b < c) or a < c, 'not transitive: %r %r %r',
                 a.meta, b.meta, c.meta)
            need(not (a < c) or a < b or b < c, '%r is below %r, but %r is '
                 'neither above the one nor below the other', a.meta, c.meta,
                 b.meta)
        best = sorted(res, reverse=True)[:1]
        need(not any(b < x for b in best for x in res),
             'the first of the sorted results is not the best: %r',
             [x.meta for x in res])


# ---------------------------------------------------------------- lexical
def gen_c06(rng):
    l = []
    for _ in range(rng.choice([1, 2, 3])):
        s = gen.rand_string(rng)
        if rng.random() < .15:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(gen.BAD_CHARS) + s[i:]
        l.append(s)
    return l


def check_c06(case):
    parser = m.parse_utils.PieceParser()
    for s in case:
        try:
            rs = spec.runs(s)
        except spec.Reject:
            r, e = raises(parser.parse, s)
            need(isinstance(e, m.exceptions.InvalidCharException),
                 'parse(%r) must raise InvalidCharException, got %r', s,
                 e if e is not None else r)
            continue
        p, e = raises(parser.parse, s)
        need(e is None, 'parse(%r) raises %r', s, e)
        texts = [spec.run_text(r, t) for r, t in rs]
        need(list(p.pieces) == texts and
             list(p.rules) == [r for r, _ in rs],
             'parse(%r) gives %r %r instead of %r', s, p.pieces, p.rules,
             list(zip(texts, rs)))
        need(p.piece == ''.join(texts), 'parse(%r).piece is %r', s, p.piece)
        n, e = raises(lambda: p.piece_length)
        need(e is None and n == len(s), 'parse(%r).piece_length is %r', s,
             n if e is None else e)
        need(p.piece_length == n, 'piece_length of %r changes', s)
        need(p.fuzzy_rule == spec.fuzzy(s), 'parse(%r).fuzzy_rule is %r', s,
             p.fuzzy_rule)
        need(re.fullmatch(p.piece, s) is not None, 'the text %r does not '
             'match %r', p.piece, s)


def strings(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def long_texts():
    for n in (33, 70, 130, 260, 1100, 5000):
        for c in 'aA0-%.':
            yield c * n
        for t in ('a1', 'aB', 'a-', '0.', '-.', 'a1B%', 'ab--', '%2F_'):
            yield t * n
            yield t * n + 'a'


def enum_c06(tier):
    for s in long_texts():
        yield [s]
    for c in range(0x250):
        yield [chr(c)]
        yield ['a' + chr(c)]
        yield [chr(c) * 3 + '0', 'b']
    for a in spec.RULE:
        for b in spec.RULE:
            yield [a + b]
    for s in strings('aA0-\\[%', 5 if tier == 'quick' else 6):
        yield [s]
    for n in range(1, 130):
        for c in 'a\\[]{}-%':
            yield [c * n]


def gen_c07(rng):
    x = rng.random()
    if x < .4:
        return ''.join(rng.choice('&&==ab1?/') for _ in range(
            rng.choice([1, 2, 3, 5, 8, 13, 20])))
    return '&'.join((gen.rand_string(rng, 'query', 3) or 'x') + rng.choice(
        ['', '=', '=' + gen.rand_string(rng, 'query', 3)])
        for _ in range(rng.choice([1, 2, 3, 6, 11])))


def check_c07(case):
    q = case
    try:
        want = spec.query(q)
    except spec.Reject:
        r, e = raises(m.parse_utils.parse_query_string, q)
        need(isinstance(e, m.exceptions.IrregularURLException),
             'parse_query_string(%r) must raise IrregularURLException, got '
             '%r', q, e if e is not None else r)
        return
    r, e = raises(m.parse_utils.parse_query_string, q)
    need(e is None, 'parse_query_string(%r) raises %r', q, e)
    need(tuple(map(tuple, r)) == want, 'parse_query_string(%r) gives %r '
         'instead of %r', q, r, want)


def enum_c07(tier):
    yield None
    for s in long_texts():
        yield s
        yield s + '=' + s
    for n in (33, 70, 260, 1100):
        for t in ('a=b', 'a', 'a=', '=b', '', '=', 'a=b=c'):
            yield '&'.join([t] * n)
        yield '&'.join('k%d=%d' % (i, i) for i in range(n))
    for s in strings('&=a', 7 if tier == 'quick' else 9):
        yield s
    for s in strings('&=aB?', 5):
        yield s


def gen_c08(rng):
    u = gen.any_url(rng)
    try:
        meta, pieces = spec.loadable(u)
        texts = [gen.canonical_pattern(rng, p) for p in pieces]
    except spec.Reject:
        texts = None
    return {'url': u, 'texts': texts}


def st_of(um):
    return (um.path_depth, tuple(um.query_keys), bool(um.has_fragment))


def check_c08(case):
    u, texts = case['url'], case['texts']
    A = m.parse_utils.analyze_url
    try:
        want = spec.url(u)
    except spec.Reject as x:
        r, e = raises(A, u)
        exc = m.exceptions.InvalidCharException if x.args[0] == 'char' \
            else m.exceptions.IrregularURLException
        need(e is not None, 'analyze_url(%r) must be rejected, gives %r', u,
             r)
        need(isinstance(e, (m.exceptions.InvalidCharException,
                            m.exceptions.IrregularURLException)),
             'analyze_url(%r) must raise %s, raises %r', u, exc.__name__, e)
        return
    r, e = raises(A, u)
    need(e is None, 'analyze_url(%r) raises %r', u, e)
    need((st_of(r[0]), tuple(r[1])) == want, 'analyze_url(%r) gives %r '
         'instead of %r', u, r, want)
    need(r[0].depth == len(want[1]), 'depth of %r is %r', u, r[0].depth)
    if texts is not None:
        s = m.parse_utils.pack(r[0], texts)
        need(s == packed(want[0], texts), 'pack of %r with %r gives %r', u,
             texts, s)
        b, e = raises(m.parse_utils.analyze_url_pattern_string, s)
        need(e is None, 'analysing the packed %r raises %r', s, e)
        need(st_of(b[0]) == want[0] and list(b[1]) == texts,
             'the packed %r is analysed as %r instead of %r %r', s, b,
             want[0], texts)


def enum_c08(tier):
    large = [x for t in long_texts() if '%' not in t for x in (
        t, 'a?' + t, '?k=' + t, '?' + t + '=1', '#' + t)]
    large += [t * n for n in (33, 70, 260, 1100) for t in ('/', 'a/', '?', '#')]
    large += ['?' + '&'.join('k%d=%d' % (i, i) for i in range(n))
              for n in (33, 260, 1100)]
    for s in itertools.chain(large, strings(
            '/?#&=a', 5 if tier == 'quick' else 6)):
        u = 'http://e.com/' + s
        texts = None
        try:
            meta, pieces = spec.loadable(u)
            texts = [spec.piece_text(p) for p in pieces]
        except spec.Reject:
            pass
        yield {'url': u, 'texts': texts}


def gen_c09(rng):
    x = rng.random()
    if x < .7:
        return ['p', gen.pattern_text(rng)]
    if x < .8:
        return ['p', gen.canonical_pattern(rng, gen.rand_string(rng))]
    return ['s', ''.join(sorted(rng.sample(sorted(spec.RULES),
                                           rng.choice([1, 1, 2, 3, 6])))),
            rng.choice([-1, 1, 2, 3, 10, -2, -7, 0, 99, 100])]


def check_c09(case):
    if case[0] == 's':
        rule, n = case[1:]
        r, e = raises(m.parse_utils.specify_rule, rule, n)
        if n == 0:
            need(isinstance(e, ValueError), 'specify_rule(%r, 0) gives %r',
                 rule, r)
        else:
            need(e is None and r == spec.specify(rule, n),
                 'specify_rule(%r, %r) gives %r', rule, n,
                 r if e is None else e)
        return
    t = case[1]
    if not (len(t) < 4000):
        return
    try:
        want = spec.units(t)
    except spec.Reject:
        r, e = raises(lambda: m.pattern.Pattern(t).pattern_units)
        need(isinstance(e, m.exceptions.InvalidPatternException),
             'the pattern text %r must be rejected with '
             'InvalidPatternException, got %r', t, e if e is not None else r)
        return
    us, e = raises(lambda: m.pattern.Pattern(t).pattern_units)
    need(e is None, 'the pattern text %r raises %r', t, e)
    got = [(u.pattern_unit_string, frozenset(u.rules), u.num) for u in us]
    need(''.join(u[0] for u in got) == t, 'units %r do not concatenate to '
         '%r', got, t)
    need(len(got) == len(want) and all(
        a[0] == b[0] and a[1] == b[1] and
        (a[2] == b[2] or (a[2] < 0 and b[2] < 0))
        for a, b in zip(got, want)), 'the pattern text %r is read as %r '
        'instead of %r', t, got, want)


def enum_c09(tier):
    for t in long_texts():
        if len(t) < 3000:
            yield ['p', ''.join(spec.piece_texts(t))]
    for n in (255, 256, 999, 1000, 1024, 4096, 65536):
        yield ['p', '[a-z]{%d}' % n]
        yield ['p', 'a[\\-]{%d}[0-9A-Z]{%d}' % (n, n)]
        yield ['s', '0-9', n]
    for s in strings('[]{}+2a', 6 if tier == 'quick' else 7):
        yield ['p', s]
    toks = ['[', ']', '{', '}', '+', 'a-z', '0-9', '1', '2', 'b', '\\-',
            '\\\\', '\\]', '%']
    for k in range(1, 5 if tier == 'quick' else 6):
        for t in itertools.product(toks, repeat=k):
            yield ['p', ''.join(t)]
    for r in sorted(spec.RULES):
        for n in (-1, 1, 2, 12):
            yield ['p', spec.specify(r, n)]
            yield ['s', r, n]
            yield ['s', 'a-z' + r, n]
            yield ['p', spec.specify('0-9' + r, n)]
    for n in range(-3, 130):
        yield ['s', 'a-z', n]


def gen_c10(rng):
    s = gen.instance(rng, gen.template(rng, 'path')) if rng.random() < .5 \
        else gen.rand_string(rng)
    t = gen.instance(rng, gen.template(rng, 'path')) if rng.random() < .5 \
        else s[::-1] if rng.random() < .5 else s + 'a'
    return [s, t]


def view_parts(name, s):
    cls = getattr(m.parsed_piece_view, name)
    v = cls(m.parse_utils.PieceParser().parse(s))
    pp, e = raises(lambda: list(v.parsed_pieces))
    need(e is None, '%s of %r raises %r', name, s, e)
    need([(p.piece, p.fuzzy_rule) for p in v.parsed_pieces] ==
         [(p.piece, p.fuzzy_rule) for p in pp], '%s of %r changes', name, s)
    return v, pp


def check_c10(case):
    vs = {}
    for s in case:
        text = spec.piece_text(s)
        for name in ('MultiView', 'MixedView', 'LastDotSplitFuzzyView',
                     'FuzzyView'):
            v, pp = view_parts(name, s)
            vs.setdefault(name, []).append((v, pp, s))
            texts = [p.piece for p in pp]
            need(''.join(texts) == text, '%s of %r has the parts %r', name,
                 s, texts)
            for p in pp:
                raw, e = raises(spec.decode, p.piece)
                need(e is None, '%s of %r splits inside a run: %r', name, s,
                     texts)
                need(p.fuzzy_rule == spec.fuzzy(raw) and
                     p.piece_length == len(raw), '%s of %r: part %r has rule '
                     '%r and length %r', name, s, p.piece, p.fuzzy_rule,
                     p.piece_length)
            rs = spec.runs(s)
            if name == 'MultiView':
                want = [spec.run_text(r, t) for r, t in rs]
                need(texts == want, 'MultiView of %r is %r', s, texts)
            elif name == 'MixedView' and rs:
                want, last = [], None
                for r, t in rs:
                    x = r in spec.MIXED
                    if x and last:
                        want[-1] += spec.run_text(r, t)
                    else:
                        want.append(spec.run_text(r, t))
                    last = x
                need(texts == want, 'MixedView of %r is %r', s, texts)
            elif name == 'FuzzyView':
                need(len(texts) == 1, 'FuzzyView of %r is %r', s, texts)
        rs = spec.runs(s)
        mixed = m.parse_utils.mix([spec.run_text(*x) for x in rs],
                                  [x[0] for x in rs])
        want, wr, last = [], [], None
        for r, t in rs:
            x = r in spec.MIXED
            if x and last:
                want[-1] += spec.run_text(r, t)
                wr[-1].add(r)
            else:
                want.append(spec.run_text(r, t))
                wr.append(set([r]))
            last = x
        need(list(mixed[0]) == want and
             list(mixed[1]) == [''.join(sorted(x)) for x in wr],
             'mix of the runs of %r gives %r', s, mixed)
    if len(case) == 2:
        for name in vs:
            (v, pv_, s), (w, pw, t) = vs[name]
            if not s or not t:
                continue
            same = [p.fuzzy_rule for p in pv_] == [p.fuzzy_rule for p in pw]
            need((v == w) == same and (not same or hash(v) == hash(w)),
                 '%s of %r and %r are %s, part rules %r %r', name, s, t,
                 'equal' if v == w else 'different',
                 [p.fuzzy_rule for p in pv_], [p.fuzzy_rule for p in pw])


def enum_c10(tier):
    for t in long_texts():
        yield [t]
    for s in strings('a0A%.-', 5 if tier == 'quick' else 6):
        yield [s]
    for s in strings('a.-', 7):
        yield [s]


def gen_c16(rng):
    s = gen.rand_string(rng)
    if rng.random() < .1:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(gen.BAD_CHARS) + s[i:]
    x = rng.random()
    res = None if x < .3 else '=' if x < .7 else ''.join(
        rng.sample(spec.SIGNS, rng.choice([0, 1, 2, 3])))
    return [s, res]


def check_c16(case):
    s, res = case
    arg = (frozenset(res),) if res is not None else ()
    try:
        want = spec.normalized(s, res or '')
    except spec.Reject:
        r, e = raises(m.parse_utils.normalize, s, *arg)
        need(isinstance(e, m.exceptions.InvalidCharException),
             'normalize(%r, %r) must raise InvalidCharException, got %r', s,
             res, e if e is not None else r)
        return
    r, e = raises(m.parse_utils.normalize, s, *arg)
    need(e is None and r == want, 'normalize(%r, %r) gives %r instead of %r',
         s, res, r if e is None else e, want)


def enum_c16(tier):
    for t in long_texts():
        yield [t, None]
        yield [t + '==', '=']
    for s in strings('a0-=.', 5 if tier == 'quick' else 6):
        yield [s, None]
        yield [s, '=']
    for a in spec.RULE:
        for b in spec.RULE:
            yield [a + b, '=']
            yield [a + a + b, None]
    for c in range(0x250):
        yield [chr(c), None]
        yield ['a-' + chr(c), '=']


# ------------------------------------------------------------------- tree
def gen_c12(rng):
    pool = [gen.rand_string(rng, 'any', 2) for _ in range(4)] + ['a', 'b', '']
    d = rng.choice([1, 1, 2, 2, 3, 5])
    n = rng.choice([1, 2, 3, 5, 8, 12, 25])
    return [[[rng.choice(pool) for _ in range(d)],
             rng.choice([None, None, i, 'm', 0, ''])] for i in range(n)]


def large_c12(case):
    shape, n = case['shape'], case['n']
    if shape == 'metas':
        return [[['a', 'b'], i] for i in range(n)]
    if shape == 'wide':
        return [[['a', 'x%d' % i], i % 2 or None] for i in range(n)]
    if shape == 'deep':
        return [[['a'] * n, 1], [['a'] * (n - 1) + ['b'], None]]
    if shape == 'long':
        return [[['a' * n + t], t] for t in 'xyx']
    return [[['a'], None]] * n + [[['b'], None]]


def check_c12(case):
    last = None
    if isinstance(case, dict):
        case = large_c12(case)
        last = len(case) - 1
    ppn = m.piece_pattern_node
    pu = m.parse_utils
    root = ppn.PiecePatternNode((pu.EMPTY_PARSED_PIECE, None))
    seen = {}
    for i, (path, meta) in enumerate(case):
        parsed = [pu.PieceParser().parse(p) for p in path]
        key = tuple(path)
        r, e = raises(lambda: ppn.build_from_parsed_pieces(
            root, parsed, meta=meta))
        need(e is None, 'loading %r raises %r', path, e)
        need(bool(r[1]) == (key not in seen), 'loading %r reports is_new=%r',
             path, r[1])
        seen.setdefault(key, set())
        if meta is not None:
            seen[key].add(meta)
        if last is None or i == last:
            check_tree(root, seen)
    r2 = ppn.PiecePatternNode((pu.EMPTY_PARSED_PIECE, None))
    for nodes in m.utils.dump_tree(root):
        ppn.build_from_piece_pattern_nodes(r2, nodes[1:])
    check_tree(r2, seen)


def check_tree(root, seen):
    ids = sorted(tuple(id(n) for n in p) for p in walk(root))
    dumped = sorted(tuple(id(n) for n in p) for p in m.utils.dump_tree(root))
    need(ids == dumped or not seen, 'dump_tree gives %d paths, the tree has '
         '%d: not the same', len(dumped), len(ids))
    check_tree1(root, seen)


def check_tree1(root, seen):
    want = dict((tuple(spec.piece_text(p) for p in k), v)
                for k, v in seen.items())
    got = []
    for nodes in m.utils.dump_tree(root):
        need(nodes[0] is root, 'a dumped path does not start at the root')
        path = tuple(n.piece for n in nodes[1:])
        for i, n in enumerate(nodes):
            need(n.level == i, 'node %r has level %r', path[:i], n.level)
            if i:
                need(n.parrent is nodes[i - 1], 'node %r has another parent',
                     path[:i])
            c = sum(1 for k in want if k[:i] == path[:i])
            need(n.count == c, 'node %r has count %r, %d distinct paths go '
                 'through it', path[:i], n.count, c)
        got.append(path)
        mt = set(nodes[-1].meta) if nodes[-1].meta is not None else set()
        need(path in want, 'path %r was never loaded', path)
        need(mt == want[path], 'the leaf of %r has meta %r instead of %r',
             path, mt, want[path])
        for n in nodes[:-1]:
            need(not n.meta, 'an inner node of %r has meta %r', path, n.meta)
    need(sorted(got) == sorted(want), 'dumped paths %r, loaded %r', got,
         sorted(want))


def enum_c12(tier):
    for n in (8, 70, 300, 1100):
        for shape in ('metas', 'wide', 'deep', 'long', 'same'):
            yield {'shape': shape, 'n': min(n, 300) if shape == 'deep' else n}
    paths = [('a', 'a'), ('a', 'b'), ('b', 'a')]
    for n in range(1, 6 if tier == 'quick' else 7):
        for t in itertools.product(paths, repeat=n):
            yield [[list(p), i if i % 2 else None] for i, p in enumerate(t)]


# -------------------------------------------------------------------- CLI
def run_cli(which, argv, stdin=b'', cwd=None):
    """Run the command in a forked child; (exit status, stdout bytes)."""
    m.cmdline, m.pattern_maker, m.pattern_matcher
    d = tempfile.mkdtemp(prefix='pvcli')
    try:
        fi, fo = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(fi, 'wb') as f:
            f.write(stdin)
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                a = os.open(fi, os.O_RDONLY)
                b = os.open(fo, os.O_WRONLY | os.O_CREAT, 0o600)
                n = os.open(os.devnull, os.O_WRONLY)
                os.dup2(a, 0)
                os.dup2(b, 1)
                os.dup2(n, 2)
                import io
                import signal
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.stdin = io.TextIOWrapper(io.FileIO(0, 'r'),
                                             encoding='utf-8')
                sys.stdout = io.TextIOWrapper(
                    io.BufferedWriter(io.FileIO(1, 'w')), encoding='utf-8')
                # the command binds the standard streams when imported
                for k in [k for k in sys.modules
                          if k == 'os_urlpattern'
                          or k.startswith('os_urlpattern.')]:
                    del sys.modules[k]
                import importlib
                cl = importlib.import_module('os_urlpattern.cmdline')
                getattr(cl, which)(['prog'] + argv)
                sys.stdout.flush()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except BaseException:
                code = 98
            finally:
                try:
                    sys.stdout.flush()
                except BaseException:
                    code = code or 97
                os._exit(code & 0xff)
        _, st = os.waitpid(pid, 0)
        out = open(fo, 'rb').read() if os.path.exists(fo) else b''
        return (os.waitstatus_to_exitcode(st), out)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def gen_lines(rng, urls):
    out = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        x = rng.random()
        if x < .5 and urls:
            l = rng.choice(urls)
        elif x < .65:
            l = gen.any_url(rng)
        elif x < .75:
            l = rng.choice(['', ' ', '\t', 'abc', 'http://', '?', '#', 'a/b',
                            '/abc', '/[a-z]+', 'http://[/a', 'http://e.com',
                            'http://e.com/a?&', 'http://e.com/a b',
                            'http://e.com/a?b&&c', '[', 'mailto:x@y',
                            u'http://e.com/\u00e9', u'http://e.com/a?\u00e9',
                            '//', '//a/b', 'http://a]/b', u'\u2100://x/y'])
        elif x < .85:
            sp = [' ', '\t', '\r', '\x0b', '\x0c', '\x00', '\x1c', '\x1f',
                  u'\x85', u'\xa0', u'\u2003', u'\u3000', u'\u200b',
                  u'\ufeff']
            u = rng.choice(urls) if urls and rng.random() < .6 else \
                'http://e.com/q%d' % rng.randrange(1000)
            l = rng.choice([' ', '', '', rng.choice(sp)]) + u + rng.choice(
                [' ', '\t', '\r', rng.choice(sp), rng.choice(sp)])
        else:
            out.append(bytes(rng.randrange(256) for _ in range(
                rng.choice([1, 3, 8]))).replace(b'\n', b'?').hex())
            continue
        out.append(l.replace('\n', '').encode('utf-8').hex())
    return out


def gen_c13(rng):
    c = gen_patterns_urls(rng)
    c['lines'] = gen_lines(rng, c['urls'])
    c['plines'] = [b.hex() for b in (
        b'', b'garbage', b'/[a-z', b'/[]+', b'/\xff\xfe', b'/a[\\?]b&&c',
        b'http://e.com/x', b'/[a-z]{0}', b'/[0-9]+ ', b'/%', b'\xff')
        if rng.random() < .4]
    if rng.random() < .4:      # nearly a pattern of this URL
        x = rng.choice([b'', b' ', b'\t', b'\x0b', b'x', b'\xef\xbb\xbf',
                        b'\x00', b'\xc2\xa0', b'http://e.com', b'"'])
        y = rng.choice([b'/qq/ww7', b'/[a-z]{2}/ww7', b'/qq/[0-9a-z]+'])
        z = rng.choice([b'', b'', b' ', b'\r', b'\t', b'\x00', b' #', b'"'])
        c['plines'].append((x + y + z).hex())
        c['lines'].insert(rng.randrange(len(c['lines']) + 1),
                          b'http://e.com/qq/ww7'.hex())
    c['all'] = rng.random() < .4
    c['nl'] = rng.random() < .8
    if rng.random() < .1:
        c['log'] = rng.choice(['DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL'])
    return c


def unhex(l):
    return [bytes.fromhex(x) for x in l]


def many(case, lines):
    """the lines, among blank ones"""
    n = case.get('blank', 0)
    return [b''] * (n // 2) + lines + [b''] * (n - n // 2)


def log(case):
    return ['-l', case['log']] if case.get('log') else []


def enum_c13(tier):
    for n in (4994, 5001, 10100):      # the progress is logged now and then
        for l in (None, 'DEBUG'):
            yield {'made': [], 'seed': 1, 'patterns': ['/qq/ww7', '/qq/[0-9a-z]+'],
                   'urls': [], 'lines': [b'http://e.com/qq/ww7'.hex(),
                                         b'http://e.com/qq/8a'.hex()] * 4,
                   'plines': [b'garbage'.hex()], 'all': n > 10000,
                   'nl': True, 'blank': n, 'log': l}


def enum_c14(tier):
    u = [('http://e.com/a/%d' % i).encode().hex() for i in range(7)]
    for n in (4993, 5001, 10100):
        for l in (None, 'DEBUG'):
            yield {'lines': u, 'mcn': None, 'fmt': 'cluster', 'stdin': True,
                   'blank': n, 'log': l}


def check_c13(case):
    pats = all_patterns(case)
    pl = [p.encode('utf-8') for p in pats] + unhex(case['plines'])
    lines = many(case, unhex(case['lines']))
    pl = many(case, pl)
    data = b'\n'.join(lines) + (b'\n' if case['nl'] else b'')
    d = tempfile.mkdtemp(prefix='pvpat')
    try:
        pf = os.path.join(d, 'p')
        with open(pf, 'wb') as f:
            f.write(b'\n'.join(pl) + b'\n')
        argv = (['-a'] if case['all'] else []) + ['-p', pf] + log(case)
        st, out = run_cli('match', argv, data)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    need(st == 0, 'pattern-match ends with status %r on %r', st, data)
    import io
    inl = [l.strip() for l in io.BytesIO(data)]
    got = out.split(b'\n')
    need(out == b'' or got[-1] == b'', 'the last output line has no end')
    got = got[:-1]
    need(len(got) == len(inl), '%d output lines for %d input lines %r',
         len(got), len(inl), data)
    mt = m.pattern_matcher.PatternMatcher()
    for b in [x for x in io.BytesIO(b'\n'.join(pl) + b'\n')]:
        b = b.rstrip()
        if b.startswith(b'/'):
            raises(lambda: mt.load(b.decode('utf-8'),
                                   meta=b.decode('utf-8')))
    for g, l in zip(got, inl):
        need(g.endswith(b'\t' + l), 'output line %r for the input line %r',
             g, l)
        res = g[:len(g) - len(l) - 1]
        r, e = raises(lambda: mt.match(l.decode('utf-8')))
        if e is not None:
            need(res == b'E', 'result %r for the line %r, which cannot be '
                 'parsed (%r)', res, l, e)
        elif not r:
            need(res == b'N', 'result %r for the line %r, which nothing '
                 'matches', res, l)
        elif case['all']:
            need(sorted(res.decode('utf-8').split('\t')) ==
                 sorted(n.meta for n in r), 'result %r for the line %r, '
                 'matched by %r', res, l, [n.meta for n in r])
        else:
            best = max(r)
            tops = [n.meta for n in r if not n < best]
            need(res.decode('utf-8') in tops, 'result %r for the line %r, '
                 'the best match is %r', res, l, tops)


def gen_c14(rng):
    urls = [u for u in gen.url_set(rng) if is_loadable(u)]
    lines = [u.encode('utf-8').hex() for u in urls]
    for x in gen_lines(rng, urls):
        lines.insert(rng.randrange(len(lines) + 1), x)
    return {'lines': lines, 'mcn': rng.choice([None, 2, 3, 4, 6]),
            'fmt': rng.choice(['pattern', 'PATTERN', 'cluster', 'inline',
                               'json', None, 'null']),
            'stdin': rng.random() < .5,
            'log': rng.choice(['DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL'])
            if rng.random() < .1 else None}


def check_c14(case):
    lines = many(case, unhex(case['lines']))
    mcn = case['mcn']
    pm = m.pattern_maker.PatternMaker(config(mcn or 3))
    fmt = case['fmt'] or 'cluster'
    bind = fmt.upper() in ('CLUSTER', 'INLINE')
    import io
    data = b'\n'.join(lines) + b'\n'
    good = []
    for l in io.BytesIO(data):
        l = l.strip()
        r, e = raises(lambda: pm.load(l.decode('utf-8'),
                                      meta=l.decode('utf-8')
                                      if bind else None))
        if e is None:
            good.append(l)
    want = []
    combine = fmt.upper() == 'ETE'
    for maker in pm.makers:
        for root in maker.make(combine):
            for r in m.formatter.pformat(fmt, maker.url_meta, root):
                want.append(r)

    def run(ls):
        d = tempfile.mkdtemp(prefix='pvmk')
        try:
            argv = ['-f', case['fmt']] if case['fmt'] else []
            argv += log(case)
            if mcn:
                cf = os.path.join(d, 'c.cfg')
                with open(cf, 'w') as f:
                    f.write('[make]\nmin_cluster_num = %d\n' % mcn)
                argv += ['-c', cf]
            data = b''.join(l + b'\n' for l in ls)
            if case['stdin']:
                return run_cli('make', argv, data)
            inf = os.path.join(d, 'u')
            with open(inf, 'wb') as f:
                f.write(data)
            return run_cli('make', argv + ['-i', inf])
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
    st, out = run(lines)
    need(st == 0, 'pattern-make ends with status %r on %r', st, data)
    norm = lambda b: sorted(b.decode('utf-8').split('\n'))   # noqa
    need(norm(out) == sorted('\n'.join(want + ['']).split('\n')),
         'pattern-make writes %r, clustering the loadable lines gives %r',
         out[:600], want[:6])
    st2, out2 = run(good)
    need(st2 == 0 and norm(out2) == norm(out), 'without the bad lines the '
         'output is %r, with them %r', out2[:400], out[:400])


# ------------------------------------------------------------- formatters
def check_c15(case):
    pm, paths, urls = run_history(case)
    for um, root in pm.make():
        f = lambda k: list(m.formatter.pformat(k, um, root))     # noqa
        pats = f('pattern')
        need(len(pats) == 1, 'pattern format gives %r', pats)
        objs = []
        for nodes in walk(root):
            parts = tuple(str(n.pattern) for n in nodes[1:])
            need(packed(st_of(um), parts) == pats[0],
                 'the pattern format gives %r, a path of the cluster has '
                 'the patterns %r', pats[0], parts)
            for o in (nodes[-1].meta or ()):
                objs.append(o)
        c = f('cluster')
        need(c[:1] == pats and sorted(c[1:]) ==
             sorted('\t' + str(o) for o in objs), 'cluster format gives %r '
             'for pattern %r and objects %r', c, pats[0], objs)
        i = f('Inline')
        need(sorted(i) == sorted(pats[0] + '\t' + str(o) for o in objs),
             'inline format gives %r for pattern %r and objects %r', i,
             pats[0], objs)
        j = f('JSON')
        need(len(j) == 1 and json.loads(j[0]) == {
            'ptn': pats[0], 'cnt': root.count}, 'json format gives %r for '
            'pattern %r and count %r', j, pats[0], root.count)
        need(f('null') == [], 'null format gives %r', f('null'))


class Family(object):
    def __init__(self, name, gen, check, enum=None, share=1.0):
        self.name, self.gen, self.check = name, gen, check
        self.enum, self.share = enum, share


FAMILIES = {
    'C01': [Family('cluster', gen_cluster, check_c01, enum_cluster)],
    'C02': [Family('cluster', gen_cluster, check_c02, enum_cluster)],
    'C03': [Family('pairs', gen_c03, check_c03, share=.5),
            Family('made', gen_cluster, check_c03_made, enum_cluster,
                   share=.5)],
    'C04': [Family('match', gen_patterns_urls, check_c04, enum_patterns)],
    'C05': [Family('back', gen_c05, check_c05, enum_cluster, share=.7),
            Family('views', gen_views, check_views, enum_views,
                   share=.3)],
    'C06': [Family('parse', gen_c06, check_c06, enum_c06)],
    'C07': [Family('query', gen_c07, check_c07, enum_c07)],
    'C08': [Family('url', gen_c08, check_c08, enum_c08)],
    'C09': [Family('pattern', gen_c09, check_c09, enum_c09)],
    'C10': [Family('views', gen_c10, check_c10, enum_c10)],
    'C11': [Family('rank', gen_c11, check_c11),
            Family('spelling', gen_spelled, check_spelled)],
    'C12': [Family('tree', gen_c12, check_c12, enum_c12)],
    'C13': [Family('match-cli', gen_c13, check_c13, enum_c13)],
    'C14': [Family('make-cli', gen_c14, check_c14, enum_c14)],
    'C15': [Family('format', gen_cluster, check_c15, enum_cluster)],
    'C16': [Family('normalize', gen_c16, check_c16, enum_c16)],
    'C17': [Family('few', gen_c17, check_c17)],
}


def family(prop, name):
    for f in FAMILIES[prop]:
        if f.name == name:
            return f
    raise KeyError(name)
