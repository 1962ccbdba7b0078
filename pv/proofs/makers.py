"""Contracts of the makers and of the clustering workflow (C01, C02, C14)."""
from .. import heap, interp, loops, val
from ..core import ctx, PathEnd, Unsupported
from ..heap import Kind, event, each, prove_events, prove_each, collect
from ..val import Base, SeqAtom, SSeq, SList, SDict, prove_eq
from .base import task
from .trees import (stream, node_kind, PIECE, META, path_of, pattern_of,
                    PATTERN, pm, pc, pn, ut, pu)

at = lambda o, n: o.__pv_getattr__(None, n)


def replace(o, name, v):
    """Put an arbitrary value into an attribute that the object has."""
    if name not in [a for a, _ in loops.attrs_of(o)]:
        raise Unsupported('no attribute %s' % name)
    object.__setattr__(o, name, v)


MAPPED = Kind('config')
UMETA = Kind('url_meta')


@task('C02 C12 C14', 'pattern_maker.PatternMaker.load '
      'pattern_maker.PatternMaker.__init__')
def maker_load(I):
    """PatternMaker(config).load(url, meta) with any makers: what cannot be
    parsed as a URL is rejected and changes nothing; else the pieces and the
    meta are loaded, once, into the maker of their fuzzy digest, made from
    the structure and the config when there is none, and what its load gives
    is given"""
    c = ctx()
    url, meta = val.text('url'), META('meta')
    config = MAPPED('config')
    url_meta = UMETA('url_meta')
    sid = val.text('sid')
    is_url = True
    pieces = Base('pieces', lambda n: PIECE(n), minlen=1)
    pats = Base('patterns', lambda n: Kind('pattern')(n), minlen=1)

    class NotPiece(object):
        pass
    pats.elem = lambda n: Kind('pattern', cls=pa.Pattern)(n)
    got = []

    def parse(I, u):
        nonlocal is_url
        if val.veq(u, url) is not True:
            raise Unsupported('parse(%r)' % (u,))
        if c.choose(2, 'parse fails'):
            raise heap.any_error()
        is_url = not c.choose(2, 'pattern')
        return (url_meta, stream(pieces if is_url else pats))

    def digest(I, m, ps):
        if m is not url_meta or not val.entails_eq(
                SSeq(I.models.as_seq(I, ps).parts),
                stream(pieces if is_url else pats)):
            raise Unsupported('digest(%r, %r)' % (m, ps))
        return sid

    def load(I, o, ps, meta=None):
        event('load', o, SSeq(I.models.as_seq(I, ps).parts), meta)
        r = (Kind('leaf')('leaf'), bool(c.choose(2, 'new')))
        got.append(r)
        return r
    MAKER = Kind('maker', methods={'load': load})

    def new(I, m, cfg=None):
        o = MAKER('new maker')
        event('new', o, m, cfg)
        return o
    I.stubs['parser.parse'] = parse
    I.stubs['parser.fuzzy_digest'] = digest
    I.stubs['pattern_maker.Maker'] = new
    p = I.call(pm.PatternMaker, [config])
    known = []

    def value(k):
        o = MAKER('known maker')
        known.append((k, o))
        return o
    d = heap.unknown_dict(I, value, 'makers')
    replace(p, '_makers', d)
    try:
        r = I.call(I.getattr(p, 'load'), [url, meta])
    except Exception as e:
        c.prove(not is_url or not got, 'accepts a URL', repr(e))
        prove_events(heap.events(), [], 'a rejected URL has no effect')
        c.reach('rejected')
        return
    evs = heap.events()
    if not c.prove(is_url, 'rejects what is not a URL'):
        return
    mine = [o for k, o in known if val.veq(k, sid) is True]
    if mine:
        m = mine[0]
        evs = [e for e in evs if not (e[0] == 'put' and e[3] is m)]
        c.reach('known')
    else:
        news = [e for e in evs if e[0] == 'new']
        if not c.prove(len(news) == 1, 'one new maker', repr(evs)):
            return
        m = news[0][1]
        prove_events(news, [('new', m, url_meta, config)],
                     'the structure and the config')
        puts = [e for e in evs if e[0] == 'put']
        c.prove(len(puts) >= 1 and all(
            e[1] is d and e[3] is m and val.veq(e[2], sid) is True
            for e in puts), 'kept for the digest', repr(puts))
        evs = [e for e in evs if e[0] not in ('put', 'new')]
        c.reach('new')
    prove_events(evs, [('load', m, stream(pieces), meta)],
                 'loaded into the maker')
    c.prove(got and r is got[0] or r == got[0], 'the result', repr(r))


pa = interp.module('pattern')


def used_root(m):
    """The tree of the maker after any loads."""
    root = Kind('root', cls=pn.PiecePatternNode, attrs={
        'count': lambda o: val.new_int('count', 0)})('root')
    replace(m, '_root', root)
    return root


@task('C02 C12 C14', 'pattern_maker.Maker.load pattern_maker.Maker.__init__')
def sub_maker_load(I):
    """Maker(url_meta, config).load(pieces, meta): the path of the pieces is
    built in its own tree with this meta, counted once; the root has no
    piece"""
    c = ctx()
    config, url_meta = MAPPED('config'), UMETA('url_meta')
    pieces, meta = Base('pieces', PIECE, minlen=1), META('meta')
    res = (Kind('leaf')('leaf'), bool(c.choose(2, 'new')))

    def build(I, root, ps, count=1, meta=None, uniq=True):
        event('build', root, SSeq(I.models.as_seq(I, ps).parts), count, meta,
              bool(I.truth(uniq)))
        return res
    I.stubs['piece_pattern_node.build_from_parsed_pieces'] = build
    m = I.call(pm.Maker, [url_meta, config])
    fresh = object.__getattribute__(m, '_root')
    root = fresh
    if c.choose(2, 'loaded before'):
        root = used_root(m)
        c.reach('loaded before')
    r = I.call(I.getattr(m, 'load'), [stream(pieces), meta])
    evs = heap.events()
    prove_events(evs, [('build', root, stream(pieces), 1, meta, True)],
                 'the path is built')
    c.prove(r is res or r == res, 'the result', repr(r))
    ok = type(fresh) is pn.PiecePatternNode
    if c.prove(ok, 'a fresh root', repr(fresh)):
        a = dict(loops.attrs_of(fresh))
        prove_eq(a['count'], 0, 'nothing is counted yet')
        c.prove(a['parrent'] is None and not a['_children'] and
                a['meta'] is None, 'a fresh root', repr(a))
    c.prove(I.getattr(m, 'url_meta') is url_meta, 'its structure')
    c.reach('built')


@task('C02 C14', 'pattern_maker.PatternMaker.make '
      'pattern_maker.PatternMaker.makers')
def maker_make(I):
    """make(combine): for every maker, once, every cluster it makes, with the
    structure of the maker"""
    c = ctx()
    combine = bool(c.choose(2, 'combine'))

    def made(I, o, comb=False, **kw):
        if kw:
            comb = kw.pop('combine')
        prove_eq(bool(I.truth(comb)), combine, 'combine is passed on')
        if 'made' in o._a:
            c.record('made once', 'unknown')
            raise PathEnd()
        b = o._a['made'] = Base('clusters', lambda n: Kind('cluster')(n))
        um = at(o, 'url_meta')
        each(I, b, lambda r, evs: prove_events(
            evs, [('yield', (um, r))], 'every cluster of a maker'))
        return stream(b)

    MAKER = Kind('maker', attrs={'url_meta': lambda o: UMETA('url_meta')},
                 methods={'make': made})

    def one(m, evs):
        if c.prove('made' in m._a, 'every maker makes', repr(evs)):
            prove_each(evs, m._a['made'], 'all the clusters')
        c.reach('maker')
    p = I.call(pm.PatternMaker, [MAPPED('config')])
    d = heap.unknown_dict(I, lambda k: MAKER('maker'), 'makers')
    replace(p, '_makers', d)
    b = d.rest.seq(d, 'values').parts[0].base
    each(I, b, one)
    collect(I, I.call(I.getattr(p, 'make'), [combine]))
    prove_each(heap.events(), b, 'every maker')


@task('C02 C14', 'pattern_maker.Maker.make pattern_maker.Maker._cluster')
def sub_maker_make(I):
    """Maker.make(): the clusters of its own config, structure and tree, each
    once"""
    c = ctx()
    config, url_meta = MAPPED('config'), UMETA('url_meta')
    b = Base('clusters', lambda n: Kind('cluster')(n))
    calls = []

    def cluster(I, cfg, um, root, **kw):
        calls.append((cfg, um, root, kw))
        return stream(b)
    each(I, b, lambda r, evs: prove_events(evs, [('yield', r)],
                                           'every cluster'))
    I.stubs['pattern_cluster.cluster'] = cluster
    m = I.call(pm.Maker, [url_meta, config])
    root = used_root(m)
    g = I.call(I.getattr(m, 'make'), [])
    collect(I, g)
    if not calls and 'count' in root._a and \
            val.entails_eq(root._a['count'], 0):
        prove_events(heap.events(), [], 'no cluster of no path')
        return
    c.prove(len(calls) == 1 and calls[0][0] is config and
            calls[0][1] is url_meta and calls[0][2] is root and
            not calls[0][3], 'its config, structure and tree', repr(calls))
    prove_each(heap.events(), b, 'every cluster once')
    c.reach('made')


@task('C02', 'pattern_maker.Maker._combine_clusters utils.pick')
def combine(I):
    """Maker.make(combine=True): one tree: for every cluster, once, the path
    of its patterns, one node each, with the count of the cluster"""
    c = ctx()
    b = Base('clusters', lambda n: ROOT(n))
    ROOT = node_kind()

    def cluster(I, cfg, um, root, **kw):
        return stream(b)

    def dump(I, r):
        if 'paths' not in r._a:
            r._a['paths'] = Base('paths', lambda n: path_of(r), minlen=1)
            r._a['first'] = None
        return stream(r._a['paths'])

    roots = []

    def build(I, root, kvs, count=1, meta=None):
        event('build', root, SSeq(I.models.as_seq(I, kvs).parts), count,
              meta)
        return None, True

    def one(r, evs):
        if 'paths' not in r._a or len(evs) != 1 or evs[0][0] != 'build':
            c.record('every cluster is added', 'unknown' if evs else
                     'refuted', repr(evs))
            return
        ps = [p for p in r._a['paths'].parts() if isinstance(p, tuple)]
        if not ps:
            c.record('a path of the cluster', 'unknown', repr(evs))
            return
        nodes = SSeq(ps[0][1].seq.parts[1:])
        e = evs[0]
        roots.append(e[1])
        prove_eq(e[2], nodes.map(lambda n: (pattern_of(n), pattern_of(n))),
                 'one node per pattern')
        prove_eq(e[3], at(r, 'count'), 'the count of the cluster')
        c.prove(e[4] is None, 'no meta', repr(e[4]))
        c.reach('cluster')
    I.stubs['pattern_cluster.cluster'] = cluster
    I.stubs['utils.dump_tree'] = dump
    I.stubs['utils.build_tree'] = build
    each(I, b, one)
    m = I.call(pm.Maker, [UMETA('url_meta'), MAPPED('config')])
    used_root(m)
    collect(I, I.call(I.getattr(m, 'make'), [True]))
    evs = heap.events()
    ys = [e for e in evs if e[0] == 'yield']
    if not c.prove(len(ys) == 1 and evs and evs[-1] is ys[0],
                   'one tree, at the end', repr(evs)):
        return
    root = ys[0][1]
    c.prove(all(r is root for r in roots) and type(root) is ut.TreeNode,
            'the tree that was built', repr((root, roots)))
    prove_each(evs[:-1], b, 'every cluster once')


@task('C02 C01', 'pattern_cluster.split_by_pattern')
def split(I):
    """split_by_pattern(root): every path is copied, once, into the tree kept
    for the sequence of its patterns, a fresh one if there was none; gives
    the trees"""
    import builtins
    c = ctx()
    root = node_kind()('root')
    paths = Base('paths', lambda n: path_of(root), minlen=1)

    class Hash(object):
        """the hash of a text: no collisions"""
        def __init__(self, t):
            self.t = t

        def __veq__(self, o):
            if isinstance(o, Hash):
                return val.veq(self.t, o.t)
            return False

        def __repr__(self):
            return 'hash(%r)' % (self.t,)
    c.assumed.add('hash() has no collisions on the pattern texts')
    I.ext[builtins.hash] = lambda I, t: Hash(t)
    known = []

    def value(k):
        o = node_kind()('sub root')
        known.append((k, o))
        return o

    def build(I, r, nodes):
        event('build', r, SSeq(I.models.as_seq(I, nodes).parts))
        return Kind('leaf')('leaf'), True

    def one(p, evs):
        want = I.models.method(I, '/', 'join', [p.seq.map(
            lambda n: pattern_of(n).__pv_str__(I))], {})
        puts = [e for e in evs if e[0] == 'put']
        builds = [e for e in evs if e[0] == 'build']
        if len(puts) + len(builds) != len(evs) or len(builds) != 1 or \
                len(puts) > 1:
            c.record('every path is copied once', 'refuted'
                     if not builds else 'unknown', repr(evs))
            return
        r = builds[0][1]
        keys = [k for k, o in known if o is r] + [e[2] for e in puts]
        if len(keys) == 1 and isinstance(keys[0], (str, val.SStr)) and \
                val.entails_eq(keys[0], want):
            c.record('kept for its patterns', 'proved')
        elif len(keys) != 1 or not isinstance(keys[0], Hash):
            c.record('kept for its patterns', 'unknown', repr((keys, evs)))
            return
        else:
            prove_eq(keys[0].t, want, 'kept for its patterns')
        if puts:
            c.prove(puts[0][3] is r and type(r) is pn.PiecePatternNode,
                    'a fresh tree', repr(evs))
            c.reach('new tree')
        else:
            c.reach('known tree')
        prove_eq(builds[0][2], SSeq(p.seq.parts[1:]), 'the whole path')

    I.stubs['utils.dump_tree'] = lambda I, r: stream(paths)
    I.stubs['piece_pattern_node.build_from_piece_pattern_nodes'] = build
    sp = each(I, paths, one)
    sp.map_value = value
    got = I.call(pc.split_by_pattern, [root])
    prove_each(heap.events(), paths, 'every path once')
    got = SSeq(I.models.as_seq(I, got).parts)
    ok = len(got.parts) == 1 and isinstance(got.parts[0], SeqAtom) and \
        got.parts[0].fn is val.ident
    c.prove(ok or None, 'all the trees', repr(got))


@task('C02 C01', 'pattern_cluster.cluster')
def cluster_flow(I):
    """cluster(config, url_meta, root, **kw), assuming its contract for
    smaller trees: nothing for an empty tree; the tree itself when process()
    says that it cannot be split; else every cluster of every sub-tree,
    once"""
    c = ctx()
    config, url_meta = MAPPED('config'), UMETA('url_meta')
    kw = {'last_path_as_pattern': True} if c.choose(2, 'kw') else {}
    ROOT = Kind('tree', attrs={'count': lambda o: val.new_int('count', 0)})
    root = ROOT('root')
    subs = Base('subs', lambda n: ROOT(n), minlen=1)
    calls = []

    def process(I, cfg, um, r, **k):
        calls.append((cfg, um, r, k))
        if cfg is not config or um is not url_meta or k != kw:
            c.record('process gets the arguments', 'refuted', repr(k))
        return bool(c.choose(2, 'split'))

    def sub(I, cfg, um, r, **k):
        if cfg is not config or um is not url_meta or k != kw:
            c.record('the recursion gets the arguments', 'refuted', repr(k))
        b = Base('clusters', lambda n: ROOT(n))
        event('sub', r, b)
        each(I, b, lambda x, evs: prove_events(evs, [('yield', x)],
                                               'every cluster'))
        return stream(b)

    def one(r, evs):
        s = [e for e in evs if e[0] == 'sub']
        if c.prove(len(s) == 1 and s[0][1] is r, 'every tree is clustered',
                   repr(evs)):
            prove_each([e for e in evs if e[0] != 'sub'], s[0][2],
                       'all its clusters')
        c.reach('sub')

    def split(I, r):
        if r is not root:
            raise Unsupported('splits another tree')
        return stream(subs)
    each(I, subs, one)
    I.stubs['pattern_cluster.process'] = process
    I.stubs['pattern_cluster.split_by_pattern'] = split
    I.recursive = sub
    collect(I, I.call(pc.cluster, [config, url_meta, root], kw))
    I.recursive = None
    evs = heap.events()
    if not calls:
        c.prove(at(root, 'count').z <= 0, 'processed', 'not processed')
        prove_events(evs, [], 'an empty tree')
        c.reach('empty')
        return
    c.prove(len(calls) == 1 and calls[0][2] is root, 'processed once',
            repr(calls))
    if [e[0] for e in evs] == ['yield']:
        prove_events(evs, [('yield', root)], 'the tree')
        c.reach('whole')
    else:
        prove_each(evs, subs, 'all the sub-trees')
        c.reach('parts')
