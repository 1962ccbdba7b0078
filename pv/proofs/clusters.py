"""Contracts of the clusters of one level (C01, C17).

The nodes of a level are in bags (same piece), the bags in buckets (same
length, same view).  What a cluster does with each of them: it gives it a
pattern, notes that pattern, or hands it to a later cluster."""
import builtins

import z3

from .. import heap, interp, loops, val
from ..core import ctx, PathEnd, Unsupported
from ..heap import Kind, event, each, prove_events, prove_each, \
    collect, show
from ..val import Base, SeqAtom, SSeq, SInt, prove_eq
from .base import task
from .makers import replace, at
from .trees import (stream, node_kind, path_of, pattern_of, PATTERN, META,
                    pc, pn, ut)

pu = interp.module('parse_utils')
pa = interp.module('pattern')
pv = interp.module('parsed_piece_view')
CLASSES = list(pc.CLUSTER_CLASSES)


def note_all(I, o, ps):
    loops.run_callback(I, I.models.iterate(I, ps),
                       lambda p: event('note', p), {})


class World(object):
    """The processor of a level and everything around a cluster."""

    def __init__(self, I, cls, root=False):
        c = self.c = ctx()
        self.I, self.cls = I, cls
        self.mcn = val.new_int('mcn', 2)
        self.rule = val.text('rule', minlen=1)
        self.url_meta = Kind('url_meta')('url_meta')
        self.config = Kind('config', methods={'getint': self.getint})('cfg')
        self.sizes = []                  # (base, total count)
        CLUSTER = Kind('cluster', methods={'add': self.forward})
        targets = {}

        def get(I, o, k):
            if k not in CLASSES:
                raise Unsupported('get_cluster(%r)' % (k,))
            if k not in targets:
                targets[k] = CLUSTER(k.__name__, which=k)
            return targets[k]
        PRE = Kind('processor above', methods={
            'seek_cluster': lambda I, o, p: bool(c.choose(2, 'seek'))})
        self.kw = {}
        k = c.choose(3, 'kwargs') if cls is pc.PiecePatternCluster else 0
        if k:
            self.kw = {'last_path_as_pattern': k == 2}
        last = bool(c.choose(2, 'last level')) \
            if cls is pc.PiecePatternCluster else None
        PROC = Kind('processor', attrs={
            'config': lambda o: self.config, 'kwargs': lambda o: self.kw,
            'pre_level_processor': lambda o: None if root else PRE('pre')},
            methods={
            'get_cluster': get,
            'is_last_level': lambda I, o: last,
            'is_last_path': lambda I, o: bool(c.choose(2, 'last path'))})
        self.processor = PROC('processor')
        self.PIECE = Kind('parsed piece', attrs={
            'pieces': lambda o: stream(Base('runs', lambda n: val.text(n),
                                            minlen=1)),
            'piece': lambda o: val.text('piece'),
            'piece_length': lambda o: val.new_int('length', 0),
            'fuzzy_rule': lambda o: self.rule})
        self.NODE = Kind('node', cls=pn.PiecePatternNode, attrs={
            'parsed_piece': lambda o: self.PIECE('pp'),
            'piece': lambda o: at(at(o, 'parsed_piece'), 'piece'),
            'pattern': lambda o: PATTERN('current')})
        self.BAG = Kind('bag', cls=pc.PieceBag, attrs={
            'count': lambda o: val.new_int('count', 1),
            'node': lambda o: self.NODE('node'),
            'p_nodes': lambda o: None,
            'stats': lambda o: STATS('stats', bag=o)}, methods={
            'pick': lambda I, o: self.pick(o),
            'set_pattern': self.set_pattern})
        STATS = Kind('stats', item=lambda I, o, k: at(o._a['bag'], 'count')
                     if k == 'count' else val.new_int('stat', 0))
        self.BUCKET = Kind('bucket', cls=pc.PieceBagBucket, attrs={
            'node': lambda o: self.NODE('node'),
            'bags': self.bags, 'p_nodes': lambda o: None,
            'count': lambda o: self.total(at(o, 'bags'))},
            iter=lambda I, o: stream(at(o, 'bags')),
            length=lambda I, o: SInt(at(o, 'bags').zlen),
            methods={'pick': lambda I, o: self.pick(o),
                     'set_pattern': self.set_pattern})
        self.PATTERNS = Kind('patterns', methods={
            'add': lambda I, o, p: event('note', p), 'update': note_all})
        I.ext[builtins.max] = self.biggest
        self.views(I)

    def getint(self, I, o, section, option):
        if (section, option) != ('make', 'min_cluster_num'):
            raise Unsupported('getint(%r, %r)' % (section, option))
        return self.mcn

    # -- bags
    def bags(self, o):
        b = Base('bags', self.BAG, minlen=1)
        if self.cls is pc.LengthPatternCluster:
            # their pieces have one length, and differ
            n = at(at(at(o, 'node'), 'parsed_piece'), 'piece_length')
            self.c.assume(z3.Implies(n.z == 0, b.zlen == 1))
        each(self.I, b, self.one_bag)
        return b

    def one_bag(self, bag, evs):
        """the pattern that the bag has is noted"""
        self.noted(bag, evs)

    def total(self, base):
        """The sum of the counts of a base, each of which is at least 1."""
        for b, n in self.sizes:
            if b is base:
                return n
        n = val.new_int('total', 0)
        self.c.assume(n.z >= base.zlen)
        self.c.assume((n.z == 0) == (base.zlen == 0))
        self.sizes.append((base, n))
        return n

    def biggest(self, I, x, key=None):
        """max(bags, key=count): one of them, with a possible count; max of
        the counts: that count"""
        s = SSeq(I.models.as_seq(I, x).parts)
        if len(s.parts) != 1 or not isinstance(s.parts[0], SeqAtom):
            raise Unsupported('max of %r' % (x,))
        base, fn = s.parts[0].base, s.parts[0].fn
        if fn is val.ident and key is None:
            raise Unsupported('max of %r' % (x,))
        if not I.truth(s):
            raise ValueError('empty')
        e = base.fresh_elem()
        r = fn(e)
        k = r if key is None else I.call(key, [r])
        n, t = at(e, 'count'), self.total(base)
        if val.veq(k, n) is not True:
            raise Unsupported('max by something else')
        self.c.assume(n.z + base.zlen - 1 <= t.z)
        self.c.assume(t.z <= n.z * base.zlen)
        return r

    def pick(self, o):
        if any(e[0] == 'set' and e[1] is o for e in self.c.events):
            # only its pattern has changed
            n = at(o, 'node')
            return self.NODE('node', parsed_piece=at(n, 'parsed_piece'),
                             pattern=[e[2] for e in self.c.events
                                      if e[0] == 'set' and e[1] is o][-1])
        return at(o, 'node')

    def set_pattern(self, I, o, p):
        event('set', o, p)

    def forward(self, I, o, x):
        event('forward', o._a['which'], x)

    # -- views
    def views(self, I):
        c = self.c
        pairs = []

        def same(a, b):
            for x, y, r in pairs:
                if x is a and y is b or x is b and y is a:
                    return r
            r = val.new_bool('same view').z
            pairs.append((a, b, r))
            return r
        VIEW = Kind('view', attrs={
            'parsed_pieces': lambda o: stream(Base(
                'parts', self.PIECE, minlen=1))}, eq=same)

        def make(cls):
            def f(I, pp):
                o = VIEW(cls.__name__, of=pp, which=cls)
                return o
            return f
        for cls in (pv.MultiView, pv.MixedView, pv.LastDotSplitFuzzyView,
                    pv.FuzzyView):
            I.stubs['parsed_piece_view.' + cls.__name__] = make(cls)
        self.VIEW = VIEW

    def cluster(self):
        o = self.I.call(self.cls, [self.processor])
        replace(o, '_patterns', self.PATTERNS('patterns'))
        return o

    def view_bag(self, name):
        bag = self.BAG('bag')
        v = self.VIEW('view', of=at(self.pick(bag), 'parsed_piece'),
                      which=None)
        return Kind('view bag', methods={
            'set_pattern': lambda I, o, p: event('set', bag, p)},
            iter=lambda I, o: SSeq([('e', v), ('e', bag)]))(
                name, view=v, piece_bag=bag)

    # -- what has to be done
    def noted(self, o, evs):
        c = self.c
        cur = at(at(o, 'node'), 'pattern')
        c.prove(len(evs) == 1 and evs[0][0] == 'note' and evs[0][1] is cur,
                'the pattern it has is noted', show(evs))

    def text(self, p):
        if isinstance(p, heap.Obj):
            return p.__pv_str__(self.I)
        if type(p) is not pa.Pattern:
            raise Unsupported('pattern %r' % (p,))
        return object.__getattribute__(p, 'pattern_string')

    def forwarded(self, e, bag):
        """this event hands the bag to a later cluster"""
        c = self.c
        k, x = e[1], e[2]
        c.prove(CLASSES.index(k) > CLASSES.index(self.cls),
                'handed to a later cluster', show(e))
        if issubclass(k, pc.MultiPatternCluster):
            b = self.I.getattr(x, 'piece_bag') if x is not bag else None
            if not c.prove(b is bag, 'handed on with a view', show(e)):
                return
            v = self.I.getattr(x, 'view')
            if not isinstance(v, heap.Obj) or 'of' not in v._a:
                raise Unsupported('view %r' % (v,))
            c.prove(v._a['of'] is at(at(bag, 'node'), 'parsed_piece'),
                    'a view of its piece', show(v))
        else:
            c.prove(x is bag, 'handed on', show(e))


def kinds(evs, *names):
    out = [[e for e in evs if e[0] == n] for n in names]
    if sum(map(len, out)) != len(evs):
        return None
    return out


@task('C01 C17', 'pattern_cluster.PiecePatternCluster.cluster '
      'pattern_cluster.PiecePatternCluster._set_pattern pattern_cluster.'
      'PiecePatternCluster._add_to_forward_cluster '
      'pattern_cluster.PatternCluster.__init__')
def piece_cluster(I):
    """PiecePatternCluster.cluster() with any bags and any min_cluster_num:
    every bag gets the literal text of its piece as its pattern, and either
    that pattern is noted or the bag is handed to one later cluster, as it is
    or with a view of its piece; the only bag of the root, above which there
    is no processor, is not handed on"""
    c = ctx()
    root = bool(c.choose(2, 'root'))
    w = World(I, pc.PiecePatternCluster, root)
    bags = Base('bags', w.BAG)
    if root:
        c.assume(bags.zlen == 1)

    def one(bag, evs):
        ks = kinds(evs, 'set', 'note', 'forward')
        if ks is None:
            c.record('every bag', 'unknown', show(evs))
            return
        sets, notes, fw = ks
        piece = at(at(bag, 'node'), 'piece')
        if not c.prove(len(sets) >= 1 and all(e[1] is bag for e in sets),
                       'every bag gets a pattern', show(evs)):
            return
        for e in sets:
            prove_eq(w.text(e[2]), piece, 'its literal text')
        c.prove(len(fw) + (len(notes) > 0) == 1,
                'the pattern is noted or the bag is handed on', show(evs))
        for e in notes:
            prove_eq(w.text(e[1]), piece, 'its pattern is noted')
            c.reach('noted')
        for e in fw:
            if not c.prove(not root, 'the root is not handed on', show(evs)):
                return
            w.forwarded(e, bag)
            c.reach('handed to ' + e[1].__name__)
    each(I, bags, one)
    BUCKET = Kind('bucket', iter=lambda I, o: stream(bags),
                  length=lambda I, o: SInt(bags.zlen),
                  attrs={'count': lambda o: w.total(bags)})
    cl = w.cluster()
    replace(cl, '_bucket', BUCKET('bucket'))
    I.call(I.getattr(cl, 'cluster'), [])
    prove_each(heap.events(), bags, 'every bag once')


@task('C01 C17', 'pattern_cluster.LengthPatternCluster.cluster '
      'pattern_cluster.LengthPatternCluster._set_pattern '
      'pattern_cluster.LengthPatternCluster._length_as_cluster '
      'pattern_cluster.LengthPatternCluster._update_patterns '
      'pattern_cluster.confused parse_utils.specify_rule')
def length_cluster(I):
    """LengthPatternCluster.cluster() with any buckets of bags with pieces of
    one length: a bucket gets the pattern [rule]{length}, the rule that of
    its pieces, only if it has at least min_cluster_num paths, and that
    pattern is noted, or the bucket is handed to a later cluster; else the
    patterns of all its bags are noted, or it is handed on"""
    c = ctx()
    w = World(I, pc.LengthPatternCluster)
    cl = w.cluster()
    d = heap.unknown_dict(I, lambda k: w.BUCKET('bucket'), 'lengths')
    replace(cl, '_length_buckets', d)
    b = d.rest.base(d)

    def one(bucket, evs):
        sets = [e for e in evs if e[0] == 'set']
        fw = [e for e in evs if e[0] == 'forward']
        rest = [e for e in evs if e[0] not in ('set', 'forward')]
        pp = at(at(bucket, 'node'), 'parsed_piece')
        for e in sets:
            c.prove(e[1] is bucket, 'the pattern of the bucket', show(e))
            n = at(pp, 'piece_length')
            want = I.call(pu.specify_rule, [w.rule, n])
            prove_eq(w.text(e[2]), want, '[rule]{length}')
            c.prove(at(bucket, 'count').z >= w.mcn.z,
                    'min_cluster_num paths', show(evs))
            c.reach('set')
        if fw:
            if c.prove(len(fw) == 1 and not rest, 'handed on, or noted',
                       show(evs)):
                w.forwarded(fw[0], bucket)
                c.reach('handed on')
        elif sets:
            if rest and all(e[0] == 'note' for e in rest):
                for e in rest:
                    prove_eq(w.text(e[1]), w.text(sets[-1][2]),
                             'its pattern is noted')
                c.reach('noted')
            else:
                c.record('its pattern is noted', 'unknown' if rest else
                         'refuted', show(evs))
        else:
            prove_each(rest, at(bucket, 'bags'),
                       'the patterns of all its bags are noted')
            c.reach('patterns noted')
    each(I, b, one)
    I.call(I.getattr(cl, 'cluster'), [])
    prove_each(heap.events(), b, 'every bucket once')


@task('C01', 'pattern_cluster.LengthPatternCluster.add '
      'pattern_cluster.LengthPatternCluster.__init__')
def length_add(I):
    """LengthPatternCluster.add(bag): the bag is added to the bucket of the
    length of its piece, a new one when there is none"""
    c = ctx()
    w = World(I, pc.LengthPatternCluster)
    cl = w.cluster()
    BUCKET = Kind('bucket', methods={
        'add': lambda I, o, x: event('add', o, x)})
    I.stubs['pattern_cluster.PieceBagBucket'] = \
        lambda I: BUCKET('new bucket')
    known = keyed(I, cl, '_length_buckets', lambda: BUCKET('bucket'))
    bag = w.BAG('bag')
    I.call(I.getattr(cl, 'add'), [bag])
    n = at(at(at(bag, 'node'), 'parsed_piece'), 'piece_length')
    added_to(known, bag, n, 'the bucket of its length')


def keyed(I, o, name, mk):
    known = []

    def value(k):
        x = mk()
        known.append((k, x))
        return x
    d = heap.unknown_dict(I, value, name)
    replace(o, name, d)
    return known, d


def added_to(known, x, key, name, extra=()):
    """x was added, once, to the entry of key"""
    c = ctx()
    known, d = known
    evs = heap.events()
    adds = [e for e in evs if e[0] == 'add']
    puts = [e for e in evs if e[0] == 'put' and e[1] is d]
    if len(adds) + len(puts) != len(evs):
        c.record(name, 'unknown', show(evs))
        return
    if not c.prove(len(adds) == 1 and adds[0][2] is x, 'added once',
                   show(evs)):
        return
    o = adds[0][1]
    keys = [k for k, y in known if y is o] + \
        [e[2] for e in puts if e[3] is o]
    if c.prove(len(keys) >= 1 or None, name, show(evs)):
        for k in keys:
            if isinstance(k, heap.Obj) or isinstance(key, heap.Obj):
                c.prove(k is key or None, name, show((k, key)))
            else:
                prove_eq(k, key, name)
    c.prove(all(e[3] is o for e in puts), 'the others stay', show(puts))
    c.reach('known' if any(y is o for _, y in known) else 'new')


MULTI = [k for k in CLASSES if issubclass(k, pc.MultiPatternCluster)]


@task('C01', 'pattern_cluster.MultiPatternCluster.add '
      'pattern_cluster.MultiPatternCluster.__init__')
def multi_add(I):
    """add(view bag) of a cluster by views: the bag is added to the bucket of
    its view, a new one when there is none, whose levels are the parts of the
    view"""
    c = ctx()
    w = World(I, MULTI[c.choose(len(MULTI), 'class')])
    cl = w.cluster()
    BUCKET = Kind('bucket', methods={
        'add': lambda I, o, x: event('add', o, x)})

    def new(I, meta):
        return BUCKET('new bucket', meta=meta)
    I.stubs['pattern_cluster.ViewPieceBagBucket'] = new
    known = keyed(I, cl, '_buckets', lambda: BUCKET('bucket'))
    x = w.view_bag('view bag')
    I.call(I.getattr(cl, 'add'), [x])
    v = I.getattr(x, 'view')
    added_to(known, x, v, 'the bucket of its view')
    for e in heap.events():
        if e[0] == 'add' and 'meta' in e[1]._a:
            m = e[1]._a['meta']
            prove_eq(I.getattr(m, 'depth'), I.models.b_len(
                I, I.getattr(v, 'parsed_pieces')), 'one level per part')


@task('C01 C17', 'pattern_cluster.MultiPatternCluster.cluster '
      'pattern_cluster.MultiPatternCluster._cluster '
      'pattern_cluster.MultiPatternCluster._to_forward_cluster '
      'pattern_cluster.MultiPatternCluster._as_cluster '
      'pattern_cluster.MultiPatternCluster._set_pattern '
      'pattern_cluster.BasePatternCluster._add_to_forward_cluster '
      'pattern_cluster.MixedPatternCluster._add_to_forward_cluster '
      'pattern_cluster.LastDotSplitFuzzyPatternCluster.'
      '_add_to_forward_cluster pattern_cluster.'
      'LastDotSplitFuzzyPatternCluster._cluster')
def multi_cluster(I):
    """cluster() of a cluster by views, with any buckets: every view bag of a
    bucket is handed to one later cluster, as its bag or with a view of its
    piece; or the bucket is clustered with the same configuration, and of
    each (part, pattern) that gives, the part gets that pattern, which is
    noted, only if it has at least min_cluster_num paths, or every view bag
    of it is handed on"""
    c = ctx()
    k = c.choose(len(MULTI), 'class')
    w = World(I, MULTI[k])
    cl = w.cluster()

    def one_bag(x, evs):
        if c.prove(len(evs) == 1 and evs[0][0] == 'forward' or (
                None if evs else False),
                'every view bag is handed on once', show(evs)):
            w.forwarded(evs[0], x._a['piece_bag'])
            c.reach('handed on')

    def view_bags(o):
        b = Base('view bags', lambda n: w.view_bag('view bag'), minlen=1)
        each(I, b, one_bag)
        return b

    def count(o):
        return w.total(at(o, 'bags'))
    common = dict(attrs={'bags': view_bags, 'count': count},
                  iter=lambda I, o: stream(at(o, 'bags')),
                  length=lambda I, o: SInt(at(o, 'bags').zlen))
    PART = Kind('part', methods={'set_pattern': w.set_pattern}, **common)

    def one_part(x, evs):
        part, pattern = x
        sets = [e for e in evs if e[0] == 'set']
        if not sets:
            prove_each(evs, at(part, 'bags'), 'every view bag is handed on')
            return
        notes = [e for e in evs if e[0] == 'note']
        if len(sets) + len(notes) < len(evs):
            c.record('a part gets its pattern', 'unknown', show(evs))
            return
        c.prove(all(e[1] is part and e[2] is pattern for e in sets),
                'a part gets its pattern', show(evs))
        c.prove(len(notes) > 0 and all(e[1] is pattern for e in notes),
                'which is noted', show(evs))
        c.prove(at(part, 'count').z >= w.mcn.z, 'min_cluster_num paths',
                show(evs))
        c.reach('set')

    def clustered(I, o, config, **kw):
        if at(o, 'done'):
            raise Unsupported('clustered twice')
        o._a['done'] = True
        c.prove(config is w.config, 'the same configuration', show(config))
        b = o._a['parts'] = Base(
            'parts', lambda n: (PART('part'), PATTERN('pattern')))
        each(I, b, one_part)
        return stream(b)
    BUCKET = Kind('bucket', methods={'cluster': clustered}, **common)
    d = heap.unknown_dict(
        I, lambda k: BUCKET('bucket', done=False, parts=None), 'buckets')
    replace(cl, '_buckets', d)
    b = d.rest.base(d)

    def one(bucket, evs):
        if bucket._a['parts'] is not None:
            prove_each(evs, bucket._a['parts'], 'every part once')
            c.reach('clustered')
        else:
            prove_each(evs, at(bucket, 'bags'), 'every view bag once')
    each(I, b, one)
    I.call(I.getattr(cl, 'cluster'), [])
    prove_each(heap.events(), b, 'every bucket once')


def fuzzy_state(I):
    """A FuzzyPatternCluster in any state: (world, cluster, cached, pattern).
    What is cached has at least min_cluster_num paths when the pattern is
    enforced, and only then is there a pattern, which is [rule]+ and noted"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    cl = w.cluster()
    rest = Base('cached', w.BUCKET)

    def one(bucket, evs):
        prove_each(evs, at(bucket, 'bags'), 'the patterns of all its bags')
    each(I, rest, one)

    def add(I, o, x):
        event('cache', x)
        o._a['size'] = val.mkint(o._a['size'].z + 1)
        o._a['count'] = val.mkint(at(o, 'count').z + at(x, 'count').z)

    def buckets(I, o):
        if any(e[0] == 'cache' for e in c.events):
            raise Unsupported('iteration of a changed bag')
        return stream(rest)
    CACHED = Kind('cached', attrs={
        'count': lambda o: w.total(rest), 'node': lambda o: w.NODE('node')},
        iter=buckets, length=lambda I, o: o._a['size'], methods={
            'add': add, 'pick': lambda I, o: w.pick(o),
            'set_pattern': w.set_pattern})
    cached = CACHED('cached', size=SInt(rest.zlen))
    replace(cl, '_cached', cached)
    k = c.choose(3, 'state')
    pattern = None
    if k:
        c.assume(at(cached, 'count').z >= w.mcn.z)
        if k == 2:
            pattern = Kind('pattern', string=lambda I, o: I.call(
                pu.specify_rule, [w.rule, -1]))('fuzzy')
    replace(cl, '_force_pattern', k > 0)
    replace(cl, '_fuzzy_pattern', pattern)
    return w, cl, cached, pattern, rest


def fuzzy_set(I, w, cached, x, pattern, evs):
    """x gets [rule]+, which is or was noted"""
    c = ctx()
    sets = [e for e in evs if e[0] == 'set']
    notes = [e for e in evs if e[0] == 'note']
    if len(sets) + len(notes) < len(evs):
        c.record('[rule]+', 'unknown', show(evs))
        return
    want = I.call(pu.specify_rule, [w.rule, -1])
    for e in sets:
        c.prove(e[1] is x, 'it gets the pattern', show(evs))
        prove_eq(w.text(e[2]), want, '[rule]+')
    for e in notes:
        prove_eq(w.text(e[1]), want, 'the pattern is noted')
    c.prove(len(notes) > 0 or pattern is not None, 'noted', show(evs))
    c.prove(at(cached, 'count').z >= w.mcn.z, 'min_cluster_num paths',
            show(evs))


@task('C01 C17', 'pattern_cluster.FuzzyPatternCluster.add '
      'pattern_cluster.FuzzyPatternCluster.__init__ '
      'pattern_cluster.FuzzyPatternCluster._set_pattern '
      'parse_utils.wildcard_rule')
def fuzzy_add(I):
    """FuzzyPatternCluster.add(bucket) in any state: the bucket is kept for
    cluster(), or gets [rule]+, which is noted, when at least min_cluster_num
    paths are already kept; the invariant of the state is kept, and holds for
    a new one"""
    c = ctx()
    w, cl, cached, pattern, rest = fuzzy_state(I)
    bucket = w.BUCKET('bucket')
    if c.choose(2, 'new'):
        x = I.call(w.cls, [w.processor])
        c.prove(not I.truth(I.getattr(x, '_force_pattern')) and
                I.getattr(x, '_fuzzy_pattern') is None, 'a new one')
        c.reach('new')
        return
    I.call(I.getattr(cl, 'add'), [bucket])
    evs = heap.events()
    caches = [e for e in evs if e[0] == 'cache']
    if caches:
        c.prove(len(evs) == 1 and evs[0][1] is bucket, 'kept, once',
                show(evs))
        c.reach('kept')
    elif c.prove(any(e[0] == 'set' for e in evs), 'kept, or set', show(evs)):
        fuzzy_set(I, w, cached, bucket, pattern, evs)
        c.reach('set')
    force = I.getattr(cl, '_force_pattern')
    p = I.getattr(cl, '_fuzzy_pattern')
    if I.truth(force):
        c.prove(at(cached, 'count').z >= w.mcn.z, 'enforced with enough',
                show(evs))
        if p is not None and p is not pattern:
            prove_eq(w.text(p), I.call(pu.specify_rule, [w.rule, -1]),
                     'the pattern kept')
            c.prove(any(e[0] == 'note' for e in evs), 'is noted', show(evs))
    else:
        c.prove(p is None, 'no pattern yet')


@task('C01 C17', 'pattern_cluster.FuzzyPatternCluster.cluster '
      'pattern_cluster.FuzzyPatternCluster._update_patterns '
      'pattern_cluster.FuzzyPatternCluster._set_pattern '
      'pattern_cluster.confused')
def fuzzy_cluster(I):
    """FuzzyPatternCluster.cluster() in any state: what was kept gets [rule]+,
    which is noted, only with at least min_cluster_num paths; else the
    patterns of all its bags are noted"""
    c = ctx()
    w, cl, cached, pattern, rest = fuzzy_state(I)
    I.call(I.getattr(cl, 'cluster'), [])
    evs = heap.events()
    if any(e[0] == 'set' for e in evs):
        fuzzy_set(I, w, cached, cached, pattern, evs)
        c.reach('set')
    else:
        prove_each(evs, rest, 'every bucket kept')
        c.reach('noted')


# ------------------------------------------------------------ bags, buckets
def stats(o):
    """o.stats with any values; what is written."""
    vals, wrote = {}, []

    def get(I, s, k):
        if not isinstance(k, str):
            raise Unsupported('stats[%r]' % (k,))
        for a, b in reversed(wrote):
            if a == k:
                return b
        return vals.setdefault(k, val.new_int('stats.' + k, 0))

    def put(I, s, k, v):
        if not isinstance(k, str):
            raise Unsupported('stats[%r]' % (k,))
        wrote.append((k, v))

    def get_or(I, s, k, d=None):
        if d != 0:
            raise Unsupported('stats.get(%r, %r)' % (k, d))
        return get(I, s, k)
    s = Kind('stats', item=get, setitem=put, methods={'get': get_or})('stats')
    replace(o, 'stats', s)
    vals['count'] = val.new_int('count', 0)
    return lambda: (vals['count'], get(None, s, 'count'))


def counted(n, x, name):
    a, b = n()
    prove_eq(b, val.mkint(a.z + x.z), name)


@task('C01 C17', 'pattern_cluster.TBag.add pattern_cluster.TBag.count '
      'pattern_cluster.PieceBag.add utils.Bag.add')
def bag_add(I):
    """add(x) of a bag (of nodes, or of any bags): x is put into it and its
    count grows by that of x"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    k = c.choose(2, 'class')
    o = I.call((pc.TBag, pc.PieceBag)[k], [])
    OBJS = Kind('objects', methods={
        'add': lambda I, s, x: event('in', x)})
    replace(o, '_objs', OBJS('objects'))
    n = stats(o)
    if k:
        replace(o, '_p_nodes', Kind('parents', methods={
            'add': lambda I, s, x: None})('parents'))
        P = Kind('parent', attrs={'count': lambda o: val.new_int('pc', 1)})
        x = w.NODE('node', count=val.new_int('n', 1), parrent=P('parent')
                   if c.choose(2, 'parent') else None)
    else:
        x = w.BUCKET('bucket')
    I.call(I.getattr(o, 'add'), [x])
    evs = heap.events()
    c.prove(len(evs) == 1 and evs[0][1] is x, 'put into it', show(evs))
    counted(n, at(x, 'count'), 'its count')
    a, b = n()
    prove_eq(I.getattr(o, 'count'), b, 'the count given')
    c.reach('added')


@task('C01 C17', 'pattern_cluster.PieceBagBucket.add '
      'pattern_cluster.PieceBagBucket.__init__ '
      'pattern_cluster.TBucket.__init__')
def bucket_add(I):
    """PieceBagBucket.add(x): a node is added to the bag of its piece, a new
    one when there is none; a bag becomes the bag of the piece of its nodes,
    and is rejected when there is one; the count of the bucket grows by that
    of x"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    o = I.call(pc.PieceBagBucket, [])
    n = stats(o)
    BAG = Kind('bag', cls=pc.PieceBag, methods={
        'add': lambda I, o, x: event('add', o, x)})
    I.stubs['pattern_cluster.PieceBag'] = lambda I: BAG('new bag')
    known = keyed(I, o, '_objs', lambda: BAG('bag'))
    add = I.getattr(o, 'add')
    if c.choose(2, 'node'):
        x = w.NODE('node', count=val.new_int('n', 1))
        I.call(add, [x])
        added_to(known, x, at(x, 'piece'), 'the bag of its piece')
        c.reach('node')
    else:
        x = w.BAG('bag')
        try:
            I.call(add, [x])
        except ValueError:
            c.prove(len(known[0]) > 0, 'rejected')
            c.reach('rejected')
            return
        evs = heap.events()
        if c.prove(len(evs) == 1 and evs[0][0] == 'put' and
                   evs[0][3] is x or None, 'it is put', show(evs)):
            prove_eq(evs[0][2], at(at(x, 'node'), 'piece'), 'its piece')
        c.prove(not known[0] or None, 'no bag is lost')
        c.reach('bag')
    counted(n, at(x, 'count'), 'its count')


@task('C01 C17', 'pattern_cluster.ViewPieceBagBucket.add '
      'pattern_cluster.ViewPieceBagBucket.__init__')
def view_bucket_add(I):
    """ViewPieceBagBucket.add(x[, build_tree]): x is put under the text of
    its piece, the count grows by the number of its paths, and, unless
    build_tree is false, the parts of its view with that number become a path
    of the tree"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    o = I.call(pc.ViewPieceBagBucket, [w.url_meta])
    n = stats(o)
    OBJS = Kind('objects', setitem=lambda I, s, k, v: event('put', s, k, v))
    replace(o, '_objs', OBJS('objects'))
    root = Kind('root')('root')
    replace(o, '_root', root)
    builds = []

    def build(I, r, pieces, *a, **kw):
        builds.append((r, pieces, dict(zip(('count', 'uniq', 'meta'), a),
                                       **kw)))
    for m in ('piece_pattern_node', 'pattern_cluster'):
        I.stubs[m + '.build_from_parsed_pieces'] = build
    x = w.view_bag('view bag')
    k = c.choose(3, 'build_tree')
    I.call(I.getattr(o, 'add'), [x] + ([], [True], [False])[k])
    bag = x._a['piece_bag']
    evs = heap.events()
    if c.prove(len(evs) == 1 and evs[0][3] is x, 'put into it', show(evs)):
        prove_eq(evs[0][2], at(at(bag, 'node'), 'piece'), 'under its text')
    counted(n, at(bag, 'count'), 'its count')
    if k == 2:
        c.prove(not builds, 'no path of the tree')
        c.reach('no tree')
    elif c.prove(len(builds) == 1 and builds[0][0] is root, 'one path'):
        r, pieces, kw = builds[0]
        prove_eq(SSeq(I.models.as_seq(I, pieces).parts),
                 I.getattr(x._a['view'], 'parsed_pieces'), 'the parts')
        prove_eq(kw.get('count', 1), at(bag, 'count'), 'with its number')
        c.reach('tree')


BAGS = [pc.TBag, pc.PieceBag, pc.PieceBagBucket, pc.ViewPieceBagBucket]


def any_bag(I, k, elem):
    """A bag of class k with any objects, and these."""
    o = I.call(BAGS[k], [Kind('url_meta')('url_meta')] if k == 3 else [])
    if k < 2:
        b = Base('objects', elem, minlen=1)
        OBJS = Kind('objects', iter=lambda I, s: stream(b),
                    length=lambda I, s: SInt(b.zlen))
        replace(o, '_objs', OBJS('objects'))
    else:
        d = heap.unknown_dict(I, lambda k: elem('object'), 'objects')
        replace(o, '_objs', d)
        b = d.rest.base(d)
        ctx().assume(b.zlen > 0)
    return o, b


@task('C01 C02', 'pattern_cluster.TBag.set_pattern '
      'pattern_cluster.ViewPieceBag.set_pattern '
      'pattern_cluster.TBucket.__iter__ utils.Bag.__iter__ utils.Bag.__len__')
def bag_set_pattern(I):
    """set_pattern(p) of any bag gives p to everything in it, and iteration
    and len() are about everything in it"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    p = PATTERN('pattern')
    k = c.choose(len(BAGS) + 1, 'class')
    if k == len(BAGS):
        bag = w.BAG('bag')
        o = I.call(pc.ViewPieceBag, [w.VIEW('view'), bag])
        I.call(I.getattr(o, 'set_pattern'), [p])
        evs = heap.events()
        c.prove(len(evs) > 0 and all(e[1] is bag and e[2] is p
                                     for e in evs), 'the bag of a view bag')
        c.reach('view bag')
        return
    o, b = any_bag(I, k, w.BAG)

    def one(x, evs):
        c.prove(len(evs) > 0 and all(e == ('set', x, p) for e in evs),
                'everything gets the pattern', show(evs))
    each(I, b, one)
    I.call(I.getattr(o, 'set_pattern'), [p])
    prove_each(heap.events(), b, 'everything once')
    prove_eq(I.models.b_len(I, o), SInt(b.zlen), 'len')
    c.reach('set')


@task('C01 C02', 'utils.Bag.pick utils.Bag.iter_all utils.pick')
def bag_pick(I):
    """pick() of any bag is one of the nodes in it; iter_all() gives all the
    nodes in it, those of each of its objects in their order"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    k = c.choose(len(BAGS) - 1, 'class')
    leaf = c.choose(2, 'nodes')
    ALL = Kind('all of', iter=lambda I, o: stream(o._a['base']))

    def every(I, o):
        if 'nodes' not in o._a:
            o._a['nodes'] = Base('nodes', w.NODE, minlen=1)
            each(I, o._a['nodes'], lambda x, evs: c.prove(
                evs == [('yield', x)], 'every node', show(evs)))
        return stream(o._a['nodes'])
    NODE = Kind('node', cls=pn.PiecePatternNode)
    BAG = Kind('bag', cls=pc.PieceBag, methods={'iter_all': every},
               iter=every)
    o, b = any_bag(I, k, NODE if leaf else BAG)

    def one(x, evs):
        if leaf:
            c.prove(evs == [('yield', x)], 'every node', show(evs))
        elif 'nodes' in x._a:
            prove_each(evs, x._a['nodes'], 'all its nodes')
        else:
            c.prove(False, 'all its nodes', show(evs))
    if c.choose(2, 'pick'):
        r = I.call(I.getattr(o, 'pick'), [])
        c.prove(isinstance(r, heap.Obj) and r._k in (NODE, w.NODE) or None,
                'a node', show(r))
        c.reach('picked')
        return
    each(I, b, one)
    collect(I, I.call(I.getattr(o, 'iter_all'), []))
    prove_each(heap.events(), b, 'everything once')
    c.reach('all')


@task('C01 C02', 'pattern_cluster.ViewPieceBagBucket.cluster '
      'pattern_cluster.ViewPieceBagBucket._transfer '
      'pattern_cluster.TBucket.__getitem__')
def view_bucket_cluster(I):
    """ViewPieceBagBucket.cluster(config, **kw): for every tree that
    clustering its tree of parts gives, a bucket with the view bags kept
    under the texts of the paths of that tree, without building a tree, and
    the concatenated patterns of a path as their pattern"""
    c = ctx()
    w = World(I, pc.FuzzyPatternCluster)
    o = I.call(pc.ViewPieceBagBucket, [w.url_meta])
    root = Kind('root')('root')
    replace(o, '_root', root)
    kw = {'last_path_as_pattern': True} if c.choose(2, 'kw') else {}
    TREE = Kind('tree')
    trees = Base('trees', TREE)

    def clustered(I, cfg, um, r, **k):
        c.prove(cfg is w.config and um is w.url_meta and r is root and
                k == kw, 'clustered', show((cfg, um, r, k)))
        return stream(trees)

    def item(I, s, k):
        return Kind('view bag', attrs={
            'piece_bag': lambda o: w.BAG('bag'), 'view': lambda o:
            w.VIEW('view')})('view bag', key=k)
    OBJS = Kind('objects', item=item)
    replace(o, '_objs', OBJS('objects'))

    def dump(I, t):
        if not isinstance(t, heap.Obj) or t._k is not TREE:
            raise Unsupported('dump_tree(%r)' % (t,))
        if 'paths' in t._a:
            raise Unsupported('dumped twice')
        r = node_kind()('root')
        b = t._a['paths'] = Base(
            'paths', lambda n: path_of(r), minlen=1)
        each(I, b, one_path, peel=True)
        return stream(b)

    def texts(p, f):
        return I.models.method(I, '', 'join', [SSeq(
            p.seq.parts[1:]).map(f)], {})

    def one_path(p, evs):
        adds = [e for e in evs if e[0] == 'add']
        if len(adds) < len(evs):
            c.record('every path', 'unknown', show(evs))
        elif c.prove(len(adds) == 1, 'every path once', show(evs)):
            x = adds[0][2]
            if isinstance(x, heap.Obj) and 'key' in x._a:
                prove_eq(x._a['key'], texts(p, lambda n: at(n, 'piece')),
                         'kept under its text')
            else:
                c.record('kept under its text', 'unknown', show(x))
            tree = (list(adds[0][3]) + [True])[0]
            c.prove(tree is False or tree == 'False' or None, 'no tree')
            c.reach('path')

    def add(I, b, x, *a, **k):
        event('add', b, x, tuple(a) or tuple(k.values()))
    BUCKET = Kind('part', methods={'add': add})
    I.stubs['pattern_cluster.cluster'] = clustered
    I.stubs['utils.dump_tree'] = dump

    def one(t, evs):
        ys = [e for e in evs if e[0] == 'yield']
        if not c.prove(len(ys) == 1, 'one part for every tree', show(evs)):
            return
        rest = [e for e in evs if e[0] != 'yield']
        if 'paths' not in t._a:
            c.record('every path of the tree', 'unknown', show(evs))
            return
        prove_each(rest, t._a['paths'], 'every path of the tree')
        y = loops.unio(ys[0][1])
        if not isinstance(y, tuple) or len(y) != 2:
            c.record('a bucket and a pattern', 'unknown', show(y))
            return
        b, p = y
        c.prove(isinstance(b, heap.Obj) and b._k is BUCKET or None,
                'the new bucket', show(b))
        ps = [x[1] for x in t._a['paths'].parts()
              if not isinstance(x, Base)]
        got = w.text(p)
        if any(val.entails_eq(got, pats(x)) for x in ps):
            c.record('the patterns of a path', 'proved')
        elif ps:
            prove_eq(got, pats(ps[0]), 'the patterns of a path')
        else:
            c.record('the patterns of a path', 'unknown', show(got))
        c.reach('tree')

    def pats(p):
        return texts(p, lambda n: pattern_of(n).__pv_str__(I))
    each(I, trees, one)
    I.stubs['pattern_cluster.ViewPieceBagBucket'] = \
        lambda I, m: BUCKET('part')
    collect(I, I.call(I.getattr(o, 'cluster'), [w.config], kw))
    prove_each(heap.events(), trees, 'every tree once')


# --------------------------------------------------------------- processors
@task('C01 C02', 'pattern_cluster._can_be_splited utils.pick')
def can_split(I):
    """_can_be_splited(processor): False only if from the processor on down
    to one without next processors each has noted at most one pattern and has
    one next processor; True only if one of those has noted several patterns
    or has several next processors"""
    c = ctx()

    def nexts(o):
        b = o._a['base'] = Base('next', PROC)
        return NEXT('nexts', base=b)
    NEXT = Kind('nexts', iter=lambda I, o: stream(o._a['base']),
                length=lambda I, o: SInt(o._a['base'].zlen))

    def single(o):
        c.prove(at(o, 'pattern_num').z <= 1, 'at most one pattern')

    def walk(cur, new):
        single(cur)
        b = at(cur, 'next_level_processors')._a['base']
        c.prove(b.zlen == 1, 'one next processor')
        c.prove(any(not isinstance(x, Base) and x[1] is new
                    for x in b.parts()) or None, 'on to the next')
        c.reach('step')
    PROC = Kind('processor', attrs={
        'pattern_num': lambda o: val.new_int('patterns', 0),
        'next_level_processors': nexts}, walk=walk)
    r = I.call(pc._can_be_splited, [PROC('processor')])
    evs = heap.events()
    if len(evs) != 1 or evs[0][0] != 'walk':
        c.record('walks', 'unknown', show(evs))
        return
    cur = evs[0][2]
    n = SInt(at(cur, 'next_level_processors')._a['base'].zlen)
    if I.truth(r):
        c.prove(z3.Or(at(cur, 'pattern_num').z > 1, n.z > 1),
                'several patterns or processors')
        c.reach('split')
    else:
        single(cur)
        prove_eq(n, 0, 'the last one')
        c.reach('whole')


@task('C01 C02', 'pattern_cluster.ClusterProcessor.level '
      'pattern_cluster.ClusterProcessor.is_last_level '
      'pattern_cluster.ClusterProcessor.__init__')
def proc_level(I):
    """is_last_level(): exactly when the number of processors above is the
    depth of the structure"""
    c = ctx()
    depth = val.new_int('depth', 0)
    UM = Kind('url_meta', attrs={'depth': lambda o: depth})
    ABOVE = Kind('above', chain='pre_level_processor', attrs={
        'level': lambda o: val.mkint(loops.chain_len(o).z - 1),
        'pre_level_processor': lambda o: ABOVE('above')})
    for k in CLASSES:
        I.stubs['pattern_cluster.' + k.__name__] = \
            lambda I, p: Kind('cluster')('cluster')
    pre = ABOVE('pre') if c.choose(2, 'above') else None
    p = I.call(pc.ClusterProcessor, [Kind('config')('config'), UM('m'), pre])
    r = I.call(I.getattr(p, 'is_last_level'), [])
    n = loops.chain_len(pre) if pre is not None else 0
    prove_eq(I.truth(r), I.truth(I.eq(depth, n)), 'the last level')
    c.reach('done')


@task('C01 C02', 'pattern_cluster.ClusterProcessor.seek_cluster '
      'pattern_cluster.PiecePatternCluster.seek_cluster '
      'pattern_cluster.PatternCluster.seek_cluster '
      'pattern_cluster.ClusterProcessor.__init__')
def seek(I):
    """seek_cluster(bag or bucket) of a processor, with any nodes above: gives
    true or false, raises nothing and changes nothing; without a processor
    above false"""
    c = ctx()
    w = World(I, pc.PiecePatternCluster)
    PARENT = Kind('parent', cls=pn.PiecePatternNode, attrs={
        'count': lambda o: val.new_int('count', 1),
        'piece': lambda o: val.text('piece')})
    ABOVE = Kind('above', methods={
        'seek_cluster': lambda I, o, p: bool(c.choose(2, 'seek'))})
    pre = ABOVE('above') if c.choose(2, 'above') else None
    p = I.call(pc.ClusterProcessor, [w.config, w.url_meta, pre])
    what = Kind('package', attrs={
        'count': lambda o: val.new_int('count', 1),
        'p_nodes': lambda o: stream(Base('parents', PARENT, minlen=1))})
    r = I.call(I.getattr(p, 'seek_cluster'), [what('package')])
    t = I.truth(r)
    if pre is None:
        prove_eq(t, False, 'no processor above')
        c.reach('root')
    prove_events(heap.events(), [], 'nothing is changed')
    c.reach('done')


def processor(I, pre=None, kw=None):
    """A real processor with abstract clusters."""
    c = ctx()
    um = Kind('url_meta', attrs={
        'depth': lambda o: val.new_int('depth', 0)})('url_meta')
    config = Kind('config')('config')
    made = {}
    nodes = Base('nodes', Kind('node', cls=pn.PiecePatternNode, attrs={
        'pattern': lambda o: PATTERN('pattern'),
        'count': lambda o: val.new_int('n', 1)}))
    CLUSTER = Kind('cluster', attrs={
        'pattern_num': lambda o: val.new_int('patterns', 0)}, methods={
        'cluster': lambda I, o: event('cluster', o._a['which']),
        'add': lambda I, o, x: event('add', o._a['which'], x),
        'iter_nodes': lambda I, o: stream(nodes)})

    def mk(k):
        def f(I, p):
            made.setdefault(k, []).append((p, CLUSTER(k.__name__, which=k)))
            return made[k][-1][1]
        return f
    for k in CLASSES:
        I.stubs['pattern_cluster.' + k.__name__] = mk(k)
    p = I.call(pc.ClusterProcessor, [config, um, pre], kw or {})
    for k in CLASSES:
        c.prove(len(made.get(k, ())) == 1 and made[k][0][0] is p,
                'one cluster of each class', k.__name__)
        if k in made:
            c.prove(I.call(I.getattr(p, 'get_cluster'), [k]) is
                    made[k][0][1], 'get_cluster', k.__name__)
    return p, config, um, made, nodes


@task('C01 C02 C17', 'pattern_cluster.ClusterProcessor.process '
      'pattern_cluster.ClusterProcessor._process '
      'pattern_cluster.ClusterProcessor._create_next_level_processors '
      'pattern_cluster.ClusterProcessor.__init__ '
      'pattern_cluster.ClusterProcessor.get_cluster '
      'pattern_cluster.ClusterProcessor.next_level_processors')
def proc_process(I):
    """process() of a processor of any level: the clusters are clustered,
    each once and in the order in which they hand on; if it is not the last
    level, the children of every node of the level are added, once, to the
    next processor of its pattern, a new one with the same configuration and
    structure when there is none, and every next processor is processed"""
    c = ctx()
    kw = {'last_path_as_pattern': True} if c.choose(2, 'kw') else {}
    p, config, um, made, nodes = processor(I, None, kw)
    known = []
    SUB = Kind('next', methods={
        'add': lambda I, o, n, add_children=False:
        event('give', o, n, add_children),
        'process': lambda I, o: event('process', o)})

    def value(k):
        o = SUB('next')
        known.append((k, o))
        return o

    def new(I, cfg, m, pre, **k):
        c.prove(cfg is config and m is um and pre is p and k == kw,
                'a next processor', show((cfg, m, pre, k)))
        return SUB('new')
    I.stubs['pattern_cluster.ClusterProcessor'] = new

    def one(n, evs):
        puts = [e for e in evs if e[0] == 'put']
        give = [e for e in evs if e[0] == 'give']
        if len(puts) + len(give) != len(evs) or len(puts) > 1:
            c.record('every node', 'unknown', show(evs))
            return
        if not c.prove(len(give) == 1 and give[0][2] is n and
                       give[0][3] is True, 'every node once', show(evs)):
            return
        o = give[0][1]
        keys = [k for k, x in known if x is o] + \
            [e[2] for e in puts if e[3] is o]
        if c.prove(len(keys) == 1 or None, 'of its pattern', show(evs)):
            pat = at(n, 'pattern')
            if isinstance(keys[0], heap.Obj):
                c.prove(keys[0] is pat, 'the processor of its pattern',
                        show(keys))
            else:
                c.record('the processor of its pattern', 'unknown')
        c.prove(not puts or puts[0][3] is o, 'the others stay', show(evs))
        c.reach('known' if not puts else 'new')
    bases = []

    def step(b):
        bases.append(b)
        each(I, b, lambda o, evs: prove_events(
            evs, [('process', o)], 'every next processor'))
    sp = each(I, nodes, one)
    sp.map_value, sp.map_step = value, step
    I.call(I.getattr(p, 'process'), [])
    evs = heap.events()
    n = len(CLASSES)
    prove_events(evs[:n], [('cluster', k) for k in CLASSES],
                 'the clusters in order')
    evs = evs[n:]
    if I.truth(I.eq(at(um, 'depth'), 0)):
        prove_events(evs, [], 'the last level')
        c.reach('last level')
        return
    mine = [e for e in evs if e[0] == 'each' and any(
        x is y for x in e[2].parts() for y in nodes.parts())]
    prove_each(mine, nodes, 'every node of the level')
    rest = [e for e in evs if e not in mine]
    c.prove(not mine or evs[0] is mine[0], 'in this order', show(evs))
    if len(bases) != 1:
        c.record('every next processor', 'refuted' if not rest else
                 'unknown', show(evs))
    else:
        prove_each(rest, bases[0], 'every next processor once')
    c.reach('next level')


@task('C01 C02', 'pattern_cluster.ClusterProcessor.add '
      'pattern_cluster.PiecePatternCluster.add '
      'pattern_cluster.PiecePatternCluster.iter_nodes '
      'pattern_cluster.PiecePatternCluster.__init__')
def proc_add(I):
    """add(node) and add(node, add_children=True) of a processor: the node,
    or each of its children, is added, once, to the first cluster, which puts
    it into its bucket; its iter_nodes() are all the nodes in it"""
    c = ctx()
    k = c.choose(4, 'what')
    if k == 3:
        w = World(I, pc.PiecePatternCluster)
        cl = w.cluster()
        x, ns = w.NODE('node'), stream(Base('nodes', w.NODE))
        replace(cl, '_bucket', Kind('bucket', methods={
            'add': lambda I, o, n: event('add', n),
            'iter_all': lambda I, o: ns})('bucket'))
        I.call(I.getattr(cl, 'add'), [x])
        prove_events(heap.events(), [('add', x)], 'into the bucket')
        r = I.call(I.getattr(cl, 'iter_nodes'), [])
        prove_eq(SSeq(I.models.as_seq(I, r).parts), ns, 'all the nodes')
        c.reach('cluster')
        return
    p, config, um, made, nodes = processor(I)
    b = Base('children', Kind('node'))
    each(I, b, lambda x, evs: prove_events(
        evs, [('add', CLASSES[0], x)], 'every child'))
    node = Kind('node', attrs={'children': lambda o: stream(b)})('node')
    if k == 2:
        I.call(I.getattr(p, 'add'), [node], {'add_children': True})
        prove_each(heap.events(), b, 'every child once')
        c.reach('children')
    else:
        I.call(I.getattr(p, 'add'), [node] + [False] * k)
        prove_events(heap.events(), [('add', CLASSES[0], node)], 'the node')
        c.reach('node')


@task('C01 C02 C17', 'pattern_cluster.process '
      'pattern_cluster.ClusterProcessor.pattern_num')
def proc_start(I):
    """process(config, url_meta, root, **kw): a first processor with these
    gets the root, processes it, and whether its clusters can be split is
    given; pattern_num is the sum of those of its clusters"""
    c = ctx()
    if c.choose(2, 'pattern_num'):
        p, config, um, made, nodes = processor(I)
        want = sum((at(made[k][0][1], 'pattern_num') for k in CLASSES[1:]),
                   at(made[CLASSES[0]][0][1], 'pattern_num'))
        prove_eq(I.getattr(p, 'pattern_num'), want, 'the number of patterns')
        c.reach('number')
        return
    config, um = Kind('config')('config'), Kind('url_meta')('url_meta')
    root = Kind('root')('root')
    kw = {'last_path_as_pattern': True} if c.choose(2, 'kw') else {}
    PROC = Kind('processor', methods={
        'add': lambda I, o, n, add_children=False:
        event('add', o, n, add_children),
        'process': lambda I, o: event('process', o)})

    def new(I, cfg, m, pre, **k):
        c.prove(cfg is config and m is um and pre is None and k == kw,
                'the first processor', show((cfg, m, pre, k)))
        return PROC('first')
    I.stubs['pattern_cluster.ClusterProcessor'] = new
    ans = bool(c.choose(2, 'splits'))

    def can(I, p):
        event('can', p)
        return ans
    I.stubs['pattern_cluster._can_be_splited'] = can
    r = I.call(pc.process, [config, um, root], kw)
    evs = heap.events()
    if c.prove(len(evs) == 3 and isinstance(evs[0][1], heap.Obj) or None,
               'three steps', show(evs)):
        o = evs[0][1]
        prove_events(evs, [('add', o, root, False), ('process', o),
                           ('can', o)], 'processed')
    c.prove(r is ans, 'the answer')
    c.reach('processed')
