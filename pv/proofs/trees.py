"""Contracts of the trees, the makers and the formatters (C02, C12, C15)."""
from .. import heap, interp, loops, val
from ..core import ctx, PathEnd, Unsupported
from ..heap import Kind, event, each, prove_events, prove_each, collect
from ..val import Base, SeqAtom, SSeq, SList, SDict, SSet, prove_eq
from .base import task

ut = interp.module('utils')
pn = interp.module('piece_pattern_node')
pm = interp.module('pattern_maker')
pc = interp.module('pattern_cluster')
fm = interp.module('formatter')
pu = interp.module('parse_utils')


def number(o=None):
    return val.new_int('count')


def stream(b):
    return SSeq((SeqAtom(b),))


PATTERN = Kind('pattern', string=lambda I, o: o._a.setdefault(
    'text', val.text('ptn', minlen=0)))
PIECE = Kind('parsed piece', cls=pu.ParsedPiece,
             attrs={'piece': lambda o: val.text('piece')})


def node_kind(**more):
    attrs = {'pattern': lambda o: PATTERN('pattern'), 'count': number,
             'parsed_piece': lambda o: PIECE('pp'),
             'piece': lambda o: o.__pv_getattr__(None, 'parsed_piece')
             .__pv_getattr__(None, 'piece')}
    attrs.update(more)
    return Kind('node', cls=pn.PiecePatternNode, attrs=attrs)


META = Kind('meta object', string=lambda I, o: o._a.setdefault(
    'text', val.text('meta', minlen=0)))


def metas(o):
    """None, or the objects that are bound to a leaf."""
    c = ctx()
    if not c.choose(2, 'meta'):
        return None
    return SSet(stream(Base('metas', META)))


LEAF = node_kind(meta=metas)
INNER = node_kind(meta=metas)


def path_of(root, label='path'):
    """root, any nodes, a leaf"""
    mid = Base(label + '.mid', INNER)
    leaf = LEAF(label + '.leaf')
    p = SList(SSeq((('e', root), SeqAtom(mid), ('e', leaf))))
    return p


def pattern_of(n):
    return n.__pv_getattr__(None, 'pattern')


# --------------------------------------------------------------- formatters
@task('C15', 'formatter.PatternFormatter.format formatter.ClusterFormatter.'
      'format formatter.InlineFormatter.format formatter.JsonFormatter.format '
      'formatter.Formatter.format formatter.pformat')
def formats(I):
    """pformat(name, url_meta, root) for every cluster: the pattern once; the
    pattern, then a tab and the text of every object bound to a path; the
    pattern, a tab and that text for each; one object with the pattern and
    the count; nothing"""
    import json
    c = ctx()
    names = ['PATTERN', 'CLUSTER', 'INLINE', 'JSON', 'NULL']
    name = c.cache['variant'] = names[c.choose(len(names), 'format')]
    root = node_kind()('root')
    url_meta = Kind('url_meta')('url_meta')
    dumps = []
    the = val.text('the pattern')

    def dump(I, r):
        if r is not root:
            raise Unsupported('dump_tree(%r)' % (r,))
        b = Base('paths', lambda n: path_of(root), minlen=1)
        dumps.append(b)
        each(I, b, one_path, peel=True)
        return stream(b)

    def pack(I, m, parts):
        # C01: the patterns of every path of a cluster are the same
        if m is not url_meta:
            c.record('packs its own structure', 'refuted', repr(m))
        for b in dumps:
            for p in b.parts():
                if not isinstance(p, tuple):
                    continue
                want = SSeq(p[1].seq.parts[1:]).map(pattern_of)
                got = I.models.as_seq(I, parts)
                if val.entails_eq(SSeq(got.parts), want):
                    return the
        c.record('packs the patterns of the levels', 'refuted', repr(parts))
        raise PathEnd()

    def text(o):
        return o.__pv_str__(I)

    def record(o):
        if name == 'CLUSTER':
            return '\t' + text(o)
        return the + '\t' + text(o)

    def meta_step(o, evs):
        prove_events(evs, [('yield', record(o))], 'every bound object')
        c.reach('object')

    def one_path(p, evs):
        """an iteration over the paths that yields: the bound objects"""
        leaf = p.seq.parts[-1][1]
        m = leaf.__pv_getattr__(None, 'meta')
        if name not in ('CLUSTER', 'INLINE') or m is None:
            prove_events(evs, [], 'no object is bound')
            return
        prove_each(evs, leaf._a['objects'], 'all the objects of a path')

    def metas(o):
        if not c.choose(2, 'meta'):
            return None
        b = o._a['objects'] = Base('metas', META)
        each(I, b, meta_step)
        return SSet(stream(b))
    LEAF.attrs['meta'] = metas
    I.stubs['utils.dump_tree'] = dump
    I.stubs['parse_utils.pack'] = pack
    I.ext[json.dumps] = lambda I, d, **k: ('json', d)
    # the registry of the formatters is built when the module is imported
    case = [str.lower, str.upper][c.choose(2, 'case')]
    collect(I, I.call(fm.pformat, [case(name), url_meta, root]))
    evs = heap.events()
    if name == 'NULL':
        prove_events(evs, [], 'nothing')
        c.reach('null')
        return
    if name in ('PATTERN', 'CLUSTER', 'JSON'):
        first = evs[:1]
        if name == 'JSON':
            ok = len(first) == 1 and first[0][0] == 'yield' and \
                isinstance(first[0][1], tuple) and first[0][1][0] == 'json'
            if c.prove(ok, 'one json object', repr(evs)):
                d = first[0][1][1]
                got = dict((k, v) for k, v in d.items) \
                    if isinstance(d, SDict) else dict(d)
                c.prove(set(got) == {'ptn', 'cnt'}, 'keys', repr(d))
                prove_eq(got.get('ptn'), the, 'the pattern')
                prove_eq(got.get('cnt'), I.getattr(root, 'count'),
                         'the count')
                c.reach('json')
        else:
            prove_events(first, [('yield', the)], 'the pattern first')
            c.reach('pattern')
        evs = evs[1:]
    if name in ('PATTERN', 'JSON'):
        prove_events(evs, [], 'and nothing else')
        return
    objects = [b for b in dumps if mentions(evs, b)]
    b = (objects or dumps)[-1]
    prove_each(evs, b,
               'the objects of every path')
    c.reach('objects')


def mentions(evs, b):
    ps = [p for p in b.parts() if isinstance(p, Base)]
    return any(e[0] == 'each' and any(q is p for q in e[2].parts()
                                      for p in ps) for e in evs)


# ---------------------------------------------------------------- the trees
class Chain(heap.EachSpec):
    """A loop that goes down from a node, one child per element.  Ghost
    state: (current node, was it new)."""
    per_cut = False

    def __init__(self, base, I, root, node, memo, step):
        heap.EachSpec.__init__(self, base, I, None)
        self.root, self.node, self.memo, self.on_pair = root, node, memo, step
        self.peel = True

    def init(self):
        return (self.root, loops.UNBOUND)

    def generic(self, k, done):
        return (self.node('cur'), val.new_bool('was_new'))

    def step(self, g, e, rest):
        r = self.memo(g[0], e)
        if r is None:
            raise loops.SpecReject('no child')
        return r

    def leaves(self, g):
        return [('node', g[0]), ('new', g[1])]

    def slot_leaves(self, g, slot):
        return []

    def on_step(self, g, e, evs):
        self.on_pair(g, e, evs)


def tree_nodes(c):
    """Abstract nodes; add_child(kv) has the contract proved by add_child."""
    made = []

    def memo(node, kv):
        for n, k, r in made:
            if n is node and k is kv:
                return r
        return None

    def add(I, o, kv):
        r = memo(o, kv)
        if r is None:
            r = (NODE('child'), val.new_bool('new'))
            made.append((o, kv, r))
        event('add_child', o, kv)
        return r
    def old(o):
        return [None, Kind('meta', truth=lambda I, o: bool(
            c.choose(2, 'true old meta')))('old')][c.choose(2, 'old meta')]
    NODE = Kind('node', attrs={'count': number, 'meta': old},
                methods={'add_child': add}, frozen=False)
    return NODE, memo


@task('C12 C02', 'utils.build_tree')
def build_tree(I):
    """build_tree(root, kvs, count, meta): from the root down one child per
    kv; count is added to the root and to each of them, nothing else; meta is
    set on the last when it is not None; gives the last node and whether it
    is new"""
    c = ctx()
    NODE, memo = tree_nodes(c)
    kvs = Base('kvs', lambda n: Kind('kv')('kv'), minlen=1)
    count = val.new_int('n')
    root = NODE('root')

    def added(node, before, evs, name):
        sets = [e for e in evs if e[0] == 'set' and e[1] is node and
                e[2] == 'count']
        if len(sets) == 0:
            c.prove(count.z == 0, name, 'not counted')
        else:
            prove_eq(sets[-1][3], before + count, name)
        return [e for e in evs if not any(e is x for x in sets)]

    befores = {}

    def before(node):
        return befores.setdefault(id(node), (val.new_int('before'), node))[0]
    NODE.attrs['count'] = before

    def pair(g, kv, evs):
        r = memo(g[0], kv)
        adds = [e for e in evs if e[0] == 'add_child']
        if not c.prove(r is not None and len(adds) == 1 and
                       adds[0][1] is g[0], 'one child per key', repr(evs)):
            return
        evs = added(r[0], before(r[0]), evs, 'the count of every node')
        prove_events([e for e in evs if e[0] != 'add_child'], [],
                     'nothing else')
        c.reach('level')
    sp = loops.register(kvs, Chain(kvs, I, root, NODE, memo, pair))
    meta = [None, Kind('meta', truth=lambda I, o: bool(
        c.choose(2, 'true meta')))('meta')][c.choose(2, 'meta')]
    node, new = I.call(ut.build_tree, [root, SSeq((SeqAtom(kvs),)), count,
                                       meta])
    evs = heap.events()
    last = loops_final(sp)
    c.prove(node is last[0], 'the last node', repr(node))
    prove_eq(new, last[1], 'is it new')
    # the root, the first level by itself, the others
    first = memo(root, [p for p in kvs.parts()
                        if not isinstance(p, Base)][0][1])
    if not c.prove(first is not None, 'the first level', repr(evs)):
        return
    evs = added(root, before(root), evs, 'the count of the root')
    evs = added(first[0], before(first[0]), evs, 'the count of every node')
    metas = [e for e in evs if e[0] == 'set' and e[2] == 'meta']
    evs = [e for e in evs if not any(e is x for x in metas)]
    if meta is None:
        c.prove(not metas, 'no meta', repr(metas))
    else:
        c.prove(len(metas) > 0 and metas[-1][1] is node and
                metas[-1][3] is meta and
                all(e[1] is node for e in metas), 'the meta', repr(metas))
        c.reach('meta')
    adds = [e for e in evs if e[0] == 'add_child']
    c.prove(len(adds) == 1 and adds[0][1] is root, 'one child of the root',
            repr(adds))
    evs = [e for e in evs if e[0] != 'add_child']
    rest = [p for p in kvs.parts() if isinstance(p, Base)]
    c.prove(all(e[0] == 'each' for e in evs), 'nothing else', repr(evs))
    got = [p for e in evs if e[0] == 'each' for p in e[2].parts()]
    c.prove(len(got) == len(rest) and
            all(a is b for a, b in zip(got, rest)), 'all the levels',
            repr(evs))
    c.reach('built')


def loops_final(sp):
    if sp.final is None:
        raise Unsupported('the keys were not read')
    return sp.final


def real_node(I, cls, label):
    """A node of the real class, in any state a tree can be in: children is
    None or any dictionary of nodes."""
    c = ctx()
    pp = PIECE(label)
    n = I.call(cls, [(pp, None) if issubclass(cls, pn.PiecePatternNode)
                     else pp])
    CHILD = node_kind()
    kids = []
    if c.choose(2, label + ' children'):
        d = heap.unknown_dict(I, lambda k: child(k), label + '.children')

        def child(k):
            o = CHILD('child')
            kids.append((k, o))
            return o
        object.__setattr__(n, '_children', d)
    object.__setattr__(n, 'count', val.new_int('count'))
    return n, kids


@task('C12 C02', 'utils.TreeNode.add_child utils.TreeNode.__init__ '
      'piece_pattern_node.PiecePatternNode.__init__')
def add_child(I):
    """add_child((k, v)) of a node with any children: the child of k, and
    False; without one, a new child of v (no count, no meta, no children,
    this node its parent) is kept for k, and True; nothing else changes"""
    c = ctx()
    cls = [ut.TreeNode, pn.PiecePatternNode][c.choose(2, 'class')]
    c.cache['variant'] = cls.__name__
    n, kids = real_node(I, cls, 'self')
    before = dict(loops.attrs_of(n))
    k = val.text('key')
    pp, ptn = PIECE('pp'), PATTERN('pattern')
    v = (pp, ptn) if cls is pn.PiecePatternNode else pp
    child, new = I.call(I.getattr(n, 'add_child'), [(k, v)])
    evs = heap.events()
    d = object.__getattribute__(n, '_children')
    found = [o for kk, o in kids if val.veq(kk, k) is True]
    same = [a for a, x in loops.attrs_of(n)
            if a != '_children' and before[a] is not x]
    c.prove(not same, 'nothing else of the node changes', repr(same))
    if found:
        c.prove(child is found[0] and new is False, 'the known child',
                repr((child, new)))
        prove_events([e for e in evs if not (
            e[0] == 'put' and e[3] is found[0])], [], 'nothing changes')
        c.reach('known')
        return
    if not c.prove(new is True and type(child) is cls, 'a new child',
                   repr((child, new))):
        return
    at = dict(loops.attrs_of(child))
    c.prove(at['parrent'] is n, 'its parent', repr(at['parrent']))
    c.prove(at['value'] is pp, 'its value', repr(at['value']))
    if cls is pn.PiecePatternNode:
        c.prove(at['_pattern'] is ptn, 'its pattern', repr(at['_pattern']))
    prove_eq(at['count'], 0, 'no count')
    c.prove(at['meta'] is None and not I.truth(at['_children'])
            if at['_children'] is not None else at['meta'] is None,
            'no meta and no children', repr(at))
    c.prove(isinstance(d, SDict), 'kept in a dict', repr(d))
    if isinstance(d, SDict):
        i = I.models.dict_find(I, d, k)
        c.prove(i is not None and d.items[i][1] is child, 'kept for its key',
                repr(d))
    puts = [e for e in evs if e[0] == 'put']
    c.prove(len(puts) == len(evs) and all(
        e[1] is d and e[3] is child and val.veq(e[2], k) is True
        for e in puts) and (d is before['_children'] or
                            before['_children'] is None),
        'the other children stay', repr(evs))
    c.reach('new')


@task('C12 C02', 'utils.TreeNode.leaf utils.TreeNode.children')
def tree_children(I):
    """children are the nodes that were added, each once; leaf() means that
    there are none"""
    c = ctx()
    n, kids = real_node(I, ut.TreeNode, 'self')
    d = object.__getattribute__(n, '_children')
    leaf = bool(I.truth(I.call(I.getattr(n, 'leaf'), [])))
    got = I.models.as_seq(I, I.getattr(n, 'children'))
    if d is None:
        c.prove(leaf and not I.truth(SSeq(got.parts)), 'no children')
        c.reach('none')
        return
    want = d.rest.seq(d, 'values')
    prove_eq(SSeq(got.parts), SSeq(want.parts), 'every child once')
    c.reach('some')


@task('C12', 'piece_pattern_node.PiecePatternNode.incr_count')
def incr_count(I):
    """incr_count(n, recur): n is added to the count of the node, and with
    recur to that of every node above it, once each"""
    c = ctx()
    n = val.new_int('n')
    recur = bool(c.choose(2, 'recur'))

    def change(I, o, k, recur=False):
        if I.truth(recur):
            event('incr up', o, k)       # o and all above it
        else:
            event('incr', o, k)

    def parent(o):
        return UP('up') if c.choose(2, 'parent') else None

    def link(o, evs):
        sums(o, evs, 'the count of every node above')

    def sums(o, evs, name):
        sets = [e for e in evs if e[0] == 'set' and e[1] is o and
                e[2] == 'count']
        incs = [e for e in evs if e[0] == 'incr' and e[1] is o]
        other = [e for e in evs if e not in sets and e not in incs]
        if other or sets and incs:
            c.record(name, 'unknown', repr(evs))
            return
        if len(incs) == 1:
            prove_eq(incs[0][2], n, name)
        elif len(sets) == 1:
            prove_eq(sets[0][3], before(o) + n, name)
        else:
            c.record(name, 'refuted' if n_nonzero() else 'proved', repr(evs))

    def n_nonzero():
        return not c.entails(n.z == 0)
    befores = {}

    def before(o):
        return befores.setdefault(id(o), (val.new_int('before'), o))[0]
    UP = Kind('ancestor', attrs={'count': before, 'parrent': parent},
              methods={'incr_count': change}, chain='parrent', on_link=link,
              frozen=False)
    node, _ = real_node(I, pn.PiecePatternNode, 'self')
    old = node.count
    up = parent(node)
    object.__setattr__(node, 'parrent', up)
    I.call(I.getattr(node, 'incr_count'), [n, recur])
    evs = heap.events()
    prove_eq(object.__getattribute__(node, 'count'), old + n,
             'the count of the node')
    if not recur or up is None:
        prove_events(evs, [], 'no other node')
        return
    if [e[0] for e in evs] == ['incr up']:
        c.prove(evs[0][1] is up, 'every node above', repr(evs))
        prove_eq(evs[0][2], n, 'every node above')
    else:
        prove_chain(evs, up, 'every node above')
    c.reach('recursive')


def prove_chain(evs, start, name):
    c = ctx()
    if any(e[0] not in ('chain', 'chain ends') for e in evs):
        c.record(name, 'unknown', repr(evs))
        return
    c.prove(len(evs) == 1 and evs[0][0] == 'chain' and evs[0][1] is start,
            name, repr(evs))


@task('C12 C02', 'piece_pattern_node.PiecePatternNode.add_meta '
      'piece_pattern_node.PiecePatternNode.update_meta')
def node_meta(I):
    """add_meta(x) adds x, whatever it is, unless it is None; update_meta(s)
    adds the elements of s, None or a set; the node keeps a set of its own"""
    c = ctx()
    n, _ = real_node(I, pn.PiecePatternNode, 'self')
    old = Base('old', META)
    had = c.choose(2, 'had meta')
    if had:
        object.__setattr__(n, 'meta', I.new(SSet(stream(old))))
    parts = (SeqAtom(old),) if had else ()
    if c.choose(2, 'which') == 0:
        x = [None, 0, '', Kind('object', truth=lambda I, o: bool(
            c.choose(2, 'true')))('x')][c.choose(4, 'data')]
        I.call(I.getattr(n, 'add_meta'), [x])
        if x is not None:
            parts += (('e', x),)
            c.reach('added')
        given = None
    else:
        b = Base('data', META)
        given = [None, I.new(SSet(stream(b)))][c.choose(2, 'data')]
        I.call(I.getattr(n, 'update_meta'), [given])
        if given is not None:
            parts += (SeqAtom(b),)
            c.reach('updated')
    m = object.__getattribute__(n, 'meta')
    want = SSet(SSeq(parts))
    if m is None:
        c.prove(not I.truth(SSeq(want.seq.parts)), 'the meta objects',
                'lost')
        return
    c.prove(m is not given, 'a set of its own')
    if not isinstance(m, SSet):
        c.record('the meta objects', 'unknown', repr(m))
        return
    if val.set_subset(m, want) and val.set_subset(want, m):
        c.record('the meta objects', 'proved')
    else:
        miss = [p for p in want.seq.parts if not (
            isinstance(p, SeqAtom) and c.entails(p.base.zlen == 0)) and
            not val.set_subset(SSet(SSeq((p,))), m)]
        more = [p for p in m.seq.parts
                if not val.set_subset(SSet(SSeq((p,))), want)]
        c.prove(not miss and not more, 'the meta objects',
                'lost %r, invented %r' % (miss, more))


def built(c):
    """The contract of build_tree, and nodes to record what is done next."""
    def build(I, root, kvs, count=1, meta=None):
        event('build', root, SSeq(I.models.as_seq(I, kvs).parts), count,
              meta)
        return leaf, new

    def incr(I, o, n, recur=False):
        event('incr', o, n, bool(I.truth(recur)))
    N = Kind('leaf', methods={
        'incr_count': incr,
        'add_meta': lambda I, o, x: event('add_meta', o, x),
        'update_meta': lambda I, o, x: event('update_meta', o, x)})
    leaf, new = N('leaf'), bool(c.choose(2, 'new'))
    return build, leaf, new


@task('C12 C02', 'piece_pattern_node.build_from_parsed_pieces')
def build_pieces(I):
    """build_from_parsed_pieces(root, pieces, count, meta, uniq): one node
    per piece, keyed by its text; count is added along the path, and taken
    back when the path is not new and paths are counted once; meta is bound
    to the leaf; gives the leaf and whether the path is new"""
    c = ctx()
    build, leaf, new = built(c)
    I.stubs['utils.build_tree'] = build
    pieces = Base('pieces', PIECE, minlen=1)
    root = node_kind()('root')
    kw = {}
    count, uniq, meta = 1, True, None
    if c.choose(2, 'count'):
        count = kw['count'] = val.new_int('count')
    if c.choose(2, 'uniq'):
        uniq = kw['uniq'] = bool(c.choose(2, 'uniq is'))
    if c.choose(2, 'meta'):
        meta = kw['meta'] = META('meta')
    r = I.call(pn.build_from_parsed_pieces, [root, stream(pieces)], kw)
    r = I.unpack(r, 2)
    c.prove(r[0] is leaf, 'the leaf', repr(r))
    prove_eq(r[1], new, 'is it new')
    evs = heap.events()
    builds = [e for e in evs if e[0] == 'build']
    incrs = [e for e in evs if e[0] == 'incr']
    metas = [e for e in evs if e[0] in ('add_meta', 'update_meta')]
    if len(builds) != 1 or len(builds) + len(incrs) + len(metas) != \
            len(evs) or any(e[3] is not True for e in incrs):
        c.record('the tree is built by build_tree', 'unknown', repr(evs))
        return
    b = builds[0]
    c.prove(b[1] is root, 'below the root', repr(b))
    prove_eq(b[2], SSeq((SeqAtom(pieces, lambda p: (
        p.__pv_getattr__(None, 'piece'), (p, None))),)), 'one node per piece')
    total = b[3]
    for e in incrs:
        total = total + e[2]
    prove_eq(val.mkint(val.zint(total)), count if new or not uniq else 0,
             'a path is counted once')
    if meta is None:
        c.prove(b[4] is None and all(
            e[0] == 'add_meta' and e[2] is None for e in metas), 'no meta',
            repr(metas))
    elif b[4] is not None:
        c.record('bound to the leaf', 'unknown', repr(evs))
    else:
        c.prove([e for e in metas if e[0] == 'add_meta' and e[1] is leaf and
                 e[2] is meta] == metas and len(metas) >= 1,
                'bound to the leaf', repr(metas))
        c.reach('meta')


@task('C02', 'piece_pattern_node.build_from_piece_pattern_nodes')
def build_nodes(I):
    """build_from_piece_pattern_nodes(root, nodes): one node per node, keyed
    by its piece, with its parsed piece and its pattern; the count of the
    last is added along the path; its meta objects are added to the leaf"""
    c = ctx()
    build, leaf, new = built(c)
    I.stubs['utils.build_tree'] = build
    root = node_kind()('root')
    p = path_of(root)
    nodes = SSeq(p.seq.parts[1:])
    last = nodes.parts[-1][1]
    r = I.unpack(I.call(pn.build_from_piece_pattern_nodes, [
        root, I.new(SList(nodes))]), 2)
    c.prove(r[0] is leaf, 'the leaf', repr(r))
    prove_eq(r[1], new, 'is it new')
    evs = heap.events()
    builds = [e for e in evs if e[0] == 'build']
    metas = [e for e in evs if e[0] == 'update_meta']
    incrs = [e for e in evs if e[0] == 'incr']
    if len(builds) != 1 or len(builds) + len(incrs) + len(metas) != \
            len(evs) or builds[0][4] is not None or \
            any(e[3] is not True for e in incrs):
        c.record('the tree is built by build_tree', 'unknown', repr(evs))
        return
    b = builds[0]
    c.prove(b[1] is root, 'below the root', repr(b))
    at = lambda n, a: n.__pv_getattr__(None, a)
    prove_eq(b[2], nodes.map(lambda n: (at(n, 'piece'), (
        at(n, 'parsed_piece'), at(n, 'pattern')))), 'one node per node')
    total = b[3]
    for e in incrs:
        total = total + e[2]
    prove_eq(val.mkint(val.zint(total)), at(last, 'count'),
             'the count of the leaf')
    m = at(last, 'meta')
    if m is None:
        c.prove(all(e[2] is None for e in metas), 'no meta', repr(metas))
    elif not metas and not I.truth(m):
        pass                    # an empty set
    else:
        c.prove(len(metas) >= 1 and all(
            e[1] is leaf and e[2] is m for e in metas),
            'the meta objects of the leaf', repr(metas))
        c.reach('meta')


@task('C12 C02 C15', 'utils.dump_tree', forms=2)
def dump_tree(I):
    """dump_tree(root), assuming its contract for the sub-trees: yields the
    path [root] of a leaf, and else for every child, once, [root] followed by
    every path of the child, once (the recursive function: behind any nodes
    of its list, which ends with the node then, or stays as it was)"""
    c = ctx()
    grows = I.form == 0

    def kids(o):
        if o._a.get('leaf?') is None:
            raise Unsupported('children before leaf')
        return stream(o._a['kids'])

    def leaf(I, o):
        if 'leaf?' not in o._a:
            o._a['leaf?'] = bool(c.choose(2, 'leaf'))
            b = o._a['kids'] = Base('children', NODE,
                                    minlen=0 if o._a['leaf?'] else 1)
            if o._a['leaf?']:
                b.expand([])
            each(I, b, one_child)
        return o._a['leaf?']

    def one_child(ch, evs):
        subs = [e for e in evs if e[0] == 'dump']
        if c.prove(len(subs) == 1 and subs[0][1] is ch,
                   'every child is dumped once', repr(evs)):
            prove_each([e for e in evs if e[0] != 'dump'], subs[0][2],
                       'all the paths of every child')
        c.reach('child')

    def one_path(p, evs):
        prove_events(evs, [('yield', loops.freeze(p))], 'every path')
        c.reach('path')

    def sub(I, *args, **kw):
        """a call for a child: yields the paths below it, behind the nodes
        of the list; the list then ends with the child"""
        nodes = [a for a in args if isinstance(a, heap.Obj)]
        lists = [a for a in args if isinstance(a, SList)]
        if len(nodes) != 1 or len(lists) != 1 or len(args) != 2 or kw:
            raise Unsupported('another recursion')
        ch, l = nodes[0], lists[0]
        before = SSeq(l.seq.parts)
        want = SSeq(ahead + (('e', root),))
        if not c.prove(val.entails_eq(before, want),
                       'sub-paths start with the root', repr(before)):
            raise PathEnd()
        b = Base('sub', lambda n: SList(SSeq(
            before.parts + (('e', ch), SeqAtom(Base('below', NODE))))),
            minlen=1)
        each(I, b, one_path)
        event('dump', ch, b)
        if grows:
            I.wrote(l)
            l.seq = SSeq(before.parts + (('e', ch),))
        return stream(b)
    NODE = Kind('node', attrs={'children': kids}, methods={'leaf': leaf})
    root = NODE('root')
    ahead, lists = (), []

    def entering(args):
        # the recursive function, for any list of nodes ahead
        nonlocal ahead
        for a in args:
            if isinstance(a, SList) and not a.seq.parts:
                ahead = (SeqAtom(Base('ahead', NODE)),)
                a.seq = SSeq(ahead)
                lists.append(a)
    I.recursive, I.entering = sub, entering
    collect(I, I.call(ut.dump_tree, [root]))
    I.recursive = I.entering = None
    for l in lists:
        prove_eq(SSeq(l.seq.parts),
                 SSeq(ahead + ((('e', root),) if grows else ())),
                 'the list at the end')
    evs = heap.events()
    if 'leaf?' not in root._a:
        c.record('asks for the children', 'unknown')
        return
    if root._a['leaf?']:
        prove_events(evs, [('yield', loops.freeze(I.new(SList(SSeq(
            ahead + (('e', root),))))))],
                     'the path of a leaf')
        c.reach('leaf')
    else:
        prove_each(evs, root._a['kids'], 'every child once')
        c.reach('inner')


@task('C01 C02 C17', 'piece_pattern_node.PiecePatternNode.__init__ '
      'piece_pattern_node.PiecePatternNode.pattern '
      'piece_pattern_node.PiecePatternNode.set_pattern '
      'piece_pattern_node.PiecePatternNode.piece '
      'piece_pattern_node.PiecePatternNode.parsed_piece')
def node_pattern(I):
    """PiecePatternNode((piece, pattern)): its pattern is the one that was
    set last, else the one it was made with, else the literal text of its
    piece; its piece stays"""
    c = ctx()
    text = val.text('piece', minlen=0)
    pp = PIECE('piece', piece=text)
    first = PATTERN('first') if c.choose(2, 'made with') else None
    n = I.call(pn.PiecePatternNode, [(pp, first)])
    want = first
    for k in range(2):
        if c.choose(2, 'set'):
            want = PATTERN('set')
            I.call(I.getattr(n, 'set_pattern'), [want])
            c.reach('set')
        if c.choose(2, 'asked'):
            got = I.getattr(n, 'pattern')
            if want is None:
                if c.prove(isinstance(got, interp.module('pattern').Pattern)
                           or None, 'a pattern', heap.show(got)):
                    prove_eq(I.getattr(got, 'pattern_string'), text,
                             'the literal text')
                c.reach('literal')
            else:
                c.prove(got is want, 'the pattern that was set', heap.show(got))
    c.prove(I.getattr(n, 'parsed_piece') is pp, 'its piece')
    prove_eq(I.getattr(n, 'piece'), text, 'the text of its piece')
