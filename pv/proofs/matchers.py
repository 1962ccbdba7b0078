"""Contracts of the pattern matcher (C03, C04, C05, C11, C13)."""
import inspect

from .. import heap, interp, loops, spec as S, val
from ..core import ctx, PathEnd, Unsupported
from ..heap import Kind, event, each, prove_events, prove_each
from ..val import Base, SSeq, SDict, prove_eq
from ..models import in_finite, SBytes
from .base import task
from .makers import replace, at, UMETA
from .trees import stream, META, ut, pu

pt = interp.module('pattern_matcher')
pv = interp.module('parsed_piece_view')
PIECE = Kind('parsed piece', cls=pu.ParsedPiece)
PATTERN = Kind('match pattern', cls=pt.MatchPattern)


def seq(I, x):
    return SSeq(I.models.as_seq(I, x).parts)


def any_matchers(I, loads):
    """Stubs: parse gives pieces, patterns or an error; one digest; the
    matchers are arbitrary."""
    c = ctx()
    s = Kind('state')('state')._a
    s.update(text=val.text('text'), url_meta=UMETA('url_meta'),
             sid=val.text('sid'), is_url=None, got=[], known=[],
             pieces=Base('pieces', lambda n: PIECE(n), minlen=1),
             patterns=Base('patterns', lambda n: PATTERN(n), minlen=1))

    def parse(I, u):
        if val.veq(u, s['text']) is not True:
            raise Unsupported('parse(%r)' % (u,))
        if c.choose(2, 'parse fails'):
            raise heap.any_error()
        s['is_url'] = not c.choose(2, 'pattern')
        return (s['url_meta'], content())

    def content():
        return stream(s['pieces'] if s['is_url'] else s['patterns'])

    def digest(I, m, ps):
        if m is not s['url_meta'] or not val.entails_eq(seq(I, ps),
                                                        content()):
            raise Unsupported('digest(%r, %r)' % (m, ps))
        return s['sid']

    def load(I, o, ps, meta=None):
        event('load', o, seq(I, ps), meta)
        r = (Kind('leaf')('leaf'), bool(c.choose(2, 'new')))
        s['got'].append(r)
        return r

    def match(I, o, ps):
        event('match', o, seq(I, ps))
        r = I.new(val.SList(stream(Base('matched',
                                        lambda n: Kind('node')(n)))))
        s['got'].append(r)
        return r
    MATCHER = Kind('matcher', methods={'load': load, 'match': match})

    def new(I, m):
        o = MATCHER('new matcher')
        event('new', o, m)
        return o
    I.stubs['parser.parse'] = parse
    I.stubs['parser.fuzzy_digest'] = digest
    I.stubs['pattern_matcher.Matcher'] = new

    def value(k):
        o = MATCHER('known matcher')
        s['known'].append((k, o))
        return o
    p = s['matcher'] = I.call(pt.PatternMatcher, [])
    d = s['dict'] = heap.unknown_dict(I, value, 'matchers')
    replace(p, '_matchers', d)
    return s


@task('C04 C05 C13', 'pattern_matcher.PatternMatcher.load '
      'pattern_matcher.PatternMatcher.__init__')
def matcher_load(I):
    """PatternMatcher().load(text, meta) with any matchers: what is not a URL
    pattern is rejected and changes nothing; else the patterns and the meta
    are loaded, once, into the matcher of their fuzzy digest, made when there
    is none, and what its load gives is given"""
    c = ctx()
    s = any_matchers(I, True)
    meta, sid = META('meta'), s['sid']
    try:
        r = I.call(I.getattr(s['matcher'], 'load'), [s['text'], meta])
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        c.prove(s['is_url'] is not False, 'accepts a pattern', repr(e))
        prove_events(heap.events(), [], 'a rejected text has no effect')
        c.reach('rejected')
        return
    evs = heap.events()
    if not c.prove(s['is_url'] is False, 'rejects what is no pattern'):
        return
    mine = [o for k, o in s['known'] if val.veq(k, sid) is True]
    if mine:
        m = mine[0]
        evs = [e for e in evs if not (e[0] == 'put' and e[3] is m)]
        c.reach('known')
    else:
        news = [e for e in evs if e[0] == 'new']
        if not c.prove(len(news) == 1, 'one new matcher', repr(evs)):
            return
        m = news[0][1]
        puts = [e for e in evs if e[0] == 'put']
        c.prove(len(puts) >= 1 and all(
            e[1] is s['dict'] and e[3] is m and val.veq(e[2], sid) is True
            for e in puts), 'kept for the digest', repr(puts))
        evs = [e for e in evs if e[0] not in ('put', 'new')]
        c.reach('new')
    prove_events(evs, [('load', m, stream(s['patterns']), meta)],
                 'loaded into the matcher')
    c.prove(bool(s['got']) and (r is s['got'][0] or r == s['got'][0]),
            'the result', repr(r))


@task('C04 C05 C13', 'pattern_matcher.PatternMatcher.match')
def matcher_match(I):
    """PatternMatcher.match(url) with any matchers: what is not a URL is
    rejected; else the results are those of the matcher of its fuzzy digest
    for its pieces, none when there is no such matcher; nothing is changed"""
    c = ctx()
    s = any_matchers(I, False)
    try:
        r = I.call(I.getattr(s['matcher'], 'match'), [s['text']])
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        c.prove(s['is_url'] is not True, 'accepts a URL', repr(e))
        prove_events(heap.events(), [], 'a rejected text has no effect')
        c.reach('rejected')
        return
    if not c.prove(s['is_url'] is True, 'rejects what is no URL'):
        return
    mine = [o for k, o in s['known'] if val.veq(k, s['sid']) is True]
    others = [o for k, o in s['known'] if val.veq(k, s['sid']) is not True]
    c.prove(not others or None, 'of its digest', repr(s['known']))
    evs = heap.events()
    if not mine:
        prove_events(evs, [], 'nothing is changed')
        prove_eq(seq(I, r), SSeq(()), 'no result')
        c.reach('none')
        return
    prove_events(evs, [('match', mine[0], stream(s['pieces']))],
                 'matched by the matcher of its digest')
    c.prove(bool(s['got']) and r is s['got'][0] or None, 'the results',
            repr(r))
    c.reach('matched')


@task('C04 C05', 'pattern_matcher.Matcher.__init__ '
      'pattern_matcher.Matcher.load')
def sub_matcher_load(I):
    """Matcher(url_meta).load(patterns, meta): the path of the patterns is
    built in its own tree with this meta"""
    c = ctx()
    url_meta, meta = UMETA('url_meta'), META('meta')
    patterns = Base('patterns', PATTERN, minlen=1)
    res = (Kind('leaf')('leaf'), bool(c.choose(2, 'new')))

    def build(I, root, ps, count=1, meta=None):
        event('build', root, seq(I, ps), meta)
        return res
    I.stubs['utils.build_tree'] = build
    m = I.call(pt.Matcher, [url_meta])
    root = object.__getattribute__(m, '_root')
    c.prove(type(root) is pt.PatternMatchNode or None, 'a tree', repr(root))
    a = dict(loops.attrs_of(root))
    c.prove((a['parrent'] is None and not a['_children'] and
             len(seq(I, a['_view_matchers']).parts) == 0) or None,
            'an empty tree', repr(a))
    if c.choose(2, 'loaded before'):
        root = Kind('root', cls=pt.PatternMatchNode, attrs={
            'count': lambda o: val.new_int('count', 0)})('root')
        replace(m, '_root', root)
        c.reach('loaded before')
    r = I.call(I.getattr(m, 'load'), [stream(patterns), meta])
    prove_events(heap.events(), [('build', root, stream(patterns), meta)],
                 'the path is built')
    c.prove(r is res or r == res, 'the result', repr(r))
    c.prove(I.getattr(m, 'url_meta') is url_meta, 'its structure')
    c.reach('built')


@task('C04 C05', 'pattern_matcher.Matcher.match')
def sub_matcher_match(I):
    """Matcher.match(pieces): a list of exactly what its tree gives for the
    pieces, from the first on"""
    c = ctx()
    pieces = Base('pieces', PIECE, minlen=1)
    found = Base('found', lambda n: Kind('node')(n))
    calls = []

    def match(I, o, ps, idx, out):
        calls.append((o, seq(I, ps), idx))
        I.call(I.getattr(out, 'extend'), [stream(found)])
    ROOT = Kind('root', methods={'match': match})
    m = I.call(pt.Matcher, [UMETA('url_meta')])
    root = ROOT('root')
    replace(m, '_root', root)
    r = I.call(I.getattr(m, 'match'), [stream(pieces)])
    if c.prove(len(calls) == 1 and calls[0][0] is root or None,
               'the tree is asked once', repr(calls)):
        prove_eq(calls[0][1], stream(pieces), 'all the pieces')
        prove_eq(calls[0][2], 0, 'from the first')
        prove_eq(seq(I, r), stream(found), 'what it gives')
        c.reach('matched')


def loaded_before(n):
    """The node, after any number of loads."""
    a = dict(loops.attrs_of(n))
    for k in ('count', '_count'):
        if isinstance(a.get(k), int):
            replace(n, k, val.new_int('count', 0))
    return n


ALL_VIEWS = [pv.PieceView, pv.MultiView, pv.MixedView,
             pv.LastDotSplitFuzzyView, pv.LengthView, pv.FuzzyView]


@task('C04 C05', 'pattern_matcher.PatternMatchNode.match '
      'pattern_matcher.PatternMatchNode._deep_match')
def node_match(I):
    """PatternMatchNode.match(pieces, idx, out), when the nodes that one view
    matcher gives are all leaves or all inner nodes: every view matcher gives
    its nodes for piece idx; leaves are added to out, each inner node matches
    the next piece; nothing else happens"""
    c = ctx()
    idx = val.new_int('idx', 0)
    the = PIECE('piece')

    def item(I, o, k):
        if not val.entails_eq(k, idx):
            raise Unsupported('another piece')
        return the
    pieces = Kind('pieces', item=item)('pieces')
    out = Kind('out', methods={
        'extend': lambda I, o, s: event('found', seq(I, s)),
        'append': lambda I, o, x: event('found', SSeq((('e', x),)))})('out')

    def deep(I, o, ps, i, res):
        event('deep', o, i)
        if res is not out or ps is not pieces:
            raise Unsupported('other lists')

    def kids(o):
        return {'kids': 1} if o._a['inner'] else None
    NODE = Kind('node', cls=pt.PatternMatchNode,
                attrs={'_children': kids},
                methods={'match': deep,
                         'leaf': lambda I, o: not o._a['inner']})

    def match(I, o, p):
        event('ask', o, p)
        if c.choose(2, 'nothing'):
            o._a['nodes'] = None
            return I.new(val.SList(SSeq(())))
        inner = o._a['inner'] = bool(c.choose(2, 'inner'))

        def node(n):
            x = NODE(n)
            x._a['inner'] = inner
            return x
        b = o._a['nodes'] = Base('nodes', node, minlen=1)

        def one(x, evs):
            want = [('deep', x, idx + 1)] if inner else \
                [('found', SSeq((('e', x),)))]
            prove_events(evs, want, 'every node')
        each(I, b, one)
        return I.new(val.SList(stream(b)))
    VM = Kind('view matcher', methods={'match': match})

    def one(m, evs):
        asks = [e for e in evs if e[0] == 'ask']
        if len(asks) == 0:
            c.record('every view matcher is asked', 'refuted', repr(evs))
            return
        if not c.prove(len(asks) == 1 and asks[0][1] is m and
                       asks[0][2] is the or None,
                       'asked for the piece', repr(evs)):
            return
        evs = [e for e in evs if e[0] != 'ask']
        b = m._a['nodes']
        if b is None:
            prove_events(evs, [], 'nothing found')
            c.reach('nothing')
        elif not m._a['inner']:
            if len(evs) == 1 and evs[0][0] == 'found':
                prove_events(evs, [('found', stream(b))], 'all the leaves')
            else:
                prove_each(evs, b, 'all the leaves')
            c.reach('leaves')
        else:
            prove_each(evs, b, 'all the inner nodes')
            c.reach('inner')
    n = I.call(pt.PatternMatchNode, [PATTERN('pattern')])
    loaded_before(n)
    b = Base('matchers', VM)
    each(I, b, one)
    replace(n, '_view_matchers', I.new(val.SList(stream(b))))
    I.call(I.getattr(n, 'match'), [pieces, idx, out])
    prove_each(heap.events(), b, 'every view matcher once')


@task('C04 C05', 'pattern_matcher.PatternMatchNode._get_matcher '
      'pattern_matcher.get_view_matcher_cls '
      'pattern_matcher.ViewMatcher.__init__')
def get_matcher(I):
    """_get_matcher(view class), for any set of view matchers that was made
    by it: the one of that class when there is one, else a new one, of the
    kind that belongs to the class, that is added, with all others kept"""
    c = ctx()
    kinds = {pv.PieceView: pt.PiecePatternViewMatcher,
             pv.MultiView: pt.MultiPatternViewMatcher,
             pv.MixedView: pt.MixedPatternViewMatcher,
             pv.LastDotSplitFuzzyView: pt.MixedPatternViewMatcher,
             pv.LengthView: pt.LengthPatternViewMatcher,
             pv.FuzzyView: pt.FuzzyPatternViewMatcher}
    n = I.call(pt.PatternMatchNode, [PATTERN('pattern')])
    have = []
    f = I.getattr(n, '_get_matcher')
    order = ALL_VIEWS if c.choose(2, 'order') else ALL_VIEWS[::-1]
    for v in order:
        if c.choose(2, v.__name__):
            have.append((v, I.call(f, [v])))
    v = ALL_VIEWS[c.choose(6, 'view')]
    was = list(object.__getattribute__(n, '_view_matchers').seq.parts)
    m = I.call(f, [v])
    now = [p[1] for p in object.__getattribute__(n, '_view_matchers')
           .seq.parts]
    old = [x for w, x in have if w is v]
    if old:
        c.prove(m is old[0], 'the known one', repr(m))
        want = [x for _, x in have]
        c.reach('known')
    else:
        c.prove(type(m) is kinds[v] and I.getattr(m, 'view_cls') is v and
                all(m is not x for _, x in have), 'a new one of its kind',
                repr(m))
        want = [x for _, x in have] + [m]
        c.reach('new')
    c.prove(len(now) == len(want) and
            all(any(x is y for y in now) for x in want), 'all are kept',
            repr(now))


@task('C04 C05', 'pattern_matcher.PatternMatchNode.add_child '
      'pattern_matcher.PatternMatchNode.__init__')
def match_add_child(I):
    """PatternMatchNode.add_child(pattern): the child that is kept for the
    pattern when there is one; else a new one, whose value is the pattern and
    whose parent is the node, is kept and added, once, to the view matcher of
    the view class of the pattern"""
    c = ctx()
    p = PATTERN('pattern')
    v = ALL_VIEWS[c.choose(6, 'view')]
    p._a['view_cls'] = v
    n = loaded_before(I.call(pt.PatternMatchNode, [PATTERN('parent')]))
    known = []
    d = None
    if c.choose(2, 'children'):
        def value(k):
            o = Kind('node')('child')
            known.append((k, o))
            return o
        d = heap.unknown_dict(I, value, 'children')
        replace(n, '_children', d)
    VM = Kind('view matcher',
              methods={'add_match_node': heap.effect('add')})

    def get(I, o, cls):
        c.prove(o is n and cls is v, 'the view class of the pattern',
                repr(cls))
        return vm
    vm = VM('vm')
    I.stubs['pattern_matcher.PatternMatchNode._get_matcher'] = get
    r, new = I.call(I.getattr(n, 'add_child'), [p])
    evs = [e for e in heap.events() if e[0] != 'put']
    if known:
        c.prove(r is known[0][1], 'the known child', repr(r))
        prove_eq(new, False, 'not new')
        prove_events(evs, [], 'nothing is added')
        c.reach('known')
        return
    prove_eq(new, True, 'new')
    if not c.prove(type(r) is pt.PatternMatchNode or None, 'a node',
                   repr(r)):
        return
    c.prove(I.getattr(r, 'value') is p and I.getattr(r, 'pattern') is p and
            I.getattr(r, 'parrent') is n, 'its pattern and its parent')
    prove_events(evs, [('call', vm, 'add', (r,), ())], 'added once')
    puts = [e for e in heap.events() if e[0] == 'put']
    if d is not None:
        c.prove(len(puts) >= 1 and all(
            e[1] is d and e[2] is p and e[3] is r for e in puts), 'kept',
            repr(puts))
        c.reach('kept')
    else:
        k = object.__getattribute__(n, '_children')
        ok = isinstance(k, SDict) and len(k.items) == 1 and \
            k.items[0][0] is p and k.items[0][1] is r
        c.prove(ok or None, 'kept', repr(k))
        c.reach('first')


# ------------------------------------------------------------ view matchers
UNIT = Kind('unit', attrs={
    'num': lambda o: val.new_int('num'),
    'fuzzy_rule': lambda o: val.text('rule'),
    'pattern_unit_string': lambda o: val.text('unit', minlen=0)})


def match_node(pattern):
    return Kind('match node', cls=pt.PatternMatchNode,
                attrs={'pattern': lambda o: pattern,
                       'value': lambda o: pattern})('node')


def keyed_view(I, cls, view, pattern, piece, key, asked):
    """A view matcher in any state add_match_node leads to; the node is
    added, then the piece is matched: the nodes of the key of the piece."""
    c = ctx()
    m = I.call(cls, [view])
    known = []

    def value(k):
        n = Kind('known node')('known')
        known.append((k, n))
        return I.new(val.SList(SSeq((('e', n),))))
    d = heap.unknown_dict(I, value, 'matchers')
    replace(m, '_matchers', d)
    n = match_node(pattern)
    I.call(I.getattr(m, 'add_match_node'), [n])
    # two nodes of one tree do not have the same canonical pattern
    if any(val.entails_eq(k, key) for k, _ in known):
        raise PathEnd()
    same = bool(I.truth(I.eq(key, asked)))
    r = seq(I, I.call(I.getattr(m, 'match'), [piece]))
    if same:
        prove_eq(r, SSeq((('e', n),)), 'the node that was added')
        c.reach('added')
        return
    mine = [x for k, x in known if val.entails_eq(k, asked)]
    other = [x for k, x in known if not val.entails_eq(k, asked)]
    if r.parts == () and not mine:
        c.record('nothing', 'proved')
        c.reach('nothing')
        return
    got = [p[1] for p in r.parts if not isinstance(p, val.SeqAtom)]
    c.prove(n not in got, 'only of its key', repr(r))
    c.prove(not any(x is y for x in other for y in got),
            'only of its key', repr(r))
    if c.prove(len(mine) == 1 or None, 'the known nodes', repr(known)):
        prove_eq(r, SSeq((('e', mine[0]),)), 'the known nodes')
        c.reach('known')


@task('C04 C05', 'pattern_matcher.PiecePatternViewMatcher.add_match_node '
      'pattern_matcher.PiecePatternViewMatcher.match')
def piece_view_matcher(I):
    """PiecePatternViewMatcher: match(piece) gives exactly the nodes that
    were added whose pattern text is the text of the piece"""
    text, piece = val.text('pattern'), PIECE('piece')
    piece._a['piece'] = asked = val.text('piece')
    p = PATTERN('pattern', pattern_string=text)
    keyed_view(I, pt.PiecePatternViewMatcher, pv.PieceView, p, piece, text,
               asked)


@task('C04 C05', 'pattern_matcher.LengthPatternViewMatcher.add_match_node '
      'pattern_matcher.LengthPatternViewMatcher.match')
def length_view_matcher(I):
    """LengthPatternViewMatcher: match(piece) gives exactly the nodes that
    were added whose only unit has the length of the piece"""
    num, asked = val.new_int('num', 1), val.new_int('length', 0)
    piece = PIECE('piece', piece_length=asked)
    p = PATTERN('pattern', pattern_units=(UNIT('unit', num=num),))
    keyed_view(I, pt.LengthPatternViewMatcher, pv.LengthView, p, piece, num,
               asked)


@task('C04 C05', 'pattern_matcher.FuzzyPatternViewMatcher.__init__ '
      'pattern_matcher.FuzzyPatternViewMatcher.add_match_node '
      'pattern_matcher.FuzzyPatternViewMatcher.match')
def fuzzy_view_matcher(I):
    """FuzzyPatternViewMatcher: match(piece) gives exactly the nodes that
    were added"""
    c = ctx()
    m = I.call(pt.FuzzyPatternViewMatcher, [pv.FuzzyView])
    prove_eq(seq(I, I.call(I.getattr(m, 'match'), [PIECE('piece')])),
             SSeq(()), 'none at first')
    b = Base('nodes', lambda n: Kind('known node')(n))
    replace(m, '_matchers', I.new(val.SList(stream(b))))
    n = match_node(PATTERN('pattern'))
    I.call(I.getattr(m, 'add_match_node'), [n])
    r = seq(I, I.call(I.getattr(m, 'match'), [PIECE('piece')]))
    prove_eq(r, SSeq(stream(b).parts + (('e', n),)), 'all the nodes')
    c.reach('added')


class Trees(object):
    """The trees of a view matcher, the patterns that are made for it."""

    def __init__(self, I):
        self.I = I
        self.rules = []
        self.known = []
        self.PAT = Kind('unit pattern', cls=pt.MatchPattern, attrs={
            'fuzzy_rule': self.rule,
            'pattern_string': lambda o: val.text('unit', minlen=0)},
            eq=lambda a, b: val.veq(at(a, 'pattern_string'),
                                    at(b, 'pattern_string')))
        self.TREE = Kind('tree', cls=pt.PatternMatchNode)
        I.stubs['pattern_matcher.MatchPattern'] = self.make
        I.stubs['pattern_matcher.PatternMatchNode'] = self.node
        I.stubs['utils.build_tree'] = self.build

    def rule(self, o):
        for t, r in self.rules:
            if val.entails_eq(t, at(o, 'pattern_string')):
                return r
        r = val.text('rule', minlen=0)
        self.rules.append((at(o, 'pattern_string'), r))
        return r

    def make(self, I, text, last=False):
        if last is not False:
            raise Unsupported('at the last path')
        return self.PAT('unit pattern', pattern_string=text)

    def node(self, I, value):
        o = self.TREE('new tree')
        event('new', o, value)
        return o

    def build(self, I, root, ps, count=1, meta=None):
        event('build', root, seq(I, ps), meta)
        return Kind('leaf')('leaf'), True

    def value(self, k):
        o = self.TREE('known tree')
        self.known.append((k, o))
        return o

    def check(self, d, patterns, n):
        """n was added, once, to the tree of the joined rules, as the path
        of these patterns"""
        c = ctx()
        I = self.I
        evs = heap.events()
        builds = [e for e in evs if e[0] == 'build']
        puts = [e for e in evs if e[0] == 'put']
        if not c.prove(len(builds) == 1 or None if builds else False,
                       'added once', heap.show(evs)):
            return
        e = builds[0]
        prove_eq(e[2], patterns, 'the patterns of its units')
        c.prove(e[3] is n, 'leads to the node', repr(e[3]))
        keys = [k for k, o in self.known if o is e[1]] + \
            [p[2] for p in puts if p[3] is e[1]]
        want = I.models.method(I, '/', 'join', [e[2].map(
            lambda p: at(p, 'fuzzy_rule'))], {})
        if c.prove(len(keys) >= 1 or None, 'kept for its rules',
                   heap.show(evs)):
            for k in keys:
                prove_eq(k, want, 'kept for its rules')
        c.prove(all(p[1] is d and p[3] is e[1] for p in puts),
                'the others stay', heap.show(puts))
        c.reach('known' if any(o is e[1] for _, o in self.known) else 'new')


@task('C04 C05', 'pattern_matcher.MultiPatternViewMatcher.add_match_node '
      'parse_utils.fuzzy_join')
def multi_view_add(I):
    """MultiPatternViewMatcher.add_match_node(node): the path of one pattern
    per unit is added to the tree that is kept for the joined rules of the
    units, a new one if there was none; its leaf refers to the node"""
    c = ctx()
    w = Trees(I)
    m = I.call(pt.MultiPatternViewMatcher, [pv.MultiView])
    d = heap.unknown_dict(I, w.value, 'matchers')
    replace(m, '_matchers', d)

    def rule(o):
        return w.rule(w.PAT('p', pattern_string=at(
            o, 'pattern_unit_string')))
    U = Kind('unit', attrs={
        'fuzzy_rule': rule,
        'pattern_unit_string': lambda o: val.text('unit', minlen=0)})
    b = Base('units', U, minlen=1)
    n = match_node(PATTERN('pattern', pattern_units=stream(b)))
    I.call(I.getattr(m, 'add_match_node'), [n])
    w.check(d, stream(b).map(lambda u: w.PAT(
        'p', pattern_string=at(u, 'pattern_unit_string'))), n)


@task('C04 C05', 'pattern_matcher.ViewMatcher.match')
def view_match(I):
    """match(piece) of the multi and mixed view matchers: the nodes that the
    leaves refer to which the tree that is kept for the view of the piece
    gives for its parts, from the first on; none when there is no tree"""
    c = ctx()
    cls = [pt.MultiPatternViewMatcher, pt.MixedPatternViewMatcher][
        c.choose(2, 'class')]
    piece = PIECE('piece')
    parts = Base('parts', PIECE, minlen=1)
    text = val.text('view', minlen=0)
    calls, known = [], []

    class View(object):
        __pv_object__ = True

        def __pv_call__(self, I, args, kw):
            if len(args) != 1 or kw or args[0] is not piece:
                raise Unsupported('view of %r' % (args,))
            return Kind('view', attrs={
                'view': lambda o: text,
                'parsed_pieces': lambda o: I.new(val.SList(stream(parts)))
            })('view')
    LEAF = Kind('leaf', attrs={'meta': lambda o: Kind('node')('node')})

    def match(I, o, ps, idx, out):
        b = Base('found', LEAF)
        calls.append((o, seq(I, ps), idx, b))
        I.call(I.getattr(out, 'extend'), [stream(b)])
    TREE = Kind('tree', methods={'match': match})

    def value(k):
        o = TREE('tree')
        known.append((k, o))
        return o
    m = I.call(cls, [View()])
    d = heap.unknown_dict(I, value, 'matchers')
    replace(m, '_matchers', d)
    r = seq(I, I.call(I.getattr(m, 'match'), [piece]))
    prove_events(heap.events(), [], 'nothing is changed')
    mine = [o for k, o in known if val.entails_eq(k, text)]
    if not mine:
        c.prove(not known or None, 'the tree of the view', repr(known))
        prove_eq(r, SSeq(()), 'no result')
        c.reach('none')
        return
    if c.prove(len(calls) == 1 and calls[0][0] is mine[0] or None,
               'the tree of the view', repr(calls)):
        prove_eq(calls[0][1], stream(parts), 'all the parts')
        prove_eq(calls[0][2], 0, 'from the first')
        prove_eq(r, stream(calls[0][3]).map(lambda n: at(n, 'meta')),
                 'the nodes the leaves refer to')
        c.reach('matched')


class PlainSpec(loops.StreamSpec):
    """The maximal groups of plain units (literal, of letters, digits or
    '%'), joined; every other unit by itself.  State: (patterns, open group
    of plain units)."""
    cases = 2
    comprehensions = True

    def __init__(self, w, unit):
        self.w, self.unit = w, unit
        u = lambda plain: (lambda: unit('s', plain=plain))
        p, x = u(True), u(False)
        self.samples = ((), (p,), (x,), (p, p), (p, x), (x, p), (x, x),
                        (p, p, x), (x, p, x, p, p))

    def init(self):
        return ()

    def get(self, g):
        return g if g else ((), ())

    def generic(self, k, done):
        d = (val.SeqAtom(Base('patterns', self.w.PAT)),)
        if k == 0:
            return (d, ())
        el = lambda n: self.unit(n, plain=True)
        return (d, (val.SeqAtom(Base('group', el)), ('e', el('last'))))

    def close(self, g):
        d, t = self.get(g)
        if not t:
            return SSeq(d)
        text = self.w.I.models.method(self.w.I, '', 'join', [
            SSeq(t).map(unit_text)], {})
        return SSeq(d + (('e', self.w.PAT('p', pattern_string=text)),))

    def step(self, g, e, rest):
        d, t = self.get(g)
        if at(e, 'plain'):
            return (d, t + (('e', e),))
        return (self.close(g).parts + (('e', self.w.PAT(
            'p', pattern_string=unit_text(e))),), ())

    def leaves(self, g):
        d, t = map(SSeq, self.get(g))
        a = self.close(g)
        text = self.w.I.models.method(self.w.I, '', 'join', [
            t.map(unit_text)], {})
        return [('patterns', d), ('group', t), ('group texts',
                t.map(unit_text)), ('group text', text),
                ('all patterns', a), ('open', bool(t.parts))]


def unit_text(u):
    return at(u, 'pattern_unit_string')


@task('C04 C05', 'pattern_matcher.MixedPatternViewMatcher.add_match_node '
      'pattern_matcher.MixedPatternViewMatcher._pattern '
      'parse_utils.fuzzy_join')
def mixed_view_add(I):
    """MixedPatternViewMatcher.add_match_node(node): the path of one pattern
    per maximal group of literal units of letters, digits and '%', and one
    per other unit, is added to the tree that is kept for the joined rules
    of these patterns, a new one if there was none; its leaf refers to the
    node"""
    c = ctx()
    w = Trees(I)
    m = I.call(pt.MixedPatternViewMatcher, [pv.MixedView])
    d = heap.unknown_dict(I, w.value, 'matchers')
    replace(m, '_matchers', d)
    mixed = ('a-z', 'A-Z', '0-9', '%')

    def plain(o):
        return bool(c.choose(2, 'plain'))

    def literal(I, o):
        if 'literal' not in o._a:
            o._a['literal'] = at(o, 'plain') or \
                bool(c.choose(2, 'literal'))
        return o._a['literal']

    def rule(o):
        if at(o, 'plain'):
            return val.enum('rule', mixed)
        if not literal(I, o):
            return val.text('rule')
        return val.enum('rule', ('\\.', '_', '\\-', '&'))
    U = Kind('unit', attrs={
        'plain': plain, 'fuzzy_rule': rule,
        'pattern_unit_string': lambda o: val.text('unit', minlen=0)},
        methods={'is_literal': literal})
    b = Base('units', U, minlen=1)
    sp = loops.register(b, PlainSpec(w, U))
    n = match_node(PATTERN('pattern', pattern_units=stream(b)))
    I.call(I.getattr(m, 'add_match_node'), [n])
    if sp.final is None:
        raise Unsupported('the units were not read')
    w.check(d, sp.close(sp.final), n)


# ----------------------------------------------------------------- patterns
pa = interp.module('pattern')
RULES = sorted(set(S.RULES))
ALNUM = ('a-z', 'A-Z', '0-9')


class RuleSet(object):
    """A non-empty set of rules: one rule, or several: all of them letters or
    digits, all of them mixed, or not."""
    __pv_object__ = True

    def __init__(self, label, one=None, level=None):
        c = ctx()
        self.label = c.fresh(label)
        self.one, self.level = one, level
        if one is None and level is None and not c.choose(2, label):
            self.one = val.enum(label, RULES)
        self.several = self.one is None
        if self.several:
            self.n = val.new_int(label + '.n', 2)
        self.base = Base(label, lambda n: val.enum(n, RULES), minlen=2)

    def __repr__(self):
        return '<%s>' % self.label

    def within(self, table):
        """is it a subset?"""
        table = frozenset(table)
        if not self.several:
            return bool(in_finite(self.one, table))
        known = table & frozenset(RULES)
        if self.level is None and len(known) in (3, 4):
            self.level = 1 + ctx().choose(3, 'level')
        if known == frozenset(ALNUM):
            return self.level == 1
        if known == frozenset(ALNUM + ('%',)):
            return self.level <= 2
        if known == frozenset(RULES):
            return True
        if len(known) <= 1:
            return False
        raise Unsupported('subset of %r' % (sorted(known),))

    def __pv_len__(self, I):
        return self.n if self.several else 1

    def __pv_truth__(self, I):
        return True

    def __pv_iter__(self, I):
        return stream(self.base) if self.several else \
            SSeq((('e', self.one),))

    def __pv_contains__(self, I, x):
        if self.several:
            raise Unsupported('membership')
        return I.eq(self.one, x)

    def __veq__(self, o):
        if self is o:
            return True
        if isinstance(o, (set, frozenset)) and len(o) == 1:
            return self.within(o)
        return None

    def __pv_binop__(self, I, op, a, b):
        if op == 'Sub' and a is self and isinstance(b, (set, frozenset)):
            return Difference(self, b)
        raise Unsupported('operator %s' % op)

    def __pv_compare__(self, I, op, a, b):
        if isinstance(b, (set, frozenset)) and a is self and op == 'LtE' or \
                isinstance(a, (set, frozenset)) and b is self and op == 'GtE':
            return self.within(b if a is self else a)
        raise Unsupported('comparison %s' % op)

    def __pv_getattr__(self, I, name):
        if name in ('issubset', 'difference'):
            return SetMethod(self, name)
        raise Unsupported('method %s of a set' % name)


class SetMethod(object):
    def __init__(self, s, name):
        self.s, self.name = s, name

    def __pv_call__(self, I, args, kw):
        if self.name == 'issubset':
            return self.s.within(args[0])
        return Difference(self.s, args[0])


class Difference(object):
    """Only its truth is known."""
    __pv_object__ = True

    def __init__(self, s, table):
        self.s, self.table = s, table

    def __pv_truth__(self, I):
        return not self.s.within(self.table)

    def __pv_getattr__(self, I, name):
        raise Unsupported('method %s of a set' % name)


@task('C04 C05 C11', 'pattern.PatternUnit.__init__ '
      'pattern.PatternUnit.is_literal')
def unit_literal(I):
    """PatternUnit(text).is_literal(): its rules and number are those that
    are read (parse_pattern_unit_string); it is literal when the text is not
    a bracket, or a fixed number of one sign"""
    c = ctx()
    text = val.text('text', minlen=0)
    bracket = bool(c.choose(2, 'bracket'))
    if bracket:
        text = '[' + text
    elif c.choose(2, 'not empty'):
        text = val.char('first', val.excluding('[')) + text
    else:
        text = ''
    num = val.new_int('num')
    rules = RuleSet('rules')
    one = rules.one

    def parse(I, t):
        prove_eq(t, text, 'its text is read')
        return rules, num
    I.stubs['parse_utils.parse_pattern_unit_string'] = parse
    u = I.call(pa.PatternUnit, [text])
    c.prove(I.getattr(u, 'rules') is rules, 'its rules')
    prove_eq(I.getattr(u, 'num'), num, 'its number')
    prove_eq(I.getattr(u, 'pattern_unit_string'), text, 'its text')
    r = bool(I.truth(I.call(I.getattr(u, 'is_literal'), [])))
    if not bracket:
        c.prove(r, 'a run is literal')
        c.reach('run')
    elif one is None:
        c.prove(not r, 'several rules are not literal')
        c.reach('several')
    else:
        sign = not rules.within(ALNUM)
        if not sign:
            c.prove(not r, 'letters in a bracket are not literal')
            c.reach('letters')
        else:
            c.prove((num.z > 0) == r, 'a sign is literal when its number '
                    'is fixed')
            c.reach('sign')


def any_unit(label):
    """A unit of a pattern: literal or not, with any rules."""
    c = ctx()

    def literal(I, o):
        if 'literal' not in o._a:
            if at(o, 'rules').several:
                o._a['literal'] = False
            else:
                o._a['literal'] = bool(c.choose(2, 'literal'))
        return o._a['literal']
    return Kind('unit', attrs={
        'rules': lambda o: RuleSet('rules'),
        'num': lambda o: val.new_int('num')},
        methods={'is_literal': literal})(label)


def is_literal(u):
    return u._k.methods['is_literal'](None, u)


class UnitsSpec(loops.StreamSpec):
    """Is there a unit that is not literal; the first with several rules may
    end the loop.  State: () | (some not literal,)"""
    cases = 2
    comprehensions = True
    any_start = True

    def __init__(self):
        def u(literal, one):
            def f():
                x = any_unit('s')
                x._a['rules'] = RuleSet('s', 'a-z') if one else \
                    RuleSet('s', None, 1)
                x._a['literal'] = literal
                return x
            return f
        p, x = u(True, True), u(False, True)
        self.samples = ((), (p,), (x,), (p, x), (x, p), (p, p, p), (x, p, p),
                        (p, p, x), (p, x, x, p))

    def init(self):
        return ()

    def generic(self, k, done):
        if self.state and self.state[0] and not k:
            raise PathEnd()          # a step never goes back
        return (bool(k),)

    def step(self, g, e, rest):
        if not is_literal(e) and at(e, 'rules').several:
            raise Unsupported('goes on after a unit with several rules')
        return (bool(g and g[0]) or not is_literal(e),)

    def leaves(self, g):
        v = bool(g and g[0])
        return [('view', pv.MultiView if v else pv.PieceView), ('some', v),
                ('none', not v)]


@task('C05 C04 C11', 'parsed_piece_view.view_cls_from_pattern')
def view_of_pattern(I):
    """view_cls_from_pattern(pattern, is_last_path): literal text has the
    piece view; one unit that is not literal the length view or the fuzzy
    view; of several units: runs when each that is not literal has one rule,
    else mixed; at the last path position, head, dot and a short tail of
    letters and digits: the last dot view"""
    c = ctx()
    last = bool(c.choose(2, 'last path'))
    tail = None
    if not c.choose(2, 'several units'):
        u = any_unit('unit')
        units = (u,)
        want = pv.PieceView
        if not is_literal(u):
            num = at(u, 'num')
            want = pv.FuzzyView if c.branch(num.z < 0, 'unbounded') else \
                pv.LengthView
        c.reach('one unit')
    else:
        head, dot = any_unit('head'), any_unit('dot')
        n = c.choose(4, 'tail')
        tail = [any_unit('tail') for _ in range(n if n < 3 else 0)]
        units = SSeq(tuple(('e', u) for u in [head, dot] + tail))
        if n == 3:
            b = Base('units', any_unit)
            b.expand(list(units.parts) + [Base('more', any_unit, 3)])
            units = stream(b)
            sp = loops.register(b, UnitsSpec())
    p = Kind('pattern', attrs={'pattern_units': lambda o: units})('pattern')
    r = I.call(pv.view_cls_from_pattern, [p] + ([last] if last else []))
    if tail is None:
        c.prove(r is want, 'of one unit', repr(r))
        return
    known = [head, dot] + tail
    rest = 0                        # all literal
    if n == 3:
        if sp.at is not None and sp.at[1] is not None:
            e = sp.at[1]
            if is_literal(e) or not at(e, 'rules').several:
                raise Unsupported('left the loop')
            rest = 2
        elif sp.final is not None:
            rest = int(bool(sp.final and sp.final[0]))
        elif not any(not is_literal(u) and at(u, 'rules').several
                     for u in known):
            raise Unsupported('the units were not read')
    kinds = [0 if is_literal(u) else 1 + at(u, 'rules').several
             for u in known] + [rest]
    mixed = ALNUM + ('%',)
    if max(kinds) == 0:
        c.prove(r is pv.PieceView, 'literal text', repr(r))
        c.reach('literal')
        return
    if last and at(dot, 'rules').within(['\\.']) and n <= 2 and all(
            at(u, 'rules').within(ALNUM) for u in tail) and (
                all(is_literal(u) for u in tail) or
                len(tail) == 1 and (
                    not at(tail[0], 'rules').several or
                    at(head, 'rules').several and
                    not at(head, 'rules').within(mixed))):
        c.prove(r is pv.LastDotSplitFuzzyView, 'head, dot and tail', repr(r))
        c.reach('last dot')
        return
    want = [None, pv.MultiView, pv.MixedView][max(kinds)]
    c.prove(r is want, 'of several units', repr((r, kinds)))
    c.reach(want.__name__)


@task('C03 C04 C05 C09', 'pattern.Pattern.__init__ '
      'pattern.Pattern.pattern_units pattern.Pattern.fuzzy_rule '
      'pattern.PatternUnit.fuzzy_rule')
def pattern_rules(I):
    """Pattern(text): its units are those of the unit texts that are read
    (parse_pattern_string), in order; its fuzzy rule is the sorted union of
    their rules, also when it is asked again; that of a unit is its sorted
    rules"""
    c = ctx()
    text = val.text('text', minlen=0)
    texts = Base('texts', lambda n: val.text(n, minlen=0), minlen=1)
    made = []

    class Rules(object):
        __pv_object__ = True

        def __init__(self, t):
            self.t = t

        def __veq__(self, o):
            return isinstance(o, Rules) and val.veq(self.t, o.t)

        def __pv_flat__(self):
            return (('e', ('flat', self)),)

        def __repr__(self):
            return 'rules(%r)' % (self.t,)

    def parse(I, t):
        prove_eq(t, text, 'its text is read')
        return stream(texts)
    U = Kind('unit', attrs={'rules': lambda o: Rules(at(o, 'text'))},
             eq=lambda a, b: val.veq(at(a, 'text'), at(b, 'text')))

    def unit(I, t):
        return U('unit', text=t)
    I.stubs['parse_utils.parse_pattern_string'] = parse
    I.stubs['pattern.PatternUnit'] = unit
    p = I.call([pa.Pattern, pt.MatchPattern][0], [text])
    prove_eq(I.getattr(p, 'pattern_string'), text, 'its text')
    first = bool(c.choose(2, 'units first'))
    if first:
        prove_eq(seq(I, I.getattr(p, 'pattern_units')),
                 stream(texts).map(lambda t: U('u', text=t)), 'its units')
    want = val.app('sortjoin:', [val.SSet(stream(texts).map(
        lambda t: ('flat', Rules(t))))])
    for k in range(2):
        prove_eq(I.getattr(p, 'fuzzy_rule'), want, 'its fuzzy rule')
    prove_eq(seq(I, I.getattr(p, 'pattern_units')),
             stream(texts).map(lambda t: U('u', text=t)), 'its units')
    prove_eq(I.call(str, [p]), text, 'its text')
    c.reach('units')
    del I.stubs['pattern.PatternUnit']
    b = Base('rules', lambda n: val.enum(n, RULES), minlen=1)
    rules = I.new(val.SSet(stream(b)))
    I.stubs['parse_utils.parse_pattern_unit_string'] = \
        lambda I, t: (rules, 1)
    u = I.call(pa.PatternUnit, [text])
    for k in range(2):
        prove_eq(I.getattr(u, 'fuzzy_rule'),
                 val.app('sortjoin:', [val.SSet(stream(b))]),
                 'the rule of a unit')


@task('C02 C04 C05 C11', 'pattern.Pattern.__eq__ pattern.Pattern.__hash__ '
      'pattern_matcher.MatchPattern.__ne__ pattern.Pattern.__str__')
def pattern_equality(I):
    """Patterns are equal exactly when their texts are; then their hashes
    are"""
    c = ctx()
    a, b = val.text('a'), val.text('b')
    I.stubs['parsed_piece_view.view_cls_from_pattern'] = \
        lambda I, p, last=False: pv.PieceView
    cls = [pa.Pattern, pt.MatchPattern][c.choose(2, 'class')]
    p, q = I.call(cls, [a]), I.call(cls, [b])
    same = val.decide_eq(a, b)
    prove_eq(bool(I.truth(I.eq(p, q))), bool(same), 'equal iff the texts are')
    import ast
    prove_eq(bool(I.truth(I.compare(ast.NotEq(), p, q))), not same,
             'unequal iff the texts are')
    if same:
        prove_eq(I.call(hash, [p]), I.call(hash, [q]),
                 'equal patterns have equal hashes')
        c.reach('same')


# ---------------------------------------------------------------- the digest
ps_ = interp.module('parser')


def digests(I):
    """md5 as an unknown function of the bytes."""
    import hashlib

    class Hex(object):
        def __init__(self, t):
            self.t = t

        def __veq__(self, o):
            return isinstance(o, Hex) and val.veq(self.t, o.t)

        def __repr__(self):
            return 'md5(%r)' % (self.t,)
    MD5 = Kind('md5', methods={'hexdigest': lambda I, o: Hex(o._a['t'])})

    def update(I, o, b):
        o._k = md5(I, b)._k
        o._a['t'] = b.s
    NEW = Kind('new md5', methods={'update': update})

    def md5(I, b=None):
        if b is None:
            return NEW('md5')
        if not isinstance(b, SBytes) or b.s is None:
            raise Unsupported('md5 of %r' % (b,))
        return MD5('md5', t=b.s)
    I.ext[hashlib.md5] = md5
    ctx().assumed.add('md5 and UTF-8 have no collisions on the packed texts')
    return Hex


@task('C03', 'parse_utils.fuzzy_digest parse_utils.digest parse_utils.pack '
      'parser.fuzzy_digest')
def fuzzy_digest(I):
    """fuzzy_digest(url_meta, objects): the md5 of the packed text of the
    structure and the fuzzy rules of the objects, in order (pack is injective
    on them: round_trip)"""
    c = ctx()
    Hex = digests(I)
    from .lexical import structure, packed
    meta, objs, parts, kv, init = structure(I)
    O = Kind('object')

    def obj(t):
        return O('object', fuzzy_rule=t)
    things = objs.map(obj)
    if c.choose(2, 'class'):
        things = I.new(val.SList(things))
    r = I.call(ps_.fuzzy_digest, [meta, things])
    if not isinstance(r, Hex):
        raise Unsupported('digest %r' % (r,))
    prove_eq(r.t, packed(parts), 'the packed structure and rules')
    c.reach('digest')


@task('C03 C05 C13 C14', 'parser.fuzzy_digest')
def fuzzy_digest_text(I):
    """fuzzy_digest(text): the digest of what parse gives for the text; two
    arguments are taken as they are; else ValueError"""
    c = ctx()
    text, meta = val.text('text'), UMETA('url_meta')
    b = Base('objs', lambda n: Kind('object')(n), minlen=1)
    res = val.text('digest')
    calls = []

    def parse(I, t):
        prove_eq(t, text, 'its text is parsed')
        return meta, stream(b)

    def digest(I, m, objs):
        calls.append((m, seq(I, objs)))
        return res
    I.stubs['parser.parse'] = parse
    I.stubs['parse_utils.fuzzy_digest'] = digest
    n = c.choose(4, 'arguments')
    args = [[], [text], [meta, stream(b)], [meta, stream(b), 1]][n]
    try:
        r = I.call(ps_.fuzzy_digest, args)
    except ValueError:
        c.prove(n in (0, 3), 'accepts a text, or structure and objects')
        c.reach('rejected')
        return
    if not c.prove(n in (1, 2) or None, 'rejects other arguments'):
        return
    prove_eq(r, res, 'the digest')
    if c.prove(len(calls) == 1 and calls[0][0] is meta or None,
               'of the structure', repr(calls)):
        prove_eq(calls[0][1], stream(b), 'of all the objects')
        c.reach('digest')


class MarkSpec(loops.StreamSpec):
    """Every element is mapped, `last` in another way.  State: () | (what
    they are mapped to,)"""
    any_start = True
    comprehensions = True

    def __init__(self, last, mk):
        self.last, self.mk = last, mk
        t = lambda: val.text('s')
        self.samples = ((), (t,), (t, t), (t, t, t))

    def init(self):
        return ()

    def generic(self, k, done):
        return (SSeq((self.state[0].parts if self.state else ()) +
                     stream(done).map(lambda t: self.mk(t, False)).parts),)

    def step(self, g, e, rest):
        return (SSeq((g[0].parts if g else ()) +
                     (('e', self.mk(e, e is self.last)),)),)

    def leaves(self, g):
        return [('mapped', g[0] if g else SSeq(()))]


@task('C03 C04 C05 C13 C14', 'parser.parse parse_utils.analyze_url')
def parse_text(I):
    """parse(text): a text that starts with '/' is a URL pattern, its parts
    become match patterns, the one at the last path level marked; any other
    is a URL, its parts become parsed pieces; what cannot be read is
    rejected"""
    c = ctx()
    is_pattern = bool(c.choose(2, 'pattern'))
    text = val.text('text', minlen=0)
    if is_pattern:
        text = '/' + text
    elif c.choose(2, 'empty'):
        text = ''
    else:
        text = val.char('first', val.excluding('/')) + text
    init = Base('levels', lambda n: val.text(n, minlen=0))
    last = val.text('last', minlen=0)
    rest = Base('rest', lambda n: val.text(n, minlen=0))
    depth = val.SInt(init.zlen + 1)
    meta = UMETA('url_meta', path_depth=depth)
    root = Base('parts', lambda n: val.text(n, minlen=0))
    root.expand([init, ('e', last), rest])
    parts = stream(root)
    failed = []
    result = Kind('result')('result')

    def fails(label):
        if c.choose(2, label):
            failed.append(label)
            raise heap.any_error()

    def read(what):
        def f(I, t, *a):
            if val.veq(t, text) is not True or a:
                raise Unsupported('%s(%r)' % (what, t))
            if (what == 'analyze_url_pattern_string') != is_pattern:
                c.record('pattern or URL', 'refuted', what)
                raise PathEnd()
            fails(what)
            return (meta, parts) if is_pattern else result
        return f

    default = (list(inspect.signature(pu.unpack).parameters.values()) +
               [None, None])[1]

    def unpack(I, r, norm=getattr(default, 'default', None)):
        if r is not result:
            raise Unsupported('unpack(%r)' % (r,))
        c.prove(norm is True, 'the keys are normalised', repr(norm))
        fails('unpack')
        return meta, parts
    I.stubs['parse_utils.analyze_url_pattern_string'] = read(
        'analyze_url_pattern_string')
    I.stubs['parse_utils.parse_url'] = read('parse_url')
    I.stubs['parse_utils.unpack'] = unpack
    P = Kind('match pattern', cls=pt.MatchPattern,
             eq=lambda a, b: both(val.veq(a._a['text'], b._a['text']),
                                  a._a['last'] == b._a['last']))
    Q = Kind('parsed piece', cls=pu.ParsedPiece,
             eq=lambda a, b: val.veq(a._a['text'], b._a['text']))

    def both(a, b):
        return False if not b else a

    def pattern(I, t, last=False):
        return P('pattern', text=t, last=bool(I.truth(last)))
    if is_pattern:
        loops.register(root, MarkSpec(last, lambda t, l: P(
            'p', text=t, last=l)))
    I.stubs['pattern_matcher.MatchPattern'] = pattern
    I.stubs['parse_utils.PieceParser.parse'] = \
        lambda I, o, t: Q('piece', text=t)
    try:
        m, got = I.call(ps_.parse, [text])
    except Exception as e:
        c.prove(bool(failed), 'accepts what can be read', repr(e))
        c.reach('rejected')
        return
    c.prove(m is meta, 'the structure', repr(m))
    got = seq(I, got)
    if not is_pattern:
        prove_eq(got, parts.map(lambda t: Q('q', text=t)), 'the pieces')
        c.reach('url')
        return
    mk = lambda t: P('p', text=t, last=False)
    prove_eq(got, SSeq(stream(init).map(mk).parts +
                       (('e', P('p', text=last, last=True)),) +
                       stream(rest).map(mk).parts), 'the patterns')
    c.reach('pattern')


# ---------------------------------------------------------------- the order
TIER = {pv.PieceView: 0, pv.MultiView: 1, pv.MixedView: 1,
        pv.LastDotSplitFuzzyView: 1, pv.LengthView: 2, pv.FuzzyView: 3}


def less(I, a, b):
    """a < b as a z3 expression or a bool"""
    import ast
    r = I.compare(ast.Lt(), a, b)
    if isinstance(r, val.SBool):
        return r.z
    return bool(I.truth(r))


def prove_weak_order(lt, xs, name):
    """irreflexive, asymmetric, transitive, and so is `neither`"""
    import z3
    c = ctx()
    B = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    l = dict(((i, j), B(lt(xs[i], xs[j])))
             for i in range(3) for j in range(3))
    c.prove(z3.Not(z3.Or([l[i, i] for i in range(3)])),
            name + ': irreflexive')
    c.prove(z3.Not(z3.And(l[0, 1], l[1, 0])), name + ': asymmetric')
    c.prove(z3.Implies(z3.And(l[0, 1], l[1, 2]), l[0, 2]),
            name + ': transitive')
    same = lambda i, j: z3.Not(z3.Or(l[i, j], l[j, i]))
    c.prove(z3.Implies(z3.And(same(0, 1), same(1, 2)), same(0, 2)),
            name + ': equally specific is transitive')


def ordered_patterns(I, n):
    """n match patterns of any views; the keys of one view are ordered."""
    c = ctx()
    views, out, keys = {}, [], {}

    def view(I, p, last=False):
        return views[id(object.__getattribute__(p, 'pattern_string'))]

    def key(I, p):
        t = object.__getattribute__(p, 'pattern_string')
        if id(t) not in keys:
            keys[id(t)] = (val.new_int('key'), t)
        return keys[id(t)][0]
    I.stubs['parsed_piece_view.view_cls_from_pattern'] = view
    I.stubs['pattern_matcher.MatchPattern.cmp_key'] = key
    for i in range(n):
        t = val.text('pattern')
        views[id(t)] = v = ALL_VIEWS[c.choose(6, 'view')]
        p = I.call(pt.MatchPattern, [t])
        out.append((p, v, t))
    return out


@task('C11', 'pattern_matcher.MatchPattern.__lt__ '
      'pattern_matcher.MatchPattern.__init__')
def pattern_order(I):
    """The order of match patterns is a strict weak order; literal text
    ranks above partly generalised text, above a fixed length, above a
    wildcard (cmp_key: any values that can be ordered)"""
    c = ctx()
    ps = ordered_patterns(I, 3)
    (p, v, _), (q, w, _) = ps[:2]
    if TIER[v] != TIER[w]:
        prove_eq(less(I, p, q), TIER[v] > TIER[w], 'ranks')
        c.reach('ranks')
    else:
        c.reach('same rank')
    prove_weak_order(lambda a, b: less(I, a, b), [x[0] for x in ps],
                     'patterns')


@task('C11', 'pattern_matcher.PatternMatchNode.__lt__ '
      'pattern_matcher.PatternMatchNode.pattern')
def node_order(I):
    """The order of match nodes of one depth, when that of patterns and that
    of their parents are strict weak orders: the order of the patterns
    decides, that of the parents when they are equally specific; the root is
    not less than itself"""
    import z3
    c = ctx()

    class Ordered(object):
        """equal only to itself; its order is that of its rank"""
        __pv_object__ = True

        def __init__(self, name):
            self.name, self.rank = name, val.new_int(name)

        def __veq__(self, o):
            return self is o

        def __repr__(self):
            return self.name

        def __pv_compare__(self, I, op, a, b):
            f = {'Lt': a.rank < b.rank, 'Gt': a.rank > b.rank}
            if op not in f:
                raise Unsupported(op)
            return f[op]

        def __pv_getattr__(self, I, name):
            if name == 'parrent':
                raise Unsupported('the parent of a parent')
            if name in ('value', 'pattern'):
                raise Unsupported('the pattern of a parent')
            raise Unsupported(name)
    pats = [Ordered('pattern%d' % i) for i in range(3)]
    if c.choose(2, 'same pattern'):
        pats[1] = pats[0]
    if c.choose(2, 'same pattern too'):
        pats[2] = pats[1]
    parents = [Ordered('parent%d' % i) for i in range(3)]
    if c.choose(2, 'same parent'):
        parents[1] = parents[0]
        if pats[1] is pats[0]:
            raise PathEnd()          # then it is the same node
    nodes = []
    for p, q in zip(pats, parents):
        n = I.call(pt.PatternMatchNode, [p])
        replace(n, 'parrent', q)
        nodes.append(n)
    lt = lambda a, b: less(I, a, b)
    r = lt(nodes[0], nodes[1])
    a, b = pats[0].rank.z, pats[1].rank.z
    x, y = parents[0].rank.z, parents[1].rank.z
    want = z3.Or(a < b, z3.And(a == b, x < y))
    c.prove(want == r, 'the last difference decides')
    root = I.call(pt.PatternMatchNode, [Ordered('empty')])
    prove_eq(lt(root, root), False, 'the root')
    prove_weak_order(lt, nodes, 'nodes')
    c.reach('ordered')


@task('C11', 'pattern_matcher.MatchPattern.cmp_key')
def pattern_key(I):
    """cmp_key, for up to 3 units (besides pattern_key_any): a text that only
    depends on the views of the units, in their order, each taken as a
    pattern by itself; asked again it is the same"""
    c = ctx()
    n = 1 + c.choose(3, 'units')
    views = [ALL_VIEWS[c.choose(6, 'view')] for _ in range(n)]
    texts, of = [], {}

    def view(I, p, last=False):
        t = object.__getattribute__(p, 'pattern_string')
        if id(t) not in of:
            return pv.MultiView
        c.prove(not last, 'by itself')
        return of[id(t)]
    I.stubs['parsed_piece_view.view_cls_from_pattern'] = view
    got = []
    for k in range(2):
        units = []
        for v in views:
            t = val.text('unit')
            of[id(t)] = v
            texts.append(t)
            units.append(UNIT('unit', pattern_unit_string=t))
        p = I.call(pt.MatchPattern, [val.text('pattern')])
        replace(p, '_pattern_units', tuple(units))
        got.append(I.getattr(p, 'cmp_key'))
        prove_eq(I.getattr(p, 'cmp_key'), got[-1], 'asked again')
    prove_eq(got[0], got[1], 'only of the views')
    c.prove(isinstance(got[0], str) or None, 'a text', repr(got))
    c.reach('key')


@task('C11', 'pattern_matcher.MatchPattern.cmp_key')
def pattern_key_any(I):
    """cmp_key of any two patterns of any number of units whose views are the
    same, each unit taken as a pattern by itself: the same text; asked again
    it is the same"""
    c = ctx()
    of = {}

    def view(I, p, last=False):
        t = object.__getattribute__(p, 'pattern_string')
        if id(t) not in of:
            return pv.MultiView
        c.prove(not last, 'by itself')
        return of[id(t)][1]

    def pair(name):
        """units of the two patterns at one position"""
        v = ALL_VIEWS[c.choose(6, 'view')]
        us = []
        for _ in range(2):
            t = val.text('unit')
            of[id(t)] = (t, v)
            us.append(UNIT('unit', pattern_unit_string=t))
        return Kind('pair', attrs={'k%d' % k: (lambda o, u=u: u)
                                   for k, u in enumerate(us)})('pair')
    I.stubs['parsed_piece_view.view_cls_from_pattern'] = view
    units = Base('units', pair, minlen=1)
    got = []
    for k in range(2):
        p = I.call(pt.MatchPattern, [val.text('pattern')])
        replace(p, '_pattern_units', stream(units).map(
            lambda e, k=k: at(e, 'k%d' % k)))
        got.append(I.getattr(p, 'cmp_key'))
        prove_eq(I.getattr(p, 'cmp_key'), got[-1], 'asked again')
    prove_eq(got[0], got[1], 'only of the views')
    c.prove(isinstance(got[0], (str, val.SStr)) or None, 'a text', repr(got))
    c.reach('key')
