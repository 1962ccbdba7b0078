"""Contracts of the lexical functions (parse_utils.py, definition.py)."""
from .. import val, loops, ghost, spec as S, interp as ip
from ..core import ctx, PathEnd, Unsupported
from ..ghost import *
from ..loops import register, register_cursor, SpecReject
from ..val import (SStr, SSeq, SList, SDict, SSet, SInt, SBool, Base, Atom,
                   SeqAtom, Sym, mkint, zint, new_int, new_bool, prove_eq)
from .base import task, expect_reject

pu = ip.module('parse_utils')
ex = ip.module('exceptions')
df = ip.module('definition')


@task('C06 C16 C01', 'parse_utils.specify_rule parse_utils.wildcard_rule')
def specify_rule(I):
    """specify_rule(rule, n): [rule], [rule]{n}, [rule]+; 0 is rejected"""
    c = ctx()
    rule = val.text('rule')
    if c.choose(2, 'which') == 1:
        prove_eq(I.call(pu.wildcard_rule, [rule]), '[' + rule + ']+',
                 'wildcard')
        return
    n = new_int('n')
    try:
        r = I.call(pu.specify_rule, [rule, n])
    except ValueError:
        c.prove(n.z == 0, 'only 0 is rejected')
        return
    c.prove(n.z != 0, '0 is rejected')
    prove_eq(r, specify(rule, n), 'text')


def final(sp):
    if sp.final is None:
        raise Unsupported('the stream was not read')
    return sp.final


def havoc(I, obj):
    """Every attribute of obj gets an arbitrary value of its type."""
    for n, v in loops.attrs_of(obj):
        if isinstance(v, SList):
            v.seq = SSeq((SeqAtom(Base('old_' + n, any_text)),))
        else:
            object.__setattr__(obj, n, val.Poison(n))


def any_text(name):
    return val.text(name)


@task('C06', 'parse_utils.PieceParser.parse parse_utils.PieceParser.__init__ '
      'parse_utils.ParsedPiece.__init__ parse_utils.ParsedPiece.piece')
def parse_piece(I):
    """PieceParser.parse(p), on a parser with any history: the maximal runs
    of p, signs with their number; rejects exactly the unknown characters"""
    c = ctx()
    p = Atom('p')
    sp = register(p, RunSpec())
    parser = I.call(pu.PieceParser, [])
    havoc(I, parser)
    try:
        r = I.call(I.getattr(parser, 'parse'), [SStr.mk((p,))])
    except ex.InvalidCharException:
        expect_reject(sp, 'rejects unknown characters only')
        return
    c.reach('parsed')
    a = sp.all(final(sp))
    prove_eq(I.getattr(r, 'rules'), a.map(f_rule), 'rules')
    prove_eq(I.getattr(r, 'pieces'), a.map(f_norm), 'pieces')
    prove_eq(I.getattr(r, 'piece'), joined(a, f_norm), 'piece')


@task('C16', 'parse_utils.normalize')
def normalize(I):
    """normalize(s, reserved): runs of a sign that is not reserved get their
    number, everything else stays"""
    c = ctx()
    p = Atom('p')
    res = [None, df.QUERY_PART_RESERVED_CHARS, frozenset()][
        c.choose(3, 'reserved')]
    sp = register(p, NormSpec(set(res) if res else ''))
    if res:
        c.prove(set(res) == {'='}, 'the query keys keep "="')
    try:
        r = I.call(pu.normalize, [SStr.mk((p,)), res])
    except ex.InvalidCharException:
        expect_reject(sp, 'rejects unknown characters only')
        return
    c.reach('normalized')
    prove_eq(r, sp.result(final(sp)), 'text')


@task('C06', 'parse_utils.ParsedPiece.piece_length')
def piece_length(I):
    """piece_length of a piece with the literal text of any tokens: the sum
    of their numbers; the second call gives the same"""
    c = ctx()
    b = Base('toks', Tok)
    text = val.join_text(b, f_text)
    I.stubs['parse_utils.ParsedPiece.piece'] = lambda I_, o: text
    sp = register_cursor(b, LiteralSpec(), f_text)
    sp.whole = text
    pieces = SSeq((SeqAtom(Base('pieces', any_text)),))
    rules = SSeq((SeqAtom(Base('rules', any_text)),))
    o = I.call(pu.ParsedPiece, [pieces, rules])
    n = I.getattr(o, 'piece_length')
    want = mkint(zint(val.total(SSeq((SeqAtom(b),)), f_count)))
    c.reach('length')
    prove_eq(n, want, 'length')
    prove_eq(I.getattr(o, 'piece_length'), want, 'second call')


@task('C06', '')
def ghost_facts(I):
    """What the ghost functions claim about themselves: the characters of
    the tokens, numbers that are not negative; a sign's rule"""
    c = ctx()
    t = Tok('t')
    for g in val.segs_of(f_text(t)):
        d = val.CharSet(g) if isinstance(g, str) else g.dom
        c.prove(d.minus(f_text.dom).empty(), 'characters of a token')
    c.prove(zint(f_count(t)) >= 0, 'numbers are not negative')
    if t.kind:
        c.prove(all(S.RULE[x] == ('\\' + x if t.kind == 2 else x)
                    for x in t.ch.segs[0].dom.s), 'rule of a sign')


@task('C06 C01 C04 C16', '')
def rules_as_regex(I):
    """Every rule in brackets, as a regular expression, matches exactly the
    characters of its class (over all code points); two or three rules, and
    all of them, exactly the characters of theirs (finite check over the table of the
    code with re)"""
    import re
    import sys
    from os_urlpattern.definition import CHAR_RULE_DICT
    c = ctx()
    table = dict(CHAR_RULE_DICT)
    rules = sorted(set(table.values()))
    every = ''.join(map(chr, range(sys.maxunicode + 1)))
    some = ''.join(map(chr, range(256))) + ''.join(sorted(table))

    def exact(rs, text, name):
        got = set(re.findall('[%s]' % ''.join(rs), text))
        want = set(x for x, r in table.items() if r in rs)
        c.prove(got == want, name, '%r: %r' % (rs, sorted(got ^ want)[:5]))
    for i, r in enumerate(rules):
        exact((r,), every, 'one rule')
        for j, q in enumerate(rules[i + 1:], i + 1):
            exact((r, q), some, 'two rules')
            for p in rules[j + 1:]:
                exact((r, q, p), some, 'three rules')
    exact(tuple(rules), every, 'all the rules')


@task('C06 C03', 'parse_utils.ParsedPiece.fuzzy_rule '
      'parse_utils.ParsedPiece.__eq__ parse_utils.ParsedPiece.__hash__')
def parsed_piece(I):
    """fuzzy_rule: the sorted distinct rules; equality and hash: the text"""
    c = ctx()
    def rule(name):
        return val.enum(name, S.RULES)
    b = Base('rules', rule)
    t = Base('pieces', any_text)
    o = I.call(pu.ParsedPiece, [SSeq((SeqAtom(t),)), SSeq((SeqAtom(b),))])
    prove_eq(I.getattr(o, 'fuzzy_rule'),
             sorted_join(SSeq((SeqAtom(b),))), 'fuzzy rule')
    text = val.join_text(t, val.ident)
    prove_eq(I.getattr(o, 'piece'), text, 'piece')
    t2 = Base('pieces2', any_text)
    o2 = I.call(pu.ParsedPiece, [SSeq((SeqAtom(t2),)), SSeq((SeqAtom(b),))])
    text2 = val.join_text(t2, val.ident)
    h1, h2 = I.call(hash, [o]), I.call(hash, [o2])
    r = I.truth(I.eq(o, o2))
    c.prove(r == val.decide_eq(text, text2), 'equal iff the texts are')
    if r:
        prove_eq(h1, h2, 'equal pieces have equal hashes')
    c.prove(I.truth(I.eq(o, text)) is False, 'not equal to a text')


def sorted_join(seq):
    from .. import models
    return models.join_sorted(None, '', SSet(seq))


@task('C06', '')
def lemma_tokens(I):
    """The canonical text of the runs of p is a text of tokens whose numbers
    add up to len(p) (induction over the characters of p)"""
    c = ctx()
    sp = RunSpec()
    k = c.choose(sp.cases, 'case')
    g = sp.generic(k, None)

    def tok(run):
        return run if run is not None and run.ch is not None else None

    def norm(g):
        return joined(sp.all(g), f_norm)
    # the tokens so far: (their text, their count, the current sign run)
    if k == 0:
        h = ('', 0, None)
    elif g[1].ch is not None:
        h = (joined(SSeq(g[0]), f_norm),
             zint(val.length(sp.link(g))) - zint(g[1].n), g[1])
    else:
        h = (norm(g), zint(val.length(sp.link(g))), None)
    e = val.char('e')
    try:
        g2 = sp.step(g, e, None)
    except SpecReject:
        return
    text, n, cur = h
    r = rule_of(e)
    if is_letters(r):
        if cur is not None:
            text, n = text + specify(cur.rule, cur.n), n + zint(cur.n)
        h2 = (text + e, n + 1, None)
    elif cur is not None and val.decide_eq(cur.rule, r):
        h2 = (text, n, Run(r, None, cur.n + 1, e))
    else:
        if cur is not None:
            text, n = text + specify(cur.rule, cur.n), n + zint(cur.n)
        h2 = (text, n, Run(r, None, 1, e))
    text, n, cur = h2
    if cur is not None:
        text, n = text + specify(cur.rule, cur.n), n + zint(cur.n)
    prove_eq(norm(g2), text, 'same text')
    c.prove(zint(val.length(sp.link(g2))) == n, 'numbers add up')
    prove_eq(sp.link(g2), sp.link(g) + e, 'the runs are the text')


@task('C07', 'parse_utils.parse_query_string')
def parse_query(I):
    """parse_query_string(q): the items between '&', split at their first
    '='; an empty item is rejected"""
    c = ctx()
    k = c.choose(3, 'query')
    if k == 0:
        prove_eq(I.call(pu.parse_query_string, [None]), ((), ()), 'none')
        return
    if k == 1:
        prove_eq(I.call(pu.parse_query_string, ['']), (('',), ('',)),
                 'empty')
        return
    q = Atom('q', minlen=1)
    sp = register(q, QuerySpec())
    try:
        keys, values = I.call(pu.parse_query_string, [SStr.mk((q,))])
    except ex.IrregularURLException:
        if sp.at is not None:
            expect_reject(sp, 'rejects empty items only')
        else:                        # before the loop
            ch = SStr((q,)).char_at(-1)
            c.prove(val.decide_eq(ch, '&'), 'rejects empty items only')
        return
    c.reach('parsed')
    try:
        want = sp.result(final(sp))
    except SpecReject:
        c.record('rejects empty items', 'refuted', repr(sp.final))
        return
    prove_eq(keys, want[0], 'keys')
    prove_eq(values, want[1], 'values')


def path_levels(name, dom=val.excluding('/'), start=False):
    """An arbitrary non-empty sequence of texts: (root, all but the last,
    last)"""
    def level(n):
        return val.text(n, dom)
    root = Base(name, level)
    init = Base(name + '.init', level)
    last = level(name + '.last')
    return root, init, last


@task('C08', 'parse_utils.filter_useless')
def filter_useless(I):
    """filter_useless(objs): the objects that are not empty, and the last
    one; lists stay lists, tuples tuples"""
    c = ctx()
    as_tuple = c.choose(2, 'class')
    if c.choose(2, 'any') == 0:
        objs = () if as_tuple else I.new(SList())
        prove_eq(val.seq_of(I.call(pu.filter_useless, [objs])), SSeq(()),
                 'nothing')
        return
    root, init, last = path_levels('objs')
    sp = register(root, FilterSpec())
    root.expand([init, ('e', last)])
    register(init, sp)
    seq = SSeq((SeqAtom(root),))
    objs = seq if as_tuple else I.new(SList(seq))
    r = I.call(pu.filter_useless, [objs])
    c.prove(isinstance(r, (SSeq, tuple)) if as_tuple else
            isinstance(r, SList), 'class')
    c.reach('filtered')
    kept = sp.parts(final(sp))
    if not (kept and not isinstance(kept[-1], SeqAtom)
            and kept[-1][1] is last):
        kept = kept + (('e', last),)
    prove_eq(val.seq_of(r), SSeq(kept), 'kept')


def runs_piece(name, minlen=0):
    """The runs of an arbitrary piece: more than that, any sequence of texts
    with rules."""
    return Base(name, any_run, minlen)


def seq(base, fn):
    return SSeq((SeqAtom(base, fn),))


@task('C10', 'parse_utils.mix')
def mix(I):
    """mix(pieces, rules): the maximal groups of letters, digits and '%'
    become one piece with the sorted distinct rules, the others stay"""
    c = ctx()
    b = runs_piece('runs')
    sp = register(b, MixSpec())
    as_list = c.choose(2, 'class')
    p, r = seq(b, f_raw), seq(b, f_rule)
    if as_list:
        p, r = I.new(SList(p)), I.new(SList(r))
    ps, rs = I.call(pu.mix, [p, r])
    for x in (ps, rs):
        c.prove(isinstance(x, SList) if as_list else
                isinstance(x, (SSeq, tuple)), 'class')
    want = sp.close(final(sp))
    c.reach('mixed')
    prove_eq(val.seq_of(ps), want.map(g_text), 'pieces')
    prove_eq(val.seq_of(rs), want.map(g_rule), 'rules')


pv_ = ip.module('parsed_piece_view')


def piece_of_runs(I, b):
    return I.call(pu.ParsedPiece, [seq(b, f_raw), seq(b, f_rule)])


def part_text(I):
    return lambda p: I.getattr(p, 'piece')


def part_rule(I):
    return lambda p: I.getattr(p, 'fuzzy_rule')


def partition(I, parts, b, name):
    """parts (known in number) cut the runs b: each has the text and the
    sorted distinct rules of some consecutive runs"""
    c = ctx()
    rest = list(SSeq((SeqAtom(b),)).parts)
    for p in parts:
        text, rule = I.getattr(p, 'piece'), I.getattr(p, 'fuzzy_rule')
        for k in range(len(rest) + 1):
            head = SSeq(rest[:k])
            if val.entails_eq(joined(head, f_raw), text) and \
                    val.entails_eq(fuzzy_of(head.map(f_rule)), rule):
                rest = rest[k:]
                break
        else:
            whole = joined(SSeq((SeqAtom(b),)), f_raw)
            got = ''
            for q in parts:
                got = got + I.getattr(q, 'piece')
            prove_eq(got, whole, name + ': the parts make up the piece')
            c.record(name + ': part', 'unknown', repr((text, rule, rest)))
            return
    prove_eq(joined(SSeq(rest), f_raw), '', name + ': nothing is left')
    c.record(name + ': parts', 'proved')


VIEW_FNS = ('parsed_piece_view.ParsedPieceView.__init__ '
            'parsed_piece_view.ParsedPieceView.view '
            'parse_utils.fuzzy_join ')


@task('C10', VIEW_FNS + 'parsed_piece_view.ParsedPieceView.parsed_pieces')
def multi_view(I):
    """MultiView: one part per run"""
    c = ctx()
    b = runs_piece('runs')
    v = I.call(pv_.MultiView, [piece_of_runs(I, b)])
    for k in ('first', 'second'):
        parts = val.seq_of(I.getattr(v, 'parsed_pieces'))
        prove_eq(parts.map(part_text(I)), seq(b, f_raw), k + ' texts')
        prove_eq(parts.map(part_rule(I)), seq(b, f_rule), k + ' rules')
    prove_eq(I.getattr(v, 'view'), I.call('/'.join, [seq(b, f_rule)]),
             'view')
    c.reach('multi')


def fold(sp, b):
    """The specification on the elements of b, all known."""
    l = SSeq((SeqAtom(b),)).concrete()
    if l is None:
        raise Unsupported('the stream was not read')
    g = sp.init()
    for e in l:
        g = sp.step(g, e, None)
    return sp.close(g)


@task('C10', VIEW_FNS + 'parsed_piece_view.MixedView.parsed_pieces '
      'parse_utils.mix')
def mixed_view(I):
    """MixedView: the maximal groups of letters, digits and '%', the other
    runs alone; the empty piece has one empty part"""
    c = ctx()
    b = runs_piece('runs')
    sp = register(b, MixSpec())
    v = I.call(pv_.MixedView, [piece_of_runs(I, b)])
    l = val.seq_of(I.getattr(v, 'parsed_pieces'))
    if sp.final is not None:
        want = sp.close(sp.final)
    else:                            # few runs, not mixed by a loop
        if c.entails(b.zlen == 0):
            b.expand([])
        want = fold(sp, b)
        if not want.parts:
            want = SSeq([('e', Group('', ''))])
    prove_eq(l.map(part_text(I)), want.map(g_text), 'texts')
    prove_eq(l.map(part_rule(I)), want.map(g_rule), 'rules')
    prove_eq(I.getattr(v, 'view'), I.call('/'.join, [want.map(g_rule)]),
             'view')
    l = val.seq_of(I.getattr(v, 'parsed_pieces'))
    prove_eq(l.map(part_text(I)), want.map(g_text), 'texts again')
    c.reach('mixed')


@task('C10', VIEW_FNS + 'parsed_piece_view.LastDotSplitFuzzyView.'
      'parsed_pieces parsed_piece_view.FuzzyView.__init__ '
      'parsed_piece_view.FuzzyView.parsed_pieces')
def fuzzy_views(I):
    """LastDotSplitFuzzyView, FuzzyView: the parts cut the runs of the piece;
    the fuzzy view has one part"""
    c = ctx()
    b = runs_piece('runs')
    last_dot = c.choose(2, 'which')
    pp = piece_of_runs(I, b)
    v = I.call(pv_.LastDotSplitFuzzyView if last_dot else pv_.FuzzyView,
               [pp])
    for k in ('first', 'second'):
        l = val.seq_of(I.getattr(v, 'parsed_pieces')).concrete()
        if l is None:
            raise Unsupported('parts of unknown number')
        partition(I, l, b, k)
        if not last_dot:
            c.prove(len(l) == 1, 'one part')
        c.reach('%d parts' % len(l))
    t = ''
    for i, p in enumerate(l):
        t = t + ('/' if i else '') + I.getattr(p, 'fuzzy_rule')
    prove_eq(I.getattr(v, 'view'), t, 'view')


def last_runs(b, n):
    """The runs before, and at most n runs at the end of b: cases."""
    tail = []
    parts = list(SSeq((SeqAtom(b),)).parts)
    while parts and len(tail) < n:
        p = parts[-1]
        if isinstance(p, SeqAtom):
            if not val.seq_split_last(p.base):
                parts.pop()
            else:
                parts = list(SSeq(parts).parts)
            continue
        tail.insert(0, parts.pop()[1])
    return SSeq(parts), tail


@task('C05', VIEW_FNS + 'parsed_piece_view.LastDotSplitFuzzyView.'
      'parsed_pieces')
def last_dot_cut(I):
    """LastDotSplitFuzzyView: what is before the last dot, the dot, and the
    letters and digits behind it, when the dot is one of the last three runs
    and all behind it are letters and digits; else the piece as a whole"""
    c = ctx()
    b = runs_piece('runs')
    head, tail = last_runs(b, 3)
    v = I.call(pv_.LastDotSplitFuzzyView, [piece_of_runs(I, b)])
    l = val.seq_of(I.getattr(v, 'parsed_pieces')).concrete()
    if l is None:
        raise Unsupported('parts of unknown number')
    head = SSeq(head.parts)
    at = None
    for i in range(len(tail) - 1, -1, -1):
        r = tail[i].rule
        if in_finite(r, ['\\.']) if not isinstance(r, str) else \
                r == '\\.':
            at = i
            break
        if not is_letters(r):
            break
    runs = list(head.parts) + [('e', r) for r in tail]
    if at is None:
        want = [runs]
    else:
        k = len(head.parts) + at
        want = [runs[:k], runs[k:k + 1]] + (
            [runs[k + 1:]] if runs[k + 1:] else [])
    c.reach('%d parts' % len(want))
    c.prove(len(l) == len(want), 'parts', repr((l, want)))
    if len(l) != len(want):
        return
    for p, w in zip(l, want):
        w = SSeq(w)
        prove_eq(I.getattr(p, 'piece'), joined(w, f_raw), 'text')
        prove_eq(I.getattr(p, 'fuzzy_rule'), fuzzy_of(w.map(f_rule)), 'rule')


@task('C10', 'parsed_piece_view.ParsedPieceView.__eq__ '
      'parsed_piece_view.ParsedPieceView.__hash__')
def view_equality(I):
    """Views are equal exactly when their view texts are"""
    c = ctx()
    cls = [pv_.MultiView, pv_.MixedView, pv_.LastDotSplitFuzzyView,
           pv_.FuzzyView, pv_.PieceView, pv_.LengthView][
               c.choose(6, 'class')]
    views = {}
    I.stubs['parsed_piece_view.ParsedPieceView.view'] = \
        lambda I_, o: views[id(o)]
    I.stubs['parse_utils.ParsedPiece.piece_length'] = lambda I_, o: 0
    v1, v2 = [I.call(cls, [piece_of_runs(I, runs_piece(n))])
              for n in ('r1', 'r2')]
    for v, n in ((v1, 'view1'), (v2, 'view2')):
        views[id(v)] = val.text(n)
    same = I.truth(I.eq(v1, v2))
    c.prove(same == val.decide_eq(views[id(v1)], views[id(v2)]), 'equal')
    h1, h2 = I.call(hash, [v1]), I.call(hash, [v2])
    if same:
        prove_eq(h1, h2, 'hash')
    c.prove(I.truth(I.eq(v1, views[id(v1)])) is False, 'not a text')


@task('C10 C03', '')
def rules_are_prefix_code(I):
    """No rule is a prefix of another, so a text of rules is read in one way;
    with '/' between the parts, too, when no part has the rule '/' twice
    (finite check over the rules)"""
    c = ctx()
    for a in S.RULES:
        c.prove(not any(x != a and x.startswith(a) for x in S.RULES),
                'prefix code')
        c.prove(bool(a), 'not empty')


# ------------------------------------------------------------------- URLs
from urllib.parse import urlparse, urlsplit, ParseResult, SplitResult

NOT_QF = val.excluding('?#')
NOT_F = val.excluding('#')


def maybe(name, k, dom=val.ANY):
    return val.text(name, dom) if k else None


@task('C08', 'parse_utils.parse_url')
def parse_url(I):
    """parse_url(u): the query is what is between the first '?' and the '#',
    None without '?'; the fragment what is behind the first '#', None
    without '#'; path and the rest as urlparse gives them"""
    c = ctx()
    q = maybe('q', c.choose(2, 'query'), NOT_F)
    f = maybe('f', c.choose(2, 'fragment'))
    url = val.text('base', NOT_QF, 1)
    if q is not None:
        url = url + '?' + q
    if f is not None:
        url = url + '#' + f
    rest = [val.text(n) for n in ('scheme', 'netloc', 'path', 'params')]

    def parsed(I_, u, *a, **k):
        if a or k or not val.entails_eq(u, url):
            raise Unsupported('urlparse(%r)' % (u,))
        return ParseResult(*(rest + [q if q is not None else '',
                                     f if f is not None else '']))
    I.ext[urlparse] = parsed
    r = I.call(pu.parse_url, [url])
    prove_eq(I.getattr(r, 'query'), q, 'query')
    prove_eq(I.getattr(r, 'fragment'), f, 'fragment')
    for n, v in zip(('scheme', 'netloc', 'path', 'params'), rest):
        prove_eq(I.getattr(r, n), v, n)
    c.reach('parsed')


def any_kv(name):
    return Item(val.text(name + '.k'), val.text(name + '.v'), '')


@task('C08 C16', 'parse_utils.unpack')
def unpack(I):
    """unpack(result, normalize): the levels of the path behind its first
    '/', without empty ones but the last; the values of the query; the
    fragment.  The structure: the number of levels, the keys (normalised
    when asked for, '=' kept), whether there is a fragment"""
    c = ctx()
    norm = c.choose(2, 'normalize')
    query = maybe('q', c.choose(2, 'query'))
    fragment = maybe('f', c.choose(2, 'fragment'))
    head = val.text('head', val.excluding('/'))
    slash = c.choose(2, 'slash')
    root, init, last = path_levels('levels')
    sp = register(root, FilterSpec())
    root.expand([init, ('e', last)])
    register(init, sp)
    path = head
    if slash:
        path = head + '/' + val.join_text(init, val.ident, '/') + last
    kv = Base('kv', any_kv)

    def query_stub(I_, q):
        if not val.entails_eq(q, query):
            raise Unsupported('parse_query_string(%r)' % (q,))
        if c.choose(2, 'query rejected'):
            c.reach('query rejected')
            raise ex.IrregularURLException('query')
        return seq(kv, f_key), seq(kv, f_value)

    def normalize_stub(I_, s, reserved=None):
        c.prove(reserved is not None and set(reserved) == {'='},
                "keys keep '='")
        if c.choose(2, 'key rejected'):
            raise ex.InvalidCharException('key')
        return val.app('normalize', [s])
    I.stubs['parse_utils.parse_query_string'] = query_stub
    I.stubs['parse_utils.normalize'] = normalize_stub
    res = pu.URLPatternParseResult(path, query, fragment)
    if c.choose(2, 'kind'):
        res = ParseResult('', '', path, '', query, fragment)
    try:
        meta, pieces = I.call(pu.unpack, [res, bool(norm)])
    except ex.IrregularURLException as e:
        if e.args[:1] != ('query',):
            c.prove(not slash, 'rejects paths without a level only')
        return
    except ex.InvalidCharException:
        c.reach('key rejected')
        return
    if not slash:
        c.record('rejects paths without a level', 'refuted', repr(pieces))
        return
    c.reach('unpacked')
    kept = sp.parts(final(sp))
    if not (kept and not isinstance(kept[-1], SeqAtom)
            and kept[-1][1] is last):
        kept = kept + (('e', last),)
    levels = SSeq(kept)
    prove_eq(I.getattr(meta, 'path_depth'), mkint(zint(levels.length())),
             'path depth')
    keys = seq(kv, f_key)
    if norm:
        keys = keys.map(lambda k: val.app('normalize', [k]))
    prove_eq(val.seq_of(I.getattr(meta, 'query_keys')), keys, 'keys')
    prove_eq(I.getattr(meta, 'has_fragment'), fragment is not None,
             'has fragment')
    want = levels.parts + seq(kv, f_value).parts
    if fragment is not None:
        want = want + (('e', fragment),)
    prove_eq(val.seq_of(pieces), SSeq(want), 'pieces')
    c.prove(isinstance(pieces, (SSeq, tuple)), 'a tuple')


PATH_DOM = val.excluding('/?#')
VALUE_DOM = val.excluding('&#')


def canonical_kv(name):
    """Key and value text of a query item: a key with its '=', or a key
    without and no value."""
    k = val.text(name + '.k', val.excluding('&#='))
    if ctx().choose(2, 'has value'):
        return Item(k + '=', val.text(name + '.v', VALUE_DOM), '')
    return Item(k, '', '')


def structure(I, read=False):
    """(meta, objs, parts) of an arbitrary canonical structure and texts"""
    c = ctx()
    init = Base('levels', lambda n: val.text(n, PATH_DOM, 1))
    last = val.text('last', PATH_DOM)
    root = Base('paths', lambda n: val.text(n, PATH_DOM))
    sp = FilterSpec(True) if read else None
    if read:
        register(root, sp)
    root.expand([init, ('e', last)])
    if read:
        register(init, sp)
    k = c.choose(3, 'query')
    keys, values = SSeq(()), SSeq(())
    if k == 1:                       # one value without key
        keys = SSeq((('e', ''),))
        values = SSeq((('e', val.text('v', val.excluding('&#='))),))
    elif k == 2:
        kv = Base('kv', canonical_kv, 1)
        keys, values = seq(kv, f_key), seq(kv, f_value)
    f = maybe('f', c.choose(2, 'fragment'))
    depth = mkint(zint(SSeq((SeqAtom(root),)).length()))
    meta = pu.URLMeta(depth, keys, f is not None)
    objs = SSeq((SeqAtom(root),) + values.parts +
                ((('e', f),) if f is not None else ()))
    path = '/' + val.join_text(init, val.ident, '/') + last
    query = None
    if k:
        items = b_zip(I, keys, values).map(lambda t: t[0] + t[1])
        query = I.call('&'.join, [items])
    return meta, objs, (path, query, f), (keys, values), init


def b_zip(I, *a):
    from .. import models
    return models.b_zip(I, *a)


def packed(parts):
    path, query, f = parts
    t = path
    if query is not None:
        t = t + '[\\?]' + query
    if f is not None:
        t = t + '#' + f
    return t


@task('C08 C03', 'parse_utils.pack')
def pack(I):
    """pack(meta, texts): '/' and the path texts with '/' between, '[\\?]'
    and the keys with their values with '&' between, '#' and the fragment"""
    c = ctx()
    meta, objs, parts, kv, init = structure(I)
    if c.choose(2, 'class'):
        objs = I.new(SList(objs))
    r = I.call(pu.pack, [meta, objs])
    prove_eq(r, packed(parts), 'text')
    c.reach('packed')


@task('C08', 'parse_utils.parse_url_pattern_string')
def parse_pattern_url(I):
    """parse_url_pattern_string gives back the packed path, query and
    fragment"""
    c = ctx()
    meta, objs, parts, kv, init = structure(I)
    r = I.call(pu.parse_url_pattern_string, [packed(parts)])
    for n, v in zip(('path', 'query', 'fragment'), parts):
        prove_eq(I.getattr(r, n), v, n)
    c.reach('parsed')


@task('C08 C03', 'parse_utils.analyze_url_pattern_string '
      'parse_utils.parse_url_pattern_string parse_utils.unpack')
def round_trip(I):
    """analyze_url_pattern_string(pack(meta, texts)) = (meta, texts) for
    canonical texts (path texts without '/', '?', '#', only the last one may
    be empty; keys and values without '&', '#', '=' only at the end of a
    key)"""
    c = ctx()
    meta, objs, parts, kv, init = structure(I, True)

    def query_stub(I_, q):
        if parts[1] is None:
            if q is not None:
                c.record('no query', 'refuted', repr(q))
                raise PathEnd()
            return (), ()
        prove_eq(q, parts[1], 'the packed query is parsed')
        return kv
    I.stubs['parse_utils.parse_query_string'] = query_stub
    m2, p2 = I.call(pu.analyze_url_pattern_string, [packed(parts)])
    for n in ('path_depth', 'has_fragment'):
        prove_eq(I.getattr(m2, n), I.getattr(meta, n), n)
    prove_eq(val.seq_of(I.getattr(m2, 'query_keys')), kv[0], 'keys')
    prove_eq(val.seq_of(p2), objs, 'texts')
    c.reach('round trip')


@task('C08 C07', '')
def lemma_query_items(I):
    """Reading key, '=' and value of an item, then '&', adds that item
    (the steps of the induction over the characters of an item)"""
    c = ctx()
    sp = QuerySpec()
    items = (SeqAtom(Base('items', any_item)),)
    k, v = val.text('key', NOT_AMP_EQ), val.text('value', NOT_AMP)
    kind = c.choose(5, 'step')
    if kind == 0:                    # a character of the key
        e = val.char('e', NOT_AMP_EQ)
        g = sp.step((items, k, None, None), e, None)
        prove_eq(g[1], k + e, 'key grows')
        c.prove(g[2] is None and g[0] == items, 'still in the key')
    elif kind == 1:
        g = sp.step((items, k, None, None), '=', None)
        prove_eq(g[1], k + '=', 'key ends')
        prove_eq(g[2], '', 'value starts')
    elif kind == 2:
        e = val.char('e', NOT_AMP)
        g = sp.step((items, k + '=', v, None), e, None)
        prove_eq(g[2], v + e, 'value grows')
        prove_eq(g[1], k + '=', 'key stays')
    elif kind == 3:
        g = sp.step((items, k + '=', v, None), '&', None)
        prove_eq(SSeq(g[0]).map(f_key),
                 SSeq(SSeq(items).map(f_key).parts + (('e', k + '='),)),
                 'key is kept')
        prove_eq(SSeq(g[0]).map(f_value),
                 SSeq(SSeq(items).map(f_value).parts + (('e', v),)),
                 'value is kept')
    else:
        n = val.char('n', NOT_AMP_EQ)
        g = sp.step((items, k + n, None, None), '&', None)
        prove_eq(SSeq(g[0]).map(f_key),
                 SSeq(SSeq(items).map(f_key).parts + (('e', k + n),)),
                 'key without value is kept')
        prove_eq(SSeq(g[0]).map(f_value),
                 SSeq(SSeq(items).map(f_value).parts + (('e', ''),)),
                 'empty value')


# ------------------------------------------------------------ pattern texts
def bad_tail(k):
    """The ways a text can go on behind its last token without being one."""
    any_ = val.text('any')
    if k == 1:                       # neither letter nor digit nor bracket
        if ctx().choose(2, 'which') == 0:
            return val.char('bad', val.excluding(ALNUM + '[{+')) + any_
        bad = val.char('bad', '{+')  # not directly behind [..]
        t = PTok('last')
        t.decide()
        if t.k == 3:
            raise PathEnd()
        return t.text + bad + any_
    inner = val.join_text(PTok('t').inner(), f_elem)
    if k == 2:
        return '[' + inner + ('\\' if ctx().choose(2, 'escape') else '')
    if k == 3:
        return '[' + inner + ']{' + val.text('num', val.excluding('}'))
    n = val.text('num', val.excluding('}'))
    if val.decide_eq(n, ''):
        return '[' + inner + ']{}' + any_
    m = val.text('digits', S.DIGITS)
    x = val.char('nodigit', val.excluding('}' + S.DIGITS))
    return '[' + inner + ']{' + m + x + val.text('num2', val.excluding('}')) \
        + '}' + any_


def parse_pattern(I, kinds):
    """parse_pattern_string(t): the units of t, which are the whole text;
    rejects any text that is not made of runs and bracket units"""
    c = ctx()
    k = kinds[c.choose(len(kinds), 'tail')]
    if k == 5:
        prove_eq(I.call(pu.parse_pattern_string, ['']), ('',), 'empty')
        return
    if k == 6:
        try:
            I.call(pu.parse_pattern_string,
                   [val.char('bad', '{+') + val.text('any')])
        except ex.InvalidPatternException:
            c.record('rejects other texts', 'proved')
            return
        c.record('rejects other texts', 'refuted', '{ or + at the start')
        return
    b = Base('toks', PTok, 1 if k == 0 else 0)
    sp = register_cursor(b, UnitSpec(), p_text)
    text = val.join_text(b, p_text)
    if k:
        text = text + bad_tail(k)
    c.assume(zint(val.length(text)) >= 1)      # a token is not empty
    try:
        r = I.call(pu.parse_pattern_string, [text])
    except ex.InvalidPatternException:
        c.prove(k > 0, 'rejects other texts only', repr(text))
        c.reach('tail %d' % k)
        return
    c.prove(k == 0, 'rejects other texts', repr(text))
    if k == 0:
        c.reach('tail 0')
        prove_eq(val.seq_of(r), sp.result(final(sp)), 'units')


def _parse_pattern_tasks():
    for n, kinds in (('whole', (0, 5, 6)), ('bad_char', (1,)),
                     ('open_bracket', (2,)), ('open_brace', (3,)),
                     ('bad_number', (4,))):
        def fn(I, kinds=kinds):
            parse_pattern(I, kinds)
        fn.__name__ = 'parse_pattern_' + n
        fn.__doc__ = parse_pattern.__doc__ + ' (%s)' % n
        task('C09', 'parse_utils.parse_pattern_string '
             'parse_utils._is_number')(fn).task.must = \
            ['tail %d' % k for k in kinds if k < 5]


_parse_pattern_tasks()


def bad_rule(k):
    """A text that does not start with a rule; escapes are complete."""
    c = ctx()
    rest = val.join_text(Base('rest', any_elem), f_elem)
    if k == 0:
        return val.char('bad', val.excluding(ALL)) + rest
    if k == 1:
        return '\\' + val.char('bad', val.excluding(S.ESCAPE)) + rest
    if k == 2:                       # a sign that has to be escaped
        return val.char('bad', set(S.ESCAPE) - set('\\]')) + rest
    a = val.char('bad', ALNUM)
    if k == 3:                       # fewer than three characters
        return a + (val.char('b', val.excluding('\\]'))
                    if c.choose(2, 'two') else '')
    if k == 4:                       # three that are not a range
        return a + val.char('b', val.excluding('-')) + val.char('d') + rest
    if k == 5:
        return val.char('bad', set(ALNUM) - set('aA0')) + '-' + \
            val.char('d') + rest
    lo, hi = ('az', 'AZ', '09')[k - 6]
    return lo + '-' + val.char('d', val.excluding(hi)) + rest


def parse_unit(I, k, bad):
    """parse_pattern_unit_string(u) for the units there are: the rules and
    the number; rejects brackets that do not contain rules only, and numbers
    that are 0 or smaller than the number of rules"""
    c = ctx()
    if k == 0:
        r, n = I.call(pu.parse_pattern_unit_string, [''])
        prove_eq(r, SSet(['']), 'no rule')
        prove_eq(n, 1, 'one')
        return
    if k == 1:
        rule, dom = LETTERS[c.choose(3, 'space')]
        t = val.text('t', dom, 1)
        r, n = I.call(pu.parse_pattern_unit_string, [t])
        prove_eq(r, SSet([rule]), 'the rule of a run')
        prove_eq(n, val.length(t), 'the length of a run')
        return
    rules = Base('rules', rule_elem)
    sp = register_cursor(rules, RulesSpec(), f_rule_elem)
    text = '[' + val.join_text(rules, f_rule_elem)
    if bad:
        text = text + bad_rule(bad - 1)
    num = 1
    text = text + ']'
    if k == 3:
        digits = val.text('n', S.DIGITS, 1)
        num = I.call(int, [digits])
        text = text + '{' + digits + '}'
    elif k == 4:
        num = -1
        text = text + '+'
    try:
        r, n = I.call(pu.parse_pattern_unit_string, [text])
    except ex.InvalidPatternException:
        if bad:
            c.record('rejects what is not a rule', 'proved')
            c.reach('bad rule')
            return
        if sp.final is None:
            s = SSet(seq(rules, f_rule_elem))
        else:
            s = sp.result(sp.final)
        card = zint(I.call(len, [s]))
        import z3
        z = zint(num)
        c.prove(z3.Or(card == 0, z == 0, z3.And(z > 0, card > z)),
                'rejects wrong numbers only')
        c.reach('rejected')
        return
    if bad:
        c.record('rejects what is not a rule', 'refuted', repr(text))
        return
    c.reach('read')
    s = sp.result(final(sp))
    card = zint(I.call(len, [s]))
    prove_eq(r, s, 'rules')
    prove_eq(n, num, 'number')
    c.prove(zint(num) != 0, 'rejects the number 0')
    import z3
    c.prove(z3.Or(zint(num) < 0, card <= zint(num)),
            'rejects small numbers')
    c.prove(card > 0, 'rejects empty brackets')


def _parse_unit_tasks():
    for n, k, bad, must in (
            ('nothing', 0, 0, []), ('run', 1, 0, []),
            ('one', 2, 0, ['read', 'rejected']),
            ('number', 3, 0, ['read', 'rejected']),
            ('more', 4, 0, ['read', 'rejected']),
            ) + tuple(
            ('%s_bad%d' % (n, b), k, b, ['bad rule'])
            for n, k in (('one', 2), ('number', 3), ('more', 4))
            for b in (1, 2, 3, 4, 5, 6, 7, 8, 9)):
        def fn(I, k=k, bad=bad):
            parse_unit(I, k, bad)
        fn.__name__ = 'parse_unit_' + n
        fn.__doc__ = parse_unit.__doc__ + ' (%s)' % n
        task('C09', 'parse_utils.parse_pattern_unit_string '
             'parse_utils._is_number')(fn).task.must = must


_parse_unit_tasks()
