"""Ghost state of the lexical contracts: the specification of spec.py as folds.

Nothing here looks at the code under verification.
"""
from . import val, spec as S
from .core import ctx, PathEnd
from .loops import StreamSpec, SpecReject, UNBOUND, VIEWS
from .models import lookup_finite, in_finite
from .val import (SStr, SSeq, SeqAtom, Base, Sym, Atom, SInt, mkint, zint,
                  new_int, rep, dec)

SIGN_PAIRS = val.pairs_of(S.RULE)
LETTERS = [('a-z', S.LOWER), ('A-Z', S.UPPER), ('0-9', S.DIGITS)]


def sign_syms(name):
    """(character, rule) of an arbitrary sign"""
    ch = Sym(name + '.c', S.SIGNS)
    r = Sym(name + '.r', S.SIGN_RULES, char=False)
    val.link_syms(ch, r, SIGN_PAIRS)
    return SStr.mk((ch,)), SStr.mk((r,))


class Run(object):
    """A maximal run of one character space."""

    def __init__(self, rule, raw, n, ch=None):
        self.rule, self.raw, self.n, self.ch = rule, raw, n, ch

    def norm(self):
        """Its text in a piece: letters and digits as they are, a sign with
        its number."""
        if is_letters(self.rule):
            return self.raw
        return specify(self.rule, self.n)

    def __repr__(self):
        return 'Run(%r, %r)' % (self.rule, self.raw)


def specify(rule, n):
    """spec.specify on symbolic values."""
    c = ctx()
    if c.branch(zint(n) == 1, 'single'):
        return '[' + rule + ']'
    if c.branch(zint(n) < 0, 'wildcard'):
        return '[' + rule + ']+'
    return '[' + rule + ']{' + dec(n) + '}'


def sign_run(name):
    ch, r = sign_syms(name)
    n = new_int(name + '.n', 1)
    return Run(r, rep(ch, n), n, ch)


def letter_run(name, k):
    rule, dom = LETTERS[k]
    t = val.text(name, dom, 1)
    return Run(rule, t, val.length(t))


def is_letters(rule):
    if isinstance(rule, str):
        return rule in S.ALNUM_RULES
    return in_finite(rule, S.ALNUM_RULES)


ALL = ''.join(sorted(S.RULE))


def any_run(name):
    """An arbitrary rule with an arbitrary text: more than the runs there
    are, which is sound, and the text is not looked into."""
    t = val.text(name, ALL, 1)
    return Run(val.enum(name + '.rule', S.RULES), t, val.length(t))


def f_rule(r):
    return r.rule


def f_raw(r):
    return r.raw


def f_norm(r):
    return r.norm()


def f_n(r):
    return r.n


VIEWS[any_run] = [f_norm, f_raw, f_rule, f_n]


def rule_of(e):
    """The rule of a character; rejects other characters."""
    if isinstance(e, str):
        if e not in S.RULE:
            raise SpecReject('char')
        return S.RULE[e]
    found, r = lookup_finite(e, S.RULE)
    if not found:
        raise SpecReject('char')
    return r


def joined(seq, fn):
    t = ''
    for p in seq.map(fn).parts:
        t = t + (SStr.mk((val.join_atom(p.base, p.fn),))
                 if isinstance(p, SeqAtom) else p[1])
    return t


class RunSpec(StreamSpec):
    """spec.runs"""
    cases = 5
    samples = ('', 'a', 'ab', 'aB', 'a1', '..', '.a', 'a--b', '-.', '...')

    def init(self):
        return ((), None, None)

    def generic(self, k, done):
        if k == 0:
            return ((), None, None)
        d = Base('runs', any_run)
        if k == 1:
            r = sign_run('cur')
            return ((SeqAtom(d),), r, r.ch)
        rule, dom = LETTERS[k - 2]
        t = val.text('cur', dom)
        last = val.char('lastc', dom)
        t = t + last
        return ((SeqAtom(d),), Run(rule, t, val.length(t)), last)

    def step(self, g, e, rest):
        done, cur, last = g
        r = rule_of(e)
        if cur is not None and val.decide_eq(cur.rule, r):
            if cur.ch is not None:
                return (done, Run(r, rep(cur.ch, cur.n + 1), cur.n + 1,
                                  cur.ch), e)
            return (done, Run(r, cur.raw + e, cur.n + 1), e)
        if cur is not None:
            done = done + (('e', cur),)
        if is_letters(r):
            return (done, Run(r, e, 1), e)
        return (done, Run(r, e, 1, e), e)

    def all(self, g):
        done, cur, last = g
        return SSeq(done + ((('e', cur),) if cur is not None else ()))

    def link(self, g):
        return joined(self.all(g), f_raw)

    def leaves(self, g):
        done, cur, last = g
        a = self.all(g)
        d = SSeq(done)
        return [('rules', a.map(f_rule)), ('raws', a.map(f_raw)),
                ('done rules', d.map(f_rule)), ('done raws', d.map(f_raw)),
                ('done norm', d.map(f_norm)),
                ('cur raw', cur.raw if cur is not None else ''),
                ('cur rule', cur.rule if cur is not None else None),
                ('cur n', cur.n if cur is not None else 0),
                ('last', last),
                ('last or unbound', UNBOUND if last is None else last),
                ('count', mkint(zint(a.length()))),
                ('text', self.link(g)),
                ('length', val.length(self.link(g)))]


class NormSpec(StreamSpec):
    """spec.normalized: letters and digits and reserved signs stay, the other
    runs of one sign get their number."""
    cases = 4
    samples = ('', 'a', 'ab', 'a1', '..', '.a', 'a--b', '-.', '...', '=',
               '==a', 'a==', '=.')

    def __init__(self, reserved):
        self.reserved = reserved

    def init(self):
        return ('', '', None, None)

    def generic(self, k, done):
        if k == 0:
            return self.init()
        raw, out = val.text('raw', ALL), val.text('out')
        if k < 3:
            ch, r = sign_syms('cur')
            if (k == 1) != self.keeps(ch):
                raise PathEnd()
            n = new_int('cur.n', 1)
            return (raw, out, Run(r, rep(ch, n), n, ch), ch)
        dom = S.LOWER + S.UPPER + S.DIGITS
        last = val.char('lastc', dom)
        t = val.text('cur', dom) + last
        return (raw, out, Run('alnum', t, val.length(t)), last)

    def keeps(self, ch):
        if not self.reserved:
            return False
        return (ch in self.reserved) if isinstance(ch, str) else \
            in_finite(ch, self.reserved)

    def text(self, run):
        if run is None:
            return ''
        if run.ch is None or self.keeps(run.ch):
            return run.raw
        return specify(run.rule, run.n)

    def step(self, g, e, rest):
        raw, out, cur, last = g
        r = rule_of(e)
        alnum = is_letters(r)
        if cur is not None:
            if alnum and cur.ch is None:
                return (raw, out, Run('alnum', cur.raw + e, cur.n + 1), e)
            if not alnum and cur.ch is not None and \
                    val.decide_eq(cur.rule, r):
                return (raw, out, Run(r, rep(cur.ch, cur.n + 1), cur.n + 1,
                                      cur.ch), e)
            raw, out = raw + cur.raw, out + self.text(cur)
        return (raw, out, Run('alnum', e, 1) if alnum else Run(r, e, 1, e),
                e)

    def link(self, g):
        return g[0] + (g[2].raw if g[2] is not None else '')

    def result(self, g):
        return g[1] + self.text(g[2])

    def leaves(self, g):
        raw, out, cur, last = g
        return [('out', out), ('cur', cur.raw if cur is not None else ''),
                ('last', last),
                ('last or unbound', UNBOUND if last is None else last),
                ('raw', self.link(g)),
                ('cur n', cur.n if cur is not None else 0),
                ('length', val.length(self.link(g)))]


# ------------------------------------------------------------ literal texts
class Tok(object):
    """One letter or digit, or one sign with its number."""

    def __init__(self, name):
        self.name = name
        self.kind = None

    def decide(self):
        if self.kind is None:
            self.kind = ctx().choose(3, 'token kind')
            if self.kind == 0:
                self.text = val.char(self.name,
                                     S.LOWER + S.UPPER + S.DIGITS)
                self.n = 1
            else:
                self.ch = val.char(self.name, S.SYMBOL if self.kind == 1
                                   else S.ESCAPE)
                self.rule = self.ch if self.kind == 1 else '\\' + self.ch
                self.n = new_int(self.name + '.n', 1)
                self.text = specify(self.rule, self.n)

    def __repr__(self):
        return 'Tok(%r)' % (self.text if self.kind is not None else '?')


def f_text(t):
    t.decide()
    return t.text


def f_count(t):
    t.decide()
    return t.n


f_text.dom = val.CharSet(ALL)
f_count.nonneg = True


class LiteralSpec(StreamSpec):
    """The literal length of a text of tokens: the sum of their numbers."""
    samples = ()

    def __init__(self):
        tok = lambda text, n: (lambda: FixedTok(text, n))
        self.samples = ([], [tok('a', 1)], [tok('[.]', 1), tok('b', 1)],
                        [tok('[\\.]{12}', 12), tok('[\\[]{3}', 3)])

    def init(self):
        return ()

    def generic(self, k, done):
        return (SeqAtom(done),)

    def step(self, g, e, rest):
        return g + (('e', e),)

    def result(self, g):
        return val.total(SSeq(g), f_count)

    def leaves(self, g):
        n = self.result(g)
        t = val.length(joined(SSeq(g), f_text))
        return [('done', mkint(zint(n))),
                ('rest', mkint(zint(val.length(self.whole) + n - t)))]


class FixedTok(Tok):
    def __init__(self, text, n):
        self.text, self.n, self.kind = text, n, 2


# ------------------------------------------------------------------- query
class Item(object):
    """One item of a query: key (with its '='), value."""

    def __init__(self, key, value, raw):
        self.key, self.value, self.raw = key, value, raw


def any_item(name):
    return Item(val.text(name + '.k'), val.text(name + '.v'),
                val.text(name + '.raw', minlen=1))


def f_key(i):
    return i.key


def f_value(i):
    return i.value


def f_item_raw(i):
    return i.raw + '&'


VIEWS[any_item] = [f_key, f_value]
NOT_AMP = val.excluding('&')
NOT_AMP_EQ = val.excluding('&=')


class QuerySpec(StreamSpec):
    """spec.query: items between '&', each partitioned by its first '='.

    State: (items done, key of the current item or None at its start, value
    or None before its '=', last character)."""
    cases = 4
    samples = ('', 'a', 'ab', 'a=', 'a=b', 'a==b', 'a&b', 'a=1&b=2', '=',
               '=a', 'a=1&b', '=&=', 'a=1=2&c')

    def init(self):
        return ((), '', None, None)

    def generic(self, k, done):
        if k == 0:                   # nothing read
            return self.init()
        items = (SeqAtom(Base('items', any_item)),)
        if k == 1:                   # behind a '&'
            items = (SeqAtom(Base('items', any_item, 1)),)
            return (items, '', None, '&')
        if k == 2:                   # in a key
            last = val.char('lastc', NOT_AMP_EQ)
            return (items, val.text('key', NOT_AMP_EQ) + last, None, last)
        v = val.text('value', NOT_AMP)
        key = val.text('key', NOT_AMP_EQ) + '='
        if ctx().choose(2, 'value') == 0:
            return (items, key, '', '=')
        last = val.char('lastc', NOT_AMP)
        return (items, key, v + last, last)

    def step(self, g, e, rest):
        items, key, value, last = g
        if val.decide_eq(e, '&'):
            if value is None and isinstance(key, str) and not key:
                raise SpecReject('empty item')
            items = items + (('e', self.item(key, value)),)
            return (items, '', None, '&')
        if value is not None:
            return (items, key, value + e, e)
        if val.decide_eq(e, '='):
            return (items, key + '=', '', e)
        return (items, key + e, None, e)

    def item(self, key, value):
        return Item(key, '' if value is None else value,
                    key + ('' if value is None else value))

    def link(self, g):
        items, key, value, last = g
        return joined(SSeq(items), f_item_raw) + key + \
            ('' if value is None else value)

    def result(self, g):
        """(keys, values) or SpecReject"""
        items, key, value, last = g
        if value is None and isinstance(key, str) and not key:
            raise SpecReject('empty item')
        seq = SSeq(items + (('e', self.item(key, value)),))
        if ctx().branch(zint(seq.length()) == 1, 'one item') and \
                value is None:
            return ('',), (key,)
        return seq.map(f_key), seq.map(f_value)

    def leaves(self, g):
        items, key, value, last = g
        s = SSeq(items)
        keys = s.map(f_key)
        if value is not None:
            keys = SSeq(keys.parts + (('e', key),))
        return [('keys', keys), ('values', s.map(f_value)),
                ('done keys', s.map(f_key)),
                ('in key', value is None), ('in value', value is not None),
                ('key buffer', key if value is None else ''),
                ('value buffer', '' if value is None else value),
                ('key', key), ('last', last),
                ('last or unbound', UNBOUND if last is None else last),
                ('text', self.link(g))]


# ------------------------------------------------------------------ levels
class FilterSpec(StreamSpec):
    """spec.levels: the elements that are not empty, and the last one.

    The stream is all the elements; `last` is set for the last one."""
    samples = ((), ('',), ('a',), ('', 'a'), ('a', 'b'), ('a', '', ''),
               ('', '', 'b'))
    comprehensions = True

    def __init__(self, all_kept=False):
        self.all_kept = all_kept

    def init(self):
        return ()

    def generic(self, k, done):
        if self.all_kept:            # the elements are not empty
            return (SeqAtom(done), done)
        return (SeqAtom(Base('kept', nonempty)), done)

    def parts(self, g):
        return tuple(p for p in g if not isinstance(p, (Base, Count)))

    def step(self, g, e, rest):
        keep = ctx().branch(zint(val.length(e)) > 0, 'not empty')
        n = [p for p in g if isinstance(p, Base)]
        parts = self.parts(g)
        cnt = Count(zint(self.count(g)) + 1)
        return parts + ((('e', e),) if keep else ()) + tuple(n[:0]) + (cnt,)

    def count(self, g):
        for p in g:
            if isinstance(p, Base):
                return SInt(p.zlen)
            if isinstance(p, Count):
                return mkint(p.z)
        return 0

    def leaves(self, g):
        return [('kept', SSeq(self.parts(g))),
                ('count', mkint(zint(self.count(g))))]


class Count(object):
    def __init__(self, z):
        self.z = z


def nonempty(name):
    return val.text(name, minlen=1)


# ------------------------------------------------------------------- mixed
class Group(object):
    """A part of a view: its text and the rule made of its runs' rules."""

    def __init__(self, text, rule):
        self.text, self.rule = text, rule

    def __repr__(self):
        return 'Group(%r, %r)' % (self.text, self.rule)


def any_group(name):
    return Group(val.text(name), val.text(name + '.rule'))


def g_text(g):
    return g.text


def g_rule(g):
    return g.rule


VIEWS[any_group] = [g_text, g_rule]


def fuzzy_of(rules):
    """spec.fuzzy: the sorted distinct rules."""
    from .models import join_sorted
    return join_sorted(None, '', val.SSet(rules))


def mixed_run(name):
    return Run(val.enum(name + '.rule', S.MIXED), val.text(name, ALL, 1), 0)


def plain_run(name):
    return Run(val.enum(name + '.rule', S.RULES - S.MIXED),
               val.text(name, ALL, 1), 0)


def one_group(r):
    return Group(r.raw, r.rule)


class MixSpec(StreamSpec):
    """The maximal groups of letters, digits and '%'; other runs stay.

    State: (groups, stretch of runs, is it mixed, count)."""
    cases = 3
    comprehensions = True

    def __init__(self):
        r = lambda rule: (lambda: Run(rule, val.text('s'), 0))
        a, d, p, x, y = r('a-z'), r('0-9'), r('%'), r('\\.'), r('_')
        self.samples = ((), (a,), (x,), (a, d), (a, x), (x, a), (x, y),
                        (a, p, x), (x, y, a), (a, x, d), (x, y, a, d, x))

    def init(self):
        return ()

    def get(self, g):
        return g if g else ((), (), None, 0)

    def generic(self, k, done):
        if k == 0:
            done.expand([])
            return ()
        d = (SeqAtom(Base('groups', any_group)),)
        el = mixed_run if k == 1 else plain_run
        last = el('lastrun')
        return (d, (SeqAtom(Base('stretch', el)), ('e', last)), k == 1,
                SInt(done.zlen))

    def wf(self, g):
        return []

    def close(self, g):
        """All the groups, the current stretch included."""
        d, s, mixed, n = self.get(g)
        if not s:
            return SSeq(d)
        if mixed:
            s = SSeq(s)
            return SSeq(d + (('e', Group(joined(s, f_raw), fuzzy_of(
                s.map(f_rule)))),))
        return SSeq(d + SSeq(s).map(one_group).parts)

    def step(self, g, e, rest):
        d, s, mixed, n = self.get(g)
        m = e.rule in S.MIXED if isinstance(e.rule, str) else \
            in_finite(e.rule, S.MIXED)
        if mixed is not None and m != mixed:
            d, s = self.close(g).parts, ()
        return (d, s + (('e', e),), m, n + 1)

    def leaves(self, g):
        d, s, mixed, n = self.get(g)
        a, s2, d = self.close(g), SSeq(s), SSeq(d)
        last = s[-1][1] if s else None
        m2 = bool(mixed)
        # the groups without the mixed stretch that may go on
        h = d if mixed else a
        t = s2 if mixed else SSeq(())
        out = [('texts', d.map(g_text)), ('rules', d.map(g_rule)),
               ('cur texts', s2.map(f_raw)), ('cur rules', s2.map(f_rule)),
               ('mixed', m2), ('mixed or none', mixed),
               ('all texts', a.map(g_text)), ('all rules', a.map(g_rule)),
               ('closed texts', h.map(g_text)),
               ('closed rules', h.map(g_rule)),
               ('mixed texts', t.map(f_raw)), ('mixed rules', t.map(f_rule)),
               ('mixed rule set', val.SSet(t.map(f_rule))),
               ('mixed text', joined(t, f_raw)),
               ('cur text', joined(s2, f_raw)),
               ('last rule', last.rule if last else UNBOUND),
               ('last text', last.raw if last else UNBOUND),
               ('last rule or none', last.rule if last else None),
               ('count', n)]
        return out


# ------------------------------------------------------------ pattern texts
ALNUM = S.LOWER + S.UPPER + S.DIGITS


class Elem(object):
    """What the search for the closing bracket steps over: a character or an
    escaped one."""

    def __init__(self, text):
        self.text = text


def any_elem(name):
    if ctx().choose(2, 'escaped'):
        return Elem('\\' + val.char(name))
    return Elem(val.char(name, val.excluding('\\]')))


class RuleElem(Elem):
    pass


RULE_TEXTS = sorted(S.RULES)
SIGN_TEXTS = sorted(r for r in S.SIGN_RULES if len(r) == 1)


def rule_elem(name):
    """An arbitrary rule."""
    k = ctx().choose(5, 'rule kind')
    if k < 3:
        return RuleElem(LETTERS[k][0])
    if k == 3:
        return RuleElem('\\' + val.char(name, S.ESCAPE))
    return RuleElem(val.char(name, S.SYMBOL))


def f_elem(e):
    return e.text


f_elem.dom = val.CharSet((), True)


class ScanSpec(StreamSpec):
    """Nothing is kept but the position."""

    def __init__(self, samples):
        mk = lambda t: (lambda: Elem(t))
        self.samples = [[mk(t) for t in s] for s in samples]

    def init(self):
        return ()

    def generic(self, k, done):
        return (SeqAtom(done),)

    def step(self, g, e, rest):
        return g + (('e', e),)

    def leaves(self, g):
        return [('set', val.SSet(SSeq(g).map(f_elem)))]


class PTok(object):
    """A token of a pattern text: a letter or digit, or a bracket unit.

    k: 0-2 character of that space, 3 [..], 4 [..]{n}, 5 [..]+"""

    def __init__(self, name):
        self.name, self.k = name, None

    def decide(self):
        if self.k is None:
            from . import loops
            self.k = ctx().choose(6, 'token')
            if self.k < 3:
                self.rule, dom = LETTERS[self.k]
                self.text = val.char(self.name, dom)
            else:
                self.rule = None
                self.text = '[' + val.join_text(self.inner(), f_elem) + ']'
                if self.k == 4:
                    self.text = self.text + '{' + val.text(
                        self.name + '.n', S.DIGITS, 1) + '}'
                elif self.k == 5:
                    self.text = self.text + '+'

    def inner(self):
        from . import loops
        b = Base(self.name + '.in', any_elem)
        loops.register_cursor(b, ScanSpec(
            ((), ('a',), ('\\]', '['), ('\\\\', 'a', '-'))), f_elem)
        return b


class FixedPTok(PTok):
    def __init__(self, text):
        self.text = text
        self.k = 3 if text[0] == '[' else 0
        self.rule = S.RULE[text[0]] if self.k == 0 else None


def p_text(t):
    t.decide()
    return t.text


p_text.dom = val.CharSet((), True)


def unit_text(name):
    return val.text(name, minlen=1)


class UnitSpec(StreamSpec):
    """The units of a pattern text: (units done, current run or None)."""
    cases = 4

    def __init__(self):
        mk = lambda t: (lambda: FixedPTok(t))
        self.samples = [[mk(t) for t in s] for s in (
            (), ('a',), ('a', 'b'), ('a', 'B'), ('a', '[b]', 'c'),
            ('[b]', '[a]{2}', 'x'), ('1', '[a-z]+'), ('[\\]]', 'a', 'a'))]

    def init(self):
        return ((), None)

    def generic(self, k, done):
        units = (SeqAtom(Base('units', unit_text)),)
        if k == 0:
            return (units, None)
        rule, dom = LETTERS[k - 1]
        return (units, Run(rule, val.text('cur', dom, 1), None))

    def step(self, g, e, rest):
        units, cur = g
        e.decide()
        if e.rule is None:
            if cur is not None:
                units = units + (('e', cur.raw),)
            return (units + (('e', e.text),), None)
        if cur is not None and val.decide_eq(cur.rule, e.rule):
            return (units, Run(cur.rule, cur.raw + e.text, None))
        if cur is not None:
            units = units + (('e', cur.raw),)
        return (units, Run(e.rule, e.text, None))

    def result(self, g):
        units, cur = g
        return SSeq(units + ((('e', cur.raw),) if cur is not None else ()))

    def leaves(self, g):
        units, cur = g
        return [('units', SSeq(units)), ('all', self.result(g)),
                ('cur rule', cur.rule if cur is not None else None),
                ('cur', cur.raw if cur is not None else '')]



class RulesSpec(ScanSpec):
    """The rules of a bracket unit: a set."""

    def __init__(self):
        mk = lambda t: (lambda: RuleElem(t))
        self.samples = [[mk(t) for t in s] for s in (
            (), ('a-z',), ('%', '\\.'), ('A-Z', '0-9', '\\]'), ('_', '_'))]

    def result(self, g):
        return val.SSet(SSeq(g).map(f_rule_elem))

    def leaves(self, g):
        return [('rules', self.result(g))]


def f_rule_elem(e):
    return e.text


f_rule_elem.dom = val.CharSet(''.join(RULE_TEXTS))
f_rule_elem.low = min(map(len, RULE_TEXTS))
