"""Contracts of the command line tools (C13, C14)."""
import builtins
import collections
import time

from .. import core, heap, interp, loops, val
from ..core import ctx, PathEnd, Unsupported
from ..heap import Kind, event, each, prove_events, prove_each, covers
from ..models import SBytes, bytes_text, encoded
from ..val import Base, SeqAtom, SSeq, SList, SBool, prove_eq
from .base import task

cl = interp.module('cmdline')
compat = interp.module('compat')


def line(name):
    return SBytes(val.text(name))


def any_int(o=None, low=None):
    return val.new_int('n', 0 if low is None else low)


COUNTER = Kind('statistics', item=lambda I, o, k: val.new_int('stat', 0),
               setitem=lambda I, o, k, v: None,
               methods={'items': lambda I, o: ()})


class Opaque(object):
    """A point of time: goes to the log, decides nothing."""

    def same(self, *a):
        return self
    __sub__ = __rsub__ = __add__ = __radd__ = __truediv__ = \
        __rtruediv__ = __mul__ = __rmul__ = same

    def no(self, *a):
        raise Unsupported('a decision on the time')
    __lt__ = __gt__ = __le__ = __ge__ = __pv_truth__ = __bool__ = no

    def __veq__(self, o):
        return self is o


NOW = Opaque()


def setting(I):
    """The environment of the commands."""
    I.ext[collections.Counter] = lambda I, *a: COUNTER('stats')
    I.stubs['utils.pretty_counter'] = lambda I, c: ''
    I.ext[builtins.print] = printed
    I.ext[time.time] = lambda I: NOW
    OUT = Kind('stdout', methods={
        'write': lambda I, o, x: event('write', x),
        'flush': heap.nothing})
    I.environment.append((compat.binary_stdout, OUT('stdout')))
    I.ext[builtins.sorted] = sorted_contract
    I.ext[builtins.max] = lambda I, x, **k: best_of(I, x)


RESULT = Kind('result', attrs={'meta': lambda o: val.text('meta', minlen=1)})


def best_of(I, x, label='best'):
    """The greatest element (C11: there is one order)."""
    c = ctx()
    s = SSeq(I.models.as_seq(I, x).parts)
    if not I.truth(s):
        raise ValueError('empty')
    ps = s.parts
    if len(ps) == 1 and not isinstance(ps[0], SeqAtom):
        return ps[0][1]
    for key, o in c.cache.setdefault('best', []):
        if val.veq(key, s) is True:
            return o
    o = RESULT('best')
    c.cache['best'].append((s, o))
    return o


def sorted_contract(I, x, key=None, reverse=False):
    if key is not None:
        raise Unsupported('sorted with a key')
    s = I.models.as_seq(I, x)
    if not I.truth(s):
        return I.new(SList())
    b = best_of(I, s)
    others = Base('others', RESULT)
    ctx().assume(others.zlen == val.zint(SSeq(s.parts).length()) - 1)
    ctx().assumed.add('sorted() puts the greatest element last')
    ps = (('e', b), SeqAtom(others)) if reverse else \
        (SeqAtom(others), ('e', b))
    return I.new(SList(SSeq(ps)))


def files(I, name, step):
    """Two files of any lines; step(line, events) proves each line."""
    root = Base(name, line)
    a, b = Base(name + '.1', line), Base(name + '.2', line)
    root.expand([a, b])
    each(I, root, step)
    FILE = Kind('file', attrs={'name': lambda o: val.text('name')},
                iter=lambda I, o: o._a['lines'])
    return root, I.new(SList([
        FILE(n, lines=SSeq((SeqAtom(x),)))
        for n, x in (('f1', a), ('f2', b))]))


def written(evs):
    """The text of consecutive writes."""
    t = ''
    for e in evs:
        if e[0] != 'write':
            return None
        x = bytes_text(e[1])
        if x is None:
            return None
        t = t + x
    return t


@task('C13 C11', 'cmdline.MatchPatternCommand.run cmdline.MatchPatternCommand.'
      '_load cmdline.MatchPatternCommand._match '
      'cmdline.MatchPatternCommand._match_result')
def match_command(I):
    """run(args): every line of the pattern files that starts with '/' and
    can be decoded is loaded with itself as meta, whatever load() raises;
    then one output line per input line, in order: E when it cannot be
    decoded or match() raises, N without a result, else the text of the best
    result, or all of them; a tab; the stripped line"""
    c = ctx()
    setting(I)
    all_matched = bool(c.choose(2, 'all'))
    loaded = []
    found = []

    def load(I, o, text, meta=None):
        event('load', o, text, meta)
        if c.choose(2, 'load fails'):
            raise heap.any_error()
        return (None, True)

    def match(I, o, url):
        if found and val.veq(found[-1][0], url) is True:
            raise Unsupported('matched twice')
        if c.choose(2, 'match fails'):
            found.append((url, None))
            raise heap.any_error()
        b = Base('results', RESULT)
        found.append((url, b))
        return I.new(SList(SSeq((SeqAtom(b),))))

    M = Kind('matcher', methods={'load': load, 'match': match})
    m = []

    def make(I):
        m.append(M('matcher'))
        return m[-1]
    I.stubs['pattern_matcher.PatternMatcher'] = make

    def pattern_line(e, evs):
        # load(decoded, meta=decoded) when it starts with '/' and decodes
        r = e_method(I, e, 'rstrip')
        if not I.truth(e_method(I, r, 'startswith', b'/')):
            prove_events(evs, [], 'other lines are not loaded')
            return
        try:
            t = e_method(I, r, 'decode', 'utf-8')
        except UnicodeDecodeError:
            prove_events(evs, [], 'undecodable lines are not loaded')
            return
        c.reach('pattern line')
        prove_events(evs, [('load', m[0], t, t)], 'patterns are loaded')

    def input_line(e, evs):
        s = e_method(I, e, 'strip')
        got = written(evs)
        if got is None:
            c.record('one line per line', 'refuted', repr(evs))
            return
        try:
            url = e_method(I, s, 'decode', 'utf-8')
            res = [b for u, b in found if val.veq(u, url) is True]
            if not res:
                c.record('every decodable line is matched', 'refuted',
                         repr(e))
                return
            res = res[-1]
            if res is None:
                want = 'E'
                c.reach('match error')
            elif not I.truth(SSeq((SeqAtom(res),))):
                want = 'N'
                c.reach('no match')
            elif all_matched:
                metas = SSeq((SeqAtom(res, meta_of(I)),))
                want = encoded(I, I.models.method(
                    I, '\t', 'join', [metas], {})).t
                c.reach('all matched')
            else:
                want = encoded(I, I.getattr(best_of(
                    I, SSeq((SeqAtom(res),))), 'meta')).t
                c.reach('best matched')
        except UnicodeDecodeError:
            want = 'E'
            c.reach('decode error')
        prove_eq(got, want + '\t' + s.t + '\n', 'output line')

    pl, pfiles = files(I, 'patterns', pattern_line)
    il, inputs = files(I, 'lines', input_line)
    args = Kind('args')('args', inputs=inputs, pattern_files=pfiles,
                        all_matched=all_matched)
    cmd = cl.MatchPatternCommand()
    try:
        I.call(I.getattr(cmd, 'run'), [args])
    except Exception as e:
        c.record('never aborts', 'refuted', repr(e))
        return
    evs = heap.events()
    prove_each(evs[:2], pl, 'loads all the patterns')
    prove_each(evs[2:], il, 'answers every line once, in order')
    c.reach('finished')


def printed(I, *a, **k):
    if len(a) != 1 or set(k) - {'flush'}:
        raise Unsupported('print of %r' % (a,))
    event('print', a[0])


ROOT = Kind('cluster', attrs={'count': any_int})


@task('C14', 'cmdline.MakePatternCommand.run cmdline.MakePatternCommand._load'
      ' cmdline.MakePatternCommand._process')
def make_command(I):
    """run(args): the pattern maker gets the config of the command; every
    line that is not blank and can be decoded is loaded (with itself as meta
    for the formats that print it), whatever load() raises, and nothing else;
    then every record of every cluster of every maker is printed, in order"""
    c = ctx()
    setting(I)
    names = sorted(set(interp.module('formatter').FORMATTERS) | {'ETE'})
    form = names[c.choose(len(names), 'format')]
    config = Kind('config')('config')
    makers = Base('makers', lambda n: MAKER(n))
    pairs = Base('pairs', lambda n: (MAKER_META(n), ROOT(n)))
    m = []

    def load(I, o, url, meta=None):
        event('load', o, url, meta)
        if c.choose(2, 'load fails'):
            raise heap.any_error()
        return (None, SBool.var('new') if hasattr(SBool, 'var')
                else bool(c.choose(2, 'new')))

    def roots(I, o, combine=False):
        if bool(I.truth(combine)) != (form == 'ETE'):
            c.record('combines for the tree format only', 'refuted',
                     '%s: %r' % (form, combine))
        b = o._a.get('roots')
        if b is not None:
            raise Unsupported('made twice')
        b = o._a['roots'] = Base('roots', lambda n: ROOT(n))
        each(I, b, lambda r, evs: one_root(o._a['url_meta'], r, evs))
        return SSeq((SeqAtom(b),))

    def pformat(I, name, url_meta, root, **kw):
        if val.veq(name, form) is not True or kw:
            raise Unsupported('pformat(%r)' % (name,))
        b = Base('records', lambda n: val.text(n))
        root._a['records'] = (url_meta, b)
        each(I, b, lambda x, evs: prove_events(
            evs, [('print', x)], 'every record is printed'))
        return SSeq((SeqAtom(b),))

    def one_root(url_meta, root, evs):
        rec = root._a.get('records')
        if c.prove(rec is not None and rec[0] is url_meta,
                   'formats every cluster', repr(evs)):
            prove_each(evs, rec[1], 'all the records of every cluster')
        c.reach('cluster')

    def one_maker(maker, evs):
        if c.prove('roots' in maker._a, 'every maker makes', repr(evs)):
            prove_each(evs, maker._a['roots'],
                       'all the clusters of every maker')
        c.reach('maker')

    MAKER_META = Kind('url_meta')
    MAKER = Kind('maker', attrs={'url_meta': lambda o: MAKER_META('meta')},
                 methods={'make': roots})
    MAKER.init = lambda o: o._a.setdefault('url_meta', MAKER_META('meta'))
    each(I, makers, one_maker)
    each(I, pairs, lambda p, evs: one_root(p[0], p[1], evs))

    def all_made(I, o, combine=False):
        if bool(I.truth(combine)) != (form == 'ETE'):
            c.record('combines for the tree format only', 'refuted',
                     '%s: %r' % (form, combine))
        return SSeq((SeqAtom(pairs),))

    PM = Kind('pattern maker', methods={'load': load, 'make': all_made},
              attrs={'makers': lambda o: SSeq((SeqAtom(makers),))})

    def make(I, cfg=None):
        c.prove(cfg is config, 'the config of the command is used')
        m.append(PM('pattern_maker'))
        return m[-1]
    I.stubs['pattern_maker.PatternMaker'] = make
    I.stubs['formatter.pformat'] = pformat

    def input_line(e, evs):
        s = e_method(I, e, 'strip')
        if not I.truth(s):
            prove_events(evs, [], 'blank lines are ignored')
            c.reach('blank')
            return
        try:
            t = e_method(I, s, 'decode', 'utf-8')
        except UnicodeDecodeError:
            prove_events(evs, [], 'undecodable lines are ignored')
            c.reach('undecodable')
            return
        if form not in ('CLUSTER', 'INLINE'):    # the meta is not printed
            evs = [x[:3] + (t,) if x[0] == 'load' else x for x in evs]
        prove_events(evs, [('load', m[0], t, t)], 'lines are loaded')
        c.reach('loaded')

    il, inputs = files(I, 'lines', input_line)
    args = Kind('args')('args', inputs=inputs, format_type=form)
    cmd = I.call(cl.MakePatternCommand, [config])
    try:
        I.call(I.getattr(cmd, 'run'), [args])
    except Exception as e:
        c.record('never aborts', 'refuted', repr(e))
        return
    evs = heap.events()
    prove_each(evs[:2], il, 'loads every line once')
    prove_each(evs[2:], pairs if covers(evs[2:], pairs) else makers,
               'prints every cluster once')
    c.reach('finished')


def gone(o):
    raise AttributeError('removed in python 3.12')


@task('C14', 'cmdline.MakePatternCommand.process_args')
def make_config(I):
    """process_args(args): the config file of the command line, if there is
    one, is read into the config of the command, and nothing else is"""
    c = ctx()
    config = Kind('config', attrs={'readfp': gone},
                  methods={'read_file': lambda I, o, f, source=None:
                           event('read', o, f)})('config')
    FILE = Kind('file')
    f = FILE('file')
    given = c.choose(2, 'config given')
    args = Kind('args')('args', config=I.new(SList([f])) if given else None,
                        log_level='NOTSET')
    I.stubs['cmdline._config_logging'] = lambda I, level: None
    cmd = I.call(cl.MakePatternCommand, [config])
    try:
        I.call(I.getattr(cmd, 'process_args'), [args])
    except Exception as e:
        c.record('does not abort', 'refuted', repr(e))
        return
    prove_events(heap.events(), [('read', config, f)] if given else [],
                 'the config file is read')
    if given:
        c.reach('config file')


def meta_of(I):
    c = ctx()
    key = ('meta_of', id(I))
    if key not in c.cache:
        c.cache[key] = lambda r: I.getattr(r, 'meta')
    return c.cache[key]


def e_method(I, e, name, *a):
    return I.call(I.getattr(e, name), list(a))
