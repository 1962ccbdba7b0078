"""Models of the built-in functions, containers and strings of Python."""
import builtins
import codecs
import collections
import hashlib
import inspect
import io
import itertools
import logging
import operator
import types

from . import val
from .core import ctx, Unsupported, PathEnd
from .val import (SBool, SInt, SStr, SSeq, SList, SDict, SSet, SStringIO,
                  SeqAtom, Base, Atom, Sym, CharSet, Poison, seq_of, mkint,
                  zint, mkbool, length, is_sym, decide_eq, veq, entails_eq,
                  segs_of)
from .interp import IFunc, IGen, BoundModel, SIter, in_repo, node_of

STR = (str, SStr)
SEQ = (SSeq, SList, tuple, list)
SETS = (SSet, set, frozenset)


class HashVal(object):
    """hash(x): equal exactly when the hashed values are equal (assumed)."""

    def __init__(self, x):
        self.x = x

    def __veq__(self, o):
        if isinstance(o, HashVal):
            return veq(self.x, o.x)
        return False


class SortedSet(object):
    """sorted(set)"""

    def __init__(self, s):
        self.s = s


class DictView(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


# ------------------------------------------------------------ conversions
def native(x):
    """Plain Python value of a value without symbols."""
    if isinstance(x, (SSeq, SList)):
        l = x.concrete() if isinstance(x, SSeq) else x.seq.concrete()
        if l is None:
            raise Unsupported('symbolic sequence in a native call')
        l = [native(y) for y in l]
        return tuple(l) if isinstance(x, SSeq) else l
    if isinstance(x, SSet):
        return set(native(x.seq))
    if isinstance(x, SDict):
        if x.rest is not None:
            raise Unsupported('symbolic dict in a native call')
        return dict((native(k), native(v)) for k, v in x.items)
    if isinstance(x, (SStr, SInt, SBool, Poison, SStringIO, IGen)):
        raise Unsupported('symbolic value in a native call: %r' % (x,))
    if type(x) in (tuple, list):
        return type(x)(native(y) for y in x)
    return x


def ours(x):
    """Is it, or does it hold, a value of the verifier?"""
    if type(x) in (tuple, list, set, frozenset):
        return any(ours(y) for y in x)
    if type(x) is dict:
        return any(ours(y) for p in x.items() for y in p)
    return type(x).__module__.split('.')[0] == 'pv' and \
        not isinstance(x, BaseException)


def guard(f, *vals):
    """f(*vals), a native operation: what fails because it meets a value of
    the verifier is not supported (None and a text that meets a number fail
    in Python too)"""
    try:
        return f(*vals)
    except (TypeError, AttributeError) as e:
        kind = [class_of(v) for v in vals]
        if any(v is None for v in vals) or set(kind) == {str, int}:
            raise
        if any(is_sym(v) or ours(v) for v in vals):
            raise Unsupported('native operation: %s' % e)
        raise


def bind(f, what, *args, **kw):
    """A call of a contract in place of the function: with other arguments
    than it knows it says nothing."""
    try:
        inspect.signature(f).bind(*args, **kw)
    except TypeError as e:
        raise Unsupported('contract of %s: %s' % (what, e))
    return f(*args, **kw)


def in_order(f, args, kw):
    """The arguments of a call of f with those given by name put in their
    places, as far as there are no gaps."""
    try:
        b = inspect.signature(f).bind(*args, **kw)
    except (TypeError, ValueError):
        return args, kw
    return list(b.args), b.kwargs


def class_of(x):
    if isinstance(x, SStr):
        return str
    if isinstance(x, SList):
        return list
    if isinstance(x, SSeq):
        return tuple
    if isinstance(x, SSet):
        return set
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    return type(x)


def as_seq(interp, x):
    """The elements of an iterable as a SSeq."""
    if isinstance(x, SEQ):
        return seq_of(x)
    it = iterate(interp, x)
    if not isinstance(it, SIter):
        raise Unsupported('reversed symbolic sequence')
    return numbered(it)


def native_list(interp, x):
    """Elements of an iterable that is known completely."""
    if isinstance(x, IGen):
        out = interp.new(SList())

        def emit(v):
            method(interp, out, 'append', [v], {})
        x.start(emit, out)
        l = out.seq.concrete()
        if l is None:
            raise Unsupported('elements of a symbolic sequence')
        return l
    l = as_seq(interp, x).concrete()
    if l is None:
        raise Unsupported('elements of a symbolic sequence')
    return l


def char_seq(s):
    """The characters of a string as a sequence."""
    parts = []
    for g in segs_of(s):
        if isinstance(g, str):
            parts.extend(('e', ch) for ch in g)
        elif isinstance(g, Sym):
            if g.char:
                parts.append(('e', SStr.mk((g,))))
            else:
                parts.extend(('e', ch) for ch in val.sym_concrete(g))
        else:
            c = ctx()
            key = ('chars', g.name)
            if key not in c.cache:
                b = Base(g.name + '.chars',
                         lambda n, g=g: val.char(n, g.dom), g.minlen)
                c.assume(b.zlen == zint(g.len))
                b.atom = g
                c.cache[key] = b
            parts.append(SeqAtom(c.cache[key]))
    return SSeq(parts)


def iterate(interp, x):
    if isinstance(x, (SIter, IGen)) and getattr(x, 'spent', False):
        raise Unsupported('reading on after next()')
    if isinstance(x, (SIter, RevIter, Reversed)):
        return x
    if isinstance(x, SEQ):
        return SIter(seq_of(x))
    if isinstance(x, STR):
        return SIter(x if isinstance(x, SStr) else SSeq(
            [('e', ch) for ch in x]))
    if isinstance(x, SSet):
        s = dedupe(x)
        return SIter(s.seq)
    if isinstance(x, SortedSet):
        raise Unsupported('iteration of a sorted symbolic set')
    if isinstance(x, SDict):
        return SIter(dict_seq(x, 'keys'))
    if isinstance(x, DictView):
        return SIter(dict_seq(x.d, x.kind))
    if isinstance(x, IGen):
        out = interp.new(SList())
        x.start(lambda v: method(interp, out, 'append', [v], {}), out)
        return SIter(out.seq)
    if isinstance(x, Poison):
        raise Unsupported('no invariant for %r' % x)
    if hasattr(x, '__pv_iter__'):
        return iterate(interp, x.__pv_iter__(interp))
    if in_repo(type(x)):
        d = interp.class_attr(type(x), '__iter__')
        if isinstance(d, types.FunctionType):
            return iterate(interp, interp.call(d, [x]))
    if isinstance(x, (SInt, SBool)):
        raise TypeError('not iterable')
    return SIter(SSeq([('e', v) for v in guard(list, x)]))


def dict_seq(d, kind):
    if d.rest is not None:
        return d.rest.seq(d, kind)
    if kind == 'keys':
        return SSeq([('e', k) for k, _ in d.items])
    if kind == 'values':
        return SSeq([('e', v) for _, v in d.items])
    return SSeq([('e', (k, v)) for k, v in d.items])


def numbered(it):
    seq = it.seq
    if isinstance(seq, SStr):
        seq = char_seq(seq)
    if it.start is None:
        return seq
    l = seq.concrete()
    if l is None:
        raise Unsupported('numbered symbolic sequence')
    return SSeq([('e', (it.start + i, v)) for i, v in enumerate(l)])


def dedupe(s):
    out = []
    for p in s.seq.parts:
        dup = False
        for q in out:
            if isinstance(p, SeqAtom) or isinstance(q, SeqAtom):
                if isinstance(p, SeqAtom) and isinstance(q, SeqAtom) and \
                        p.base is q.base and \
                        val.same_fn(p.base, p.fn, q.fn):
                    dup = True
            elif decide_eq(p[1], q[1]):
                dup = True
            if dup:
                break
        if not dup:
            out.append(p)
    return SSet(SSeq(out))


def to_str(interp, x):
    if isinstance(x, STR):
        return x
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, (int, SInt)):
        return val.dec(x)
    if hasattr(x, '__pv_str__'):
        return x.__pv_str__(interp)
    if in_repo(type(x)):
        d = interp.class_attr(type(x), '__str__')
        if isinstance(d, types.FunctionType):
            return interp.call(d, [x])
    return str(plain(x))


def to_repr(interp, x):
    if isinstance(x, (SStr, SInt)):
        return val.app('repr', [x]) if isinstance(x, SStr) else val.dec(x)
    return repr(plain(x)) if not isinstance(x, BaseException) else repr(x)


def plain(x):
    x = native(x)
    if ours(x):
        raise Unsupported('text of %r' % (x,))
    return x


# --------------------------------------------------------------- contains
def contains(interp, c, x):
    if hasattr(c, '__pv_contains__'):
        return c.__pv_contains__(interp, x)
    if isinstance(c, SDict):
        return dict_find(interp, c, x) is not None
    if isinstance(c, (dict, set, frozenset)) and not in_repo(type(c)):
        if isinstance(x, SStr):
            return in_finite(x, c)
        if isinstance(x, (SInt, SBool, SSeq)):
            raise Unsupported('lookup of %r' % (x,))
        if is_sym(x):
            raise Unsupported('lookup of %r' % (x,))
        return guard(operator.contains, c, native(x))
    if isinstance(c, SSet):
        r = set_contains(c, x)
        return r
    if isinstance(c, STR):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return method(interp, c, 'find', [x], {}) >= 0
    if isinstance(c, SEQ):
        l = seq_of(c).concrete()
        if l is None:
            raise Unsupported('membership in a symbolic sequence')
        return any(interp.truth(interp.eq(x, y)) for y in l)
    if isinstance(c, (DictView,)):
        l = dict_seq(c.d, c.kind).concrete()
        if l is None:
            raise Unsupported('membership')
        return any(interp.truth(interp.eq(x, y)) for y in l)
    if in_repo(type(c)):
        d = interp.class_attr(type(c), '__contains__')
        if isinstance(d, types.FunctionType) and in_repo(d):
            return interp.call(d, [c, x])
        it = iterate(interp, c)
        return contains(interp, numbered(it), x)
    return guard(operator.contains, c, native(x))


def set_contains(c, x):
    unknown = False
    for p in c.seq.parts:
        if isinstance(p, SeqAtom):
            unknown = True
        elif decide_eq(p[1], x):
            return True
    if unknown:
        raise Unsupported('membership in a symbolic set')
    return False


def in_finite(x, table):
    segs = x.segs
    if len(segs) == 1 and isinstance(segs[0], Sym):
        return val.sym_in(segs[0], CharSet([k for k in table
                                            if isinstance(k, str)]))
    keys = [k for k in table if isinstance(k, str)]
    poss = [k for k in keys if val.str_veq(x, k) is not False]
    for k in sorted(poss):
        if val.str_decide(x, k):
            return True
    return False


def lookup_finite(x, table):
    """(found, value) with branching"""
    segs = x.segs
    if len(segs) == 1 and isinstance(segs[0], Sym):
        return val.sym_group(segs[0], table)
    for k in sorted(k for k in table if isinstance(k, str)):
        if val.str_veq(x, k) is not False and val.str_decide(x, k):
            return True, table[k]
    return False, None


def dict_find(interp, d, k):
    """Index of the entry, an entry of the unknown part, or None."""
    for i, (a, b) in enumerate(d.items):
        if a is k or interp.truth(interp.eq(a, k)):
            return i
    if d.rest is not None:
        e = d.rest.lookup(interp, d, k)
        if e is not None:
            d.items.append([k, e[0]])
            return len(d.items) - 1
    return None


def dict_truth(interp, d):
    if d.items:
        return True
    if d.rest is not None:
        return d.rest.truth(interp, d)
    return False


# ------------------------------------------------------------ subscripts
def getitem(interp, o, k):
    if hasattr(o, '__pv_getitem__'):
        return o.__pv_getitem__(interp, k)
    if isinstance(o, STR):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('stepped slice')
            if isinstance(o, str) and not is_sym(k.start) and \
                    not is_sym(k.stop):
                return o[k]
            return SStr(segs_of(o)).slice(k.start, k.stop)
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        return SStr(segs_of(o)).char_at(k)
    if isinstance(o, SEQ) and not hasattr(type(o), '_fields'):
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                r = val.reverse(seq_of(o))
                return interp.new(SList(r)) if isinstance(
                    o, (SList, list)) else r
            if k.step is not None:
                raise Unsupported('stepped slice')
            r = seq_of(o).slice(k.start, k.stop)
            return interp.new(SList(r)) if isinstance(o, (SList, list)) else r
        if isinstance(k, SBool):
            k = bool(k)
        if isinstance(o, (tuple, list)) and isinstance(k, int):
            return o[k]
        v = seq_of(o).at(k)
        if isinstance(v, Poison):
            raise Unsupported('no invariant for %r' % v)
        return v
    if isinstance(o, SDict):
        if isinstance(k, SBool):
            k = bool(k)
        i = dict_find(interp, o, k)
        if i is None:
            raise KeyError('key')
        return o.items[i][1]
    if isinstance(o, dict) and not in_repo(type(o)):
        if isinstance(k, SStr):
            found, v = lookup_finite(k, o)
            if not found:
                raise KeyError('key')
            return v
        if isinstance(o, collections.Counter) and not is_sym(k):
            return o[k]
        if is_sym(k):
            raise Unsupported('lookup of %r' % (k,))
        return o[k]
    if in_repo(type(o)):
        d = interp.class_attr(type(o), '__getitem__')
        if isinstance(d, types.FunctionType) and in_repo(d):
            return interp.call(d, [o, k])
    if isinstance(o, Poison):
        raise Unsupported('no invariant for %r' % o)
    return guard(operator.getitem, o,
                 native(k) if not isinstance(k, slice) else k)


def setitem(interp, o, k, v):
    if hasattr(o, '__pv_setitem__'):
        return o.__pv_setitem__(interp, k, v)
    if isinstance(o, SList):
        interp.wrote(o)
        if isinstance(k, slice):
            raise Unsupported('slice assignment')
        o.seq.at(k)
        ps = o.seq.parts
        if isinstance(k, int) and k < 0:
            i = len(ps) + k
            if any(isinstance(p, SeqAtom) for p in ps[i:]):
                raise Unsupported('list assignment')
        else:
            i = o.seq.boundary(k)
        if i is None or isinstance(ps[i], SeqAtom):
            raise Unsupported('list assignment')
        o.seq = SSeq(ps[:i] + (('e', v),) + ps[i + 1:])
        return
    if isinstance(o, SDict):
        if isinstance(k, SBool):
            k = bool(k)
        i = dict_find(interp, o, k)
        put(o, k, v)
        if i is None:
            interp.wrote(o)
            o.items.append([k, v])
        else:
            k = o.items[i][0]
            if is_sym(k):
                interp.wrote(o)
            else:
                interp.wrote(o, 'item', k)
            o.items[i][1] = v
        return
    if isinstance(o, dict) and not in_repo(type(o)):
        if not any(o is d for d in ctx().cache.get('dicts', ())) or is_sym(k):
            raise Unsupported('writes a dict that was there before')
        interp.wrote(o)
        o[k] = v
        return
    if in_repo(type(o)):
        d = interp.class_attr(type(o), '__setitem__')
        if isinstance(d, types.FunctionType) and in_repo(d):
            return interp.call(d, [o, k, v])
    raise Unsupported('item assignment to %r' % (type(o),))


def put(d, k, v):
    """An entry of a dict that is not known in full is written."""
    if d.rest is not None:
        ctx().events.append(('put', d, k, v))
        d.rest.dirty = True


def delitem(interp, o, k):
    if isinstance(o, SList):
        method(interp, o, 'pop', [k], {})
        return
    if isinstance(o, SDict):
        interp.wrote(o)
        if o.rest is not None:
            raise Unsupported('del of an unknown dict')
        i = dict_find(interp, o, k)
        if i is None:
            raise KeyError('key')
        del o.items[i]
        return
    raise Unsupported('del item')


# ------------------------------------------------------------------- sets
def as_set(x):
    return x if isinstance(x, SSet) else SSet(sorted(x, key=str))


def setop(interp, op, a, b):
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {'Sub': a - b, 'BitOr': a | b, 'BitAnd': a & b,
                'BitXor': a ^ b}[op] if op in ('Sub', 'BitOr', 'BitAnd',
                                               'BitXor') else None
    a, b = as_set(a), as_set(b)
    if op == 'BitOr':
        return interp.new(SSet(SSeq(a.seq.parts + b.seq.parts)))
    la = a.seq.concrete()
    if la is None:
        return method_sym_setop(interp, op, a, b)
    if op in ('Sub', 'BitAnd'):
        out = []
        for x in la:
            if contains(interp, b, x) == (op == 'BitAnd'):
                out.append(x)
        return interp.new(SSet(out))
    raise Unsupported('set operation')


def method_sym_setop(interp, op, a, b):
    raise Unsupported('operation on a symbolic set')


def setcmp(interp, op, a, b):
    a, b = as_set(a), as_set(b)
    la, lb = a.seq.concrete(), b.seq.concrete()
    if la is None or lb is None:
        raise Unsupported('comparison of symbolic sets')
    sub = lambda p, q: all(contains(interp, q, x)         # noqa
                           for x in p.seq.concrete())
    if op == 'LtE':
        return sub(a, b)
    if op == 'GtE':
        return sub(b, a)
    if op == 'Lt':
        return sub(a, b) and not sub(b, a)
    return sub(b, a) and not sub(a, b)


# ---------------------------------------------------------------- strings
def percent(interp, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    if isinstance(args, SSeq):
        args = tuple(args)
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out, i = '', 0
    while i < len(fmt):
        if fmt[i] != '%':
            j = fmt.find('%', i)
            j = len(fmt) if j < 0 else j
            out = out + fmt[i:j]
            i = j
            continue
        k = fmt[i + 1]
        i += 2
        if k == '%':
            out = out + '%'
            continue
        if not args:
            raise TypeError('not enough arguments for format string')
        x = args.pop(0)
        if k == 's':
            out = out + to_str(interp, x)
        elif k == 'd':
            if not isinstance(x, (int, SInt)):
                raise TypeError('%d format')
            out = out + val.dec(x)
        elif k == 'r':
            out = out + to_repr(interp, x)
        else:
            raise Unsupported('format %%%s' % k)
    if args:
        raise TypeError('not all arguments converted')
    return out


def join(interp, sep, it):
    if isinstance(it, SortedSet):
        return join_sorted(interp, sep, it.s)
    seq = as_seq(interp, it)
    if sep != '' and not isinstance(sep, str):
        raise Unsupported('symbolic separator')
    ps = list(seq.parts)
    if sep == '':
        out = []
        for p in ps:
            if isinstance(p, SeqAtom):
                out.append(val.join_atom(p.base, p.fn))
            else:
                if not isinstance(p[1], STR):
                    raise TypeError('sequence item: expected str instance')
                out.extend(segs_of(p[1]))
        return SStr.mk(out)
    while ps and isinstance(ps[-1], SeqAtom):
        val.seq_split_last(ps[-1].base)
        ps = list(SSeq(ps).parts)
    out = []
    for i, p in enumerate(ps):
        if isinstance(p, SeqAtom):
            out.append(val.join_atom(p.base, p.fn, sep))
        else:
            if not isinstance(p[1], STR):
                raise TypeError('sequence item: expected str instance')
            out.extend(segs_of(p[1]))
            if i < len(ps) - 1:
                out.append(sep)
    return SStr.mk(out)


def join_sorted(interp, sep, s):
    """sep.join(sorted(set))"""
    l = s.seq.concrete()
    if l is not None and all(isinstance(x, str) for x in l):
        return sep.join(sorted(set(l)))
    parts = []
    for p in s.seq.parts:           # drop what is certainly repeated
        if any(_same_part(p, q) for q in parts):
            continue
        parts.append(p)
    if len(parts) == 1 and not isinstance(parts[0], SeqAtom):
        return parts[0][1]
    if not parts:
        return ''
    return val.app('sortjoin:' + sep, [SSet(SSeq(parts))])


def _same_part(x, y):
    if isinstance(x, SeqAtom) and isinstance(y, SeqAtom):
        return x.base is y.base and val.same_fn(x.base, x.fn, y.fn)
    if isinstance(x, SeqAtom) or isinstance(y, SeqAtom):
        return False
    return entails_eq(x[1], y[1])


def str_find(interp, s, sub, start=0, last=False):
    """Index (value) of the first/last occurrence, or -1."""
    if not isinstance(sub, str) or not sub:
        raise Unsupported('find of %r' % (sub,))
    segs = list(segs_of(s))
    pos = 0
    if start is None:
        start = 0
    if not (isinstance(start, int) and start == 0):
        left, right = SStr(segs_of(s)).boundary(start)
        if last:
            raise Unsupported('rfind with start')
        segs = list(right)
        pos = length(SStr(left))
    for g in segs:
        if isinstance(g, Sym) and not g.char:
            val.sym_concrete(g)
    segs = list(val.norm(segs))
    if len(sub) == 1:
        segs = _find_char(segs, sub, last)
    elif not last:
        segs = _find_split(segs, sub)
    # flatten to letters and blocks
    items = []
    for g in segs:
        if isinstance(g, str):
            items.extend(g)
        else:
            items.append(g)
    order = range(len(items))
    cum = [pos]
    for g in items:
        cum.append(cum[-1] + (1 if isinstance(g, str) else val.seglen(g)))
    for i in (reversed(order) if last else order):
        r = _occurs(items, i, sub)
        if r:
            return cum[i]
    return -1


def _find_char(segs, ch, last):
    """Unknown texts that may contain the character: both cases."""
    cs = CharSet((ch,))
    for g in (reversed(segs) if last else segs):
        if isinstance(g, str):
            if ch in g:
                break
        elif isinstance(g, Sym):
            if val.sym_in(g, cs):
                return list(val.norm(segs))
        elif g.kind == 'var' and g.dom.has(ch):
            without = g.dom.minus(cs)
            if ctx().choose(2, 'contains'):
                a = val.text('before', g.dom if last else without)
                b = val.text('behind', without if last else g.dom)
                g.expand(segs_of(a) + (ch,) + segs_of(b))
                return list(val.norm(segs))
            g.dom = without
        elif g.dom.has(ch):
            break                    # is decided below
    return segs


def _find_split(segs, sub):
    """Unknown texts that may contain sub: both cases."""
    if any(sub.startswith(sub[k:]) for k in range(1, len(sub))):
        return segs                  # occurrences could overlap
    for i, g in enumerate(segs):
        if isinstance(g, val.Atom) and g.kind == 'var' and \
                sub not in g.free and all(g.dom.has(x) for x in sub):
            nxt = segs[i + 1] if i + 1 < len(segs) else None
            if nxt is not None and not (isinstance(nxt, str) and
                                        nxt[0] not in sub):
                continue
            if ctx().choose(2, 'contains'):
                a, b = val.text('before'), val.text('behind')
                segs_of(a)[0].free = (sub,)
                g.expand(segs_of(a) + (sub,) + segs_of(b))
                return list(val.norm(segs))
            g.free = g.free + (sub,)
    return segs


def _occurs(items, i, sub):
    """Does sub start at item i?  Blocks must exclude a letter of sub."""
    for k, ch in enumerate(sub):
        if i + k >= len(items):
            return False
        g = items[i + k]
        if isinstance(g, str):
            if g != ch:
                return False
        elif isinstance(g, Sym):
            if not val.sym_in(g, CharSet((ch,))):
                return False
            items[i + k] = ch
        else:
            # a block: no occurrence may touch it, or we cannot tell
            if all(not g.dom.has(x) for x in sub):
                return False
            if k == 0 and len(sub) > 1 and not g.dom.has(sub[0]):
                return False
            if k == 0 and not _starts_in(items, i, sub):
                return False
            if k > 0 and not g.dom.has(ch) and (
                    g.minlen > 0 or ctx().entails(zint(g.len) > 0)):
                return False
            if any(not g.dom.has(x) for x in sub) and len(sub) > 1 and \
                    _cannot_overlap(items, i + k, sub):
                return False
            raise Unsupported('find %r in %r' % (sub, g))
    return True


def _starts_in(items, i, sub):
    """May sub start inside the block i (not at its end)?"""
    g = items[i]
    m = 0
    while m < len(sub) and g.dom.has(sub[m]):
        m += 1
    if m == len(sub):
        if sub not in g.free:
            return True
        m -= 1
    return any(_may_match(items, i + 1, sub[k:]) for k in range(1, m + 1))


def _may_match(items, i, sub):
    for k, ch in enumerate(sub):
        if i + k >= len(items):
            return False
        g = items[i + k]
        if isinstance(g, str):
            if g != ch:
                return False
        elif isinstance(g, Sym):
            if not g.dom.has(ch):
                return False
        else:
            return g.dom.has(ch) or not g.minlen
    return True


def _cannot_overlap(items, j, sub):
    """No occurrence of sub overlaps the block at j: the block lacks a letter
    of sub, and on both sides the letter next to it cannot be in an
    occurrence."""
    g = items[j]
    lacking = [x for x in sub if not g.dom.has(x)]
    if not lacking:
        return False
    # the missing letter must come from outside; look at the neighbours
    for nb in (j - 1, j + 1):
        if 0 <= nb < len(items):
            h = items[nb]
            if isinstance(h, str):
                if h in sub:
                    return False
            elif isinstance(h, Sym):
                if any(h.dom.has(x) for x in sub):
                    return False
            elif any(h.dom.has(x) for x in lacking):
                return False
    return True


def str_split(interp, s, sep):
    parts, cur = [], []
    todo = list(segs_of(s))
    while todo:
        g = todo.pop(0)
        if isinstance(g, str):
            ws = g.split(sep)
            for k, w in enumerate(ws):
                if k:
                    parts.append(('e', SStr.mk(cur)))
                    cur = []
                if w:
                    cur.append(w)
            continue
        if isinstance(g, Sym):
            if not g.char:
                todo.insert(0, val.sym_concrete(g))
                continue
            if val.sym_in(g, CharSet((sep,))):
                parts.append(('e', SStr.mk(cur)))
                cur = []
            else:
                cur.append(g)
            continue
        if not g.dom.has(sep):
            cur.append(g)
            continue
        if g.kind == 'join' and g.info[2] == sep and \
                not val._join_dom(g.info[0], g.info[1], '').has(sep):
            if not SStr.mk(cur) == '':
                val._split_join(g, True)
                todo = list(val.norm([g] + todo))
                continue
            parts.append(SeqAtom(g.info[0], g.info[1]))
            cur = []
            continue
        raise Unsupported('split of %r' % (g,))
    parts.append(('e', SStr.mk(cur)))
    return interp.new(SList(SSeq(parts)))


def all_in(s, dom):
    """Branch: do all characters of s lie in dom?  (True/False)"""
    for g in segs_of(s):
        if isinstance(g, str):
            if not all(dom.has(c) for c in g):
                return False
        elif isinstance(g, Sym):
            if not g.char:
                if not all(dom.has(c) for c in val.sym_concrete(g)):
                    return False
            elif not val.sym_in(g, dom):
                return False
        else:
            inside = g.dom.minus(dom).empty()
            if inside:
                continue
            if g.dom.inter(dom).empty():
                if not ctx().branch(zint(g.len) == 0, 'empty'):
                    return False
                continue
            raise Unsupported('all characters of %r' % g)
    return True


# ---------------------------------------------------------------- methods
def method(interp, o, name, args, kw):
    if isinstance(o, SStringIO):
        return io_method(interp, o, name, args)
    if isinstance(o, STR):
        return str_method(interp, o, name, args, kw)
    if isinstance(o, SList):
        return list_method(interp, o, name, args, kw)
    if isinstance(o, SDict):
        return dict_method(interp, o, name, args, kw)
    if isinstance(o, SETS):
        return set_method(interp, o, name, args, kw)
    if isinstance(o, bytes):
        if any(is_sym(a) or ours(a) for a in args):
            return bytes_method(interp, o, name, args, kw)
        return getattr(o, name)(*[native(a) for a in args], **kw)
    if isinstance(o, dict):
        if name == 'get' and isinstance(args[0], SStr):
            found, v = lookup_finite(args[0], o)
            return v if found else (args[1] if len(args) > 1 else None)
        if name in ('values', 'keys', 'items', 'get', 'copy'):
            return getattr(o, name)(*[native(a) for a in args])
        raise Unsupported('dict.%s' % name)
    if isinstance(o, SEQ):
        if name == 'index' or name == 'count':
            l = seq_of(o).concrete()
            if l is not None:
                n = 0
                for i, x in enumerate(l):
                    if interp.truth(interp.eq(x, args[0])):
                        if name == 'index':
                            return i
                        n += 1
                if name == 'index':
                    raise ValueError('not in list')
                return n
        raise Unsupported('sequence.%s' % name)
    raise Unsupported('method %s of %r' % (name, o))


def io_method(interp, o, name, args):
    if isinstance(o.content, Poison):
        raise Unsupported('no invariant for a string buffer')
    if name == 'write':
        s = args[0]
        if not isinstance(s, STR):
            raise TypeError('string argument expected')
        if o.pos == 'start':
            if not (isinstance(o.content, str) and not o.content):
                raise Unsupported('overwriting a string buffer')
        interp.wrote(o)
        o.content = o.content + s
        o.pos = 'end'
        return length(s)
    if name == 'seek':
        interp.wrote(o)
        if args and args[0] == 0 and len(args) == 1:
            o.pos = 'start'
            return 0
        if len(args) == 2 and args[0] == 0 and args[1] == 2:
            o.pos = 'end'
            return length(o.content)
        raise Unsupported('seek')
    if name == 'read' and not args:
        interp.wrote(o)
        if o.pos == 'end':
            return ''
        o.pos = 'end'
        return o.content
    if name == 'getvalue':
        return o.content
    if name == 'tell':
        return length(o.content) if o.pos == 'end' else 0
    if name == 'close':
        return None
    raise Unsupported('StringIO.%s' % name)


ARGS = {'join': 1, 'startswith': 1, 'endswith': 1, 'find': 2, 'index': 2,
        'rfind': 1, 'split': 1, 'isdigit': 0, 'partition': 1, 'strip': 0,
        'rstrip': 0, 'lstrip': 0}


def known_args(what, name, args, kw):
    """Only what the model of the method takes into account."""
    if len(args) > ARGS.get(name, len(args)) or \
            kw and name not in ('format', 'encode', 'decode'):
        raise Unsupported('arguments of %s.%s' % (what, name))


def utf8(encoding='utf-8', errors='strict'):
    try:
        if codecs.lookup(encoding).name == 'utf-8' and errors == 'strict':
            return
    except (LookupError, TypeError):
        pass
    raise Unsupported('another encoding')


def str_method(interp, s, name, args, kw):
    if isinstance(s, str) and not any(is_sym(a) or isinstance(
            a, (IGen, SortedSet, DictView)) or hasattr(a, '__pv_str__')
            or in_repo(type(a)) for a in args) and \
            not any(is_sym(v) or in_repo(type(v)) for v in kw.values()):
        if name == 'join':
            return join(interp, s, args[0])
        r = getattr(s, name)(*[native(a) for a in args], **kw)
        return interp.new(SList(r)) if isinstance(r, list) else r
    known_args('str', name, args, kw)
    if name == 'join':
        return join(interp, s, args[0])
    if name in ('startswith', 'endswith'):
        p = args[0]
        if isinstance(p, tuple):
            return any(str_method(interp, s, name, [q], {}) for q in p)
        if not isinstance(p, str):
            raise Unsupported('%s of a symbolic string' % name)
        for k in range(len(p)):
            i = k if name == 'startswith' else -1 - k
            try:
                ch = SStr(segs_of(s)).char_at(i)
            except IndexError:
                return False
            if not val.decide_eq(ch, p[i]):
                return False
        return True
    if name in ('find', 'index', 'rfind'):
        r = str_find(interp, s, args[0], args[1] if len(args) > 1 else 0,
                     name == 'rfind')
        if name == 'index' and isinstance(r, int) and r < 0:
            raise ValueError('substring not found')
        return r
    if name == 'split' and len(args) == 1 and isinstance(args[0], str) and \
            len(args[0]) == 1:
        return str_split(interp, s, args[0])
    if name == 'isdigit':
        segs = segs_of(s)
        if not interp.truth(s):
            return False
        return all_in(s, CharSet('0123456789')) if all(
            isinstance(g, str) or not g.dom.neg for g in segs) \
            else _approx_bool('isdigit')
    if name == 'encode':
        utf8(*args, **kw)
        return encoded(interp, s)
    if name == 'format':
        return str_format(interp, s, args, kw)
    if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper') and not args:
        raise Unsupported('str.%s' % name)
    if name == 'partition' and isinstance(args[0], str):
        i = str_find(interp, s, args[0])
        if isinstance(i, int) and i < 0:
            return (s, '', '')
        st = SStr(segs_of(s))
        return (st.slice(None, i), args[0],
                st.slice(i + len(args[0]), None))
    raise Unsupported('str.%s' % name)


def _approx_bool(label):
    c = ctx()
    c.approx.append(label)
    return c.choose(2, label) == 0


def str_format(interp, s, args, kw):
    import string
    if not isinstance(s, str):
        raise Unsupported('symbolic format')
    out, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if spec or conv:
            raise Unsupported('format spec')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            if field not in kw:
                raise KeyError(field)
            v = kw[field]
        out = out + to_str(interp, v)
    return out


class SBytes(object):
    """Bytes; t: the text of the same characters."""

    def __init__(self, t, s=None):
        self.t, self.s = t, s        # s: the text this is the encoding of

    def __repr__(self):
        return 'B(%r)' % (self.t if self.s is None else self.s,)

    def __veq__(self, o):
        if isinstance(o, SBytes) and self.s is not None and \
                o.s is not None:
            return veq(self.s, o.s)
        o = bytes_text(o)
        return False if o is None else val.str_veq(self.t, o)

    def __add__(self, o):
        t = bytes_text(o)
        return NotImplemented if t is None else SBytes(self.t + t)

    def __radd__(self, o):
        t = bytes_text(o)
        return NotImplemented if t is None else SBytes(t + self.t)

    def __pv_truth__(self, interp):
        return bool(self.t)

    def __pv_len__(self, interp):
        return length(self.t)

    def __pv_isinstance__(self, cls):
        return issubclass(bytes, cls)

    def __pv_getattr__(self, interp, name):
        if name in ('strip', 'rstrip', 'lstrip', 'decode', 'startswith',
                    'endswith', 'join'):
            return BytesMethod(self, name)
        raise Unsupported('bytes.%s' % name)

    __hash__ = None


class BytesMethod(object):
    def __init__(self, o, name):
        self.o, self.name = o, name

    def __pv_call__(self, interp, args, kw):
        return bytes_method(interp, self.o, self.name, args, kw)


def bytes_text(o):
    if isinstance(o, SBytes):
        return o.t
    if isinstance(o, bytes):
        return o.decode('latin-1')
    return None


def bytes_method(interp, o, name, args, kw):
    c = ctx()
    t = bytes_text(o)
    known_args('bytes', name, args, kw)
    if name in ('strip', 'rstrip', 'lstrip'):
        if isinstance(t, str):
            return SBytes(getattr(t, name)(' \t\n\r\x0b\x0c'))
        r = SBytes(val.app('bytes.' + name, [t]))
        c.assumed.add('bytes.strip, rstrip and lstrip: functions of the '
                      'bytes')
        return r
    if name == 'decode':
        utf8(*args, **kw)
        key = [x for x in c.cache.setdefault('decode', [])
               if veq(x[0], t) is True]
        if not key:
            bad = c.choose(2, 'decode') == 1
            key = [(t, bad, val.app('decode', [t]))]
            c.cache['decode'].append(key[0])
            c.assume((zint(length(key[0][2])) == 0) ==
                     (zint(length(t)) == 0))
            c.assumed.add('bytes.decode: a text that is empty for no bytes '
                          'only, or UnicodeDecodeError')
        if key[0][1]:
            raise UnicodeDecodeError('utf-8', b'', 0, 1, 'symbolic')
        return key[0][2]
    if name in ('startswith', 'endswith'):
        x = args[0] if isinstance(args[0], tuple) else (args[0],)
        return any(interp.truth(method(interp, t, name, [bytes_text(y)], {}))
                   for y in x)
    if name == 'join':
        seq = as_seq(interp, args[0]).map(
            lambda x: bytes_text(x))
        return SBytes(method(interp, t, 'join', [SSeq(seq.parts)], {}))
    raise Unsupported('bytes.%s' % name)


def encoded(interp, s):
    c = ctx()
    t = val.app('encode', [s])
    c.assume((zint(length(t)) == 0) == (zint(length(s)) == 0))
    return SBytes(t, s)


def list_method(interp, l, name, args, kw):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'reverse', 'sort'):
        interp.wrote(l)
    if name == 'append':
        l.seq = SSeq(l.seq.parts + (('e', args[0]),))
        return None
    if name == 'extend':
        x = args[0]
        if isinstance(x, IGen):
            x = native_list(interp, x)
        l.seq = SSeq(l.seq.parts + as_seq(interp, x).parts)
        return None
    if name == 'insert':
        i, x = args
        k = l.seq.boundary(i) if not (isinstance(i, int) and i < 0) else None
        if k is None:
            raise Unsupported('insert')
        ps = l.seq.parts
        l.seq = SSeq(ps[:k] + (('e', x),) + ps[k:])
        return None
    if name == 'pop':
        i = args[0] if args else -1
        v = l.seq.at(i)
        ps = l.seq.parts
        if isinstance(i, int) and i < 0 and not any(
                isinstance(p, SeqAtom) for p in ps[i:]):
            k = len(ps) + i
        elif isinstance(i, int) and i >= 0:
            k = l.seq.boundary(i)
        else:
            raise Unsupported('pop')
        l.seq = SSeq(ps[:k] + ps[k + 1:])
        return v
    if name == 'clear':
        l.seq = SSeq(())
        return None
    if name == 'copy':
        return interp.new(SList(l.seq))
    if name == 'reverse':
        c = l.seq.concrete()
        if c is None:
            raise Unsupported('reverse')
        l.seq = SSeq([('e', x) for x in c[::-1]])
        return None
    if name in ('index', 'count') and len(args) == 1 and not kw:
        return method(interp, l.seq, name, args, kw)
    raise Unsupported('list.%s' % name)


def dict_method(interp, d, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return DictView(d, name)
    if name in ('get', 'setdefault', 'pop'):
        i = dict_find(interp, d, args[0])
        if i is not None:
            v = d.items[i][1]
            if name == 'pop':
                if d.rest is not None:
                    raise Unsupported('pop of an unknown dict')
                interp.wrote(d)
                del d.items[i]
            return v
        if name == 'pop' and len(args) < 2:
            raise KeyError('key')
        v = args[1] if len(args) > 1 else None
        if name == 'setdefault':
            put(d, args[0], v)
            interp.wrote(d)
            d.items.append([args[0], v])
        return v
    if name == 'clear':
        interp.wrote(d)
        if d.rest is not None:
            raise Unsupported('clear of an unknown dict')
        d.items, d.rest = [], None
        return None
    if name == 'copy':
        return interp.new(SDict([list(x) for x in d.items], d.rest))
    raise Unsupported('dict.%s' % name)


def flat(s):
    """The elements of a set, in the place of the set."""
    return ('flat', s)


def union_all(interp, x):
    """set.union(*x)"""
    seq = as_seq(interp, x)
    parts = []
    for p in seq.parts:
        if isinstance(p, SeqAtom):
            parts.append(SeqAtom(p.base, val.compose(flat, p.fn)))
        elif isinstance(p[1], SETS):
            parts.extend(as_set(p[1]).seq.parts)
        elif hasattr(p[1], '__pv_flat__'):
            parts.extend(p[1].__pv_flat__())
        else:
            raise Unsupported('union of %r' % (p[1],))
    if not parts:
        if ctx().branch(zint(seq.length()) == 0, 'nothing'):
            raise TypeError('set.union() of nothing')
    return interp.new(SSet(SSeq(parts)))


def set_method(interp, s, name, args, kw):
    if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop'):
        if not isinstance(s, SSet):
            raise Unsupported('native set.%s' % name)
        interp.wrote(s)
    if name == 'add':
        s.seq = SSeq(s.seq.parts + (('e', args[0]),))
        return None
    if name == 'update':
        for a in args:
            a = a.seq if isinstance(a, SSet) else as_seq(interp, a)
            s.seq = SSeq(s.seq.parts + a.parts)
        return None
    if name == 'union':
        parts = as_set(s).seq.parts
        for a in args:
            a = a.seq if isinstance(a, SSet) else as_seq(interp, a)
            parts = parts + a.parts
        return interp.new(SSet(SSeq(parts)))
    if name == 'copy':
        return interp.new(SSet(as_set(s)))
    if name in ('difference', 'intersection') and len(args) == 1:
        return setop(interp, 'Sub' if name == 'difference' else 'BitAnd', s,
                     args[0] if isinstance(args[0], SETS)
                     else SSet(as_seq(interp, args[0])))
    if name == 'issubset':
        return setcmp(interp, 'LtE', s, args[0])
    if name == 'issuperset':
        return setcmp(interp, 'GtE', s, args[0])
    raise Unsupported('set.%s' % name)


# --------------------------------------------------------------- builtins
def b_len(interp, x):
    if isinstance(x, STR):
        return length(x)
    if isinstance(x, (SSeq, SList)):
        return seq_of(x).length()
    if isinstance(x, SSet):
        s = dedupe(x)
        if s.seq.concrete() is None:
            return card(s)
        return len(s.seq.concrete())
    if isinstance(x, SDict):
        if x.rest is not None:
            return x.rest.length(interp, x)
        return len(x.items)
    if isinstance(x, DictView):
        return b_len(interp, x.d)
    if hasattr(x, '__pv_len__'):
        return x.__pv_len__(interp)
    if in_repo(type(x)):
        d = interp.class_attr(type(x), '__len__')
        if isinstance(d, types.FunctionType) and in_repo(d):
            return interp.call(d, [x])
    if isinstance(x, (IGen, SInt, Poison)):
        raise Unsupported('len')
    return len(x)


def card(s):
    """The number of distinct elements of a set that is not known."""
    c = ctx()
    for (t, z) in c.cache.setdefault('cards', []):
        if val.set_veq(s, t) is True:
            return SInt(z)
    z = val.new_int('card', 0).z
    n = zint(s.seq.length())
    c.assume(z <= n)
    c.assume((z > 0) == (n > 0))
    c.cache['cards'].append((s, z))
    return SInt(z)


def b_isinstance(interp, x, cls):
    if isinstance(cls, (tuple, SSeq)):
        return any(b_isinstance(interp, x, c) for c in cls)
    if isinstance(cls, type) and is_sym(x):
        return issubclass(class_of(x), cls)
    if hasattr(x, '__pv_isinstance__'):
        return x.__pv_isinstance__(cls)
    if ours(x) and type(x) not in (tuple, list, dict, set, frozenset):
        raise Unsupported('isinstance of %r' % (x,))
    return isinstance(x, cls)


def b_int(interp, x=0, *a):
    if isinstance(x, SStr):
        if a:
            raise Unsupported('int with a base')
        segs = x.segs
        if len(segs) == 1 and isinstance(segs[0], Atom) and \
                segs[0].kind == 'dec':
            return segs[0].info
        if not interp.truth(x):
            raise ValueError('invalid literal for int()')
        ascii = all_in(x, CharSet('0123456789'))
        if not ascii:                # more texts than these are numbers
            ctx().approx.append('int of a text')
            if ctx().choose(2, 'number') == 0:
                raise ValueError('invalid literal for int()')
        ints = ctx().cache.setdefault('ints', [])
        for y, n in ints:
            if entails_eq(x, y):
                return n
        n = val.new_int('int', 0 if ascii else None)
        ints.append((x, n))
        return n
    if isinstance(x, (SInt, SBool)):
        return mkint(zint(x))
    return int(x, *a)


def b_sum(interp, it, start=0):
    r = start
    for p in SSeq(as_seq(interp, it).parts).parts:
        r = r + (val.seq_sum(p.base, p.fn) if isinstance(p, SeqAtom)
                 else p[1])
    return r


def b_minmax(interp, name, args, kw):
    key = kw.get('key')
    l = native_list(interp, args[0]) if len(args) == 1 else list(args)
    if not l:
        if 'default' in kw:
            return kw['default']
        raise ValueError('empty sequence')
    best = l[0]
    kb = interp.call(key, [best]) if key else best
    for x in l[1:]:
        kx = interp.call(key, [x]) if key else x
        if interp.truth(interp.compare(
                interp.models.ast_gt if name == 'max'
                else interp.models.ast_lt, kx, kb)):
            best, kb = x, kx
    return best


import ast as _ast                                             # noqa
ast_gt, ast_lt = _ast.Gt(), _ast.Lt()


def b_zip(interp, *its):
    seqs = [as_seq(interp, x) for x in its]
    parts = [list(s.parts) for s in seqs]
    out = []
    while all(parts):
        heads = [p[0] for p in parts]
        if all(isinstance(h, SeqAtom) for h in heads):
            b = heads[0].base
            if all(h.base is b for h in heads):
                fns = [h.fn for h in heads]
                out.append(SeqAtom(b, _tuple_fn(fns)))
                for p in parts:
                    p.pop(0)
                continue
        if any(isinstance(h, SeqAtom) for h in heads):
            for i, p in enumerate(parts):
                if isinstance(p[0], SeqAtom):
                    val.seq_split_first(p[0].base)
            parts = [list(SSeq(p).parts) for p in parts]
            continue
        out.append(('e', tuple(h[1] for h in heads)))
        for p in parts:
            p.pop(0)
    rest = [p for p in parts if p]
    if rest and not all(isinstance(x, tuple) for p in rest for x in p):
        # a sequence ended: the others may go on, or be empty
        pass
    return SSeq(out)


def _tuple_fn(fns):
    c = ctx().cache
    key = ('tuple',) + tuple(id(f) for f in fns)
    if key not in c:
        c[key] = ((lambda e: tuple(f(e) for f in fns)), fns)
    return c[key][0]


def b_sorted(interp, it, key=None, reverse=False):
    if isinstance(it, SSet) and key is None and not reverse:
        l = it.seq.concrete()
        if l is not None and all(isinstance(x, str) for x in l):
            return interp.new(SList(sorted(set(l))))
        return SortedSet(it)
    l = native_list(interp, it)
    if all(not is_sym(x) and not ours(x) and not in_repo(type(x))
           for x in l) and key is None:
        return interp.new(SList(sorted(l, reverse=reverse)))
    raise Unsupported('sorting symbolic values')


def b_allany(interp, name, it):
    if isinstance(it, IGen):
        it = native_list(interp, it)
    seq = as_seq(interp, it)
    for p in seq.parts:
        if isinstance(p, SeqAtom):
            c = ctx()
            before = c.cursor
            e = p.base.fresh_elem()
            v = p.fn(e)
            if isinstance(v, SBool) or c.cursor != before:
                raise Unsupported('%s over a symbolic sequence' % name)
            v = interp.truth(v)
            if v == (name == 'all'):
                continue
            if c.branch(p.base.zlen > 0, 'nonempty'):
                return v
        else:
            t = interp.truth(p[1])
            if t != (name == 'all'):
                return t
    return name == 'all'


def b_filter(interp, f, it):
    from . import loops
    out = interp.new(SList())
    it = iterate(interp, it)
    f = interp.truth if f is None else f

    def body(x):
        r = f(x) if f == interp.truth else interp.call(f, [x])
        if interp.truth(r):
            method(interp, out, 'append', [x], {})
    loops.run_callback(interp, it, body, {'*out': out, '*f': f})
    return out.seq


def b_map(interp, f, *its):
    if len(its) != 1:
        seq = b_zip(interp, *its)
        return SSeq(seq.parts).map(lambda t: interp.call(f, list(t)))
    seq = as_seq(interp, its[0])
    return seq.map(lambda x: interp.call(f, [x]))


def call(interp, f, args, kw):
    if f in BUILTIN:
        return bind(BUILTIN[f], f.__name__, interp, *args, **kw)
    if f is max or f is min:
        return b_minmax(interp, f.__name__, args, kw)
    if f is all or f is any:
        return b_allany(interp, f.__name__, args[0])
    if f is io.StringIO:
        return interp.new(SStringIO(*args))
    if f is hashlib.md5:
        return Digest(args[0] if args else b'')
    if isinstance(f, operator.methodcaller):
        name, a = f.__reduce__()[1][0], list(f.__reduce__()[1][1:])
        return interp.call(interp.getattr(args[0], name), a)
    if isinstance(f, types.BuiltinMethodType) and \
            isinstance(f.__self__, (set, frozenset)) and \
            f.__name__ == 'union':
        return set_method(interp, f.__self__, 'union', args, kw)
    if f is set.union:
        return set_method(interp, args[0], 'union', args[1:], kw)
    if isinstance(f, type) and issubclass(f, BaseException):
        try:
            return f(*[native(a) for a in args])
        except Unsupported:
            return f('symbolic')
    if isinstance(f, type) and hasattr(f, '_fields'):
        return f(*args, **kw)
    if hasattr(f, '__pv_call__'):
        return f.__pv_call__(interp, args, kw)
    if args and isinstance(args[0], (logging.Logger,
                                     logging.LoggerAdapter)):
        ctx().assumed.add('logging has no effect on the results and does '
                          'not raise')
        return None
    if isinstance(f, type) and issubclass(f, logging.LoggerAdapter):
        return logging.LoggerAdapter(logging.getLogger('pv'), {})
    if isinstance(f, types.FunctionType) or callable(f):
        if not any(is_sym(a) or ours(a) for a in args) \
                and not any(is_sym(a) or ours(a) for a in kw.values()):
            return f(*[native(a) for a in args], **kw)
        if isinstance(f, types.BuiltinMethodType) and f.__self__ is not None \
                and not isinstance(f.__self__, types.ModuleType):
            return method(interp, f.__self__, f.__name__, args, kw)
    raise Unsupported('call of %r' % (f,))


class Digest(object):
    def __init__(self, data):
        self.data = data

    def __pv_getattr__(self, interp, name):
        if name == 'hexdigest':
            return _Hex(self.data)
        raise Unsupported('md5.%s' % name)


class _Hex(object):
    def __init__(self, data):
        self.data = data

    def __pv_call__(self, interp, args, kw):
        s = self.data
        return val.app('md5', [s.s if isinstance(s, SBytes)
                               else s.decode('latin-1')])


def b_range(interp, *a):
    if any(isinstance(x, SInt) for x in a):
        raise Unsupported('symbolic range')
    return SSeq([('e', i) for i in range(*a)])


def b_reversed(interp, x):
    seq = as_seq(interp, x)
    l = seq.concrete()
    if l is not None:
        return SSeq([('e', v) for v in l[::-1]])
    return Reversed(seq)


class Reversed(object):
    """Lazily reversed symbolic sequence (iterated from its end)."""

    def __init__(self, seq):
        self.seq = seq


def b_enumerate(interp, x, start=0):
    if isinstance(x, Reversed):
        return RevIter(x.seq, start)
    it = iterate(interp, x)
    if it.start is not None:
        raise Unsupported('enumerate twice')
    return SIter(it.seq, start)


class RevIter(object):
    def __init__(self, seq, start):
        self.seq, self.start = seq, start


def b_iter(interp, x):
    it = iterate(interp, x)
    return it


def first_of(iterable, default):
    for x in iterable:
        return x
    return default


def b_next(interp, x, *default):
    """next() of an iterator that nothing else reads."""
    if not isinstance(x, (SIter, IGen)):
        raise Unsupported('next(%r)' % (x,))
    if getattr(x, 'spent', False):
        raise Unsupported('a second next()')
    x.spent = True
    y = IGen(x.start) if isinstance(x, IGen) else SIter(x.seq, x.start)
    none = object()
    r = interp.run(node_of(first_of), globals(), None, [], {}, [y, none], {},
                   'next')
    if r is none:
        if not default:
            raise StopIteration
        return default[0]
    return r


def b_list(interp, x=()):
    return interp.new(SList(as_seq(interp, x)))


def b_tuple(interp, x=()):
    if isinstance(x, IGen):
        return tuple(native_list(interp, x))
    s = as_seq(interp, x)
    l = s.concrete()
    return tuple(l) if l is not None else SSeq(s.parts)


def b_set(interp, x=()):
    if isinstance(x, SSet):
        return interp.new(SSet(x))
    if isinstance(x, IGen):
        x = native_list(interp, x)
    return interp.new(SSet(as_seq(interp, x)))


def b_dict(interp, *a, **kw):
    d = interp.new(SDict())
    if a:
        src = a[0]
        if isinstance(src, SDict):
            d.items = [list(x) for x in src.items]
            d.rest = src.rest
        else:
            for kv in native_list(interp, src):
                k, v = interp.unpack(kv, 2)
                setitem(interp, d, k, v)
    for k, v in kw.items():
        setitem(interp, d, k, v)
    return d


def b_counter(interp, *a):
    if a:
        raise Unsupported('Counter(...)')
    return interp.new(CounterDict())


class CounterDict(SDict):
    """collections.Counter: missing entries are 0."""
    __slots__ = ()

    def __pv_getitem__(self, interp, k):
        i = dict_find(interp, self, k)
        return 0 if i is None else self.items[i][1]


def b_str(interp, x=''):
    return to_str(interp, x)


def b_hash(interp, x):
    if in_repo(type(x)):
        d = interp.class_attr(type(x), '__hash__')
        if isinstance(d, types.FunctionType) and in_repo(d):
            return interp.call(d, [x])
    return HashVal(x)


def b_bool(interp, x=False):
    if isinstance(x, SBool):
        return x
    return interp.truth(x)


def b_super(interp, *a):
    return super(*a)


def b_getattr(interp, o, name, *d):
    try:
        return interp.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def b_hasattr(interp, o, name):
    try:
        interp.getattr(o, name)
    except AttributeError:
        return False
    return True


def b_id(interp, x):
    return IdVal(x)


class IdVal(object):
    def __init__(self, x):
        self.x = x

    def __veq__(self, o):
        return isinstance(o, IdVal) and o.x is self.x

    def __eq__(self, o):
        return isinstance(o, IdVal) and o.x is self.x

    __hash__ = None


def enter(interp, cm):
    d = interp.class_attr(type(cm), '__enter__')
    if isinstance(d, types.FunctionType) and in_repo(d):
        return interp.call(d, [cm])
    if hasattr(cm, '__pv_enter__'):
        return cm.__pv_enter__(interp)
    if isinstance(cm, logging.LoggerAdapter):
        return cm
    raise Unsupported('with %r' % (type(cm),))


def b_abs(interp, x):
    return abs(x)


def b_chain(interp, it):
    out = []
    for p in as_seq(interp, it).parts:
        if isinstance(p, SeqAtom):
            raise Unsupported('chain of a symbolic sequence')
        out.extend(as_seq(interp, p[1]).parts)
    return SSeq(out)


def b_print(interp, *a, **k):
    raise Unsupported('print')


BUILTIN = {
    len: b_len, isinstance: b_isinstance, int: b_int, sum: b_sum,
    zip: b_zip, sorted: b_sorted, filter: b_filter, map: b_map,
    range: b_range, reversed: b_reversed, enumerate: b_enumerate,
    iter: b_iter, next: b_next, list: b_list, tuple: b_tuple, set: b_set,
    frozenset: b_set, dict: b_dict, str: b_str, hash: b_hash, bool: b_bool,
    super: b_super, getattr: b_getattr, hasattr: b_hasattr, id: b_id,
    abs: b_abs,
    collections.Counter: b_counter, print: b_print,
    collections.OrderedDict: b_dict,
    itertools.chain.from_iterable: b_chain,
    itertools.chain: lambda interp, *a: b_chain(interp, list(a)),
    repr: lambda interp, x: to_repr(interp, x),
}
