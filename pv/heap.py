"""Abstract objects, their contracts, and traces of what was done to them.

The collaborators of the function under verification are abstract objects: an
attribute has an arbitrary value (what its factory says, an invariant of the
kind), a method is its contract.  What the function does to them (calls with
an effect, attribute writes, values yielded) is recorded as events, in order.
A loop over a stream of objects contributes ('each', spec, base): what it does
with one arbitrary element was proved by `spec.on_step` in the inductive step.
"""
from . import val, loops
from .core import ctx, PathEnd, Unsupported
from .val import SeqAtom, SSeq, Base


class Kind(object):
    """name; cls: the class it is an instance of; attrs: name -> factory(obj)
    (the value of an attribute that was not written); methods: name ->
    contract(I, obj, *args, **kw); pure attributes are read without trace."""

    def __init__(self, name, cls=None, attrs=None, methods=None, truth=None,
                 iter=None, length=None, string=None, contains=None,
                 item=None, setitem=None, frozen=True, chain=None,
                 on_link=None, eq=None, walk=None):
        self.name, self.cls = name, cls
        self.attrs, self.methods = attrs or {}, methods or {}
        self.truth, self.iter, self.length = truth, iter, length
        self.string, self.contains, self.item = string, contains, item
        self.setitem = setitem
        self.chain, self.on_link = chain, on_link
        self.eq, self.walk = eq, walk
        self.frozen = frozen         # attribute writes are not allowed

    def __call__(self, name, **attrs):
        return (Obj if self.string is None else StrObj)(self, name, attrs)


class Obj(object):
    __pv_object__ = True
    __slots__ = ('_k', '_n', '_a')

    def __init__(self, kind, name, attrs):
        self._k, self._n, self._a = kind, ctx().fresh(name), dict(attrs)
        ctx().cache.setdefault('objs', []).append(self)

    def __repr__(self):
        return '<%s>' % self._n

    def __veq__(self, o):
        if self is not o and self._k.eq is not None and isinstance(o, Obj):
            return self._k.eq(self, o)
        return self is o

    def __pv_getattr__(self, interp, name):
        if name == '__class__':
            if self._k.cls is None:
                raise Unsupported('class of %r' % self)
            return self._k.cls
        if name in self._a:
            return self._a[name]
        if name in self._k.attrs:
            c = ctx()
            if (self._k.name, name) in c.cache.get('havocked', ()):
                c.approx.append('%s.%s after a loop' % (self._k.name, name))
            v = self._a[name] = self._k.attrs[name](self)
            return v
        if name in self._k.methods:
            return Method(self, name)
        raise Unsupported('attribute %s of %s' % (name, self._k.name))

    def __pv_setattr__(self, interp, name, v):
        if self._k.frozen or name not in self._k.attrs and \
                name not in self._a:
            raise Unsupported('write of %s.%s' % (self._k.name, name))
        event('set', self, name, loops.freeze(v))
        for s in interp.fresh_stack:
            if id(self) in s['fresh']:
                continue
            s.setdefault('objs', set()).add((self._k.name, name))
        self._a[name] = v

    def __pv_isinstance__(self, cls):
        if self._k.cls is None:
            raise Unsupported('isinstance of %r' % self)
        return issubclass(self._k.cls, cls)

    def __pv_truth__(self, interp):
        if self._k.truth is not None:
            return interp.truth(self._k.truth(interp, self))
        if self._k.length is not None:
            return interp.truth(self._k.length(interp, self))
        if self._k.iter is not None:
            raise Unsupported('truth of %r' % self)
        return True

    def __pv_len__(self, interp):
        if self._k.length is None:
            raise Unsupported('len of %r' % self)
        return self._k.length(interp, self)

    def __pv_iter__(self, interp):
        if self._k.iter is None:
            raise Unsupported('iteration of %r' % self)
        return self._k.iter(interp, self)

    def __pv_contains__(self, interp, x):
        if self._k.contains is None:
            raise Unsupported('membership in %r' % self)
        return self._k.contains(interp, self, x)

    def __pv_getitem__(self, interp, k):
        if self._k.item is None:
            raise Unsupported('subscript of %r' % self)
        return self._k.item(interp, self, k)

    def __pv_setitem__(self, interp, k, v):
        if self._k.setitem is None:
            raise Unsupported('subscript of %r' % self)
        return self._k.setitem(interp, self, k, v)

    def __pv_enter__(self, interp):
        return self


class StrObj(Obj):
    __slots__ = ()

    def __pv_str__(self, interp):
        if self._k.string is None:
            raise Unsupported('str of %r' % self)
        return self._k.string(interp, self)


class Method(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __pv_call__(self, interp, args, kw):
        return interp.models.bind(
            self.obj._k.methods[self.name], self.name, interp, self.obj,
            *args, **kw)


class Rest(object):
    """The unknown entries of a dictionary: value(key) is what any of them
    satisfies.  What is written is an event ('put', dict, key, value)."""

    def __init__(self, value, name='map', step=None):
        self.value, self.name, self.step = value, name, step
        self.memo, self.dirty, self.views = [], False, {}

    def lookup(self, I, d, k):
        for a, r in self.memo:
            if a is k or I.truth(I.eq(a, k)):
                return r
        r = None
        if ctx().choose(2, 'known key'):
            if not self.dirty:
                ctx().assume(self.base(d).zlen > 0)
            r = (self.value(k),)
        self.memo.append((k, r))
        return r

    def truth(self, I, d):
        return any(r for _, r in self.memo) or bool(
            I.truth(self.length(I, d)))

    def length(self, I, d):
        return val.SInt(self.base(d).zlen)

    def base(self, d):
        return self.seq(d, 'values').parts[0].base

    def seq(self, d, kind):
        if self.dirty:
            raise Unsupported('iteration of a changed dict')
        if kind != 'values':
            raise Unsupported('%s of an unknown dict' % kind)
        if kind not in self.views:
            self.views[kind] = Base(self.name + '.values',
                                    lambda n: self.value(None))
            if self.step is not None:
                self.step(self.views[kind])
        return SSeq((SeqAtom(self.views[kind]),))


def unknown_dict(I, value, name='map'):
    return I.new(val.SDict([], Rest(value, name)))


def show(x):
    """repr, also of real objects that hold symbolic values"""
    if isinstance(x, (tuple, list)):
        return '(%s)' % ', '.join(map(show, x))
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v))
                                  for k, v in x.items())
    if type(x).__name__ == 'Pattern':
        return 'Pattern(%r)' % (getattr(x, 'pattern_string', None),)
    try:
        return repr(x)
    except TypeError:
        return '<%s>' % type(x).__name__


def event(*e):
    ctx().events.append(e)


def effect(name, result=None):
    """A method that is an event; positional arguments only in the record,
    keywords as a sorted tuple."""
    def m(I, obj, *a, **kw):
        event('call', obj, name, tuple(a), tuple(sorted(kw.items())))
        return result(I, obj, *a, **kw) if result is not None else None
    return m


def nothing(I, obj, *a, **kw):
    return None


def events(since=0):
    return [e for e in ctx().events[since:]]


class EachSpec(loops.SeqDefault):
    """A loop (or several) over the elements of a sequence; step(e, events)
    proves what an iteration does with e."""
    any_start = True
    per_cut = True
    comprehensions = False
    peel = False

    def __init__(self, base, interp, step):
        loops.SeqDefault.__init__(self, base, interp)
        self.on_event = step
        self.count = 0

    def on_step(self, g, e, evs):
        self.on_event(e, evs)


def each(I, base, step, peel=False):
    sp = loops.register(base, EachSpec(base, I, step))
    sp.peel = peel
    return sp


def covers(evs, base):
    """The loops of these events go over the elements of base, each once."""
    want = base.parts()
    got = []
    for e in evs:
        if e[0] != 'each':
            return False
        got.extend(e[2].parts())
    return len(want) == len(got) and all(
        a is b or (isinstance(a, tuple) and isinstance(b, tuple) and
                   a[1] is b[1]) for a, b in zip(want, got))


def segments(evs, base):
    """[(part, its events)]: None for what its loop did, [] for a part that
    was not met.  None: not decided, False: met twice, out of order, or
    something else was done."""
    c = ctx()
    want = [p for p in base.parts() if not (
        isinstance(p, Base) and c.entails(p.zlen == 0))]
    ids = dict((id(p), i) for i, p in enumerate(want) if isinstance(p, Base))
    single = len(ids) < len(want)
    out = [[] for _ in want]
    at = -1
    for e in evs:
        ps = e[2].parts() if e[0] == 'each' else ()
        if any(id(p) in ids for p in ps):
            for p in ps:
                i = ids.get(id(p))
                if i is None and isinstance(p, Base) and \
                        c.entails(p.zlen == 0):
                    continue
                if i is None or i <= at:
                    return None if single else False
                at = i
                out[i] = None
            continue
        if not single:
            return False
        if at + 1 < len(want) and not isinstance(want[at + 1], Base):
            at += 1
        if at < 0 or out[at] is None:
            return None
        out[at].append(e)
    if any(not isinstance(a, Base) and not isinstance(b, Base)
           for a, b in zip(want, want[1:])):
        return None
    return list(zip(want, out))


def prove_each(evs, base, name):
    """Obligation: these events are what the specification of base says of
    its elements, each once and in order."""
    c = ctx()
    segs = segments(evs, base)
    if segs is None or segs is False:
        c.record(name, 'unknown' if segs is None else 'refuted', show(evs))
        return False
    spec = loops.spec_of(base)
    for p, o in segs:
        if o is not None:
            spec.on_event(p.fresh_elem() if isinstance(p, Base) else p[1], o)
    c.record(name, 'proved')
    return True


def collect(I, gen):
    """Run a generator; what it yields are events."""
    from .interp import IGen
    if isinstance(gen, IGen):
        gen.start(lambda v: event('yield', loops.freeze(v)), None)
        return
    from .interp import SIter
    if not isinstance(gen, SIter):
        raise Unsupported('not a generator')
    loops.run_callback(I, gen, lambda v: event('yield', loops.freeze(v)), {})


def same_event(a, b):
    """True | False | z3 | None"""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'each':
        return a[2] is b[2]
    conds = []
    for x, y in zip(a[1:], b[1:]):
        r = arg_veq(x, y)
        if r is False:
            return False
        if r is None:
            return None
        if r is not True:
            conds.append(r)
    if not conds:
        return True
    import z3
    return z3.And(conds)


def arg_veq(x, y):
    if x is y:
        return True
    x, y = loops.unio(x), loops.unio(y)
    return val.veq(x, y)


def prove_events(got, want, name):
    """Obligation: exactly these events, in this order."""
    c = ctx()
    if len(got) != len(want):
        c.record(name, 'refuted', 'did %s, specified %s' % (show(got), show(want)))
        return False
    ok = True
    for a, b in zip(got, want):
        r = same_event(a, b)
        if r is True:
            continue
        if r is None:
            c.record(name, 'unknown', 'did %s, specified %s' % (show(a), show(b)))
            return False
        if r is False:
            if a[0] == b[0] and len(a) == len(b) and a[0] != 'each':
                # a difference has to be concrete
                for x, y in zip(a[1:], b[1:]):
                    if arg_veq(x, y) is not True:
                        ok = prove_arg(x, y, name) and ok
                continue
            c.record(name, 'refuted', 'did %s, specified %s' % (show(got), show(want)))
            return False
        ok = c.prove(r, name, 'did %s, specified %s' % (show(a), show(b))) and ok
    if ok:
        c.record(name, 'proved')
    return ok


def prove_arg(x, y, name):
    x, y = loops.unio(x), loops.unio(y)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and \
            len(x) == len(y):
        ok = True
        for p, q in zip(x, y):
            if arg_veq(p, q) is not True:
                ok = prove_arg(p, q, name) and ok
        return ok
    if isinstance(x, Obj) or isinstance(y, Obj) or \
            isinstance(x, bytes) or isinstance(y, bytes):
        ctx().record(name, 'refuted', 'did %s, specified %s' % (show(x), show(y)))
        return False
    return val.prove_eq(x, y, name)


ERRORS = []


class OtherError(Exception):
    """An exception that nobody knows."""


def any_error(label='raises'):
    """An arbitrary exception (of the classes that handlers may name)."""
    from .interp import module
    ex = module('exceptions')
    kinds = [ex.InvalidPatternException, ex.IrregularURLException,
             ex.InvalidCharException, ValueError, KeyError, AttributeError,
             TypeError, IndexError, OtherError,
             lambda m: UnicodeDecodeError('utf-8', b'', 0, 1, m)]
    return kinds[ctx().choose(len(kinds), label)]('any')
