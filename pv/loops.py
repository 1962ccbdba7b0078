"""Loops by cut points.

A loop over a symbolic stream (the characters of an unknown text, the elements
of an unknown sequence, or a cursor that walks over an unknown text of tokens)
is verified by induction: the invariant says that every variable the loop
writes equals an expression over the ghost state (the specification folded
over the part of the stream that is done).  Which variable equals which ghost
expression is not written down: it is guessed from runs on sample streams and
then proved to hold at the entry and to be preserved by an arbitrary
iteration; a guess that fails is dropped and the proof starts again.  Nothing
depends on the names in the code.
"""
import ast
import types

import z3

from . import val
from .core import ctx, PathEnd, Restart, Unsupported
from .val import (SBool, SInt, SStr, SSeq, SList, SDict, SSet, SStringIO,
                  SeqAtom, Base, Atom, Sym, Poison, seq_of, mkint, zint,
                  segs_of, entails_eq, veq)
from .interp import (in_repo, Frame, IFunc, IGen, SIter, _Break, _Continue,
                     _Return, BoundModel, FrameRef)


class Unbound(object):
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = Unbound()


class SpecReject(Exception):
    """The specification rejects the stream at this element."""

    approx = False

    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


class StreamSpec(object):
    """A specification as a fold over a stream."""
    cases = 1
    samples = ()

    def init(self):
        raise NotImplementedError

    def generic(self, k, done):
        """Arbitrary ghost state of shape k after the stream `done`."""
        raise NotImplementedError

    def step(self, g, e, rest):
        raise NotImplementedError

    def leaves(self, g):
        """[(name, value)] the expressions the variables may hold."""
        raise NotImplementedError

    def link(self, g):
        """The text that is done (string streams)."""
        return None

    def wf(self, g):
        """[(name, goal)] what `generic` assumes."""
        return []


def register(key, spec):
    """key: Atom or Base."""
    spec.final = None
    spec.at = None
    spec.prefix = ''
    ctx().cache.setdefault('streams', {})[id(key)] = (spec, key)
    return spec


def spec_of(key):
    r = ctx().cache.get('streams', {}).get(id(key))
    return r[0] if r else None


def text_spec(segs):
    """The specification of the registered text that has these segments."""
    for spec, key in ctx().cache.get('streams', {}).values():
        if isinstance(key, Atom) and val.norm((key,)) == tuple(segs):
            return spec
    return None


def seq_spec(parts):
    """The same for a registered sequence; the element function."""
    for spec, key in ctx().cache.get('streams', {}).values():
        if isinstance(key, Base):
            ps = key.parts()
            if len(ps) == len(parts) and ps:
                ok = True
                for a, b in zip(ps, parts):
                    if isinstance(b, SeqAtom):
                        ok = ok and a is b.base
                    else:
                        ok = ok and not isinstance(a, Base)
                if ok and any(isinstance(a, Base) for a in ps):
                    return spec, ps
    return None, None


def each_spec(base):
    """The specification of the elements of a part of a registered one."""
    for spec, key in ctx().cache.get('streams', {}).values():
        if isinstance(key, Base) and getattr(spec, 'per_cut', False) and \
                any(b is base for b in key.parts()):
            return spec
    return None


def register_cursor(base, spec, fn):
    """fn(elem): the token's text; the text contains the join of them."""
    spec.final = None
    spec.at = None
    spec.fn = fn
    ctx().cache.setdefault('cursors', []).append((base, spec))
    return spec


# ------------------------------------------------------------------- slots
MUT = (SList, SSet, SDict, SStringIO)


def frames_of(fr):
    out = []
    while fr is not None:
        out.append(fr)
        fr = fr.parent
    return out


def attrs_of(obj):
    names = []
    for k in type(obj).__mro__:
        s = k.__dict__.get('__slots__', ())
        names.extend([s] if isinstance(s, str) else list(s))
    names.extend(getattr(obj, '__dict__', {}))
    out = []
    for n in names:
        try:
            out.append((n, object.__getattribute__(obj, n)))
        except AttributeError:
            pass
    return out


class State(object):
    """Names of everything reachable from the frame at the loop entry."""

    def __init__(self, fr, extra=None):
        self.frames = frames_of(fr)
        self.paths = {}              # id -> path
        self.objs = {}               # path -> object
        self.keep = []
        for i, f in enumerate(self.frames):
            for n, v in list(f.vars.items()):
                self.walk(v, 'f%d:%s' % (i, n), 0)
        for n, v in (extra or {}).items():
            self.walk(v, n, 0)

    def walk(self, v, path, depth):
        if depth > 5 or id(v) in self.paths:
            return
        if isinstance(v, BoundModel):
            return self.walk(v.obj, path + '.obj', depth + 1)
        if isinstance(v, types.MethodType):
            return self.walk(v.__self__, path + '.self', depth)
        if isinstance(v, (IFunc, FrameRef)):
            for i, f in enumerate(frames_of(v.frame)):
                if f not in self.frames:
                    k = len(self.frames)
                    self.frames.append(f)
                    for n, x in list(f.vars.items()):
                        self.walk(x, 'f%d:%s' % (k, n), depth + 1)
            return
        if isinstance(v, MUT):
            self.name(v, path)
            if isinstance(v, SList):
                for i, p in enumerate(v.seq.parts):
                    if not isinstance(p, SeqAtom):
                        self.walk(p[1], '%s[%d]' % (path, i), depth + 1)
            elif isinstance(v, SDict):
                for k, x in v.items:
                    self.walk(x, '%s{%r}' % (path, k), depth + 1)
        elif isinstance(v, (tuple,)):
            for i, x in enumerate(v):
                self.walk(x, '%s(%d)' % (path, i), depth + 1)
        elif isinstance(v, (dict, list, set)):
            self.name(v, path)
        elif not isinstance(v, type) and (
                in_repo(type(v)) or hasattr(v, '__pv_object__')):
            self.name(v, path)
            for n, x in attrs_of(v):
                self.walk(x, '%s.%s' % (path, n), depth + 1)

    def name(self, v, path):
        self.paths[id(v)] = path
        self.objs[path] = v
        self.keep.append(v)

    # slots: ('var', i, name) ('attr', path, name) ('body', path)
    #        ('item', path, key)
    def get(self, slot):
        k = slot[0]
        if k == 'var':
            if slot[1] >= len(self.frames):
                return UNBOUND
            return self.frames[slot[1]].vars.get(slot[2], UNBOUND)
        o = self.objs.get(slot[1])
        if o is None:
            return UNBOUND
        if k == 'attr':
            try:
                return object.__getattribute__(o, slot[2])
            except AttributeError:
                return UNBOUND
        if k == 'item':
            for kk, v in o.items:
                if type(kk) is type(slot[2]) and kk == slot[2]:
                    return v
            return UNBOUND
        return o

    def snapshot(self, slot):
        """An immutable picture of the slot's value."""
        if slot[0] == 'body' and isinstance(self.objs.get(slot[1]), SDict):
            return FDict(self.objs[slot[1]])
        return freeze(self.get(slot))

    def put(self, slot, v, interp):
        """v: frozen value, Poison or UNBOUND."""
        k = slot[0]
        if k == 'var' and slot[1] >= len(self.frames) or \
                k != 'var' and slot[1] not in self.objs:
            if isinstance(v, Poison) or v is UNBOUND:
                return
            raise Unsupported('a loop in another frame')
        if k == 'var':
            interp.wrote_var(self.frames[slot[1]], slot[2])
        elif k == 'body':
            interp.wrote(self.objs[slot[1]])
        else:
            interp.wrote(self.objs[slot[1]], k, slot[2])
        if k == 'body':
            o = self.objs[slot[1]]
            if isinstance(o, SStringIO):
                o.content = v.text if isinstance(v, FIO) else v
                o.pos = v.pos if isinstance(v, FIO) else 'end'
            elif isinstance(o, SDict) and isinstance(v, FDict):
                o.items, o.rest = [list(x) for x in v.items], v.rest
            elif isinstance(o, (SList, SSet)):
                o.seq = PoisonSeq() if isinstance(v, Poison) else \
                    thaw_seq(v.seq, interp, o)
            else:
                raise Unsupported('a loop changes a %s' % type(o).__name__)
            return
        v = thaw(v, interp)
        if k == 'var':
            d = self.frames[slot[1]].vars
            if v is UNBOUND:
                d.pop(slot[2], None)
            else:
                d[slot[2]] = v
        elif k == 'attr':
            object.__setattr__(self.objs[slot[1]], slot[2], v)
        elif k == 'item':
            for it in self.objs[slot[1]].items:
                if type(it[0]) is type(slot[2]) and it[0] == slot[2]:
                    it[1] = v
                    return
            raise Unsupported('a loop adds keys to a dict')


class PoisonSeq(SSeq):
    __slots__ = ()

    def __init__(self):
        self._parts = ()

    @property
    def parts(self):
        raise Unsupported('no invariant for a list')


class FDict(object):
    """Frozen dictionary."""

    def __init__(self, d):
        self.items, self.rest = [list(x) for x in d.items], d.rest

    def __veq__(self, o):
        return isinstance(o, FDict) and self.rest is o.rest and \
            len(self.items) == len(o.items) and all(
                a[0] is b[0] and a[1] is b[1]
                for a, b in zip(self.items, o.items)) or None


class FIO(object):
    """Frozen string buffer."""

    def __init__(self, text, pos='end'):
        self.text, self.pos = text, pos

    def __repr__(self):
        return 'FIO(%r)' % (self.text,)

    def __veq__(self, o):
        if isinstance(o, FIO):
            return val.str_veq(self.text, o.text) \
                if self.pos == o.pos else False
        return False


class FList(object):
    def __init__(self, seq, kind=SList):
        self.seq, self.kind = seq, kind

    def __repr__(self):
        return 'FList(%r)' % (self.seq,)


def freeze(v):
    if isinstance(v, SStringIO):
        return FIO(v.content, v.pos if not (
            isinstance(v.content, str) and not v.content) else 'end')
    if isinstance(v, (SList, SSet)):
        return FList(SSeq(v.seq.parts).map(freeze), type(v))
    return v


def thaw(v, interp):
    if isinstance(v, FIO):
        io = interp.new(SStringIO(v.text))
        io.pos = v.pos
        return io
    if isinstance(v, FList):
        o = interp.new(v.kind())
        o.seq = thaw_seq(v.seq, interp, o)
        return o
    return v


def thaw_seq(seq, interp, owner):
    parts = []
    for p in seq.parts:
        if isinstance(p, SeqAtom):
            memo = {}

            def fn(e, f=p.fn, memo=memo):
                if id(e) not in memo:
                    x = thaw(f(e), interp)
                    if isinstance(x, SStringIO):
                        x.owner = owner
                    elif isinstance(x, MUT):
                        raise Unsupported('nested containers in a loop')
                    memo[id(e)] = (x, e)
                return memo[id(e)][0]
            parts.append(SeqAtom(p.base, fn))
        else:
            parts.append(('e', thaw(p[1], interp)))
    return SSeq(parts)


def unio(v):
    """Replace buffers by their text."""
    if isinstance(v, FIO):
        return v.text if v.pos == 'end' else Poison('pos')
    if isinstance(v, FList):
        return v.seq.map(unio)
    return v


def eq_val(a, b, strict=False):
    if strict and not (isinstance(a, FList) and a.kind is SSet):
        if isinstance(a, FIO) or isinstance(b, FIO):
            return isinstance(a, FIO) and isinstance(b, FIO) and \
                a.pos == b.pos and entails_eq(a.text, b.text)
        if isinstance(a, FList) and isinstance(b, FList):
            return a.kind is b.kind and entails_eq(a.seq, b.seq)
    if a is UNBOUND or b is UNBOUND:
        return a is b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    ak, bk = isinstance(a, FList), isinstance(b, FList)
    if ak and a.kind is SSet or bk and b.kind is SSet:
        if not (ak and bk):
            return ak and isinstance(b, (SSet, set, frozenset)) and \
                entails_eq(SSet(unio(a)), b)
        return entails_eq(SSet(unio(a)), SSet(unio(b)))
    a, b = unio(a), unio(b)
    if isinstance(a, (SSeq, tuple, list)) and \
            isinstance(b, (SSeq, tuple, list)):
        return entails_eq(seq_of(a), seq_of(b))
    if isinstance(a, bool) != isinstance(b, bool) and \
            isinstance(a, int) and isinstance(b, int):
        return False
    return entails_eq(a, b)


def shape_of(v):
    """io flags of a frozen value: (scalar is buffer, elements are)."""
    if isinstance(v, FIO):
        return (True, None, None)
    if isinstance(v, FList):
        e = None
        for p in v.seq.parts:
            x = p.fn(val.generic(p.base)) if isinstance(p, SeqAtom) else p[1]
            e = isinstance(x, FIO)
            break
        return (None, e, v.kind)
    if isinstance(v, (tuple, SSeq)):
        return (False, None, tuple)
    return (False if isinstance(v, (str, SStr)) else None, None, None)


def merge_shape(a, b):
    return tuple(x if x is not None else y for x, y in zip(a, b))


def dress(g, shape):
    """A ghost value in the shape the code keeps it."""
    if isinstance(g, (str, SStr)):
        return FIO(g) if shape[0] else g
    if isinstance(g, SSet):
        return FList(SSeq(g.seq.parts), SSet)
    if isinstance(g, (SSeq, SList, list)):
        s = seq_of(g)
        if shape[1]:
            s = s.map(FIO)
        if shape[2] is tuple:
            return s
        return FList(SSeq(s.parts), SList)
    return g


# --------------------------------------------------------------- the frame
class Region(object):
    """Write tracking of one loop."""

    def __init__(self, interp, state, fresh=()):
        self.state = state
        self.rec = {'fresh': set(fresh), 'paths': state.paths,
                    'state': state, 'written': set(),
                    'frames': dict((id(f), i)
                                   for i, f in enumerate(state.frames))}
        self.interp = interp

    def __enter__(self):
        self.interp.fresh_stack.append(self.rec)
        return self

    def __exit__(self, *a):
        for i, r in enumerate(self.interp.fresh_stack):
            if r is self.rec:
                del self.interp.fresh_stack[i]
                return

    def written(self):
        return self.rec['written']


def loop_key(interp, fr, node, what=''):
    c = ctx()
    k = (fr.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
         what, c.cache.get('variant'))
    n = c.cache.setdefault('loopcount', {})
    n[k] = n.get(k, 0) + 1
    return k + (n[k],)


def info_of(key):
    return ctx().persist.setdefault(('loop', key), {
        'slots': [], 'sample': 0, 'cands': None, 'shape': {}, 'holds': {},
        'probed': False, 'dead': set()})


def add_slots(info, written):
    """A written slot that was not known: the probing starts again."""
    new = [s for s in sorted(written, key=repr) if s not in info['slots']]
    if new:
        info['slots'].extend(new)
        info['probed'] = False
        info['sample'] = 0
        info['holds'] = {}
        info['cands'] = None
        raise Restart()


# ---------------------------------------------------------------- for loops
def run_for(interp, s, it, fr):
    def body(x):
        interp.assign(s.target, x, fr)
        try:
            interp.block(s.body, fr)
        except _Continue:
            pass
    from .models import RevIter, Reversed
    if isinstance(it, (RevIter, Reversed)):
        return run_reversed(interp, it, body)
    run_stream(interp, it, body, fr, s)


def run_callback(interp, it, body, roots, name='<callback>'):
    fr = Frame(None, {}, None, name)
    fr.vars = dict(roots)
    run_stream(interp, it, body, fr, None)


def run_reversed(interp, it, body):
    start = getattr(it, 'start', None)
    parts = list(it.seq.parts)
    n = 0
    while parts:
        p = parts[-1]
        if isinstance(p, SeqAtom):
            if n > 12:
                raise Unsupported('reversed loop')
            if not val.seq_split_last(p.base):
                parts.pop()
                continue
            parts = list(SSeq(parts).parts)
            continue
        parts.pop()
        body(p[1] if start is None else (start + n, p[1]))
        n += 1


def once(node):
    return isinstance(node, ast.For) and isinstance(
        node.body[-1], (ast.Return, ast.Break, ast.Raise)) and not any(
            isinstance(x, ast.Continue) for x in ast.walk(node))


def run_stream(interp, it, body, fr, node):
    seq, start = it.seq, it.start
    spec, ghosts = None, None
    if isinstance(seq, SStr):
        parts = []
        spec = text_spec(seq.segs)
        for g in seq.segs:
            if isinstance(g, str):
                parts.extend(('e', ch) for ch in g)
            elif isinstance(g, Sym):
                if g.char:
                    parts.append(('e', SStr.mk((g,))))
                else:
                    parts.extend(('e', ch) for ch in val.sym_concrete(g))
            else:
                parts.append(g)
        ghosts = [p[1] if isinstance(p, tuple) else None for p in parts]
    else:
        if once(node):
            # one iteration at most: the first element by itself
            if seq.parts and isinstance(seq.parts[0], SeqAtom):
                val.seq_split_first(seq.parts[0].base)
        for p in seq.parts:
            es = isinstance(p, SeqAtom) and spec_of(p.base)
            if es and getattr(es, 'peel', False):
                es.peel = False          # the first element by itself
                val.seq_split_first(p.base)
        parts = list(seq.parts)
        spec, gs = seq_spec(parts)
        if spec is not None:
            ghosts = [None if isinstance(g, Base) else g[1] for g in gs]

    def one(x, i):
        body(x if start is None else (mkint(zint(start + i)), x))

    n = 0
    if spec is not None:
        spec.state = spec.init()
        spec.prefix = ''
    for k, p in enumerate(parts):
        if isinstance(p, tuple):
            if spec is not None:
                spec.at = (spec.state, ghosts[k], None)
            one(p[1], n)
            n = n + 1
            if spec is not None:
                spec.at = None
                try:
                    spec.state = spec.step(spec.state, ghosts[k], None)
                except SpecReject as ex:
                    ctx().record('%s: rejects what the specification rejects'
                                 % fr.name, 'refuted',
                                 '%r accepted, %s' % (p[1], ex.exc))
                    raise PathEnd()
                if isinstance(seq, SStr):
                    spec.prefix = spec.prefix + p[1]
        elif isinstance(p, Atom):
            n = cut(interp, p, None, one, n, fr, node, spec)
        else:
            n = cut(interp, p.base, p.fn, one, n, fr, node,
                    spec or each_spec(p.base))
    if spec is not None:
        spec.final = spec.state


def sample_elems(sample):
    return [x() if callable(x) else x for x in sample]


def default_spec(key, interp):
    if isinstance(key, Atom):
        raise Unsupported('loop over an unknown text')
    return SeqDefault(key, interp)


def cut(interp, key, fn, one, n0, fr, node, spec=None):
    c = ctx()
    if spec is None:
        spec = default_spec(key, interp)
        spec.state, spec.prefix = spec.init(), ''
    if getattr(spec, 'per_cut', False):
        spec.state = ()
    state0, prefix = spec.state, spec.prefix
    is_text = isinstance(key, Atom)
    lk = loop_key(interp, fr, node)
    info = info_of(lk)
    state = State(fr)
    spec.base_n = n0
    fn = fn or val.ident
    spec.entry = entry = Entry(interp, state, info, one, n0, fn, key)
    entry.freeze()

    def sample_run(sample, head):
        if is_text:
            key.expand(tuple(sample))
            elems = list(sample)
        else:
            elems = sample_elems(sample)
            key.expand([('e', e) for e in elems])
        if not c.feasible():
            raise PathEnd()
        g = state0
        head(g)
        for i, e in enumerate(elems):
            one(fn(e), n0 + i)
            g = spec.step(g, e, None)
            head(g)

    probing(interp, spec, info, state, sample_run)
    g = state0
    check_slots(interp, spec, g, info, state, lk[0])
    # an arbitrary point of the loop
    k = c.choose(spec.cases, 'loop case')
    done = None if is_text else Base(key.name + '.done', key.elem)
    g = spec.generic(k, done)
    if is_text:
        rest = Atom(key.name + '.rest', key.dom)
        text = spec.link(g)
        if isinstance(prefix, str) and not prefix:
            here = text
        else:
            here = SStr.mk((Atom(key.name + '.done', key.dom),))
            if not val.str_decide(text, prefix + here):
                raise PathEnd()
        key.expand(segs_of(here) + (rest,))
        n = n0 + val.length(here)
    else:
        if not isinstance(state0, tuple) or state0 != ():
            if not getattr(spec, 'any_start', False):
                raise Unsupported('a sequence that was split')
        rest = Base(key.name + '.rest', key.elem)
        key.expand([done, rest])
        n = n0 + SInt(done.zlen)
    spec.rest = rest
    owned = install(interp, spec, g, info, state)
    passed(info, spec, here if is_text else done)
    mark = len(c.events)
    n = mkint(zint(n))
    if not in_step(c):
        rest.expand(() if is_text else [])
        if not c.feasible():
            raise PathEnd()
        spec.state = g
        if is_text:
            spec.prefix = spec.link(g)
        c.reach('%s: after the loop, case %d' % (lk[0], k))
        return n
    # one more element
    if is_text:
        ch = Sym(key.name + '.c', key.dom)
        rest2 = Atom(key.name + '.r', key.dom)
        rest.expand((ch, rest2))
        e = SStr.mk((ch,))
    else:
        e = rest.elem(rest.name + '.h')
        rest2 = Base(key.name + '.r', key.elem)
        rest.expand([('e', e), rest2])
    if not c.feasible():
        raise PathEnd()
    c.reach('%s: inside the loop, case %d' % (lk[0], k))
    spec.at = (g, e, rest2)
    r = Region(interp, state, owned)
    with r:
        one(fn(e), n)
    add_slots(info, r.written())
    add_objs(info, r)
    finish_step(interp, spec, g, e, rest2, info, state, lk, is_text,
                c.events[mark:])


def in_step(c):
    """The inductive step (first: it finds out what the loop does), or what
    comes behind the loop."""
    if c.quiet:                          # a guess, or known: no proof here
        return False
    if c.choose(2, 'behind the loop') == 0:
        c.cache['in_step'] = True
        return True
    return False


def passed(info, spec, done):
    """Any number of iterations: events, attributes of abstract objects."""
    c = ctx()
    c.cache['cut'] = True
    if info.get('busy'):
        c.events.append(('each', spec, done))
    objs = info.get('objs', ())
    if objs:
        c.cache.setdefault('havocked', set()).update(objs)
        for o in c.cache.get('objs', ()):
            for k, n in objs:
                if o._k.name == k:
                    o._a.pop(n, None)


def add_objs(info, r):
    new = r.rec.get('objs', set()) - info.setdefault('objs', set())
    if new:
        info['objs'] |= new
        raise Restart()


def finish_step(interp, spec, g, e, rest2, info, state, lk, is_text,
                events):
    c = ctx()
    spec.at = None
    step = getattr(spec, 'on_step', None)
    if events and step is None:
        raise Unsupported('effects in a loop without a specification: %r'
                          % (events[:3],))
    if events and not info.get('busy'):
        info['busy'] = True          # not a loop without effects
        raise Restart()
    if info.get('busy'):
        step(g, e, events)
    try:
        g2 = spec.step(g, e, rest2)
    except SpecReject as ex:
        c.record('%s: rejects what the specification rejects' % lk[0],
                 'refuted' if not ex.approx else 'unknown',
                 '%r accepted, %s specified' % (e, ex.exc))
        raise PathEnd()
    if is_text and not entails_eq(spec.link(g2), spec.link(g) + e):
        raise Unsupported('ghost link: %r + %r, %r' % (
            spec.link(g), e, spec.link(g2)))
    for name, goal in spec.wf(g2):
        if not c.entails(goal):
            raise Unsupported('ghost invariant %s' % name)
    spec.rest = rest2
    check_slots(interp, spec, g2, info, state, lk[0])
    c.record('%s: loop invariant' % lk[0], 'proved')
    raise PathEnd()


class Entry(object):
    """Values at the loop entry, and the effect of one element on them."""

    def __init__(self, interp, state, info, one, n0, fn, key):
        self.key, self.where = key, {}
        self.interp, self.state, self.info = interp, state, info
        self.one, self.n0, self.fn = one, n0, fn
        self.vals = {}
        self.memo = []

    def freeze(self):
        for s in self.info['slots']:
            v = self.vals[s] = self.state.snapshot(s)
            if isinstance(v, FList):
                for i, p in enumerate(v.seq.parts):
                    if isinstance(p, SeqAtom) and p.base is self.key:
                        self.where[s] = i
                        break

    def effect(self, x):
        """Slot values after running the body on x in the entry state."""
        for (y, r) in self.memo:
            if y is x:
                return r
        c = ctx()
        st, slots = self.state, self.info['slots']
        cur = dict((s, raw_body(st.get(s)) if s[0] == 'body' else st.get(s))
                   for s in slots)
        save = self.interp.fresh_stack
        self.interp.fresh_stack = []
        c.quiet += 1
        evs = list(c.events)
        try:
            for s in slots:
                st.put(s, self.vals[s], self.interp)
            try:
                self.one(self.fn(x), 0)
            except (_Break, _Return, Exception):
                raise PathEnd()      # not an element that was passed
            out = dict((s, st.snapshot(s)) for s in slots)
        finally:
            c.quiet -= 1
            c.events[:] = evs
            for s in slots:
                if s[0] == 'body':
                    self.interp.wrote(st.objs[s[1]])
                    for n, v in cur[s]:
                        setattr(st.objs[s[1]], n, v)
                else:
                    raw_put(st, s, cur[s])
            self.interp.fresh_stack = save
        self.memo.append((x, out))
        return out


def raw_body(o):
    """The content of a container as it is, not evaluated."""
    if isinstance(o, SStringIO):
        return [('content', o.content), ('pos', o.pos)]
    if isinstance(o, SDict):
        return [('items', [list(x) for x in o.items]), ('rest', o.rest)]
    if isinstance(o, (SList, SSet)):
        return [('seq', o.seq)]
    raise Unsupported('a loop changes a %s' % type(o).__name__)


def raw_put(st, slot, v):
    k = slot[0]
    if k == 'var':
        d = st.frames[slot[1]].vars
        if v is UNBOUND:
            d.pop(slot[2], None)
        else:
            d[slot[2]] = v
    elif k == 'attr':
        object.__setattr__(st.objs[slot[1]], slot[2], v)
    elif k == 'item':
        for it in st.objs[slot[1]].items:
            if type(it[0]) is type(slot[2]) and it[0] == slot[2]:
                it[1] = v


def probing(interp, spec, info, state, sample_run):
    """Guess the invariant from runs on sample streams."""
    if info['probed']:
        return
    c = ctx()
    if info['sample'] < len(spec.samples):
        sample = spec.samples[info['sample']]
        info['sample'] += 1
        r = Region(interp, state)
        seen = []

        def head(g):
            add_slots(info, r.written())
            seen.append((dict((s, leaves_of(spec, g, s))
                              for s in info['slots']),
                         dict((s, state.snapshot(s))
                              for s in info['slots'])))
        c.quiet += 1
        c.cache['in_step'] = True
        try:
            with r:
                try:
                    sample_run(sample, head)
                except (_Break, _Return, _LoopEnd, SpecReject,
                        Exception) as ex:
                    if TRACE:
                        import traceback; traceback.print_exc()
            add_slots(info, r.written())
            evaluate(info, seen)
        except PathEnd:
            pass
        except Restart:                  # an inner loop; this sample again
            info['sample'] = max(0, info['sample'] - 1)
            raise
        finally:
            c.quiet -= 1
        raise Restart()
    info['cands'] = {}
    for s in info['slots']:
        h = info['holds'].get(s)
        info['cands'][s] = [n for n in (h or ()) if (s, n) not in
                            info['dead']]
    info['probed'] = True
    raise Restart()


def leaves_of(spec, g, slot):
    out = [(n, v) for n, v in spec.leaves(g)]
    if getattr(spec, 'pos', None) is not None:
        out.insert(0, ('cursor', spec.pos))
    ent = getattr(spec, 'entry', None)
    if ent is not None and slot in ent.vals:
        out.append(('same', ent.vals[slot]))
    out.extend(spec.slot_leaves(g, slot))
    for n, v in list(out):
        if n != 'same' and isinstance(v, (int, val.SInt)) and \
                not isinstance(v, bool):
            out += [(n + '-1', v - 1), (n + '+1', v + 1)]
    return out


def evaluate(info, seen):
    """Which ghost expressions hold at these observations."""
    for lvs, sn in seen:
        for s, v in sn.items():
            names = [n for n, x in lvs[s] if eq_val(v, x, n == 'same')]
            old = info['holds'].get(s)
            info['holds'][s] = names if old is None else \
                [n for n in old if n in names]
            if v is not UNBOUND:
                info['shape'][s] = merge_shape(
                    info['shape'].get(s, (None, None, None)), shape_of(v))


def check_slots(interp, spec, g, info, state, where):
    live = []
    for s in info['slots']:
        cs = info['cands'].get(s)
        if not cs:
            continue
        lv = dict(leaves_of(spec, g, s))
        v = state.snapshot(s)
        if not eq_val(v, lv.get(cs[0], Poison('?')), cs[0] == 'same'):
            if TRACE:
                print('drop', where, s, cs[0], v, lv.get(cs[0]))
            info['dead'].add((s, cs[0]))
            cs.pop(0)
            raise Restart()
        live.append(state.get(s))
    # the parts of the state must not share objects
    ids = set()
    for v in live:
        for o in mutables(v):
            if id(o) in ids:
                raise Unsupported('shared objects in a loop')
            ids.add(id(o))


TRACE = False


def mutables(v):
    if isinstance(v, MUT):
        yield v
        if isinstance(v, SList):
            for p in v.seq.parts:
                if not isinstance(p, SeqAtom):
                    for o in mutables(p[1]):
                        yield o


def install(interp, spec, g, info, state):
    """Put the ghost values in place; the objects made for that."""
    rec = {'fresh': set(), 'paths': _Any(), 'state': state,
           'written': set(), 'frames': {}}
    interp.fresh_stack.append(rec)
    try:
        for first in (True, False):
            for s in info['slots']:
                if (s[0] == 'body') == first:
                    put_slot(interp, spec, g, info, state, s)
    finally:
        interp.fresh_stack.remove(rec)
    return rec['fresh']


class _Any(dict):
    def get(self, k, d=None):
        return 'any'


def put_slot(interp, spec, g, info, state, s):
    if s[0] == 'body' and isinstance(state.objs.get(s[1]), SDict):
        d = state.objs[s[1]]
        value = getattr(spec, 'map_value', None)
        if value is None or d.items and d.rest is None:
            raise Unsupported('a loop changes a dict')
        from .heap import Rest
        interp.wrote(d)
        d.items, d.rest = [], Rest(
            value, step=getattr(spec, 'map_step', None))
        return
    cs = info['cands'].get(s)
    if not cs:
        state.put(s, Poison(str(s)), interp)
        return
    v = dict(leaves_of(spec, g, s)).get(cs[0], Poison('?'))
    shape = info['shape'].get(s, (None, None, None))
    if v is not UNBOUND and cs[0] != 'same':
        v = dress(v, shape)
        if isinstance(v, FList) and shape[2] is SSet:
            v = FList(v.seq, SSet)
    state.put(s, v, interp)


StreamSpec.slot_leaves = lambda self, g, slot: []


# ------------------------------------------------- unregistered sequences
VIEWS = {}                           # elem -> functions of an element


class SeqDefault(StreamSpec):
    """A loop over a sequence with effects that depend on each element only.

    The ghost state is the sequence that is done; a slot that grows by
    something that depends on the element is a map (or concatenation) over
    it."""

    def __init__(self, base, interp):
        self.base, self.interp = base, interp
        mk = lambda: base.elem(base.name + '.s')
        self.samples = ((), (mk,), (mk, mk))

    def init(self):
        return ()

    def generic(self, k, done):
        return (SeqAtom(done),)

    def step(self, g, e, rest):
        return g + (('e', e),)

    def leaves(self, g):
        return [('pos', mkint(zint(self.base_n + SSeq(g).length())))]

    def slot_leaves(self, g, slot):
        ent = self.entry
        if slot not in ent.vals:
            return []
        v0 = ent.vals[slot]
        out = []
        if isinstance(v0, FList):
            for f in VIEWS.get(self.base.elem, ()):
                if slot in ent.where:
                    i, n = ent.where[slot], len(g)
                    ps = v0.seq.parts
                    out.append(('inplace ' + f.__name__, lambda f=f: FList(
                        SSeq(ps[:i] + SSeq(g).map(f).parts + ps[i + n:]),
                        v0.kind)))
        if isinstance(v0, FList):
            def tail(x):
                v = ent.effect(x)[slot]
                if not isinstance(v, FList):
                    return None
                a, b = v0.seq.parts, v.seq.parts
                if len(b) != len(a) + 1 or isinstance(b[-1], SeqAtom) or \
                        not eq_val(FList(SSeq(b[:-1])), FList(SSeq(a))):
                    return None
                return b[-1][1]
            out.append(('grow', lambda: FList(
                SSeq(v0.seq.parts + SSeq(g).map(need(tail)).parts),
                v0.kind)))
        elif isinstance(v0, (FIO, str, SStr)):
            t0 = v0.text if isinstance(v0, FIO) else v0

            def tail(x):
                v = ent.effect(x)[slot]
                v = v.text if isinstance(v, FIO) else v
                if not isinstance(v, (str, SStr)):
                    return None
                rest = val.strip_prefix(v, t0)
                return rest

            def mk():
                t = t0
                for p in SSeq(g).map(need(tail)).parts:
                    t = t + (SStr.mk((val.join_atom(p.base, p.fn),))
                             if isinstance(p, SeqAtom) else p[1])
                return FIO(t) if isinstance(v0, FIO) else t
            out.append(('grow', mk))
        res = []
        for nm, fun in out:
            try:
                res.append((nm, fun()))
            except NoTail:
                pass
        return res


class NoTail(Exception):
    pass


def need(f):
    def g(x):
        r = f(x)
        if r is None:
            raise NoTail()
        return r
    return g


# -------------------------------------------------------------- while loops
MAX_PLAIN = 40


def stored(s):
    return set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and
               isinstance(n.ctx, ast.Store))


def cursors_of(fr, s):
    """Cursor streams that start where an integer variable points to."""
    c = ctx()
    texts = [v for v in fr.vars.values() if isinstance(v, SStr)]
    moved = stored(s)
    ints = [(n, v) for n, v in sorted(fr.vars.items())
            if n in moved and isinstance(v, (int, SInt)) and not isinstance(v, bool)]
    for base, spec in c.cache.get('cursors', []):
        if base.expansion is not None:
            continue
        for t in texts:
            off = offset_of(t, base)
            if off is None:
                continue
            for n, v in ints:
                if entails_eq(v, off):
                    return base, spec, off, n
    return None


def offset_of(t, base):
    pos = 0
    for s in t.segs:
        if isinstance(s, Atom) and s.kind == 'join' and \
                s.info[0] is base:
            return pos if isinstance(pos, int) else mkint(zint(pos))
        pos = pos + val.seglen(s)
    return None


def run_while(interp, s, fr):
    c = ctx()

    def test():
        return interp.truth(interp.eval(s.test, fr))

    def body():
        try:
            interp.block(s.body, fr)
        except _Continue:
            pass
    n = 0
    while True:
        cur = cursors_of(fr, s)
        if cur is not None:
            if cut_while(interp, s, fr, cur, test, body):
                return
            continue
        name = chain_of(fr, s)
        if name is not None:
            return cut_chain(interp, s, fr, name, test, body)
        name = walk_of(fr, s)
        if name is not None:
            return cut_walk(interp, s, fr, name, test, body)
        if not test():
            return
        n += 1
        if n > MAX_PLAIN:
            raise Unsupported('loop without a stream')
        body()


def chain_of(fr, s):
    """The variable of the test that walks along linked abstract objects."""
    import ast
    for n in ast.walk(s.test):
        if isinstance(n, ast.Name):
            v = fr.vars.get(n.id)
            if hasattr(type(v), '__pv_object__') and v._k.chain:
                return n.id
    return None


def chain_len(o):
    """How many objects there are from o on (o included)."""
    if '#chain' not in o._a:
        o._a['#chain'] = val.new_int('chain', 1)
    return o._a['#chain']


def cut_chain(interp, s, fr, name, test, body):
    """while: from an abstract object along its links to None.  Invariant:
    any number of objects were passed; every other slot is as at the entry,
    or counts them."""
    c = ctx()
    start = fr.vars[name]
    kind = start._k
    lk = loop_key(interp, fr, s, 'chain')
    info = info_of(lk)
    state = State(fr)
    mine = ('var', 0, name)
    slots = [x for x in info['slots'] if x != mine]
    entry = dict((x, state.snapshot(x)) for x in slots)
    steps = val.new_int('steps', 0)

    def value(x, how, k):
        if how == 'same':
            return entry[x]
        return mkint(zint(entry[x] + k))

    def cands(x):
        cs = ['same']
        if isinstance(entry[x], (int, SInt)) and \
                not isinstance(entry[x], bool):
            cs.append('count')
        return [h for h in cs if (x, h) not in info['dead']]
    cur = kind('link')
    rec = {'fresh': set(), 'paths': _Any(), 'state': state,
           'written': set(), 'frames': {}}
    interp.fresh_stack.append(rec)
    try:
        for x in slots:
            h = cands(x)
            state.put(x, value(x, h[0], steps) if h else Poison(str(x)),
                      interp)
    finally:
        interp.fresh_stack.remove(rec)
    if info.get('busy'):
        c.events.append(('chain', start))
    passed(dict(info, busy=False), None, None)
    mark = len(c.events)
    if not in_step(c):
        fr.vars[name] = None
        interp.wrote_var(fr, name)
        c.assume(zint(steps) == zint(chain_len(start)))
        if test():
            raise Unsupported('a loop beyond the end of the links')
        c.reach('%s: after the links' % lk[0])
        return
    fr.vars[name] = cur
    interp.wrote_var(fr, name)
    if not test():
        c.events.append(('chain ends', cur))
        return
    c.reach('%s: inside the links' % lk[0])
    r = Region(interp, state, rec['fresh'])
    with r:
        body()
    new = [x for x in sorted(r.written(), key=repr)
           if x not in info['slots']]
    if new:
        info['slots'].extend(new)
        raise Restart()
    add_objs(info, r)
    evs = c.events[mark:]
    if evs and not info.get('busy'):
        info['busy'] = True
        raise Restart()
    if fr.vars.get(name) is not cur.__pv_getattr__(interp, kind.chain):
        raise Unsupported('not along the links')
    if info.get('busy'):
        if kind.on_link is None:
            raise Unsupported('effects in a loop without a specification')
        kind.on_link(cur, evs)
    k2 = mkint(zint(steps + 1))
    for x in slots:
        h = cands(x)
        if h and not eq_val(state.snapshot(x), value(x, h[0], k2),
                            h[0] == 'same'):
            info['dead'].add((x, h[0]))
            raise Restart()
    c.record('%s: loop invariant' % lk[0], 'proved')
    raise PathEnd()


def walk_of(fr, s):
    """The variable of the loop that goes from one abstract object to
    another in an order of its kind."""
    for n in sorted(stored(s)):
        v = fr.vars.get(n)
        if hasattr(type(v), '__pv_object__') and v._k.walk:
            return n
    return None


def cut_walk(interp, s, fr, name, test, body):
    """while: any object of the kind, reached by steps of which kind.walk
    proves what it wants; every other slot is as at the entry, or set anew in
    every iteration.  The loop is left by its test, or from its body."""
    c = ctx()
    start = fr.vars[name]
    kind = start._k
    lk = loop_key(interp, fr, s, 'walk')
    info = info_of(lk)
    state = State(fr)
    mine = ('var', 0, name)
    slots = [x for x in info['slots'] if x != mine]
    entry = dict((x, state.snapshot(x)) for x in slots)
    cur = kind('reached')
    rec = {'fresh': set(), 'paths': _Any(), 'state': state,
           'written': set(), 'frames': {}}
    interp.fresh_stack.append(rec)
    try:
        for x in slots:
            if (x, 'same') in info['dead']:
                state.put(x, Poison(str(x)), interp)
    finally:
        interp.fresh_stack.remove(rec)
    c.events.append(('walk', start, cur))
    passed(dict(info, busy=False), None, None)
    mark = len(c.events)
    fr.vars[name] = cur
    interp.wrote_var(fr, name)
    if not test():
        return
    c.reach('%s: inside the walk' % lk[0])
    r = Region(interp, state, rec['fresh'])
    with r:
        body()
    new = [x for x in sorted(r.written(), key=repr)
           if x not in info['slots']]
    if new:
        info['slots'].extend(new)
        raise Restart()
    add_objs(info, r)
    if c.events[mark:]:
        raise Unsupported('effects in a walk')
    v = fr.vars.get(name)
    if not hasattr(type(v), '__pv_object__') or v._k is not kind:
        return run_while(interp, s, fr)  # the end of the walk
    kind.walk(cur, fr.vars.get(name))
    for x in slots:
        if (x, 'same') not in info['dead'] and \
                not eq_val(state.snapshot(x), entry[x], True):
            info['dead'].add((x, 'same'))
            raise Restart()
    c.record('%s: loop invariant' % lk[0], 'proved')
    raise PathEnd()


def cut_while(interp, s, fr, cur, test, body):
    """True: the loop ended; False: the stream is over, go on."""
    c = ctx()
    base, spec, off, cname = cur
    lk = loop_key(interp, fr, s, base.name.split('!')[0])
    info = info_of(lk)
    state = State(fr)
    spec.entry = entry = Entry(interp, state, info, None, 0, None, base)
    entry.freeze()
    spec.off = off
    cslot = ('var', 0, cname)

    def at(pos):
        v = fr.vars.get(cname)
        return isinstance(v, (int, SInt)) and entails_eq(v, pos)

    def iterate(e, pos):
        """Run iterations until the cursor is behind the token."""
        target = pos + val.length(spec.fn(e))
        target = mkint(zint(target))
        for _ in range(MAX_PLAIN):
            if not test():
                raise _LoopEnd()
            body()
            if at(target):
                return target
        raise Unsupported('the cursor does not reach the next token')

    def sample_run(sample, head):
        elems = sample_elems(sample)
        base.expand([('e', e) for e in elems])
        if not c.feasible():
            raise PathEnd()
        g = spec.init()
        pos = off
        spec.pos = pos
        head(g)
        for e in elems:
            pos = iterate(e, pos)
            g = spec.step(g, e, None)
            spec.pos = pos
            head(g)

    spec.pos = off
    spec.cslot = cslot
    probing(interp, spec, info, state, sample_run)
    if cslot not in info['slots']:
        raise Unsupported('the cursor does not move')
    spec.pos = off
    g = spec.init()
    check_slots(interp, spec, g, info, state, lk[0])
    k = c.choose(spec.cases, 'loop case')
    done = Base(base.name + '.done', base.elem)
    rest = Base(base.name + '.rest', base.elem)
    g = spec.generic(k, done)
    base.expand([done, rest])
    pos = mkint(zint(off + val.length(val.join_text(done, spec.fn))))
    spec.pos = pos
    owned = install(interp, spec, g, info, state)
    passed(info, spec, done)
    mark = len(c.events)
    if not in_step(c):
        rest.expand([])
        if not c.feasible():
            raise PathEnd()
        spec.final = g
        c.reach('%s: after the stream, case %d' % (lk[0], k))
        return False
    e = rest.elem(rest.name + '.h')
    rest2 = Base(base.name + '.r', base.elem)
    rest.expand([('e', e), rest2])
    if not c.feasible():
        raise PathEnd()
    c.reach('%s: inside the stream, case %d' % (lk[0], k))
    spec.at = (g, e, rest2)
    r = Region(interp, state, owned)
    with r:
        try:
            spec.pos = iterate(e, pos)
        except _LoopEnd:
            return True
    add_slots(info, r.written())
    add_objs(info, r)
    finish_step(interp, spec, g, e, rest2, info, state, lk, False,
                c.events[mark:])


class _LoopEnd(BaseException):
    pass
