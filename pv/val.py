"""Symbolic values: integers, booleans, strings, sequences, containers.

Strings are words over segments: constant text, symbols (`Sym`: one unknown
character, or one unknown element of a finite set of texts) and atoms
(`Atom`: an unknown text with an integer length known to the solver and a set
its characters come from).  Atoms and symbols are refined on the current path
only; every value that holds them sees the refinement.
"""
import z3
from .core import ctx, Unsupported, PathEnd


# ---------------------------------------------------------------- booleans
class SBool(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.z == zbool(o))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.z


def zbool(b):
    return b.z if isinstance(b, SBool) else z3.BoolVal(bool(b))


def mkbool(z):
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


# ---------------------------------------------------------------- integers
def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer: %r' % (x,))


def mkint(z):
    if isinstance(z, int):
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def isnum(o):
    return isinstance(o, (int, SInt, SBool))


class SInt(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        return mkint(f(self.z, zint(o))) if isnum(o) else NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z / o)
        raise Unsupported('division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z % o)
        raise Unsupported('modulo')

    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        return mkbool(f(self.z, zint(o))) if isnum(o) else NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return mkbool(self.z == zint(o)) if isnum(o) else False

    def __ne__(self, o):
        return mkbool(self.z != zint(o)) if isnum(o) else True

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        raise Unsupported('symbolic integer used as a concrete index')

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def __repr__(self):
        return 'SInt(%s)' % self.z


def new_int(name, lo=None):
    v = z3.Int(ctx().fresh(name))
    if lo is not None:
        ctx().assume(v >= lo)
    return SInt(v)


def new_bool(name):
    return SBool(z3.Bool(ctx().fresh(name)))


# ------------------------------------------------------------ character sets
class CharSet(object):
    """A finite set of texts, or the complement of one (of characters)."""
    __slots__ = ('s', 'neg')

    def __init__(self, s=(), neg=False):
        self.s, self.neg = frozenset(s), neg

    def has(self, c):
        return (c in self.s) != self.neg

    def inter(self, o):
        if not self.neg and not o.neg:
            return CharSet(self.s & o.s)
        if self.neg and o.neg:
            return CharSet(self.s | o.s, True)
        a, b = (self, o) if not self.neg else (o, self)
        return CharSet(a.s - b.s)

    def minus(self, o):
        return self.inter(CharSet(o.s, not o.neg))

    def empty(self):
        return not self.neg and not self.s

    def single(self):
        if not self.neg and len(self.s) == 1:
            return next(iter(self.s))
        return None

    def pick(self, avoid=()):
        if not self.neg:
            l = sorted(self.s)
        else:
            l = [c for c in u'\u00e9\u4e2d\u0416~!abcXYZ0189-_.=%&/?#[]{}\\+'
                 if c not in self.s]
        for c in l:
            if c not in avoid:
                return c
        return l[0] if l else None

    def __repr__(self):
        s = ''.join(sorted(self.s))
        return ('not ' if self.neg else '') + repr(s[:40])


ANY = CharSet((), True)


def cset(x):
    return x if isinstance(x, CharSet) else CharSet(x)


def excluding(chars):
    return CharSet(chars, True)


class Sym(object):
    """An unknown character (or element of a finite set of texts)."""
    __slots__ = ('name', 'dom', 'char', 'alias', 'ne', 'links')

    def __init__(self, name, dom=ANY, char=True):
        self.name = ctx().fresh(name)
        self.dom, self.char = cset(dom), char
        self.alias = None
        self.ne = set()
        self.links = []              # (other symbol, bijection, its id)
        if self.dom.empty():
            raise PathEnd()
        ctx().syms.append(self)

    def root(self):
        s = self
        while isinstance(s.alias, Sym):
            s = s.alias
        return s

    def value(self):
        """A plain text when it is determined, else the root symbol."""
        r = self.root()
        if isinstance(r.alias, str):
            return r.alias
        v = r.dom.single()
        if v is not None:
            r.alias = v
            for o, m, _ in r.links:
                o.restrict(CharSet((m[v],)))
            for o in list(r.ne):
                o = o.root()
                if isinstance(o.value1(), str):
                    if o.value1() == v:
                        raise PathEnd()
                else:
                    o.restrict(o.dom.minus(CharSet((v,))))
            return v
        return r

    def value1(self):
        r = self.root()
        if isinstance(r.alias, str):
            return r.alias
        return r.dom.single() or r

    def restrict(self, dom):
        r = self.root()
        if isinstance(r.alias, str):
            if not dom.has(r.alias):
                raise PathEnd()
            return
        old = r.dom
        r.dom = r.dom.inter(dom)
        if r.dom.empty():
            raise PathEnd()
        if isinstance(r.value(), Sym) and r.links and not r.dom.neg and \
                (old.neg or len(r.dom.s) != len(old.s)):
            for o, m, _ in r.links:
                o.restrict(CharSet([m[x] for x in r.dom.s]))

    def __repr__(self):
        v = self.value1()
        return repr(v) if isinstance(v, str) else '<%s:%r>' % (
            v.name, v.dom)


def sym_in(sym, dom, label='in'):
    """Branch: is the symbol in dom?"""
    v = sym.value()
    dom = cset(dom)
    if isinstance(v, str):
        return dom.has(v)
    if v.char:
        dom = CharSet((x for x in dom.s if len(x) == 1), dom.neg)
    a, b = v.dom.inter(dom), v.dom.minus(dom)
    if b.empty():
        return True
    if a.empty():
        return False
    if ctx().choose(2, label) == 0:
        v.restrict(dom)
        return True
    v.restrict(CharSet(dom.s, not dom.neg))
    return False


def sym_group(sym, table, label='lookup'):
    """Branch over the values of a table (dict text -> value) at the symbol.

    Returns (found, value); the symbol is restricted accordingly."""
    v = sym.value()
    if isinstance(v, str):
        return (v in table), table.get(v)
    groups = {}
    for k, val in table.items():
        if isinstance(k, str) and v.dom.has(k) and not (
                v.char and len(k) != 1):
            groups.setdefault(val, set()).add(k)
    opts = sorted(groups.items(), key=lambda kv: str(kv[0]))
    single = [o for o in opts if len(o[1]) == 1]
    if len(single) > 4 and all(isinstance(o[0], str) for o in single):
        # one option for all the values with one key: a linked symbol
        opts = [o for o in opts if len(o[1]) > 1]
        opts.append((None, set(list(o[1])[0] for o in single)))
    else:
        single = None
    rest = v.dom.minus(CharSet([k for k in table if isinstance(k, str)]))
    n = len(opts) + (0 if rest.empty() else 1)
    i = ctx().choose(n, label)
    if i < len(opts):
        v.restrict(CharSet(opts[i][1]))
        if single and i == len(opts) - 1:
            return True, _image(v, table)
        return True, opts[i][0]
    v.restrict(rest)
    return False, None


_PAIRS = {}


def pairs_of(table):
    """The keys of the table that are alone with their value."""
    cnt = {}
    for k, x in table.items():
        cnt[x] = cnt.get(x, 0) + 1
    pairs = sorted((k, x) for k, x in table.items() if cnt[x] == 1)
    return _PAIRS.setdefault(tuple(pairs), pairs)


def _image(v, table):
    v = v.value()
    if isinstance(v, str):
        return table[v]
    pairs = pairs_of(table)
    for o, m, k in v.links:
        if k == ('f', id(pairs)):
            return SStr.mk((o,))
    m = dict(pairs)
    o = Sym(v.name + '.image', CharSet([m[x] for x in v.dom.s]), False)
    link_syms(v, o, pairs)
    return SStr.mk((o,))


def sym_concrete(sym, label='value'):
    """Branch over all the values of a finite symbol."""
    v = sym.value()
    if isinstance(v, str):
        return v
    if v.dom.neg:
        raise Unsupported('unbounded symbol')
    l = sorted(v.dom.s)
    x = l[ctx().choose(len(l), label)]
    v.restrict(CharSet((x,)))
    return x


def link_syms(a, b, pairs):
    """b is the image of a under the bijection pairs (a list)."""
    fw = dict(pairs)
    bw = dict((y, x) for x, y in pairs)
    a.links.append((b, fw, ('f', id(pairs))))
    b.links.append((a, bw, ('b', id(pairs))))
    ctx().cache.setdefault('keep', []).append(pairs)


def _merge(a, b):
    """The symbols (roots, not determined) are the same."""
    b.alias = a
    a.ne |= b.ne
    for x in a.ne:
        if x.root() is a:
            raise PathEnd()
    mine = list(a.links)
    for o, m, k in b.links:
        for p, _, j in mine:
            if j == k:
                x, y = p.root(), o.root()
                if x is not y and isinstance(x.value(), Sym) and \
                        isinstance(y.value(), Sym):
                    if y in [z.root() for z in x.ne]:
                        raise PathEnd()
                    d = x.dom.inter(y.dom)
                    x.restrict(d)
                    if isinstance(x.value(), str):
                        y.restrict(d)
                    else:
                        _merge(x, y)
                break
        else:
            a.links.append((o, m, k))


def sym_eq(a, b):
    """Branch: are two symbols (or a symbol and a text) equal?"""
    if isinstance(a, Sym):
        a = a.value()
    if isinstance(b, Sym):
        b = b.value()
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return sym_in(a, CharSet((b,)), 'eq')
    if a is b:
        return True
    if b in [x.root() for x in a.ne]:
        return False
    d = a.dom.inter(b.dom)
    if d.empty():
        return False
    if ctx().choose(2, 'eq') == 0:
        a.restrict(d)
        if isinstance(a.value(), str):
            b.restrict(CharSet((a.value(),)))
            return True
        _merge(a, b)
        return True
    a.ne.add(b)
    b.ne.add(a)
    return False


# ----------------------------------------------------------------- strings
class Atom(object):
    """An unknown text.  kinds: var, rep(sym|char, n), dec(n), app(f, args),
    join(base, fn, sep)."""

    def __init__(self, name, dom=ANY, minlen=0, kind='var', info=None,
                 length=None):
        c = ctx()
        self.name = c.fresh(name)
        self.dom = cset(dom)
        self.kind, self.info = kind, info
        self.expansion = None
        self.free = ()             # texts that do not occur in it
        self.minlen = minlen
        if length is None:
            length = SInt(z3.Int('|%s|' % self.name))
            c.assume(length.z >= minlen)
        self.len = length
        c.syms.append(self)

    def expand(self, segs):
        segs = norm(segs)
        n = 0
        for s in segs:
            if isinstance(s, Atom):
                if s.kind == 'var':
                    s.dom = s.dom.inter(self.dom)
                    s.free = s.free + self.free
            elif isinstance(s, Sym):
                s.restrict(self.dom)
            elif not all(self.dom.has(ch) for ch in s):
                raise PathEnd()
            n = n + seglen(s)
        self.expansion = segs
        if ctx().picking:
            ctx().undo.append(self)
        ctx().assume(zint(self.len) == zint(n))

    def __repr__(self):
        return '<%s>' % self.name


def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, Sym):
            sub = (s.value(),)
        elif isinstance(s, Atom):
            if s.expansion is not None:
                sub = norm(s.expansion)
            elif s.kind == 'join' and s.info[0].expansion is not None:
                _join_expand(s)
                sub = norm(s.expansion)
            else:
                sub = (s,)
        else:
            sub = (s,)
        for x in sub:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    return tuple(out)


def seglen(s):
    if isinstance(s, str):
        return len(s)
    if isinstance(s, Sym):
        if s.char:
            return 1
        v = s.value()
        if isinstance(v, str):
            return len(v)
        ls = set(len(x) for x in v.dom.s)
        if len(ls) == 1:
            return ls.pop()
        groups = dict((x, len(x)) for x in v.dom.s)
        return sym_group(v, groups, 'len')[1]
    return s.len


class SStr(object):
    """Symbolic string; `mk` gives a plain str when it is constant."""
    __slots__ = ('_segs',)

    def __init__(self, segs):
        self._segs = tuple(segs)

    @staticmethod
    def mk(segs):
        segs = norm(segs)
        if not segs:
            return ''
        if len(segs) == 1 and isinstance(segs[0], str):
            return segs[0]
        return SStr(segs)

    @property
    def segs(self):
        if ctx() is not None and ctx().picking:
            return norm(self._segs)
        self._segs = norm(self._segs)
        return self._segs

    def length(self):
        n = 0
        for s in self.segs:
            n = n + seglen(s)
        return n

    def __add__(self, o):
        return SStr.mk(self.segs + segs_of(o)) \
            if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr.mk(segs_of(o) + self.segs) \
            if isinstance(o, (str, SStr)) else NotImplemented

    def __eq__(self, o):
        return str_decide(self, o) if isinstance(o, (str, SStr)) else False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __lt__(self, o):
        raise Unsupported('order of symbolic strings')
    __le__ = __gt__ = __ge__ = __lt__

    def __len__(self):
        raise Unsupported('native len of a symbolic string')

    def __bool__(self):
        n = self.length()
        return n != 0 if isinstance(n, int) else ctx().branch(n.z > 0)

    def __repr__(self):
        return 'S(%s)' % '+'.join(repr(s) for s in self.segs)

    def __str__(self):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('str.%s on a symbolic string' % name)

    # ---- positions
    def boundary(self, pos):
        """Split at position pos (0 <= pos <= len); (left, right) segments."""
        if isinstance(pos, int):
            left, rest = [], list(self.segs)
            while pos > 0:
                if not rest:
                    raise Unsupported('position out of range')
                s = rest[0]
                n = seglen(s)
                if isinstance(s, Sym):
                    s = rest[0] = s.value()
                if isinstance(n, int):
                    if n <= pos:
                        left.append(s)
                        rest.pop(0)
                        pos -= n
                        continue
                    if isinstance(s, str):
                        left.append(s[:pos])
                        rest[0] = s[pos:]
                        break
                if isinstance(s, Sym):
                    s = rest[0] = sym_concrete(s)
                    continue
                if not split_first(s):
                    rest.pop(0)
                    continue
                rest = list(norm(rest))
            return norm(left), norm(rest)
        c = ctx()
        segs = self.segs
        cum = 0
        for k, s in enumerate(segs):
            if c.entails(zint(cum) == pos.z):
                return segs[:k], segs[k:]
            if isinstance(s, str):
                for j in range(1, len(s)):
                    if c.entails(zint(cum) + j == pos.z):
                        return (norm(segs[:k] + (s[:j],)),
                                norm((s[j:],) + segs[k + 1:]))
            cum = cum + seglen(s)
        if c.entails(zint(cum) == pos.z):
            return segs, ()
        cum = 0
        for k, s in enumerate(segs):
            n = seglen(s)
            if isinstance(s, Atom):
                lo, hi = zint(cum), zint(cum + n)
                for d in (1, 2):
                    if c.entails(pos.z == lo + d) or \
                            c.entails(pos.z == hi - d):
                        f = split_first if c.entails(pos.z == lo + d) \
                            else split_last
                        f(s)
                        return SStr(segs).boundary(pos)
            cum = cum + n
        raise Unsupported('position %s in %r' % (pos, self))

    def char_at(self, i):
        n = self.length()
        if isinstance(i, int):
            segs = list(self.segs)
            back = i < 0
            k = -i - 1 if back else i
            while True:
                if not segs:
                    if not ctx().feasible():
                        raise PathEnd()
                    raise IndexError('string index out of range')
                e = -1 if back else 0
                s = segs[e]
                m = seglen(s)
                if isinstance(s, Sym):
                    s = segs[e] = s.value()
                if isinstance(m, int):
                    if m > k:
                        if isinstance(s, str):
                            return s[m - 1 - k if back else k]
                        if isinstance(s, Sym):
                            if s.char:
                                return SStr.mk((s,))
                            segs[e] = sym_concrete(s)
                            continue
                        if not (split_last if back else split_first)(s):
                            segs.pop(e)
                        segs = list(norm(segs))
                        continue
                    k -= m
                    segs.pop(e)
                    continue
                if not (split_last if back else split_first)(s):
                    segs.pop(e)
                    continue
                segs = list(norm(segs))
        c = ctx()
        if c.branch(i.z < 0, 'negative index'):
            raise Unsupported('negative symbolic index')
        if not c.branch(i.z < zint(n), 'index in range'):
            raise IndexError('string index out of range')
        left, right = self.boundary(i)
        r = SStr.mk(right)
        return r[0] if isinstance(r, str) else r.char_at(0)

    def slice(self, a, b):
        n = self.length()
        a = 0 if a is None else clamp(a, n)
        b = n if b is None else clamp(b, n)
        if isinstance(a, int) and isinstance(b, int):
            if a >= b:
                return ''
        elif ctx().branch(zint(a) >= zint(b), 'empty slice'):
            return ''
        left, right = self.boundary(b)
        left, mid = SStr(left).boundary(a)
        return SStr.mk(mid)


def clamp(i, n):
    c = ctx()
    if isinstance(i, int) and isinstance(n, int):
        return max(0, i + n) if i < 0 else min(i, n)
    if c.branch(zint(i) < 0, 'neg'):
        i = i + n
        if c.branch(zint(i) < 0, 'neg'):
            return 0
    if not c.branch(zint(i) <= zint(n), 'clamp'):
        return n
    return i


def _nonempty(a):
    if a.minlen < 1:
        if not ctx().branch(zint(a.len) > 0, 'nonempty'):
            a.expand(())
            return False
    return True


def split_first(a):
    """Expand the atom into first character + rest; False when empty."""
    if a.kind == 'join':
        return _split_join(a, True)
    if not _nonempty(a):
        return False
    if a.kind == 'rep':
        ch, n = a.info
        a.expand((ch,) + rep_segs(ch, n - 1))
        return True
    if a.kind == 'enum':
        a.expand((sym_concrete(a.info),))
        return True
    a.expand((Sym(a.name + 'h', a.dom), Atom(a.name + 't', a.dom)))
    return True


def split_last(a):
    if a.kind == 'join':
        return _split_join(a, False)
    if not _nonempty(a):
        return False
    if a.kind == 'rep':
        ch, n = a.info
        a.expand(rep_segs(ch, n - 1) + (ch,))
        return True
    a.expand((Atom(a.name + 'i', a.dom), Sym(a.name + 'e', a.dom)))
    return True


def _split_join(a, first):
    base = a.info[0]
    if not (seq_split_first if first else seq_split_last)(base):
        if a.expansion is None:
            a.expand(())
        return False
    if a.expansion is None:
        _join_expand(a)
    return True


def segs_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    if isinstance(s, SStr):
        return s.segs
    raise Unsupported('not a string: %r' % (s,))


def length(s):
    return len(s) if isinstance(s, str) else s.length()


def text(name, dom=ANY, minlen=0):
    return SStr((Atom(name, dom, minlen),))


def char(name, dom=ANY):
    return SStr.mk((Sym(name, dom),))


def enum(name, values):
    return SStr.mk((Sym(name, CharSet(values), False),))


def rep_segs(ch, n):
    """The character (text of length 1 or Sym) n times."""
    if isinstance(ch, Sym):
        ch = ch.value()
    if isinstance(n, int):
        return (ch,) * max(n, 0)
    c = ctx()
    key = ('rep', ch if isinstance(ch, str) else id(ch), str(n.z))
    if key not in c.cache:
        a = Atom('rep', kind='rep', info=(ch, n), length=n,
                 dom=CharSet((ch,)) if isinstance(ch, str) else ch.dom)
        c.assume(n.z >= 0)
        if c.entails(n.z >= 1):
            a.minlen = 1
        c.cache[key] = (a, ch)
    return (c.cache[key][0],)


def rep(ch, n):
    """ch: one-character string value."""
    segs = segs_of(ch)
    return SStr.mk(rep_segs(segs[0], n))


def dec(n):
    """Decimal text of an integer."""
    if isinstance(n, int):
        return str(n)
    c = ctx()
    key = ('dec', str(z3.simplify(n.z)))
    if key not in c.cache:
        if not c.entails(n.z >= 0):
            raise Unsupported('decimal text of a possibly negative number')
        c.cache[key] = Atom('dec', CharSet('0123456789'), 1, 'dec', n)
    return SStr((c.cache[key],))


def app(fname, args, dom=ANY, minlen=0):
    """Uninterpreted text function: same arguments, same value."""
    c = ctx()
    for (f, a, at) in c.cache.setdefault('apps', []):
        if f == fname and len(a) == len(args) and \
                all(veq(x, y) is True for x, y in zip(a, args)):
            return SStr((at,))
    at = Atom(fname, dom, minlen, 'app', (fname, tuple(args)))
    c.cache['apps'].append((fname, tuple(args), at))
    return SStr((at,))


def same_seg(x, y):
    if x is y:
        return True
    if isinstance(x, Sym):
        x = x.value()
    if isinstance(y, Sym):
        y = y.value()
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    if x is y:
        return True
    if isinstance(x, Sym) or isinstance(y, Sym):
        return False
    if x.kind != y.kind:
        return False
    if x.kind == 'rep':
        return same_seg(x.info[0], y.info[0]) and \
            ctx().entails(zint(x.info[1]) == zint(y.info[1]))
    if x.kind == 'dec':
        return ctx().entails(zint(x.info) == zint(y.info))
    if x.kind == 'app':
        return x.info[0] == y.info[0] and \
            len(x.info[1]) == len(y.info[1]) and \
            all(entails_eq(p, q) for p, q in zip(x.info[1], y.info[1]))
    if x.kind == 'join':
        return x.info[0] is y.info[0] and x.info[2] == y.info[2] and \
            same_fn(x.info[0], x.info[1], y.info[1])
    return False


def _strip(a, b):
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                return
            for l, s in ((a, x), (b, y)):
                if len(s) == n:
                    l.pop(0)
                else:
                    l[0] = s[n:]
            if n < len(x) and n < len(y):
                return
        elif same_seg(x, y):
            a.pop(0)
            b.pop(0)
        elif isinstance(x, Atom) and x.kind == 'rep' and _rep_head(a, b):
            continue
        elif isinstance(y, Atom) and y.kind == 'rep' and _rep_head(b, a):
            continue
        else:
            return


def _rep_head(a, b):
    """a starts with rep(ch, n): take what b shows of it."""
    x, y = a[0], b[0]
    ch, n = x.info
    c = ctx()
    if isinstance(y, Atom) and y.kind == 'rep' and same_seg(ch, y.info[0]):
        m = y.info[1]
        if c.entails(zint(n) >= zint(m)):
            a[0:1] = list(rep_segs(ch, mkint(zint(n) - zint(m))))
            b.pop(0)
            return True
        if c.entails(zint(m) >= zint(n)):
            b[0:1] = list(rep_segs(ch, mkint(zint(m) - zint(n))))
            a.pop(0)
            return True
        return False
    if not c.entails(zint(n) >= 1):
        if c.entails(zint(n) == 0):
            a.pop(0)
            return True
        return False
    hit = False
    if isinstance(y, str) and same_seg(ch, y[0]):
        b[0:1] = [y[1:]] if len(y) > 1 else []
        hit = True
    elif isinstance(y, Sym) and same_seg(ch, y):
        b.pop(0)
        hit = True
    if hit:
        a[0:1] = list(rep_segs(ch, mkint(zint(n) - 1)))
    return hit


def _rev(l):
    return [s[::-1] if isinstance(s, str) else s for s in reversed(l)]


def _head_char(l):
    """First character of the word as str/Sym, when it is visible."""
    if not l:
        return None
    s = l[0]
    if isinstance(s, str):
        return s[0]
    if isinstance(s, Sym) and s.char:
        return s.value()
    return None


def _heads_differ(a, b, end=0):
    """Are the words certainly different because of their first letters?
    (end=-1: of their last letters, a and b are reversed)"""
    def first(l):
        if not l:
            return None
        s = l[0]
        if isinstance(s, str):
            return CharSet((s[0],))
        if isinstance(s, Sym):
            v = s.value()
            if isinstance(v, str):
                return CharSet((v[end],)) if v else None
            if v.char:
                return v.dom
            return CharSet(set(x[end] for x in v.dom.s)) \
                if all(v.dom.s) else None
        if s.minlen >= 1 or ctx().entails(zint(s.len) >= 1):
            return s.dom
        return None
    x, y = first(a), first(b)
    return x is not None and y is not None and x.inter(y).empty()


def _reduce(a, b):
    a, b = list(segs_of(a)), list(segs_of(b))
    _strip(a, b)
    a, b = _rev(a), _rev(b)
    _strip(a, b)
    return _rev(a), _rev(b)


def _zlen(l):
    n = z3.IntVal(0)
    for s in l:
        n = n + zint(seglen(s))
    return n


def _const_len(l):
    return all(not (isinstance(s, Sym) and not s.char and
                    isinstance(s.value(), Sym)) for s in l)


def _collapse(l):
    """Drop the parts that are certainly empty."""
    c = ctx()
    hit = False
    for s in l:
        if isinstance(s, Atom) and s.minlen == 0 and s.expansion is None:
            if s.kind == 'join' and s.info[0].expansion is None and \
                    c.entails(s.info[0].zlen == 0):
                s.info[0].expand([])
                hit = True
            elif s.kind in ('var', 'rep') and c.entails(zint(s.len) == 0):
                s.expand(())
                hit = True
    return hit


def str_veq(x, y):
    """True | False | z3 condition | None (not decided), without branching."""
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    a, b = _reduce(x, y)
    if (a or b) and _collapse(a + b):
        a, b = _reduce(x, y)
    if not a and not b:
        return True
    for p, q, r in ctx().cache.get('eqs', ()):
        if (p == a and q == b) or (p == b and q == a):
            return r
    if not a or not b:
        l = a or b
        if any(isinstance(s, (str, Sym)) or s.minlen > 0 for s in l):
            if all(not isinstance(s, Sym) or s.char or
                   not s.dom.has('') for s in l):
                return False
            return None
        return _zlen(l) == 0
    if _heads_differ(a, b) or _heads_differ(_rev(a), _rev(b), -1):
        return False
    if len(a) == 1 and len(b) == 1:
        for p, q in ((a[0], b[0]), (b[0], a[0])):
            if isinstance(p, Sym):
                if isinstance(q, str) and not p.root().dom.has(q):
                    return False
                if isinstance(q, Sym):
                    if q.root() in [z.root() for z in p.root().ne] or \
                            q.root().dom.inter(p.root().dom).empty():
                        return False
    if _const_len(a) and _const_len(b):
        if ctx().entails(_zlen(a) != _zlen(b)):
            return False
    return None


def empty_atom(s):
    """The atom is the empty text."""
    if s.kind == 'join':
        base, fn, sep = s.info
        if base.expansion is None:
            if sep:
                base.expand([])
            else:
                ctx().approx.append('a join is empty')
        if s.expansion is not None:
            return
    s.expand(())


def str_decide(x, y):
    """Branch on x == y."""
    for _ in range(200):
        r = str_veq(x, y)
        if r is True or r is False:
            return r
        if r is not None:
            if ctx().branch(r, 'eq'):
                for l in _reduce(x, y):
                    for s in l:
                        if isinstance(s, Atom) and s.expansion is None:
                            empty_atom(s)
                return True
            return False
        a, b = _reduce(x, y)
        if len(a) == 1 and len(b) == 1 and \
                isinstance(a[0], (Sym, str)) and isinstance(b[0], (Sym, str)):
            if isinstance(a[0], Sym) and not a[0].char and \
                    isinstance(b[0], Sym):
                a = [sym_concrete(a[0])]
            return sym_eq(a[0], b[0])
        ha, hb = _head_char(a), _head_char(b)
        if ha is not None and hb is not None:
            if not sym_eq(ha, hb):
                return False
            x, y = SStr(a), SStr(b)
            continue
        # one head is an atom / an enumeration: refine it
        done = False
        for l, o in ((a, b), (b, a)):
            if l and isinstance(l[0], Sym) and not l[0].char:
                sym_concrete(l[0])
                done = True
                break
            if l and isinstance(l[0], Atom) and _head_char(o) is not None \
                    and l[0].kind in ('var', 'rep', 'join'):
                split_first(l[0])
                done = True
                break
        if not done:
            c = ctx()
            i = c.choose(2, 'eq?')
            single = None
            for l, o in ((a, b), (b, a)):
                if len(l) == 1 and isinstance(l[0], Atom) and \
                        l[0].kind == 'var' and l[0] not in o:
                    single = (l[0], o)
            if single is None:
                c.approx.append('equality of %r and %r' % (x, y))
            c.cache.setdefault('eqs', []).append((list(a), list(b), i == 0))
            if i == 0:
                if single is not None:
                    single[0].expand(tuple(single[1]))
                else:
                    c.assume(_zlen(a) == _zlen(b))
            return i == 0
        x, y = SStr(a), SStr(b)
    raise Unsupported('string equality')


# ------------------------------------------------------- symbolic sequences
class Base(object):
    """A symbolic finite sequence of elements made by `elem(name)`."""

    def __init__(self, name, elem, minlen=0):
        c = ctx()
        self.name = c.fresh(name)
        self.elem = elem
        self.expansion = None        # list of Base | ('e', elem)
        self.zlen = z3.Int('len_' + self.name)
        self.minlen = minlen
        c.assume(self.zlen >= minlen)
        c.syms.append(self)

    def fresh_elem(self):
        return self.elem(self.name + '.e')

    def expand(self, parts):
        self.expansion = list(parts)
        if ctx().picking:
            ctx().undo.append(self)
        n = z3.IntVal(0)
        for p in parts:
            n = n + (p.zlen if isinstance(p, Base) else 1)
        ctx().assume(self.zlen == n)
        for (b, f, s, at) in list(ctx().cache.get('joins', [])):
            if b is self and at.expansion is None:
                _join_expand(at)
        for (b, f, z) in list(ctx().cache.get('sums', [])):
            if b is self:
                ctx().assume(z == zint(total(SSeq((SeqAtom(b),)), f)))

    def parts(self):
        if self.expansion is None:
            return [self]
        out = []
        for p in self.expansion:
            out.extend(p.parts() if isinstance(p, Base) else [p])
        return out

    def __repr__(self):
        return 'Base(%s)' % self.name


def ident(x):
    return x


class SeqAtom(object):
    """map(fn, base)"""
    __slots__ = ('base', 'fn')

    def __init__(self, base, fn=ident):
        self.base, self.fn = base, fn

    def __repr__(self):
        return '<%s>' % self.base.name


def generic(base):
    """One arbitrary element of base (the same on this path)."""
    c = ctx()
    g = c.cache.setdefault('generic', {})
    if base.name not in g:
        g[base.name] = base.fresh_elem()
    return g[base.name]


def reverse(seq):
    """The sequence from its end.  What is known of the order and identity
    of its elements is lost, so nothing is refuted behind it."""
    c = ctx()
    cache = c.cache.setdefault('reverse', {})
    out = []
    for p in SSeq(seq.parts).parts[::-1]:
        if isinstance(p, SeqAtom):
            b = p.base
            if b.name not in cache:
                cache[b.name] = Base(b.name + '~', b.elem, b.minlen)
                c.assume(cache[b.name].zlen == b.zlen)
                c.approx.append('the reverse of %s' % b.name)
            p = SeqAtom(cache[b.name], p.fn)
        out.append(p)
    return SSeq(out)


def same_fn(base, f, g):
    """Do f and g agree on every element?  (checked on an arbitrary one)"""
    if f is g:
        return True
    c = ctx()
    key = ('same_fn', base.name, id(f), id(g))
    if key in c.cache:
        return c.cache[key][0]
    e = generic(base)
    r = entails_eq(f(e), g(e))
    c.cache[key] = (r, f, g)
    return r


def compose(f, g):
    if g is ident:
        return f
    if f is ident:
        return g
    cache = ctx().cache
    key = ('compose', id(f), id(g))
    if key not in cache:
        cache[key] = ((lambda x: f(g(x))), f, g)
    return cache[key][0]


def join_atom(base, fn, sep=''):
    """Concatenation of fn(e) + sep over the elements e of base."""
    c = ctx()
    for (b, f, s, at) in c.cache.setdefault('joins', []):
        if b is base and s == sep and (f is fn or same_fn(base, f, fn)):
            return at
    a = Atom('join_%s' % base.name, kind='join', info=(base, fn, sep))
    dom = _join_dom(base, fn, sep)
    a.dom = dom
    c.cache['joins'].append((base, fn, sep, a))
    c.assume(z3.Implies(base.zlen == 0, zint(a.len) == 0))
    low = getattr(fn, 'low', 0) + len(sep)      # shortest element
    if low:
        c.assume(zint(a.len) >= low * base.zlen)
    return a


def _join_dom(base, fn, sep):
    """Characters that can occur in the joined text."""
    dom = getattr(fn, 'dom', None)
    if dom is not None:
        return union(dom, CharSet(sep)) if sep else dom
    v = fn(generic(base))
    for s in segs_of(v):
        d = CharSet(s) if isinstance(s, str) else s.dom
        if isinstance(s, Sym) and not s.char:
            d = CharSet(set(''.join(s.dom.s))) \
                if isinstance(s.value(), Sym) else CharSet(s.value())
        dom = d if dom is None else union(dom, d)
    if sep:
        dom = CharSet(sep) if dom is None else union(dom, CharSet(sep))
    return dom if dom is not None else CharSet(())


def union(a, b):
    if not a.neg and not b.neg:
        return CharSet(a.s | b.s)
    if a.neg and b.neg:
        return CharSet(a.s & b.s, True)
    p, q = (a, b) if not a.neg else (b, a)
    return CharSet(q.s - p.s, True)


def _join_expand(a):
    base, fn, sep = a.info
    out = []
    for p in base.parts():
        if isinstance(p, Base):
            out.append(join_atom(p, fn, sep))
        else:
            out.extend(segs_of(fn(p[1])))
            if sep:
                out.append(sep)
    n = 0
    for g in norm(out):
        n = n + seglen(g)
    a.expansion = tuple(out)
    if ctx().picking:
        ctx().undo.append(a)
    ctx().assume(zint(a.len) == zint(n))


def seq_sum(base, fn):
    """Sum of fn over the elements of base."""
    c = ctx()
    for (b, f, z) in c.cache.setdefault('sums', []):
        if b is base and (f is fn or same_fn(base, f, fn)):
            return SInt(z)
    z = z3.Int(c.fresh('sum_%s' % base.name))
    if getattr(fn, 'nonneg', False):
        c.assume(z >= 0)
    elif base.expansion is None:
        v = zint(fn(generic(base)))
        if c.entails(v >= 1):
            c.assume(z >= base.zlen)
        elif c.entails(v >= 0):
            c.assume(z >= 0)
        c.assume(z3.Implies(base.zlen == 0, z == 0))
    c.cache['sums'].append((base, fn, z))
    return SInt(z)


def total(seq, fn):
    n = 0
    for p in seq.map(fn).parts:
        n = n + (seq_sum(p.base, p.fn) if isinstance(p, SeqAtom) else p[1])
    return n


def join_text(base, fn, sep=''):
    return SStr.mk((join_atom(base, fn, sep),))


def strip_prefix(v, p):
    """v without the prefix p, or None"""
    a, b = list(segs_of(v)), list(segs_of(p))
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            a[0:1] = [x[n:]] if x[n:] else []
            b[0:1] = [y[n:]] if y[n:] else []
        elif same_seg(x, y):
            a.pop(0)
            b.pop(0)
        else:
            return None
    return SStr.mk(a)


class SSeq(object):
    """Immutable symbolic sequence (a tuple): elements and SeqAtoms."""
    __slots__ = ('_parts',)

    def __init__(self, parts=()):
        self._parts = tuple(parts)      # ('e', value) | SeqAtom

    @property
    def parts(self):
        out = []
        for p in self._parts:
            if isinstance(p, SeqAtom):
                for q in p.base.parts():
                    if isinstance(q, Base):
                        out.append(SeqAtom(q, p.fn))
                    else:
                        out.append(('e', p.fn(q[1])))
            else:
                out.append(p)
        if ctx() is not None and ctx().picking:
            return tuple(out)
        self._parts = tuple(out)
        return self._parts

    def concrete(self):
        ps = self.parts
        if all(not isinstance(p, SeqAtom) for p in ps):
            return [p[1] for p in ps]
        return None

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (SInt(p.base.zlen) if isinstance(p, SeqAtom) else 1)
        return mkint(zint(n))

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('native len of a symbolic sequence')

    def __bool__(self):
        n = self.length()
        return n != 0 if isinstance(n, int) else ctx().branch(n.z > 0)

    def __add__(self, o):
        return SSeq(self.parts + seq_of(o).parts)

    def __radd__(self, o):
        return SSeq(seq_of(o).parts + self.parts)

    def __iter__(self):
        l = self.concrete()
        if l is None:
            raise Unsupported('native iteration of a symbolic sequence')
        return iter(l)

    def __eq__(self, o):
        if not isinstance(o, (SSeq, SList, tuple, list)):
            return False
        return decide_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'Seq(%s)' % (self.parts,)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('sequence.%s' % name)

    def map(self, fn):
        out = []
        for p in self.parts:
            if isinstance(p, SeqAtom):
                out.append(SeqAtom(p.base, compose(fn, p.fn)))
            else:
                out.append(('e', fn(p[1])))
        return SSeq(out)

    def boundary(self, pos):
        c = ctx()
        ps = self.parts
        cum = 0
        for k in range(len(ps) + 1):
            if c.entails(zint(cum) == zint(pos)):
                return k
            if k < len(ps):
                p = ps[k]
                cum = cum + (SInt(p.base.zlen)
                             if isinstance(p, SeqAtom) else 1)
        return None

    def at(self, i):
        c = ctx()
        if isinstance(i, int):
            back = i < 0
            k = -i - 1 if back else i
            ps = list(self.parts)
            e = -1 if back else 0
            while ps:
                p = ps[e]
                if not isinstance(p, SeqAtom):
                    if k == 0:
                        return p[1]
                    k -= 1
                    ps.pop(e)
                    continue
                if not (seq_split_last if back else seq_split_first)(p.base):
                    ps.pop(e)
                    continue
                ps = list(SSeq(ps).parts)
            raise IndexError('index out of range')
        n = self.length()
        if c.branch(i.z < 0, 'negative index'):
            raise Unsupported('negative symbolic index')
        if not c.branch(i.z < zint(n), 'index in range'):
            raise IndexError('index out of range')
        k = self.boundary(i)
        if k is None:
            j = mkint(i.z - zint(n))
            if isinstance(j, int):
                return self.at(j)
            raise Unsupported('index %s in %r' % (i, self))
        return SSeq(self.parts[k:]).at(0)

    def slice(self, a, b):
        n = self.length()
        a = 0 if a is None else clamp(a, n)
        b = n if b is None else clamp(b, n)
        if isinstance(a, int) and isinstance(b, int):
            if a >= b:
                return SSeq(())
        elif ctx().branch(zint(a) >= zint(b), 'empty slice'):
            return SSeq(())
        self._split(a)
        kb = self._split(b)
        ka = self._split(a)
        return SSeq(self.parts[ka:kb])

    def _split(self, pos):
        k = self.boundary(pos)
        if k is not None:
            return k
        if isinstance(pos, int):
            for j in range(pos):
                self.at(j)
        else:
            j = mkint(pos.z - zint(self.length()))
            if isinstance(j, int) and -4 < j < 0:
                self.at(j)
        k = self.boundary(pos)
        if k is not None:
            return k
        raise Unsupported('slice at %s of %r' % (pos, self))


def seq_of(seq):
    if isinstance(seq, SSeq):
        return seq
    if isinstance(seq, SList):
        return seq.seq
    if isinstance(seq, (list, tuple)):
        return SSeq([('e', x) for x in seq])
    raise Unsupported('not a sequence: %r' % (seq,))


def seq_split_first(base):
    if base.expansion is not None:
        raise Unsupported('sequence split twice')
    if base.minlen < 1:
        if not ctx().branch(base.zlen > 0, 'nonempty'):
            base.expand([])
            return False
    rest = Base(base.name + 't', base.elem)
    base.expand([('e', base.elem(base.name + 'h')), rest])
    if ctx().entails(rest.zlen == 0):
        rest.expand([])
    return True


def seq_split_last(base):
    if base.expansion is not None:
        raise Unsupported('sequence split twice')
    if base.minlen < 1:
        if not ctx().branch(base.zlen > 0, 'nonempty'):
            base.expand([])
            return False
    init = Base(base.name + 'i', base.elem)
    base.expand([init, ('e', base.elem(base.name + 'l'))])
    if ctx().entails(init.zlen == 0):
        init.expand([])
    return True


def seq_veq(a, b):
    pa, pb = list(seq_of(a).parts), list(seq_of(b).parts)
    conds = []
    c = ctx()

    def strip(pa, pb):
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, SeqAtom) and isinstance(y, SeqAtom):
                if x.base is y.base and same_fn(x.base, x.fn, y.fn):
                    pa.pop(0)
                    pb.pop(0)
                    continue
                return True
            if isinstance(x, SeqAtom) or isinstance(y, SeqAtom):
                return True
            e = veq(x[1], y[1])
            if e is False:
                return False
            if e is None:
                return True
            if e is not True:
                conds.append(e)
            pa.pop(0)
            pb.pop(0)
        return True
    if not strip(pa, pb):
        return False
    pa.reverse()
    pb.reverse()
    if not strip(pa, pb):
        return False
    hit = False
    for p in pa + pb:
        if isinstance(p, SeqAtom) and p.base.expansion is None and \
                c.entails(p.base.zlen == 0):
            p.base.expand([])
            hit = True
    if hit:
        return seq_veq(a, b)
    if not pa and not pb:
        return z3.And(*conds) if conds else True
    la, lb = SSeq(pa).length(), SSeq(pb).length()
    if not pa or not pb:
        e = (zint(la) == zint(lb))
        if c.entails(z3.Not(e)):
            return False
        return z3.And(e, *conds)
    if c.entails(zint(la) != zint(lb)):
        return False
    return None


# ------------------------------------------------------------- containers
class SList(object):
    """List (mutable sequence)."""
    __slots__ = ('seq',)

    def __init__(self, it=()):
        if isinstance(it, (SSeq, SList, tuple, list)):
            self.seq = SSeq(seq_of(it).parts)
        else:
            self.seq = SSeq([('e', x) for x in it])

    def __len__(self): return len(self.seq)
    def __bool__(self): return bool(self.seq)
    def __iter__(self): return iter(self.seq)
    def __eq__(self, o): return self.seq == o
    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None
    def __repr__(self): return 'L%r' % (self.seq,)


class SDict(object):
    """Dictionary: list of (key, value); `rest` describes unknown entries."""
    __slots__ = ('items', 'rest')

    def __init__(self, items=(), rest=None):
        self.items = list(items)
        self.rest = rest           # None | object with lookup(key)

    def __repr__(self):
        return 'D(%r)' % (self.items,)

    __hash__ = None


class SSet(object):
    """Set: parts as in a sequence, duplicates allowed."""
    __slots__ = ('seq',)

    def __init__(self, it=()):
        self.seq = SSeq(seq_of(it).parts) if not isinstance(it, SSet) \
            else SSeq(it.seq.parts)

    def __repr__(self):
        return 'Set(%r)' % (self.seq,)

    __hash__ = None


def set_subset(a, b):
    """Is every listed part of a listed in b?"""
    for x in a.seq.parts:
        ok = False
        for y in b.seq.parts:
            if isinstance(x, SeqAtom) and isinstance(y, SeqAtom):
                ok = x.base is y.base and same_fn(x.base, x.fn, y.fn)
            elif not isinstance(x, SeqAtom) and not isinstance(y, SeqAtom):
                ok = entails_eq(x[1], y[1])
            if ok:
                break
        if not ok:
            return False
    return True


def set_veq(a, b):
    if set_subset(a, b) and set_subset(b, a):
        return True
    ca, cb = a.seq.concrete(), b.seq.concrete()
    if ca is not None and cb is not None and \
            all(isinstance(x, (str, int)) for x in ca + cb):
        return set(ca) == set(cb)
    return None


class SStringIO(object):
    """io.StringIO used as an append buffer.  pos: 'end' | 'start'"""
    __slots__ = ('content', 'pos', 'owner')

    def __init__(self, s=''):
        self.content = s
        self.pos = 'start'
        self.owner = None            # the list it is an element of

    def __repr__(self):
        return 'IO(%r)' % (self.content,)


class Poison(object):
    """Value of a variable the loop invariant says nothing about."""

    def __init__(self, name):
        self._n = name

    def __repr__(self):
        return 'Poison(%s)' % self._n


# ---------------------------------------------------------------- equality
def veq(a, b):
    """True | False | z3 condition | None (not decided); no branching."""
    if a is b:
        return True
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_veq(a, b)
    if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return zbool(a) == zbool(b)
        return False
    if isnum(a) and isnum(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return zint(a) == zint(b)
    if isinstance(a, (SSeq, SList, tuple, list)) and \
            isinstance(b, (SSeq, SList, tuple, list)):
        return seq_veq(a, b)
    if isinstance(a, SStringIO) and isinstance(b, SStringIO):
        return str_veq(a.content, b.content)
    if isinstance(a, (SSet, set, frozenset)) and \
            isinstance(b, (SSet, set, frozenset)):
        return set_veq(a if isinstance(a, SSet) else SSet(list(a)),
                       b if isinstance(b, SSet) else SSet(list(b)))
    if a is None or b is None:
        return False
    if hasattr(a, '__veq__'):
        return a.__veq__(b)
    if hasattr(b, '__veq__'):
        return b.__veq__(a)
    prim = (str, SStr, int, SInt, SBool, SSeq, SList, SSet, SDict)
    if isinstance(a, prim) or isinstance(b, prim):
        return False
    if isinstance(a, Poison) or isinstance(b, Poison):
        return None
    try:
        r = type(a).__eq__(a, b)
        if r is NotImplemented:
            return False if type(a) is object or True else None
        return bool(r)
    except Exception:
        return None


def entails_eq(a, b):
    r = veq(a, b)
    if r is None or isinstance(r, bool):
        return bool(r)
    return ctx().entails(r)


def decide_eq(a, b):
    """Branch on a == b."""
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_decide(a, b)
    if isinstance(a, (SSeq, SList, tuple, list)) and \
            isinstance(b, (SSeq, SList, tuple, list)):
        pa, pb = seq_of(a).concrete(), seq_of(b).concrete()
        if pa is not None and pb is not None:
            return len(pa) == len(pb) and \
                all(decide_eq(x, y) for x, y in zip(pa, pb))
    r = veq(a, b)
    if isinstance(r, bool):
        return r
    if r is None:
        c = ctx()
        c.approx.append('equality of %r and %r' % (a, b))
        return c.choose(2, 'eq?') == 0
    return ctx().branch(r, 'eq')


def is_sym(x):
    if isinstance(x, (SStr, SInt, SBool, SSeq, SList, SSet, SDict, SStringIO,
                      Poison)):
        return True
    if type(x) in (tuple, list):
        return any(is_sym(y) for y in x)
    return False


# ----------------------------------------------------------- concretisation
class NoValue(Exception):
    pass


class _Sandbox(object):
    """Everything that is decided inside is undone."""

    def __enter__(self):
        c = self.c = ctx()
        self.saved = (dict(c.names), len(c.log), list(c.approx),
                      list(c.syms), list(c.events), c.cache)
        c.cache = dict((k, v.copy() if isinstance(v, (list, dict, set))
                        else v) for k, v in c.cache.items())
        self.objs = [(o, dict(o._a)) for o in c.cache.get('objs', ())]
        c.undo = []
        c.picking = True
        c.solver.push()
        return self

    def __exit__(self, *a):
        c = self.c
        c.solver.pop()
        c.picking = False
        for o in reversed(c.undo):
            o.expansion = None
        c.undo = None
        for o, d in self.objs:
            o._a.clear()
            o._a.update(d)
        c.names, n, c.approx, c.syms, c.events, c.cache = self.saved
        del c.log[n:]


def concretize(values, tries=5):
    """Yield tuples of concrete values satisfying the path condition."""
    c = ctx()
    if c.picking:
        return
    for t in range(tries):
        out = None
        try:
            with _Sandbox():
                for n in range(60):
                    todo = [b for b in c.syms if isinstance(b, Base) and
                            b.expansion is None]
                    if not todo:
                        break
                    b = todo[0]
                    want = (0, 1, 0, 2, 1)[t] if n < 8 else 0
                    for k in (want, 0, 1, 2, 3):
                        if c.check(b.zlen == k)[0] == z3.sat:
                            break
                    else:
                        raise NoValue()
                    b.expand([('e', b.fresh_elem()) for _ in range(k)])
                else:
                    raise NoValue()
                extra = []
                for s in c.syms:
                    if isinstance(s, Atom) and s.expansion is None and \
                            isinstance(s.len, SInt):
                        extra.append(s.len.z <= (2, 3, 12, 40, 3)[t])
                r, m = c.check(*extra, model=True)
                if m is not None:
                    env = {}
                    out = tuple(_conc(v, m, env, t) for v in values)
        except (NoValue, PathEnd, Unsupported):
            continue
        if out is not None:
            yield out


def _mint(m, n):
    if isinstance(n, int):
        return n
    v = m.eval(zint(n), model_completion=True)
    return v.as_long()


def _conc_sym(s, env, t):
    v = s.value1()
    if isinstance(v, str):
        return v
    if id(v) not in env:
        avoid = [env[id(x.root())] for x in v.ne if id(x.root()) in env]
        l = [env[k] for k in env if isinstance(env[k], str)]
        ch = v.dom.pick(set(avoid) | set(l)) if t % 2 == 0 \
            else v.dom.pick(set(avoid))
        if ch is None or ch in avoid:
            raise NoValue()
        env[id(v)] = ch
    return env[id(v)]


def _conc(v, m, env, t):
    if v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, SInt):
        return _mint(m, v)
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.z, model_completion=True))
    if isinstance(v, SStr):
        out = []
        for s in v.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, Sym):
                out.append(_conc_sym(s, env, t))
            elif s.kind == 'rep':
                ch = s.info[0]
                ch = _conc_sym(ch, env, t) if isinstance(ch, Sym) else ch
                out.append(ch * _mint(m, s.info[1]))
            elif s.kind == 'dec':
                out.append(str(_mint(m, s.info)))
            elif s.kind == 'var':
                if id(s) not in env:
                    n = _mint(m, s.len)
                    if n > 60:
                        raise NoValue()
                    w = ''
                    for k in range(n):
                        ch = s.dom.pick(set(w))
                        if ch is None:
                            raise NoValue()
                        w += ch
                    env[id(s)] = w
                out.append(env[id(s)])
            else:
                raise NoValue()
        return ''.join(out)
    if isinstance(v, (SSeq, SList, tuple, list)):
        out = []
        for p in seq_of(v).parts:
            if isinstance(p, SeqAtom):
                raise NoValue()
            out.append(_conc(p[1], m, env, t))
        return out
    if isinstance(v, SStringIO):
        return _conc(v.content, m, env, t)
    if isinstance(v, SSet):
        return set(map(str, _conc(v.seq, m, env, t)))
    if hasattr(type(v), '__pv_object__'):
        return v
    raise NoValue()


def prove_eq(a, b, name):
    """Obligation a == b, refuted only with a concrete difference."""
    c = ctx()
    r = veq(a, b)
    if r is True:
        c.record(name, 'proved')
        return True
    if r is not None and not isinstance(r, bool):
        if c.entails(r):
            c.record(name, 'proved')
            return True
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return c.prove(r, name, 'got %r, specified %r' % (a, b))
    if c.quiet:
        return False
    for x, y in concretize((a, b)):
        if x != y:
            c.record(name, 'refuted', 'got %r, specified %r; for example %r '
                     'instead of %r' % (a, b, x, y))
            return False
    c.record(name, 'unknown', 'got %r, specified %r' % (a, b))
    return False
