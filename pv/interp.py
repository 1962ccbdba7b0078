"""Interpreter of the real source on symbolic values.

The package is imported natively (constants, classes); the body of every
function of the package that is called is taken from the syntax tree of the
current source file and interpreted statement by statement.  A function that
has a contract of its own is replaced by that contract (a stub); any other
function of the package is executed in place.
"""
import ast
import builtins as _bi
import importlib
import io
import logging
import operator
import os
import sys
import types

from . import val
from .core import ctx, Unsupported, PathEnd, Restart
from .val import (SBool, SInt, SStr, SSeq, SList, SDict, SSet, SStringIO,
                  SeqAtom, Base, Atom, Sym, Poison, seq_of, mkint, zint,
                  mkbool, length, is_sym, decide_eq, veq, entails_eq)

SRC = os.environ.get('PV_SRC', '/repo/src')
PKG = 'os_urlpattern'
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def module(name):
    return importlib.import_module(PKG + '.' + name if name else PKG)


_index = {}


def _load_index(filename):
    if filename in _index:
        return _index[filename]
    table = {}
    tree = ast.parse(open(filename, encoding='utf-8').read())
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            line = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                line = min(d.lineno for d in n.decorator_list)
            table.setdefault((line, getattr(n, 'name', '<lambda>')), n)
    _index[filename] = table
    return table


def in_repo(f):
    return getattr(f, '__module__', None) is not None and \
        (f.__module__ == PKG or f.__module__.startswith(PKG + '.'))


def node_of(f):
    code = f.__code__
    n = _load_index(code.co_filename).get((code.co_firstlineno, code.co_name))
    if n is None:
        raise Unsupported('no source for %s' % f.__qualname__)
    return n


def fname(f):
    return '%s.%s' % (f.__module__.split('.', 1)[-1], f.__qualname__)


class _Return(BaseException):
    def __init__(self, value):
        self.value = value


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class Frame(object):
    def __init__(self, node, glob, parent=None, name='?', cls=None):
        self.node, self.glob, self.parent = node, glob, parent
        self.vars = {}
        self.name = name
        self.cls = cls
        self.nonlocals = set()
        self.emit = None             # consumer of the yielded values
        self.loops = 0


class IFunc(object):
    """A function or lambda created while interpreting."""

    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.call(self, a, k)


class IGen(object):
    """A generator that has not been started."""

    def __init__(self, start):
        self.start = start           # start(emit, consumer)


class FrameRef(object):
    """The frame that consumes a generator (part of its loops' state)."""

    def __init__(self, frame):
        self.frame = frame


class BoundModel(object):
    """method `name` of a symbolic container or string"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SIter(object):
    """An iterable: a sequence, optionally numbered from `start`."""

    def __init__(self, seq, start=None):
        self.seq, self.start = seq, start


_gen_cache = {}


def is_generator(node):
    if node not in _gen_cache:
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = found
    return _gen_cache[node]


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv,
        ast.Pow: operator.pow, ast.BitAnd: operator.and_,
        ast.BitOr: operator.or_, ast.BitXor: operator.xor}
_IOP = {ast.Add: operator.iadd}


def raise_in(cls, *args):
    raise cls(*args)


class Interp(object):
    whiles = {}
    MAX_UNROLL = 40

    def __init__(self, stubs=None):
        self.stubs = stubs or {}
        self.ext = {}                # contracts of library functions
        self.recursive = None        # contract of a call of itself
        self.entering = None         # generalises the arguments of a closure
        self.active = []
        self.environment = []        # (real object, abstract object)
        self.depth = 0
        self.fresh_stack = []        # objects created inside cut loops
        self.keep = []
        from . import models
        self.models = models

    # ------------------------------------------------------------ heap
    def new(self, obj):
        """Register an object created by the interpreted code."""
        for s in self.fresh_stack:
            s['fresh'].add(id(obj))
        self.keep.append(obj)
        return obj

    def wrote(self, obj, kind='body', key=None):
        if isinstance(obj, SStringIO) and obj.owner is not None:
            obj = obj.owner
        for s in self.fresh_stack:
            if id(obj) in s['fresh']:
                continue
            path = s['paths'].get(id(obj))
            if path is None:
                raise Unsupported('write outside of the loop frame: %r'
                                  % (type(obj),))
            s['written'].add((kind, path) if kind == 'body'
                             else (kind, path, key))

    def wrote_var(self, frame, name):
        for s in self.fresh_stack:
            i = s['frames'].get(id(frame))
            if i is not None:
                s['written'].add(('var', i, name))

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion')
        try:
            return self._call(f, list(args), dict(kwargs))
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, IFunc):
            if self.recursive is not None and f.node in self.active:
                return self.recursive(self, *args, **kwargs)
            if self.entering is not None:
                self.entering(args)
            return self.run(f.node, f.frame.glob, f.frame, f.defaults,
                            f.kwdefaults, args, kwargs,
                            f.frame.name + '.' + f.__name__, f.frame.cls)
        if isinstance(f, BoundModel):
            return self.models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, types.FunctionType) and in_repo(f):
            name = fname(f)
            stub = self.stubs.get(name)
            if stub is not None:
                ctx().stubbed.add(name)
                args, kwargs = self.models.in_order(f, args, kwargs)
                r = self.models.bind(stub, name, self, *args, **kwargs)
                if isinstance(r, SSeq) and is_generator(node_of(f)):
                    return SIter(r)
                return r
            ctx().inlined.add(name)
            if self.recursive is not None and node_of(f) in self.active:
                ctx().stubbed.add(name)
                args, kwargs = self.models.in_order(f, args, kwargs)
                return self.models.bind(self.recursive, name, self, *args,
                                        **kwargs)
            return self.run(node_of(f), f.__globals__, None,
                            list(f.__defaults__ or ()),
                            dict(f.__kwdefaults__ or {}), args, kwargs, name,
                            self.owner(f))
        if isinstance(f, type) and in_repo(f) and \
                issubclass(f, logging.LoggerAdapter):
            ctx().assumed.add('%s only writes to the log' % f.__name__)
            return logging.LoggerAdapter(logging.getLogger('pv'), {})
        if isinstance(f, type) and in_repo(f) and \
                not issubclass(f, BaseException):
            name = '%s.%s' % (f.__module__.split('.', 1)[-1], f.__qualname__)
            stub = self.stubs.get(name)
            if stub is not None:
                ctx().stubbed.add(name)
                args, kwargs = self.models.in_order(f, args, kwargs)
                return self.models.bind(stub, name, self, *args, **kwargs)
            init = self.class_attr(f, '__init__')
            if isinstance(init, types.FunctionType) and in_repo(init):
                obj = self.new(f.__new__(f))
                self._call(init, [obj] + args, kwargs)
                return obj
            return self.new(f(*args, **kwargs))
        try:
            ext = self.ext.get(f)
        except TypeError:
            ext = None
        if ext is not None:
            ctx().assumed.add('contract of %s.%s' % (
                getattr(f, '__module__', '?'), f.__name__))
            return self.models.bind(ext, f.__name__, self, *args, **kwargs)
        return self.models.call(self, f, args, kwargs)

    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def owner(self, f):
        parts = f.__qualname__.split('.')
        if len(parts) < 2:
            return None
        o = sys.modules.get(f.__module__)
        for p in parts[:-1]:
            o = getattr(o, p, None)
        return o

    def run(self, node, glob, parent, defaults, kwdefaults, args, kwargs,
            name, cls=None):
        fr = Frame(node, glob, parent, name, cls)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            raise TypeError('%s() takes %d arguments' % (name, len(names)))
        for n, v in zip(names, args):
            fr.vars[n] = v
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in fr.vars:
                    raise TypeError('multiple values for %s' % k)
                fr.vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise TypeError('unexpected argument %s' % k)
        if a.kwarg:
            fr.vars[a.kwarg.arg] = extra
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n not in fr.vars:
                if i >= off:
                    fr.vars[n] = defaults[i - off]
                else:
                    raise TypeError('missing argument %s' % n)
        for x in a.kwonlyargs:
            if x.arg not in fr.vars:
                fr.vars[x.arg] = kwdefaults[x.arg]
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if is_generator(node):
            def start(emit, consumer, fr=fr):
                fr.emit = emit
                fr.vars['*consumer'] = consumer
                self.body_of(node, fr)
            return IGen(start)
        return self.body_of(node, fr)

    def body_of(self, node, fr):
        self.active.append(node)
        try:
            self.block(node.body, fr)
        except _Return as r:
            return r.value
        finally:
            self.active.pop()
        return None

    # ------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        getattr(self, 's_' + type(s).__name__, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Unsupported('statement %s' % type(s).__name__)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            self.assign(t, self.augop(s.op, old, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr,
                         self.augop(s.op, old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            old = self.models.getitem(self, obj, k)
            self.models.setitem(self, obj, k, self.augop(
                s.op, old, self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, old, v):
        if isinstance(op, ast.Add) and isinstance(old, SList):
            self.models.method(self, old, 'extend', [v], {})
            return old
        return self.binop(op, old, v)

    def s_Return(self, s, fr):
        raise _Return(None if s.value is None else self.eval(s.value, fr))

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse,
                   fr)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.vars.get('*exc') is None:
                raise Unsupported('re-raise')
            raise fr.vars['*exc']
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = e()
        if not isinstance(e, BaseException):
            raise Unsupported('raise of %r' % (e,))
        raise e

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError()

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        t = tuple(t) if isinstance(t, (tuple, SSeq)) else t
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            fr.vars[h.name] = e
                        old = fr.vars.get('*exc')
                        fr.vars['*exc'] = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.vars['*exc'] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Unsupported, Restart):
            raise
        except BaseException:
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            v = self.models.enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)
        for it in s.items:
            pass

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f])
        self.store(s.name, f, fr)

    def make_func(self, node, fr, name):
        a = node.args
        d = [self.eval(x, fr) for x in a.defaults]
        kd = dict((k.arg, self.eval(v, fr)) for k, v in
                  zip(a.kwonlyargs, a.kw_defaults) if v is not None)
        return IFunc(self, node, fr, d, kd, name)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
                self.wrote_var(fr, t.id)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr),
                                    self.eval_index(t.slice, fr))
            else:
                raise Unsupported('del')

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            self.store(a.asname or a.name.split('.')[0],
                       m if a.asname else sys.modules[a.name.split('.')[0]],
                       fr)

    def s_ImportFrom(self, s, fr):
        pkg = fr.glob.get('__package__') or PKG
        name = ('.' * s.level + (s.module or ''))
        m = importlib.import_module(name, pkg) if s.level else \
            importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + '.' + a.name)
            self.store(a.asname or a.name, v, fr)

    # ------------------------------------------------------------ loops
    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, IGen):
            return self.for_gen(s, it, fr)
        it = self.models.iterate(self, it)
        from . import loops
        try:
            loops.run_for(self, s, it, fr)
        except _Break:
            return
        self.block(s.orelse, fr)

    def for_gen(self, s, gen, fr):
        class Stop(BaseException):
            pass

        def emit(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                raise Stop()
            except _Return as r:
                r2 = _Return(r.value)
                raise _GenReturn(r2, fr)
        try:
            gen.start(emit, FrameRef(fr))
        except Stop:
            return
        except _GenReturn as g:
            if g.fr is fr:
                raise g.ret
            raise
        self.block(s.orelse, fr)

    def s_While(self, s, fr):
        from . import loops
        b = s.body[0]
        if isinstance(s.test, ast.Constant) and s.test.value and \
                not s.orelse and len(s.body) > 1 and \
                isinstance(b, ast.If) and not b.orelse and \
                len(b.body) == 1 and isinstance(b.body[0], ast.Break):
            # while True: if c: break  is  while not c
            w = self.whiles.get(s)
            if w is None:
                w = self.whiles[s] = ast.copy_location(ast.While(
                    ast.copy_location(ast.UnaryOp(ast.Not(), b.test), b),
                    s.body[1:], []), s)
            s = w
        try:
            loops.run_while(self, s, fr)
        except _Break:
            return
        self.block(s.orelse, fr)

    # ------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.eval(t.value, fr),
                                self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts)) if not any(
                isinstance(e, ast.Starred) for e in t.elts) else None
            if vals is None:
                raise Unsupported('starred assignment')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, (SSeq, SList)):
            l = seq_of(v).concrete()
            if l is None:
                ln = seq_of(v).length()
                if not ctx().branch(zint(ln) == n, 'unpack'):
                    raise ValueError('unpack')
                return [seq_of(v).at(i) for i in range(n)]
        else:
            try:
                l = list(v)
            except TypeError:
                if not (is_sym(v) or self.models.ours(v)):
                    raise
                l = seq_of(self.models.as_seq(self, v)).concrete()
                if l is None:
                    raise Unsupported('unpacking %r' % (v,))
        if len(l) != n:
            raise ValueError('wrong number of values to unpack')
        return l

    def store(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    self.wrote_var(f, name)
                    return
                f = f.parent
        fr.vars[name] = v
        self.wrote_var(fr, name)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('no invariant for %s' % name)
                return v
            f = f.parent
        if name in fr.glob:
            return self.subst(fr.glob[name])
        if hasattr(_bi, name):
            return getattr(_bi, name)
        # assigned later in this function
        raise UnboundLocalError(name)

    def subst(self, v):
        """Objects of the environment that have a contract."""
        for x, o in self.environment:
            if v is x:
                return o
        return v

    def setattr(self, obj, name, v):
        if is_sym(obj):
            raise Unsupported('attribute of a symbolic value')
        if hasattr(obj, '__pv_setattr__'):
            return obj.__pv_setattr__(self, name, v)
        if isinstance(obj, (type, types.ModuleType, types.FunctionType)):
            raise Unsupported('writes %s of %r' % (name, obj))
        d = self.class_attr(type(obj), name)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError(name)
            self.call(d.fset, [obj, v])
            return
        self.wrote(obj, 'attr', name)
        object.__setattr__(obj, name, v)

    def getattr(self, obj, name):
        if isinstance(obj, Poison):
            raise Unsupported('no invariant for %r' % obj)
        if hasattr(obj, '__pv_getattr__'):
            return obj.__pv_getattr__(self, name)
        if isinstance(obj, (SStr, SSeq, SList, SDict, SSet, SStringIO, str,
                            bytes)):
            if name == '__class__':
                return self.models.class_of(obj)
            return BoundModel(obj, name)
        if isinstance(obj, (tuple, list, dict, set, frozenset)) and \
                not hasattr(type(obj), '_fields') and \
                not in_repo(type(obj)):
            if name == '__class__':
                return self.models.class_of(obj)
            return BoundModel(obj, name)
        if isinstance(obj, IGen):
            raise Unsupported('generator attribute')
        if not isinstance(obj, (type, types.ModuleType)) and \
                not isinstance(obj, super):
            d = self.class_attr(type(obj), name)
            if isinstance(d, property) and d.fget is not None and \
                    isinstance(d.fget, types.FunctionType) and \
                    in_repo(d.fget):
                return self.call(d.fget, [obj])
            if d is not None and in_repo(type(d)) and \
                    hasattr(type(d), '__get__') and \
                    isinstance(type(d).__get__, types.FunctionType):
                if name in getattr(obj, '__dict__', {}):
                    return obj.__dict__[name]
                return self.call(type(d).__get__, [d, obj, type(obj)])
        if isinstance(obj, super):
            # properties reached through super()
            thisc, selfo = obj.__thisclass__, obj.__self__
            mro = type(selfo).__mro__
            for k in mro[mro.index(thisc) + 1:]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, property) and in_repo(d.fget):
                        return self.call(d.fget, [selfo])
                    break
        v = self.subst(self.models.guard(getattr, obj, name))
        if isinstance(v, Poison):
            raise Unsupported('no invariant for attribute %s' % name)
        if name == '__dict__' and isinstance(v, dict):
            ctx().cache.setdefault('dicts', []).append(v)
        return v

    # ------------------------------------------------------ expressions
    def eval(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, fr)

    def e_unknown(self, e, fr):
        raise Unsupported('expression %s' % type(e).__name__)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr)
                           for x in (e.lower, e.upper, e.step)])
        return self.eval(e, fr)

    def e_Subscript(self, e, fr):
        return self.models.getitem(self, self.eval(e.value, fr),
                                   self.eval_index(e.slice, fr))

    def e_Tuple(self, e, fr):
        l = self.elements(e.elts, fr)
        return tuple(l)

    def elements(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.models.native_list(
                    self, self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new(SList(self.elements(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.new(SSet(self.elements(e.elts, fr)))

    def e_Dict(self, e, fr):
        d = self.new(SDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('** in a dict')
            self.models.setitem(self, d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr))
                         else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SBool) else False
            if not is_and and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                import z3
                return mkbool(z3.Not(v.z))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.models.guard(operator.neg, v)
        if isinstance(e.op, ast.UAdd):
            return self.models.guard(operator.pos, v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('no invariant for %r' % x)
        for x in (a, b):
            if hasattr(x, '__pv_binop__'):
                return x.__pv_binop__(self, type(op).__name__, a, b)
        if isinstance(op, ast.Mod):
            if isinstance(a, (str, SStr)):
                return self.models.percent(self, a, b)
            return self.models.guard(operator.mod, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (SList, SSeq, list, tuple)) and \
                    isinstance(b, (SList, SSeq, list, tuple)):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                r = SSeq(seq_of(a).parts + seq_of(b).parts)
                return self.new(SList(r)) if isinstance(a, (SList, list)) \
                    else r
        if isinstance(op, ast.Mult):
            if isinstance(a, (str, SStr)) and isinstance(b, SInt):
                if val.length(a) == 1 if isinstance(val.length(a), int) \
                        else False:
                    return val.rep(a, b)
        if isinstance(a, (SSet, set, frozenset)) and \
                isinstance(b, (SSet, set, frozenset)):
            return self.models.setop(self, type(op).__name__, a, b)
        f = _BIN.get(type(op))
        if f is None:
            raise Unsupported('operator %s' % type(op).__name__)
        return self.models.guard(f, a, b)

    def truth(self, v):
        if isinstance(v, (bool, SBool, SInt, SStr, SSeq, SList)):
            return bool(v)
        if isinstance(v, Poison):
            raise Unsupported('no invariant for %r' % v)
        if isinstance(v, SSet):
            return bool(v.seq)
        if isinstance(v, SDict):
            return self.models.dict_truth(self, v)
        if hasattr(v, '__pv_truth__'):
            return v.__pv_truth__(self)
        t = type(v)
        if in_repo(t):
            for n in ('__bool__', '__len__'):
                d = self.class_attr(t, n)
                if isinstance(d, types.FunctionType) and in_repo(d):
                    return self.truth(self.call(d, [v]))
        if isinstance(v, (IFunc, IGen, BoundModel)):
            return True
        return bool(v)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return False
            left = right

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('no invariant for %r' % x)
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            same = a is b or (a is not None and b is not None and
                              type(a) is type(b) and
                              isinstance(a, (bool, int, str)) and a == b)
            if isinstance(a, SBool) or isinstance(b, SBool):
                same = self.eq(a, b)
            return same if t is ast.Is else self.neg(same)
        if t is ast.In:
            return self.models.contains(self, b, a)
        if t is ast.NotIn:
            return self.neg(self.models.contains(self, b, a))
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            d = self.special(a, '__ne__', b)
            if d is not NotImplemented:
                return d
            return self.neg(self.eq(a, b))
        for x in (a, b):
            if hasattr(x, '__pv_compare__'):
                return x.__pv_compare__(self, t.__name__, a, b)
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
                 ast.GtE: '__ge__'}
        d = self.special(a, names[t], b)
        if d is not NotImplemented:
            return d
        if isinstance(a, (SSet, set, frozenset)) or \
                isinstance(b, (SSet, set, frozenset)):
            return self.models.setcmp(self, t.__name__, a, b)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
             ast.GtE: operator.ge}[t]
        return self.models.guard(f, a, b)

    def special(self, a, name, *args):
        if is_sym(a) or a is None or not in_repo(type(a)):
            return NotImplemented
        d = self.class_attr(type(a), name)
        if isinstance(d, types.FunctionType) and in_repo(d):
            return self.call(d, [a] + list(args))
        return NotImplemented

    def neg(self, v):
        if isinstance(v, SBool):
            import z3
            return mkbool(z3.Not(v.z))
        return not self.truth(v)

    def eq(self, a, b):
        d = self.special(a, '__eq__', b)
        if d is not NotImplemented:
            return d
        if not is_sym(a):
            d = self.special(b, '__eq__', a)
            if d is not NotImplemented:
                return d
        if isnum2(a) and isnum2(b):
            r = veq(a, b)
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
            x, y = seq_of(a).concrete(), seq_of(b).concrete()
            if x is not None and y is not None:
                return len(x) == len(y) and \
                    all(self.truth(self.eq(p, q)) for p, q in zip(x, y))
        if is_sym(a) or is_sym(b) or hasattr(a, '__veq__') or \
                hasattr(b, '__veq__'):
            return decide_eq(a, b)
        return a == b

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        if f is super and not e.args:
            return self.zero_super(fr)
        if f is set.union and len(e.args) == 1 and \
                isinstance(e.args[0], ast.Starred) and not e.keywords:
            return self.models.union_all(self, self.eval(
                e.args[0].value, fr))
        args = self.elements(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, SDict):
                    v = dict(v.items)
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def zero_super(self, fr):
        f = fr
        while f.cls is None and f.parent is not None:
            f = f.parent
        if f.cls is None:
            raise Unsupported('super()')
        first = f.node.args.args[0].arg
        return super(f.cls, f.vars[first])

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        fr.emit(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, IGen):
            v.start(fr.emit, FrameRef(fr))
            return None
        for x in self.models.native_list(self, v):
            fr.emit(x)
        return None

    def e_JoinedStr(self, e, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = out + v.value
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                x = self.eval(v.value, fr)
                if v.conversion == 114:
                    x = self.models.to_repr(self, x)
                out = out + self.models.to_str(self, x)
        return out

    # comprehension: a map over a sequence (filters only on known elements)
    def e_ListComp(self, e, fr):
        return self.new(SList(self.comp(e, e.elt, fr)))

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, e.elt, fr)

    def e_SetComp(self, e, fr):
        return self.new(SSet(self.comp(e, e.elt, fr)))

    def e_DictComp(self, e, fr):
        d = self.new(SDict())
        for kv in self.comp(e, ast.Tuple([e.key, e.value], ast.Load()), fr):
            self.models.setitem(self, d, kv[0], kv[1])
        return d

    def comp(self, e, elt, fr):
        return self._comp(e.generators, elt, fr)

    def unknown(self, it):
        return (isinstance(it.seq, SStr) and
                any(isinstance(x, Atom) for x in it.seq.segs)) or \
            (not isinstance(it.seq, SStr) and it.seq.concrete() is None)

    def specified(self, it):
        from . import loops
        if isinstance(it.seq, SStr):
            return loops.text_spec(it.seq.segs) is not None
        s = loops.seq_spec(list(it.seq.parts))[0]
        return s is not None and getattr(s, 'comprehensions', False)

    def _comp(self, gens, elt, fr):
        g = gens[0]
        it = self.eval(g.iter, fr)
        if isinstance(it, IGen):
            it = SSeq(seq_of(self.models.native_list(self, it)).parts)
        it = self.models.iterate(self, it)
        if isinstance(it, self.models.Reversed):
            it = SIter(val.reverse(it.seq))
        if not isinstance(it, SIter):
            raise Unsupported('comprehension over a reversed sequence')

        def one(x):
            f = Frame(fr.node, fr.glob, fr, fr.name, fr.cls)
            self.assign(g.target, x, f)
            return f

        if self.unknown(it) and (it.start is not None or len(gens) > 1 or
                                 g.ifs or self.specified(it)):
            out = self.new(SList())
            cf = Frame(fr.node, fr.glob, fr, fr.name + '.<comp>', fr.cls)
            cf.vars = {'*out': out}

            def body(x):
                f = one(x)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    if len(gens) > 1:
                        self.models.method(self, out, 'extend', [
                            self._comp(gens[1:], elt, f)], {})
                    else:
                        self.models.method(self, out, 'append',
                                           [self.eval(elt, f)], {})
            from . import loops
            loops.run_stream(self, it, body, cf, g.target)
            return out.seq
        seq = self.models.numbered(it)
        if len(gens) > 1 or g.ifs:
            out = []
            l = seq.concrete()
            for x in l:
                f = one(x)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    if len(gens) > 1:
                        out.extend(self._comp(gens[1:], elt, f).parts)
                    else:
                        out.append(('e', self.eval(elt, f)))
            return SSeq(out)
        if seq.concrete() is None:
            fr = freeze_frame(fr)        # the elements are evaluated later
        done = []
        p_lazy = seq.concrete() is None

        def element(x):
            evs = len(ctx().events)
            try:
                v = self.eval(elt, one(x))
                if len(ctx().events) != evs and p_lazy:
                    raise Unsupported('effects in a comprehension')
                return v
            except Exception:
                if done:                 # not an element that was passed
                    raise PathEnd()
                raise
        r = seq.map(element)
        for p in r.parts:
            if isinstance(p, SeqAtom):
                # evaluate it for an arbitrary element: exceptions, branches
                if ctx().branch(p.base.zlen > 0, 'elements'):
                    p.fn(val.generic(p.base))
                else:
                    p.base.expand([])
        r = SSeq(r.parts)
        done.append(True)
        return r


def freeze_frame(fr):
    if fr is None:
        return None
    f = Frame(fr.node, fr.glob, freeze_frame(fr.parent), fr.name, fr.cls)
    f.vars = dict(fr.vars)
    f.nonlocals, f.emit = fr.nonlocals, fr.emit
    return f


class _GenReturn(BaseException):
    def __init__(self, ret, fr):
        self.ret, self.fr = ret, fr


def isnum2(x):
    return isinstance(x, (int, SInt, SBool))
