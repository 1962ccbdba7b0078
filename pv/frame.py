"""What keeps state from one call to the next in the source of /repo.

A contract is proved for objects in any state their fields can have.  That
argument covers the fields it knows: the inventory of this module lists every
name through which a function can leave something behind (attributes written
or changed in place outside of constructors, changed globals and defaults,
caching decorators, dynamic writes), and the frame condition is that there is
nothing else than KNOWN."""
import ast
import glob
import os

MUTATORS = set('append add update pop setdefault extend insert clear remove '
               'discard popitem sort reverse appendleft popleft move_to_end '
               'write writelines seek truncate intersection_update '
               'difference_update symmetric_difference_update send '
               '__setitem__ __setattr__ __delitem__ subtract'.split())
PLAIN = {'property', 'staticmethod', 'classmethod', 'total_ordering',
         'abstractmethod', 'setter', 'unique', 'wraps'}
DYNAMIC = {'setattr', 'delattr', 'vars', 'globals', 'locals', 'exec', 'eval'}


def name_of(e):
    while isinstance(e, (ast.Call, ast.Subscript)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '?')


class Function(object):
    """One function: its locals and what they may be another name of."""

    def __init__(self, node, outer, out):
        self.node, self.outer, self.out = node, outer, out
        a = node.args
        self.params = set(x.arg for x in a.posonlyargs + a.args +
                          a.kwonlyargs + [y for y in (a.vararg, a.kwarg)
                                          if y])
        pos = (a.posonlyargs + a.args)[::-1]
        self.shared = set(x.arg for x, d in list(zip(pos, a.defaults[::-1])) +
                          [p for p in zip(a.kwonlyargs, a.kw_defaults)
                           if p[1] is not None]
                          if not isinstance(d, (ast.Constant, ast.Tuple,
                                                ast.Name, ast.Attribute)))
        self.locals, self.alias = set(self.params), {}
        self.init = getattr(node, 'name', '') in ('__init__', '__new__')
        self.body = node.body if isinstance(node.body, list) else [node.body]
        for x in self.walk():
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                self.locals.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
        for x in self.walk():
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                for n in x.names:
                    self.locals.discard(n)
                    if isinstance(x, ast.Global):
                        out.add(('global', n))
        for x in self.walk():
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.alias.setdefault(t.id, []).append(x.value)
            if isinstance(x, ast.NamedExpr):
                self.alias.setdefault(x.target.id, []).append(x.value)

    def walk(self):
        """The nodes of the function without those of inner functions."""
        todo = list(self.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    def changed(self, e, seen=()):
        """The object that e gives is changed in place."""
        if isinstance(e, ast.Call):          # of what a call gives
            if isinstance(e.func, ast.Attribute) and \
                    e.func.attr in ('setdefault', 'get', '__getitem__'):
                self.changed(e.func.value, seen)
            return
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self.changed(e.value, seen)
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.changed(x, seen)
            return
        if isinstance(e, ast.Attribute):
            own = isinstance(e.value, ast.Name) and e.value.id == 'self'
            if not (own and self.init):
                self.out.add(('attr', e.attr))
            return
        if isinstance(e, ast.Name):
            if e.id in seen:
                return
            f = self
            while f is not None and e.id not in f.locals:
                f = f.outer
            if f is None:
                self.out.add(('global', e.id))
                return
            if e.id in f.shared:
                self.out.add(('default', e.id))
            for v in f.alias.get(e.id, ()):
                f.changed(v, tuple(seen) + (e.id,))

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Attribute):
            self.changed(t)
        elif isinstance(t, ast.Subscript):
            self.changed(t.value)

    def run(self):
        for x in self.walk():
            if isinstance(x, (ast.Assign, ast.Delete)):
                for t in x.targets:
                    self.target(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)):
                self.target(x.target)
                if isinstance(x, ast.AugAssign) and \
                        isinstance(x.target, ast.Name):
                    self.changed(x.target)
            elif isinstance(x, ast.withitem) and x.optional_vars:
                self.target(x.optional_vars)
            elif isinstance(x, ast.Call):
                n = name_of(x.func)
                if isinstance(x.func, ast.Attribute) and n in MUTATORS:
                    self.changed(x.func.value)
                if isinstance(x.func, ast.Name) and n in DYNAMIC:
                    self.out.add(('dynamic', n))
            elif isinstance(x, ast.Attribute) and x.attr == '__dict__':
                self.out.add(('dynamic', '__dict__'))
            elif isinstance(x, ast.Attribute) and x.attr in MUTATORS and \
                    isinstance(x.ctx, ast.Load):
                self.changed(x.value)        # a bound method, kept
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                inner(x, self, self.out)
            elif isinstance(x, ast.ClassDef):
                scan(x.body, self, self.out)


def inner(node, outer, out):
    for d in getattr(node, 'decorator_list', ()):
        if name_of(d) not in PLAIN:
            out.add(('decorator', name_of(d)))
    Function(node, outer, out).run()


def scan(body, outer, out):
    for x in body:
        if isinstance(x, ast.FunctionDef):
            inner(x, outer, out)
        elif isinstance(x, ast.ClassDef):
            scan(x.body, outer, out)
        else:
            for y in ast.walk(x):
                if isinstance(y, (ast.Lambda, ast.FunctionDef)):
                    inner(y, outer, out)


def inventory(src):
    """module -> what it finds there"""
    out = {}
    for p in sorted(glob.glob(os.path.join(src, '**', '*.py'),
                              recursive=True)):
        found = set()
        with open(p, encoding='utf-8') as f:
            scan(ast.parse(f.read()).body, None, found)
        mod = os.path.splitext(os.path.basename(p))[0]
        out.setdefault(mod, set()).update('%s %s' % x for x in found)
    return out


# module -> what keeps state in it
KNOWN = {
    '__init__': set(),
    'cmdline': {
        'global binary_stdout',
    },
    'compat': set(),
    'definition': set(),
    'exceptions': set(),
    'formatter': set(),
    'parse_utils': {
        'attr _fuzzy_rule',
        'attr _piece',
        'attr _piece_length',
        'attr _pieces',
        'attr _rules',
    },
    'parsed_piece_view': {
        'attr _parsed_pieces',
        'attr _view',
        'attr rules',
    },
    'parser': set(),
    'pattern': {
        'attr _fuzzy_rule',
        'attr _pattern_regex',
        'attr _pattern_units',
    },
    'pattern_cluster': {
        'attr _bucket',
        'attr _buckets',
        'attr _cached',
        'attr _force_pattern',
        'attr _fuzzy_pattern',
        'attr _length_buckets',
        'attr _next_level_processors',
        'attr _objs',
        'attr _p_nodes',
        'attr _patterns',
        'attr stats',
        'decorator cached_property',
    },
    'pattern_maker': {
        'attr _makers',
    },
    'pattern_matcher': {
        'attr _cmp_key',
        'attr _matchers',
        'attr _view_matchers',
    },
    'piece_pattern_node': {
        'attr _pattern',
        'attr count',
        'attr meta',
    },
    'utils': {
        'attr __dict__',
        'attr _children',
        'attr _count',
        'attr _level',
        'attr _objs',
        'attr _start_time',
        'attr count',
        'attr log',
        'attr meta',
        'attr parrent',
        'dynamic __dict__',
        'dynamic setattr',
    },
}
