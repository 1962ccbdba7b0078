"""The interpreter of the verifier against CPython, on concrete inputs."""
import random

from .. import core, gen, interp

_n = [0]
CASES = []


def case(fn):
    """fn(rng) -> (callable of the package, args, view of the result)"""
    CASES.append(fn)
    return fn


def count():
    return _n[0]


def native(v):
    """A comparable picture of a result."""
    from ..val import SSeq, SList, SSet, SDict, SStringIO
    if isinstance(v, (SSeq, SList)):
        l = (v if isinstance(v, SSeq) else v.seq).concrete()
        return [native(x) for x in l]
    if isinstance(v, (tuple, list)):
        return [native(x) for x in v]
    if isinstance(v, (SSet, set, frozenset)):
        s = v.seq.concrete() if isinstance(v, SSet) else v
        return ('set', sorted(map(repr, map(native, set(s)))))
    return v


def outcome(f):
    try:
        return ('ok', native(f()))
    except Exception as e:
        return ('raised', type(e).__name__)


def run(tier):
    """[] or the disagreements; a case out of the subset is skipped."""
    _n[0] = 0
    bad = []
    rng = random.Random('crosscheck')
    for _ in range({'quick': 12, 'thorough': 60}[tier]):
        for c in CASES:
            try:
                fn, args, view = c(rng)
            except (AttributeError, KeyError):
                continue
            want = outcome(lambda: view(fn(*args)))
            got = []

            def thunk():
                I = interp.Interp()
                got.append(outcome(lambda: symview(I, view, I.call(
                    fn, list(args)))))
            try:
                core.Ctx('crosscheck').explore(thunk)
            except core.Unsupported:
                continue
            if len(got) != 1 or got[0] != want:
                bad.append('%s%r: %r, CPython gives %r' % (
                    fn.__qualname__, args, got, want))
                return bad
            _n[0] += 1
    return bad


def symview(I, view, r):
    return view(r)


ALPH = 'ab1Z.-_%=[]{}\\+&/?# ~\u00e9'


def word(rng, alph='abZ19.-%=[]{}\\+'):
    return ''.join(rng.choice(alph) for _ in range(rng.randint(0, 7)))


def ident(x):
    return x


@case
def c_normalize(rng):
    return interp.module('parse_utils').normalize, \
        [word(rng, ALPH), rng.choice([None, frozenset('=')])], ident


@case
def c_query(rng):
    return interp.module('parse_utils').parse_query_string, \
        [word(rng, 'ab=&1')], ident


@case
def c_parse(rng):
    pu = interp.module('parse_utils')

    def f(w):
        return pu.PieceParser().parse(w)
    f = pu.PieceParser().parse
    return f, [word(rng, ALPH)], lambda r: (r.pieces, r.rules)


@case
def c_pattern(rng):
    return interp.module('parse_utils').parse_pattern_string, \
        [''.join(rng.choice(['a', 'b', 'Z', '9', '[a-z]', '[\\]]{2}',
                             '[0-9a-z]+', '[', '{', '}', '\\', '%', '[%]'])
                 for _ in range(rng.randint(0, 5)))], ident


@case
def c_unit(rng):
    return interp.module('parse_utils').parse_pattern_unit_string, \
        [rng.choice(['', 'a', 'ab', '9', '[a-z]', '[a-z0-9]{2}', '[a-z]+',
                     '[\\]]{3}', '[a-z0-9]', '[]', '[a-z]{0}', '[ab]',
                     '[%a-z]+', '[a-z]{x}'])], ident


@case
def c_pattern_url(rng):
    return interp.module('parse_utils').parse_url_pattern_string, \
        [''.join(rng.choice(['/', 'a', '[\\?]', '#', '[', '?', '&', 'b='])
                 for _ in range(rng.randint(0, 6)))], ident


@case
def c_mix(rng):
    n = rng.randint(0, 5)
    return interp.module('parse_utils').mix, \
        [tuple(rng.choice(['a', 'B', '[.]']) for _ in range(n)),
         tuple(rng.choice(['a-z', '0-9', '%', '\\.', 'A-Z'])
               for _ in range(n))], ident


@case
def c_useless(rng):
    return interp.module('parse_utils').filter_useless, \
        [[rng.choice(['', 'a', 'b']) for _ in range(rng.randint(0, 5))]], \
        ident
