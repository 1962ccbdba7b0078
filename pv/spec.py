"""The mathematical specification, written from the property statements only.

Nothing here imports the code under verification.  Everything works on plain
Python values; the concrete oracles (cases.py) and the ghost code of the
contracts use these definitions.
"""
import re

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGITS = '0123456789'
SYMBOL = '%&_@#;:,=<>~/'
ESCAPE = '.+\\"\'()[]{}*$^?|!-'
SIGNS = SYMBOL + ESCAPE
RULE = {}
for _c in LOWER:
    RULE[_c] = 'a-z'
for _c in UPPER:
    RULE[_c] = 'A-Z'
for _c in DIGITS:
    RULE[_c] = '0-9'
for _c in SYMBOL:
    RULE[_c] = _c
for _c in ESCAPE:
    RULE[_c] = '\\' + _c
RULES = frozenset(RULE.values())
ALNUM_RULES = frozenset(['a-z', 'A-Z', '0-9'])
SIGN_RULES = RULES - ALNUM_RULES
SIGN_OF = dict((RULE[c], c) for c in SIGNS)
MIXED = ALNUM_RULES | frozenset(['%'])


class Reject(Exception):
    """The specification says the input is rejected; args[0]: kind."""


def specify(rule, num):
    if num == 1:
        return '[' + rule + ']'
    if num < 0:
        return '[' + rule + ']+'
    return '[' + rule + ']{' + str(num) + '}'


def runs(s):
    """Maximal runs of one character space: [(rule, text)]."""
    out = []
    for c in s:
        if c not in RULE:
            raise Reject('char')
        r = RULE[c]
        if out and out[-1][0] == r:
            out[-1] = (r, out[-1][1] + c)
        else:
            out.append((r, c))
    return out


def run_text(rule, text):
    return text if rule in ALNUM_RULES else specify(rule, len(text))


def piece_texts(s):
    return [run_text(r, t) for r, t in runs(s)]


def piece_text(s):
    return ''.join(piece_texts(s))


def fuzzy(s):
    return ''.join(sorted(set(r for r, _ in runs(s))))


def normalized(s, reserved=()):
    out = []
    for r, t in runs(s):
        if r in ALNUM_RULES or t[0] in (reserved or ()):
            out.append(t)
        else:
            out.append(specify(r, len(t)))
    return ''.join(out)


def decode(text):
    """The one string a canonical literal text stands for."""
    out, i = [], 0
    while i < len(text):
        if text[i] != '[':
            out.append(text[i])
            i += 1
            continue
        n = 2 if text[i + 1] == '\\' else 1
        sign = SIGN_OF[text[i + 1:i + 1 + n]]
        i += 1 + n
        if text[i] != ']':
            raise ValueError(text)
        i += 1
        num = 1
        if i < len(text) and text[i] == '{':
            e = text.index('}', i)
            num = int(text[i + 1:e])
            i = e + 1
        out.append(sign * num)
    return ''.join(out)


def query(q):
    """keys, values of a query string (None: no query)."""
    if q is None:
        return (), ()
    if q == '':
        return ('',), ('',)
    items = q.split('&')
    if not all(items):
        raise Reject('query')
    if len(items) == 1 and '=' not in q:
        return ('',), (q,)
    keys, values = [], []
    for it in items:
        k, e, v = it.partition('=')
        keys.append(k + e)
        values.append(v)
    return tuple(keys), tuple(values)


def levels(path):
    """Path levels without the empty ones, except a trailing one."""
    l = path.split('/')[1:]
    return [x for i, x in enumerate(l) if x or i == len(l) - 1]


def url_parts(url):
    """(path, query, fragment) as written; url is scheme://netloc/..."""
    rest = url[url.index('://') + 3:]
    frag = q = None
    if '#' in rest:
        rest, _, frag = rest.partition('#')
    if '?' in rest:
        rest, _, q = rest.partition('?')
    i = rest.find('/')
    path = rest[i:] if i >= 0 else ''
    # the parameters of the last level are not part of the path
    j = path.rfind('/')
    k = path.find(';', j + 1)
    if k >= 0:
        path = path[:k]
    return path, q, frag


def url(u):
    """((path_depth, normalised keys, has_fragment), raw pieces)."""
    path, q, frag = url_parts(u)
    lv = levels(path)
    if not lv:
        raise Reject('depth')
    keys, values = query(q)
    keys = tuple(normalized(k, '=') for k in keys)
    pieces = list(lv) + list(values)
    if frag is not None:
        pieces.append(frag)
    return (len(lv), keys, frag is not None), tuple(pieces)


def loadable(u):
    """url(u) when every piece is over the supported characters."""
    meta, pieces = url(u)
    for p in pieces:
        runs(p)
    return meta, pieces


def signature(u):
    meta, pieces = loadable(u)
    return meta, tuple(frozenset(r for r, _ in runs(p)) for p in pieces)


def pattern_parts(text):
    """((path_depth, keys, has_fragment), pattern texts) of a packed text."""
    frag = q = None
    i = text.find('#')
    if i >= 0:
        text, frag = text[:i], text[i + 1:]
    i = text.find('[\\?]')
    if i >= 0:
        text, q = text[:i], text[i + 4:]
    lv = levels(text)
    keys, values = query(q)
    parts = list(lv) + list(values)
    if frag is not None:
        parts.append(frag)
    return (len(lv), keys, frag is not None), tuple(parts)


_UNIT = re.compile(
    r'([a-z]+|[A-Z]+|[0-9]+)'
    r'|\[((?:0-9|a-z|A-Z|\\[.+\\"\'()\[\]{}*$^?|!\-]|[%&_@#;:,=<>~/])+)\]'
    r'(?:\{([0-9]+)\}|(\+))?')


def units(text):
    """[(unit text, frozenset rules, num)], num -1: unbounded."""
    if text == '':
        return [('', frozenset(['']), 1)]
    out, i = [], 0
    while i < len(text):
        m = _UNIT.match(text, i)
        if m is None:
            raise Reject('pattern')
        if m.group(1) is not None:
            u = (m.group(0), frozenset([RULE[m.group(1)[0]]]),
                 len(m.group(1)))
        else:
            rules, t, j = set(), m.group(2), 0
            while j < len(t):
                n = 2 if t[j] == '\\' else 3 if t[j].isalnum() else 1
                rules.add(t[j:j + n])
                j += n
            num = -1 if m.group(4) else int(m.group(3)) if m.group(3) else 1
            if num == 0 or 0 < num < len(rules):
                raise Reject('pattern')
            u = (m.group(0), frozenset(rules), num)
        out.append(u)
        i = m.end()
    return out


def unit_literal(u):
    t, rules, num = u
    if not t.startswith('['):
        return True
    return len(rules) == 1 and num > 0 and not (rules & ALNUM_RULES)


def pattern_rank(text):
    """3 literal, 2 partly generalised, 1 whole fixed length, 0 wildcard."""
    us = units(text)
    if all(unit_literal(u) for u in us):
        return 3
    if len(us) > 1:
        return 2
    return 1 if us[0][2] > 0 else 0


def rule_set(text):
    """Character spaces a pattern text uses."""
    s = set()
    for _, rules, _ in units(text):
        s |= rules
    return frozenset(s)


def strict_match(pattern_text, u):
    """Does the packed pattern strictly match the URL?  (C04)"""
    meta, pieces = loadable(u)
    pmeta, parts = pattern_parts(pattern_text)
    if meta != pmeta or len(parts) != len(pieces):
        return False
    for t, raw in zip(parts, pieces):
        if re.fullmatch(t, raw) is None:
            return False
        spaces = frozenset(r for r, _ in runs(raw)) or frozenset([''])
        if rule_set(t) != spaces:
            return False
    return True


def covers(pattern_text, u):
    """C01: structure and regex of every position."""
    meta, pieces = loadable(u)
    pmeta, parts = pattern_parts(pattern_text)
    if meta != pmeta or len(parts) != len(pieces):
        return False
    return all(re.fullmatch(t, raw) is not None
               for t, raw in zip(parts, pieces))


def cut(view, rs):
    """The runs of a piece, in the parts of a view."""
    if view == 'multi':
        return [[r] for r in rs]
    if view == 'mixed':
        out = []
        for r in rs:
            if out and r[0] in MIXED and out[-1][-1][0] in MIXED:
                out[-1].append(r)
            else:
                out.append([r])
        return out
    dots = [i for i, r in enumerate(rs) if r[0] == RULE['.']]
    if not dots or dots[-1] < len(rs) - 3 or not all(
            r[0] in ALNUM_RULES for r in rs[dots[-1] + 1:]):
        return [rs]
    d = dots[-1]
    return [x for x in (rs[:d], rs[d:d + 1], rs[d + 1:]) if x]


def part_patterns(part):
    """What a part of a piece may get: its text, its length, a wildcard."""
    rule = ''.join(sorted(set(r for r, _ in part)))
    return [''.join(run_text(r, t) for r, t in part),
            specify(rule, sum(len(t) for _, t in part)), specify(rule, -1)]
