"""Python regular expressions as z3 regular languages. Character classes are
computed by asking re itself about every character z3 knows, so case folding,
\\d, \\w and \\s mean what they mean in Python. None where the pattern is outside
the subset (word boundaries, back references, lookbehind, anchors in the
middle): the match is then an uninterpreted predicate."""
import re
import re._parser as sp
from re._constants import (LITERAL, NOT_LITERAL, ANY, IN, RANGE, NEGATE, MAX_REPEAT, MIN_REPEAT,
                           SUBPATTERN, BRANCH, AT, AT_BEGINNING, AT_END, AT_BEGINNING_STRING,
                           AT_END_STRING, MAXREPEAT, CATEGORY, ASSERT, ASSERT_NOT,
                           CATEGORY_DIGIT, CATEGORY_NOT_DIGIT, CATEGORY_SPACE,
                           CATEGORY_NOT_SPACE, CATEGORY_WORD, CATEGORY_NOT_WORD)
import z3

RS = z3.ReSort(z3.StringSort())
TOP = 0x2FFFF
OKFLAGS = re.UNICODE | re.VERBOSE | re.IGNORECASE | re.DOTALL
CATS = {CATEGORY_DIGIT: r'\d', CATEGORY_NOT_DIGIT: r'\D', CATEGORY_SPACE: r'\s',
        CATEGORY_NOT_SPACE: r'\S', CATEGORY_WORD: r'\w', CATEGORY_NOT_WORD: r'\W'}
_cache = {}


class No(Exception):
    pass


def full():
    return z3.Full(RS)


def eps():
    return z3.Re(z3.StringVal(''))


def esc(c):
    return '\\U%08x' % c


def chars(pat, flags):
    """The z3 language of the single characters pat matches."""
    fl = flags & (re.IGNORECASE | re.DOTALL)
    key = (pat, int(fl))
    if key not in _cache:
        m = re.compile(pat, fl).fullmatch
        rs, start = [], None
        for c in range(TOP + 1):
            if m(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                rs.append((start, c - 1))
                start = None
        if start is not None:
            rs.append((start, TOP))
        if not rs:
            raise No()
        _cache[key] = rs
    parts = [z3.Range(ch(a), ch(b)) if a != b else z3.Re(ch(a)) for a, b in _cache[key]]
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


def ch(c):
    return z3.Unit(z3.CharVal(c)) if False else z3.StringVal(chr(c))


def cls_src(av):
    s = ''
    for op, a in av:
        if op is NEGATE:
            s += '^'
        elif op is LITERAL:
            s += esc(a)
        elif op is RANGE:
            s += esc(a[0]) + '-' + esc(a[1])
        elif op is CATEGORY and a in CATS:
            s += CATS[a]
        else:
            raise No()
    return '[' + s + ']'


def cat(a, b):
    return a if b is None else z3.Concat(a, b)


def lang(items, k, flags, first):
    """The language of items followed by k (None: the empty word)."""
    for j in range(len(items) - 1, -1, -1):
        k = one(items[j][0], items[j][1], k, flags, first and j == 0)
    return k


def alone(items, flags):
    if any(op in (AT, ASSERT, ASSERT_NOT) for op, _ in items):
        raise No()
    r = lang(items, None, flags, False)
    return eps() if r is None else r


def one(op, av, k, flags, first):
    if op is LITERAL:
        if flags & re.IGNORECASE:
            return cat(chars(esc(av), flags), k)
        return cat(z3.Re(z3.StringVal(chr(av))), k)
    if op is NOT_LITERAL:
        return cat(chars('[^' + esc(av) + ']', flags), k)
    if op is ANY:
        return cat(chars('.', flags), k)
    if op is IN:
        return cat(chars(cls_src(av), flags), k)
    if op in (MAX_REPEAT, MIN_REPEAT):
        lo, hi, sub = av
        r = alone(list(sub), flags)
        if hi is MAXREPEAT:
            r = z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else \
                z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        else:
            r = z3.Loop(r, lo, hi) if hi else eps()
        return cat(r, k)
    if op is SUBPATTERN:
        if av[1] or av[2]:
            raise No()
        return lang(list(av[3]), k, flags, first)
    if op is BRANCH:
        rs = [lang(list(x), k, flags, first) for x in av[1]]
        return z3.Union(*[eps() if r is None else r for r in rs])
    if op is ASSERT and av[0] == 1:
        a = lang(list(av[1]), full(), flags, False)
        return z3.Intersect(a, eps() if k is None else k)
    if op is ASSERT_NOT and av[0] == 1:
        a = lang(list(av[1]), full(), flags, False)
        return z3.Intersect(z3.Complement(a), eps() if k is None else k)
    if op is AT:
        if av in (AT_BEGINNING, AT_BEGINNING_STRING) and first:
            return k
        if av is AT_END:
            e = z3.Option(z3.Re(z3.StringVal('\n')))
            return eps() if k is None else z3.Intersect(e, k)
        if av is AT_END_STRING:
            return eps() if k is None else z3.Intersect(eps(), k)
    raise No()


def anchored(items):
    while items:
        op, av = items[0]
        if op is AT and av in (AT_BEGINNING, AT_BEGINNING_STRING):
            return True
        if op is not SUBPATTERN:
            return False
        items = list(av[3])
    return False


def language(pattern, mode, flags=0):
    """The set of subjects on which re.<mode>(pattern, s) matches, or None."""
    try:
        p = sp.parse(pattern, flags)
        fl = p.state.flags | flags
        if fl & ~OKFLAGS:
            raise No()
        items = list(p)
        k = full() if mode in ('search', 'match') else None
        anch = anchored(items)
        r = lang(items, k, fl, anch or mode != 'search')
        r = eps() if r is None else r
        if mode == 'search' and not anch:
            r = z3.Concat(full(), r)
        return r
    except (No, z3.Z3Exception, re.error):
        return None


def contained(pattern, flags=0):
    """re.search(pattern, s) as 's contains one of these texts', or None."""
    try:
        p = sp.parse(pattern, flags)
    except re.error:
        return None
    items = list(p)
    if (p.state.flags | flags) & re.IGNORECASE or not items:
        return None
    if all(op is LITERAL for op, _ in items):
        return [''.join(chr(av) for _, av in items)]
    if len(items) == 1 and items[0][0] is IN and all(op is LITERAL for op, _ in items[0][1]):
        return [chr(av) for _, av in items[0][1]]
    if len(items) == 1 and items[0][0] is BRANCH:
        alts = [list(x) for x in items[0][1][1]]
        if all(a and all(op is LITERAL for op, _ in a) for a in alts):
            return [''.join(chr(av) for _, av in a) for a in alts]
    return None
