"""Sets of integers as sorted tuples of disjoint inclusive intervals."""
from functools import lru_cache

UMAX = 0x10FFFF
FULL = ((0, UMAX),)
EMPTY = ()


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


@lru_cache(maxsize=200000)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=200000)
def diff(a, b):
    """a minus b"""
    out = []
    for lo, hi in a:
        cur = lo
        for blo, bhi in b:
            if bhi < cur:
                continue
            if blo > hi:
                break
            if blo > cur:
                out.append((cur, blo - 1))
            cur = bhi + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def union(a, b):
    return norm(a + b)


def contains(a, v):
    for lo, hi in a:
        if v < lo:
            return False
        if v <= hi:
            return True
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def single(v):
    return ((v, v),)


def of_chars(s):
    return norm([(ord(c), ord(c)) for c in s])


def pick(a, kind=0):
    """A representative, preferring printable ASCII (kind 1: beyond the BMP, 2: in the BMP but not ASCII)."""
    for pref in (((0x1F600, 0x1F64F), (0x10000, 0x10FFFF)), ((0xE9, 0x17F), (0xA1, 0xFFFD)))[kind - 1] if kind else ():
        r = inter(a, (pref,))
        if r:
            return r[0][0]
    for pref in ((97, 122), (48, 57), (65, 90), (33, 126), (32, 32)):
        r = inter(a, (pref,))
        if r:
            return r[0][0]
    return a[0][0]


_pred_cache = {}


def from_pred(name, fn):
    """Code points for which fn(chr(c)) is true."""
    r = _pred_cache.get(name)
    if r is None:
        out = []
        start = None
        for c in range(UMAX + 1):
            if fn(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, UMAX))
        r = _pred_cache[name] = tuple(out)
    return r


_charset_cache = {}


def from_str(s):
    r = _charset_cache.get(s)
    if r is None:
        r = _charset_cache[s] = of_chars(s)
    return r
