"""SymStr: a str whose characters may be symbolic code points."""
import builtins
from .engine import E, T, Unsupported, termval
from . import iset

_str = str
WS = iset.from_pred('isspace', _str.isspace)


def items_of(s):
    """The item list (ints and T) of a str or SymStr."""
    it = getattr(s, '_it', None)
    if it is not None: return it
    return tuple(map(ord, _str.__str__(s) if type(s) is not _str else s))


def is_sym(s):
    return isinstance(s, SymStr) and s._it is not None


def mk(items, keep=False):
    """A string from items; a plain str when nothing is symbolic."""
    for x in items:
        if isinstance(x, T): break
    else:
        return ''.join(map(chr, items))
    r = _str.__new__(SymStr, ''.join([chr(x.val if isinstance(x, T) else x) for x in items]))
    r._it = tuple(items)
    return r


def conc(s):
    """The concrete text of this run, exact type str."""
    return _str.__str__(s) if type(s) is not _str else s


def _plain(s):
    """Strip subclass identity (like str(x)[:]) but keep symbols."""
    it = getattr(s, '_it', None)
    return mk(it) if it is not None else conc(s)


def seq_eq(a, b):
    if len(a) != len(b): return False
    return E.alleq(list(zip(a, b)))


def promote(s):
    """A SymStr view of any str, so that SymStr's methods run on it."""
    if isinstance(s, SymStr): return s
    r = _str.__new__(SymStr, s)
    r._it = None
    return r


def concretize_str(s):
    """Force a string concrete (decides each symbolic character)."""
    if not is_sym(s): return conc(s)
    return ''.join(chr(E.concretize(x)) for x in s._it)


CASES = {}


def case_groups(fn, name, most=6):
    """Characters a case conversion leaves alone, and those it moves by the commonest distances."""
    if name not in CASES:
        by = {}
        for c in range(0x110000):
            r = fn(chr(c))
            if r != chr(c) and len(r) == 1: by.setdefault(ord(r) - c, set()).add(c)
        top = sorted(by, key=lambda d: (-len(by[d]), d))[:most]
        CASES[name] = (iset.from_pred('same_' + name, lambda c: fn(c) == c), [(d, iset.from_pred('%s%+d' % (name, d), lambda c, m=by[d]: ord(c) in m)) for d in top])
    return CASES[name]


def match_at(hay, needle, pos):
    if pos + len(needle) > len(hay): return False
    return E.alleq(list(zip(hay[pos:pos + len(needle)], needle)))


def find_items(hay, needle, start=0, end=None):
    end = len(hay) if end is None else end
    n = len(needle)
    for i in range(start, end - n + 1):
        if match_at(hay, needle, i): return i
    return -1


def rfind_items(hay, needle, start=0, end=None):
    end = len(hay) if end is None else end
    n = len(needle)
    for i in range(end - n, start - 1, -1):
        if match_at(hay, needle, i): return i
    return -1


def isin_chars(x, chars_items):
    """Is item x one of the given items?"""
    ints = [c for c in chars_items if isinstance(c, int)]
    if isinstance(x, int):
        if x in ints: return True
    elif ints and E.isin(x, iset.of_chars(map(chr, ints))):
        return True
    for c in chars_items:
        if not isinstance(c, int) and E.eq(x, c): return True
    return False


def item_isin(x, ivs):
    return iset.contains(ivs, x) if isinstance(x, int) else E.isin(x, ivs)


def _slice_args(n, start, end):
    start, end, _ = slice(start, end).indices(n)
    return start, end


class SymStr(_str):
    _it = None

    def __new__(cls, obj='', *args, **kw):
        if args or kw: return _str.__new__(cls, obj, *args, **kw)
        if not isinstance(obj, _str):
            obj = to_str(obj)
        elif type(obj).__str__ is not SymStr.__str__ and type(obj).__str__ is not _str.__str__:
            obj = to_str(obj)
        it = getattr(obj, '_it', None)
        r = _str.__new__(cls, conc(obj))
        if it is not None: r._it = it
        return r

    # -- conversions
    def __str__(self):
        # native str(x) needs a str; instrumented code goes through rt.call and keeps symbols
        return self if type(self) is SymStr else _plain(self)

    def __repr__(self):
        return _str.__repr__(conc(self))

    def __hash__(self):
        return _str.__hash__(self)

    def __format__(self, spec):
        return _str.__format__(conc(self), spec)

    # -- comparisons
    def __eq__(self, o):
        if self is o: return True
        if not isinstance(o, _str): return NotImplemented
        if len(self) != len(o): return False
        if self._it is None and getattr(o, '_it', None) is None: return _str.__eq__(self, o)
        return seq_eq(items_of(self), items_of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o, lt, orequal):
        a, b = items_of(self), items_of(o)
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x == y: continue
                return (x < y) == lt
            if E.eq(x, y): continue
            return E.cmp('lt', x, y) == lt
        if len(a) == len(b): return orequal
        return (len(a) < len(b)) == lt

    def __lt__(self, o): return self._cmp(o, True, False) if isinstance(o, _str) else NotImplemented
    def __gt__(self, o): return self._cmp(o, False, False) if isinstance(o, _str) else NotImplemented
    def __le__(self, o): return self._cmp(o, True, True) if isinstance(o, _str) else NotImplemented
    def __ge__(self, o): return self._cmp(o, False, True) if isinstance(o, _str) else NotImplemented

    # -- sequence
    def __len__(self): return _str.__len__(self)

    def __bool__(self): return _str.__len__(self) > 0

    def __iter__(self):
        if self._it is None: return _str.__iter__(conc(self))
        return builtins.iter([mk((x,)) for x in self._it])

    def __getitem__(self, k):
        if isinstance(k, T): k = E.concretize(k)
        if self._it is None: return conc(self)[k]
        if isinstance(k, slice): return mk(self._it[k])
        return mk((self._it[k],))

    def __contains__(self, o):
        if not isinstance(o, _str): return _str.__contains__(self, o)
        if self._it is None and getattr(o, '_it', None) is None: return _str.__contains__(self, o)
        h, n = items_of(self), items_of(o)
        if len(n) == 1: return isin_chars(n[0], h)
        return find_items(h, n) >= 0

    def __add__(self, o):
        if not isinstance(o, _str): return NotImplemented
        if self._it is None and getattr(o, '_it', None) is None: return _str.__add__(self, o)
        return mk(items_of(self) + items_of(o))

    def __radd__(self, o):
        if not isinstance(o, _str): return NotImplemented
        if self._it is None and getattr(o, '_it', None) is None: return _str.__add__(o, self)
        return mk(items_of(o) + items_of(self))

    def __mul__(self, n):
        if self._it is None: return conc(self) * n
        if not isinstance(n, int): return NotImplemented
        return mk(self._it * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return mod(self, args)

    def __rmod__(self, o):
        return mod(o, self)

    # -- searching
    def _sub(self, start, end):
        return _slice_args(len(self), start, end)

    def find(self, sub, start=None, end=None):
        if self._it is None and not is_sym(sub): return _str.find(self, sub, start, end)
        s, e = self._sub(start, end)
        return find_items(items_of(self), items_of(sub), s, e)

    def rfind(self, sub, start=None, end=None):
        if self._it is None and not is_sym(sub): return _str.rfind(self, sub, start, end)
        s, e = self._sub(start, end)
        return rfind_items(items_of(self), items_of(sub), s, e)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        if self._it is None and not is_sym(sub): return _str.count(self, sub, start, end)
        s, e = self._sub(start, end)
        h, n = items_of(self), items_of(sub)
        if not n: return max(0, e - s + 1)
        c = 0
        while True:
            s = find_items(h, n, s, e)
            if s < 0: return c
            c += 1
            s += len(n)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q, start, end): return True
            return False
        if self._it is None and not is_sym(p): return _str.startswith(self, p, start, end)
        s, e = self._sub(start, end)
        n = items_of(p)
        return e - s >= len(n) and match_at(items_of(self)[:e], n, s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.endswith(q, start, end): return True
            return False
        if self._it is None and not is_sym(p): return _str.endswith(self, p, start, end)
        s, e = self._sub(start, end)
        n = items_of(p)
        return e - s >= len(n) and match_at(items_of(self)[:e], n, e - len(n))

    # -- transformations
    def replace(self, old, new, count=-1):
        if self._it is None and not is_sym(old) and not is_sym(new): return _str.replace(self, old, new, count)
        h, o, n = items_of(self), items_of(old), items_of(new)
        out = []
        if not o:
            k = 0
            for i, x in enumerate(h):
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                out.append(x)
            if count < 0 or k < count: out.extend(n)
            return mk(out)
        i = 0
        while i < len(h):
            if count != 0 and match_at(h, o, i):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(h[i])
                i += 1
        return mk(out)

    def _strip(self, chars, left, right):
        h = items_of(self)
        cs = None if chars is None else items_of(chars)
        def isws(x): return item_isin(x, WS) if cs is None else isin_chars(x, cs)
        i, j = 0, len(h)
        if left:
            while i < j and isws(h[i]): i += 1
        if right:
            while j > i and isws(h[j - 1]): j -= 1
        return mk(h[i:j])

    def strip(self, chars=None):
        if self._it is None and not is_sym(chars): return _str.strip(self, chars)
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        if self._it is None and not is_sym(chars): return _str.lstrip(self, chars)
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        if self._it is None and not is_sym(chars): return _str.rstrip(self, chars)
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else _plain(self)

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else _plain(self)

    def partition(self, sep):
        if self._it is None and not is_sym(sep): return _str.partition(self, sep)
        if not sep: raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0: return _plain(self), '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        if self._it is None and not is_sym(sep): return _str.rpartition(self, sep)
        if not sep: raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0: return '', '', _plain(self)
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if self._it is None and not is_sym(sep): return _str.split(self, sep, maxsplit)
        h = items_of(self)
        out = []
        if sep is None:
            i, n = 0, len(h)
            while i < n:
                while i < n and item_isin(h[i], WS): i += 1
                if i >= n: break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and item_isin(h[j - 1], WS): j -= 1
                    out.append(mk(h[i:j]))
                    break
                j = i
                while j < n and not item_isin(h[j], WS): j += 1
                out.append(mk(h[i:j]))
                i = j
            return out
        s = items_of(sep)
        if not s: raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = find_items(h, s, i)
            if j < 0: break
            out.append(mk(h[i:j]))
            i = j + len(s)
        out.append(mk(h[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if self._it is None and not is_sym(sep): return _str.rsplit(self, sep, maxsplit)
        if maxsplit < 0: return self.split(sep)
        if sep is None: return _str.rsplit(concretize_str(self), None, maxsplit)
        h, s = items_of(self), items_of(sep)
        if not s: raise ValueError('empty separator')
        out = []
        j = len(h)
        while len(out) < maxsplit:
            i = rfind_items(h, s, 0, j)
            if i < 0: break
            out.append(mk(h[i + len(s):j]))
            j = i
        out.append(mk(h[:j]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        if self._it is None: return _str.splitlines(self, keepends)
        h = self._it
        LB = iset.of_chars('\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029')
        out = []
        i = 0
        while i < len(h):
            j = i
            while j < len(h) and not item_isin(h[j], LB): j += 1
            e = j
            if j < len(h):
                if seq_eq(h[j:j + 1], (13,)) and j + 1 < len(h) and seq_eq(h[j + 1:j + 2], (10,)): e = j + 2
                else: e = j + 1
            out.append(mk(h[i:e] if keepends else h[i:j]))
            i = e
        return out

    def join(self, seq):
        parts = list(seq)
        for i, p in enumerate(parts):
            if not isinstance(p, _str):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
        if self._it is None and not any(getattr(p, '_it', None) is not None for p in parts):
            return _str.join(conc(self), parts)
        sep = items_of(self)
        out = []
        for i, p in enumerate(parts):
            if i: out.extend(sep)
            out.extend(items_of(p))
        return mk(out)

    def _caseconv(self, fn, name):
        if self._it is None: return fn(conc(self))
        same, groups = case_groups(fn, name)
        out = []
        for x in self._it:
            if isinstance(x, int): out.extend(map(ord, fn(chr(x))))
            elif E.isin(x, same): out.append(x)
            else:
                for d, cs in groups:
                    if E.isin(x, cs):
                        out.append(x + d)
                        break
                else: out.extend(map(ord, fn(chr(E.concretize(x)))))
        return mk(out)

    def lower(self): return self._caseconv(_str.lower, 'lower')
    def upper(self): return self._caseconv(_str.upper, 'upper')

    def casefold(self):
        return self._caseconv(_str.casefold, 'casefold')

    def _pred(self, name):
        fn = getattr(_str, name)
        if self._it is None: return fn(conc(self))
        if not self._it: return False
        s = iset.from_pred(name, fn)
        for x in self._it:
            if not item_isin(x, s): return False
        return True

    def isspace(self): return self._pred('isspace')
    def isdigit(self): return self._pred('isdigit')
    def isdecimal(self): return self._pred('isdecimal')
    def isnumeric(self): return self._pred('isnumeric')
    def isalpha(self): return self._pred('isalpha')
    def isalnum(self): return self._pred('isalnum')
    def isprintable(self): return True if not len(self) else self._pred('isprintable')

    def isascii(self):
        if self._it is None: return _str.isascii(self)
        for x in self._it:
            if not item_isin(x, ((0, 127),)): return False
        return True

    def isidentifier(self): return _str.isidentifier(concretize_str(self))
    def isupper(self): return _str.isupper(concretize_str(self))
    def islower(self): return _str.islower(concretize_str(self))
    def istitle(self): return _str.istitle(concretize_str(self))

    def translate(self, table):
        if self._it is None: return _str.translate(conc(self), table)
        out = []
        for x in self._it:
            if isinstance(x, T) and isinstance(table, dict):
                hit = None
                for k in table:
                    if isinstance(k, int) and E.isin(x, ((k, k),)):
                        hit = k
                        break
                if hit is None:
                    out.append(x)
                    continue
                x = hit
            elif isinstance(x, T):
                x = E.concretize(x)
            try:
                r = table[x]
            except LookupError:
                out.append(x)
                continue
            if r is None: continue
            if isinstance(r, int): out.append(r)
            else: out.extend(items_of(r))
        return mk(out)

    def _pad(self, width, fill, l, r):
        f = items_of(fill)
        n = max(0, width - len(self))
        a = n if l and not r else (n // 2 + (n & width & 1) if l else 0)
        return mk(f * a + items_of(self) + f * (n - a))

    def ljust(self, w, fill=' '): return self._pad(w, fill, False, True)
    def rjust(self, w, fill=' '): return self._pad(w, fill, True, False)
    def center(self, w, fill=' '): return self._pad(w, fill, True, True)

    def zfill(self, w): return _str.zfill(concretize_str(self), w)
    def expandtabs(self, *a): return _str.expandtabs(concretize_str(self), *a)
    def title(self): return _str.title(concretize_str(self))
    def capitalize(self): return _str.capitalize(concretize_str(self))
    def swapcase(self): return _str.swapcase(concretize_str(self))

    def encode(self, *a, **k):
        return _str.encode(concretize_str(self), *a, **k)

    def format(self, *args, **kw):
        return format_(self, args, kw)

    def format_map(self, m):
        return format_(self, (), m)

    def __getnewargs__(self):
        return (conc(self),)

    def __reduce__(self):
        return (_str, (conc(self),))


# ------------------------------------------------------------ formatting
def to_str(x):
    """str(x), keeping symbols."""
    if isinstance(x, SymStr):
        m = type(x).__str__
        if m is SymStr.__str__: return _plain(x)
        r = m(x)
        return _plain(r)
    t = type(x)
    if t is _str: return x
    if t in (int, float, bool, type(None)): return _str(x)
    if isinstance(x, T): return _str(E.concretize(x))
    if isinstance(x, BaseException):
        a = x.args
        if t.__str__ in (BaseException.__str__, KeyError.__str__) and len(a) == 1 and is_sym(a[0]): return _plain(a[0])
        return _str(x)
    m = getattr(t, '__str__', None)
    if m is object.__str__: m = getattr(t, '__repr__')
    if getattr(m, '__code__', None) is not None:     # a Python-level method: call it directly so symbols survive
        r = m(x)
        if isinstance(r, _str): return _plain(r)
    return _str(x)


def to_repr(x):
    if is_sym(x) and type(x) is SymStr:
        # no symbolic repr: only exact when the characters need no escaping; enough for messages
        return repr(conc(x))
    m = getattr(type(x), '__repr__', None)
    if getattr(m, '__code__', None) is not None and not isinstance(x, T):
        r = m(x)
        if isinstance(r, _str): return _plain(r)
    return repr(x)


def fmt(x, conv, spec):
    if conv == 's': x = to_str(x)
    elif conv == 'r': x = to_repr(x)
    elif conv == 'a': x = ascii(x)
    if spec == '':
        return to_str(x) if not isinstance(x, T) else _str(E.concretize(x))
    if isinstance(x, _str):
        return _str.__format__(concretize_str(x), conc(spec))
    if isinstance(x, T): x = E.concretize(x)
    return format(x, spec)


def fstr(*parts):
    return promote('').join(parts)


import string as _string
_F = _string.Formatter()


def format_(s, args, kw):
    if is_sym(s): s = concretize_str(s)
    out = []
    auto = 0
    for lit, field, spec, conv in _F.parse(conc(s)):
        if lit: out.append(lit)
        if field is None: continue
        if field == '' or field[0] in '.[':
            field = _str(auto) + field
            auto += 1
        obj, _ = _F.get_field(field, args, kw)
        if spec and '{' in spec: spec = format_(spec, args, kw)
        out.append(fmt(obj, conv, spec or ''))
    return fstr(*out)


import re as _re
_PCT = _re.compile(r'%(?:\((?P<name>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>.)', _re.S)


def _has_sym(x, depth=2):
    if isinstance(x, SymStr): return x._it is not None
    if isinstance(x, T): return True
    if depth and isinstance(x, (tuple, list)): return any(_has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict): return any(_has_sym(y, depth - 1) for y in x.values())
    return False


def mod(l, r):
    """l % r"""
    if not isinstance(l, _str):
        return l % r
    s = concretize_str(l) if is_sym(l) else conc(l)
    if not _has_sym(r): return _str.__mod__(s, r)
    args = list(r) if isinstance(r, tuple) else [r]
    out = []
    pos = 0
    k = 0
    for m in _PCT.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m['type'] == '%':
            out.append('%')
            continue
        if m['name'] is not None: v = r[m['name']]
        else:
            if k >= len(args): raise TypeError('not enough arguments for format string')
            v = args[k]
            k += 1
        if m['type'] == 's' and not m['flags'] and not m['width'] and not m['prec']: out.append(to_str(v))
        elif m['type'] == 'r': out.append(to_repr(v))
        else:
            if is_sym(v): v = concretize_str(v)
            if isinstance(v, T): v = E.concretize(v)
            out.append(_str.__mod__('%' + m['flags'] + (m['width'] or '') + ('.' + m['prec'] if m['prec'] else '') + m['type'], (v,)))
    out.append(s[pos:])
    if m_unused(r, args, k): raise TypeError('not all arguments converted during string formatting')
    return fstr(*out)


def m_unused(r, args, k):
    return isinstance(r, tuple) and k < len(args)


# ------------------------------------------------------------ conversions to numbers
_DIG = ((48, 57),)


def sym_int(s, base=10):
    """int(s, base) for a symbolic string."""
    h = list(items_of(s))
    i, j = 0, len(h)
    while i < j and item_isin(h[i], WS): i += 1
    while j > i and item_isin(h[j - 1], WS): j -= 1
    h = h[i:j]
    neg = False
    if h and isin_chars(h[0], (43, 45)):
        neg = isin_chars(h[0], (45,))
        h = h[1:]
    if base in (0, 2, 8) or base > 36: return int(concretize_str(s), base)
    if base == 16 and len(h) > 2 and isin_chars(h[0], (48,)) and isin_chars(h[1], (88, 120)): h = h[2:]
    val = 0
    prev_us = True
    if not h: raise ValueError('invalid literal for int() with base %d: %r' % (base, conc(s)))
    deci = iset.from_pred('isdecimal', _str.isdecimal)
    for n, x in enumerate(h):
        if isin_chars(x, (95,)):
            if prev_us: raise ValueError('invalid literal for int()')
            prev_us = True
            continue
        prev_us = False
        if isinstance(x, int):
            try: d = int(chr(x), base)
            except ValueError: raise ValueError('invalid literal for int()') from None
        elif E.isin(x, _DIG): d = x - 48
        elif base > 10 and E.isin(x, ((97, 97 + base - 11),)): d = x - 87
        elif base > 10 and E.isin(x, ((65, 65 + base - 11),)): d = x - 55
        elif E.isin(x, deci): d = int(chr(E.concretize(x)), base)
        else: raise ValueError('invalid literal for int()')
        val = val * base + d
    if prev_us: raise ValueError('invalid literal for int()')
    return -val if neg else val


_FLOATLIKE = iset.of_chars('0123456789+-.eE_infatyINFATY')


def sym_float(s):
    h = list(items_of(s))
    i, j = 0, len(h)
    while i < j and item_isin(h[i], WS): i += 1
    while j > i and item_isin(h[j - 1], WS): j -= 1
    h = h[i:j]
    if not h: raise ValueError('could not convert string to float')
    deci = iset.from_pred('isdecimal', _str.isdecimal)
    allowed = iset.union(_FLOATLIKE, deci)
    for x in h:
        if not item_isin(x, allowed): raise ValueError('could not convert string to float')
    out = []
    for x in h:
        if isinstance(x, T) and not item_isin(x, _FLOATLIKE):
            x = E.concretize(x)
        out.append(x)
    return float(''.join(chr(E.concretize(x)) for x in out))


def sym_chr(t):
    if not E.isin(t, iset.FULL): raise ValueError('chr() arg not in range(0x110000)')
    return mk((t,))
