"""Runtime operations that instrumented code calls (bound to the global name _rt_ in every instrumented module)."""
import builtins
import codecs
import io
import re
import itertools
import operator
import collections
from .engine import E, T, Hang, termval
from .sym import (SymStr, is_sym, mk, promote, items_of, conc, to_str, to_repr, fmt, fstr, mod, format_, sym_int, sym_float,
                  sym_chr, concretize_str, _has_sym)
from . import symre, iset

_str = str
_Pattern = re.Pattern


def tick():
    E.steps += 1
    if E.steps > E.step_limit: raise Hang()


def enter(name):
    E.entered.add(name)
    E.steps += 1
    if E.steps > E.step_limit: raise Hang()


# ------------------------------------------------------------ keys of mappings and sets
def _symkey(k):
    t = type(k)
    if t is _str or t is int: return False
    if isinstance(k, SymStr): return k._it is not None
    if t is T: return True
    if t is tuple:
        for x in k:
            if _symkey(x): return True
    return False


def _any_symkey(d):
    for k in d:
        if type(k) is not _str and _symkey(k): return True
    return False


def keydecide(d, k):
    """Decide, for every key of d that could equal k, whether it does; afterwards native hashing is consistent."""
    if _symkey(k):
        for kk in d:
            if kk is k: return kk
            if isinstance(kk, (_str, T, int, tuple)) and eq(kk, k): return kk
        return k
    t = type(k)
    if t is _str or isinstance(k, (_str, tuple)):
        for kk in d:
            if type(kk) is not _str and _symkey(kk) and eq(kk, k): return kk
    return k


def key(d, k):
    if isinstance(d, (dict, set, frozenset)): return keydecide(d, k)
    return k


def getitem(v, s):
    t = type(v)
    if t is list or t is tuple: return v[s]
    if isinstance(v, dict): return v[keydecide(v, s)]
    if isinstance(v, _str):
        if type(s) is T: s = E.concretize(s)
        return v[s]
    return v[s]


def setitem(value, v, s):
    if isinstance(v, dict): v[keydecide(v, s)] = value
    else: v[s] = value


def delitem(v, s):
    if isinstance(v, dict): del v[keydecide(v, s)]
    else: del v[s]


def in_(x, c):
    if isinstance(c, _str):
        if isinstance(x, _str):
            if is_sym(x) or is_sym(c): return promote(c).__contains__(x)
        return x in c
    if isinstance(c, (dict, set, frozenset)):
        k = keydecide(c, x)
        return k in c
    if type(c) in _VIEWS:
        if type(c) is _VIEWS[0]:
            for kk in c:
                if eq(kk, x): return True
            return False
    if isinstance(c, range) and type(x) is T: return x in list(c)
    return x in c


_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta is _str and tb is _str: return a == b
    if ta is dict and tb is dict:
        if len(a) != len(b): return False
        if not _any_symkey(a) and not _any_symkey(b) and not _has_symval(a) and not _has_symval(b): return a == b
        for k, v in a.items():
            kk = keydecide(b, k)
            if kk not in b or not eq(v, b[kk]): return False
        return True
    if ta is tb and (ta is list or ta is tuple):
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x is not y and not eq(x, y): return False
        return True
    return a == b


def _has_symval(d):
    return any(_has_sym(v) or isinstance(v, (list, tuple, dict)) for v in d.values())


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k, v in dict(p[0]).items(): d[keydecide(d, k)] = v
        else: d[keydecide(d, p[0])] = p[1]
    return d


def mkset(elts):
    s = builtins.set()
    for x in elts:
        s.add(keydecide(s, x))
    return s


# ------------------------------------------------------------ calls
class SymStringIO:
    """io.StringIO that keeps symbols (append-only writing, whole reading)."""
    def __init__(self, initial=''):
        self.parts = [initial] if initial else []
        self.rpos = 0

    def write(self, s):
        if not isinstance(s, _str): raise TypeError('string argument expected, got %r' % type(s).__name__)
        self.parts.append(promote(s)[:])
        return len(s)

    def writelines(self, ls):
        for l in ls: self.write(l)

    def getvalue(self): return promote('').join(self.parts)

    def read(self, n=-1):
        v = self.getvalue()
        r = v[self.rpos:] if n is None or n < 0 else v[self.rpos:self.rpos + n]
        self.rpos += len(r)
        return r

    def seek(self, p, whence=0):
        self.rpos = p if whence == 0 else len(self.getvalue()) + p
        return self.rpos

    def tell(self): return self.rpos
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _c_str(*a, **k):
    if len(a) == 1 and not k: return to_str(a[0])
    if not a and not k: return ''
    # bytes that stand for a symbolic text decode themselves
    if a and isinstance(a[0], bytes) and type(a[0]) is not bytes: return a[0].decode(*a[1:], **k)
    return _str(*a, **k)


def _c_codecs_decode(obj, *a, **k):
    if isinstance(obj, bytes) and type(obj) is not bytes: return obj.decode(*a, **k)
    return codecs.decode(obj, *a, **k)


def _c_int(x=0, *a, **k):
    if isinstance(x, T) and not a: return x
    if is_sym(x):
        base = a[0] if a else k.get('base', 10)
        return sym_int(x, base)
    return int(x, *a, **k)


def _c_float(x=0.0):
    if is_sym(x): return sym_float(x)
    if isinstance(x, T): return float(E.concretize(x))
    return float(x)


def _c_chr(x):
    return sym_chr(x) if isinstance(x, T) else chr(x)


def _c_ord(x):
    if is_sym(x):
        if len(x) != 1: raise TypeError('ord() expected a character')
        return x._it[0]
    return ord(x)


def _c_isinstance(x, t):
    if type(x) is T:
        ts = t if isinstance(t, tuple) else (t,)
        return any(q is int or q is object or q is T for q in ts)
    return isinstance(x, t)


def _c_type(*a):
    if len(a) == 1:
        if type(a[0]) is SymStr: return _str
        if type(a[0]) is T: return int
    return type(*a)


def _c_repr(x): return to_repr(x)
def _c_bool(x=False): return True if x else False


def _c_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict) and type(src) is dict: d = src.copy()
        elif hasattr(src, 'keys'):
            for kk in src.keys(): d[keydecide(d, kk)] = src[kk]
        else:
            for p in src:
                kk, v = p
                d[keydecide(d, kk)] = v
    for kk, v in k.items(): d[keydecide(d, kk)] = v
    return d


def _c_set(it=()): return mkset(it)
def _c_frozenset(it=()): return frozenset(mkset(it))


def _c_list(*a):
    return list(*a)


def _c_sum(it, start=0):
    for x in it: start = start + x
    return start


def _c_hash(x):
    if _symkey(x): return hash(concretize_str(x) if isinstance(x, _str) else x)
    return hash(x)


def _c_range(*a): return range(*[E.concretize(x) if isinstance(x, T) else x for x in a])
def _c_format(x, spec=''): return fmt(x, '', spec)


def _c_escape_re(s):
    return re.escape(concretize_str(s))


def _re_fn(name):
    def f(pat, *a, **k):
        if isinstance(pat, _Pattern): p = pat
        else:
            flags = k.pop('flags', 0)
            n = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
            p = re.compile(concretize_str(pat), flags)
        return _pattern(p, name, a, k)
    return f


def _c_recompile(pat, flags=0):
    return re.compile(concretize_str(pat) if isinstance(pat, _str) else pat, flags)


def _c_stringio(initial='', newline='\n'): return SymStringIO(initial)


def _c_groupby(it, key=None): return itertools.groupby(it, key)


def _c_ordereddict(*a, **k):
    d = collections.OrderedDict()
    for kk, v in _c_dict(*a, **k).items(): d[kk] = v
    return d


CALLS = {
    _str: _c_str, int: _c_int, float: _c_float, chr: _c_chr, ord: _c_ord, isinstance: _c_isinstance, type: _c_type, repr: _c_repr,
    bool: _c_bool, dict: _c_dict, set: _c_set, frozenset: _c_frozenset, sum: _c_sum, hash: _c_hash, range: _c_range, format: _c_format,
    io.StringIO: _c_stringio, re.compile: _c_recompile, re.escape: _c_escape_re, codecs.decode: _c_codecs_decode, collections.OrderedDict: _c_ordereddict,
}
CALLS.update({operator.eq: eq, operator.ne: lambda a, b: not eq(a, b), operator.contains: lambda a, b: in_(b, a),
              operator.getitem: getitem, operator.lt: lambda a, b: a < b, operator.le: lambda a, b: a <= b, operator.gt: lambda a, b: a > b,
              operator.ge: lambda a, b: a >= b, operator.add: lambda a, b: a + b, operator.concat: lambda a, b: a + b,
              operator.mul: lambda a, b: a * b, operator.sub: lambda a, b: a - b, operator.neg: lambda a: -a, operator.not_: lambda a: not a,
              operator.truth: _c_bool, operator.is_: lambda a, b: a is b, operator.is_not: lambda a, b: a is not b})
for _n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'subn', 'split'):
    CALLS[getattr(re, _n)] = _re_fn(_n)
# native callables that only store, pass on or iterate their arguments, or call back into instrumented code / SymStr methods
SAFE = {len, list, tuple, iter, next, map, filter, zip, enumerate, reversed, sorted, min, max, any, all, id, callable, hasattr, getattr,
        setattr, print, issubclass, abs, super, object, property, staticmethod, classmethod, itertools.chain, itertools.islice,
        itertools.takewhile, itertools.dropwhile, itertools.zip_longest, itertools.accumulate, itertools.tee, itertools.repeat,
        itertools.chain.from_iterable, collections.deque}
_BUILTIN = type(len)
_METHDESC = type(_str.join)


def call(f, /, *a, **k):
    try: h = CALLS.get(f)
    except TypeError: h = None
    if h is not None: return h(*a, **k)
    t = type(f)
    if t is _BUILTIN:
        s = getattr(f, '__self__', None)
        if s is not None and type(s) is not type(re):
            # a bound builtin method held in a variable, e.g. append = out.append; m = PAT.match
            return callm(s, f.__name__, *a, **k)
        if f not in SAFE and _has_sym(a): return _native(f, a, k)
    elif t is _METHDESC:
        # unbound method such as str.strip
        if a and isinstance(a[0], _str) and _has_sym(a): return getattr(SymStr, f.__name__)(promote(a[0]), *a[1:], **k)
        if a and isinstance(a[0], (dict, set, frozenset)): return callm(a[0], f.__name__, *a[1:], **k)
    return f(*a, **k)


UNKNOWN_NATIVE = {}


def _native(f, a, k):
    """A C function we have no model of, called on symbols: decide the symbols first (flagged as incomplete)."""
    n = getattr(f, '__qualname__', repr(f))
    UNKNOWN_NATIVE[n] = UNKNOWN_NATIVE.get(n, 0) + 1
    def c(x):
        if is_sym(x): return concretize_str(x)
        if isinstance(x, T): return E.concretize(x)
        if type(x) in (list, tuple): return type(x)(c(y) for y in x)
        return x
    return f(*[c(x) for x in a], **{q: c(x) for q, x in k.items()})


def _pattern(p, m, a, k):
    if m in symre.METHODS and isinstance(p.pattern, _str):
        i = 1 if m in ('sub', 'subn') else 0
        subj = a[i] if len(a) > i else k.get('string')
        if is_sym(subj) or (i and is_sym(a[0])) or (i and callable(a[0])):
            try: return symre.METHODS[m](p, *a, **k)
            except symre.Unsupported:
                a = list(a)
                a[i] = concretize_str(subj)
        elif isinstance(subj, SymStr):
            a = list(a)
            a[i] = conc(subj)
    return getattr(p, m)(*a, **k)


def _m_str(x, m, a, k):
    if a or k:
        if m == 'join' and len(a) == 1:
            seq = a[0] if isinstance(a[0], (list, tuple)) else list(a[0])
            for p in seq:
                if isinstance(p, SymStr): return promote(x).join(seq)
            return x.join(seq)
        if m in ('format', 'format_map'):
            return format_(x, a, k) if m == 'format' else format_(x, (), a[0])
        for y in a:
            if is_sym(y) or (type(y) is tuple and _has_sym(y)):
                return getattr(promote(x), m)(*a, **k)
    return getattr(x, m)(*a, **k)


_KEYED = {'get', 'pop', 'setdefault', '__getitem__', '__setitem__', '__contains__', '__delitem__', 'add', 'discard', 'remove'}


def _m_dict(x, m, a, k):
    if m in _KEYED and a:
        return getattr(x, m)(keydecide(x, a[0]), *a[1:], **k)
    if m == 'update':
        for s in a:
            ps = [(q, s[q]) for q in s.keys()] if hasattr(s, 'keys') else list(s)
            for q, v in ps: x[keydecide(x, q)] = v
        for q, v in k.items(): x[keydecide(x, q)] = v
        return None
    if m == 'fromkeys':
        return mkdict((q, a[1] if len(a) > 1 else None) for q in a[0])
    return getattr(x, m)(*a, **k)


def _m_set(x, m, a, k):
    if m in _KEYED and a:
        return getattr(x, m)(keydecide(x, a[0]), *a[1:], **k)
    if m in ('update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'difference_update',
             'intersection_update', 'symmetric_difference') and a:
        # align equal keys first
        al = [[keydecide(x, y) for y in s] for s in a]
        return getattr(x, m)(*al, **k)
    return getattr(x, m)(*a, **k)


def _m_pattern(x, m, a, k): return _pattern(x, m, a, k)


_dispatch = {_str: _m_str, dict: _m_dict, set: _m_set, frozenset: _m_set, _Pattern: _m_pattern}
_none = object()


def callm(x, m, /, *a, **k):
    t = type(x)
    h = _dispatch.get(t, _none)
    if h is _none:
        h = None
        if isinstance(x, dict) and t.__module__ in ('collections', 'builtins'): h = _m_dict
        elif t is type and x is dict and m == 'fromkeys': h = None
        if len(_dispatch) < 5000: _dispatch[t] = h
    if h is not None: return h(x, m, a, k)
    f = getattr(x, m)
    tf = type(f)
    if tf is _BUILTIN:
        s = f.__self__
        if t is type(re):           # module function
            return call2(f, a, k)
        if a and isinstance(x, (list, tuple)): return f(*a, **k)
        if isinstance(s, (_str,)): return f(*a, **k)
        if isinstance(s, type(_gen())): return f(*a, **k)
        if _has_sym(a, 1) and not isinstance(s, (collections.deque, type, BaseException)) and m not in ('send', 'throw', 'append', '__init__', '__new__'):
            return _native(f, a, k)
        return f(*a, **k)
    return call2(f, a, k)


def _gen():
    yield


def call2(f, a, k):
    try: h = CALLS.get(f)
    except TypeError: h = None
    if h is not None: return h(*a, **k)
    t = type(f)
    if t is _METHDESC and a and isinstance(a[0], _str) and _has_sym(a):
        return getattr(SymStr, f.__name__)(promote(a[0]), *a[1:], **k)
    if t is _BUILTIN and f not in SAFE and _has_sym(a): return _native(f, a, k)
    return f(*a, **k)
