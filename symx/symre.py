"""A backtracking regular-expression matcher over symbolic strings, following sre's own parse of the pattern."""
import re
import re._parser as sp
import re._constants as sc
from .engine import E, T, Unsupported
from . import iset
from .sym import items_of, mk, is_sym, conc, item_isin, promote, fstr

_progs = {}
_str = str


def _cat_set(cat, ascii_):
    n = _str(cat)
    neg = 'NOT' in n
    if 'DIGIT' in n:
        s = iset.of_chars('0123456789') if ascii_ else iset.from_pred('isdecimal', _str.isdecimal)
    elif 'SPACE' in n:
        s = iset.of_chars(' \t\n\r\f\v') if ascii_ else iset.from_pred('isspace', _str.isspace)
    elif 'WORD' in n:
        s = iset.norm([(48, 57), (65, 90), (95, 95), (97, 122)]) if ascii_ else iset.from_pred('word', lambda c: c.isalnum() or c == '_')
    else:
        raise Unsupported(n)
    return iset.diff(iset.FULL, s) if neg else s


def _in_set(items, flags):
    neg = False
    s = iset.EMPTY
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: s = iset.union(s, ((av, av),))
        elif op is sc.RANGE: s = iset.union(s, (tuple(av),))
        elif op is sc.CATEGORY: s = iset.union(s, _cat_set(av, flags & re.ASCII))
        else: raise Unsupported(_str(op))
    if flags & re.IGNORECASE: raise Unsupported('ignorecase')
    return iset.diff(iset.FULL, s) if neg else s


def _compile(tree, flags):
    """Nodes: tuples ('set', iset) ('seq', [..]) ('rep', lo, hi, node, greedy) ('alt', [..]) ('grp', n, node) ('at', code)
    ('ref', n) ('look', ahead, neg, node)"""
    out = []
    for op, av in tree:
        if op is sc.LITERAL:
            if flags & re.IGNORECASE: raise Unsupported('ignorecase')
            out.append(('set', ((av, av),)))
        elif op is sc.NOT_LITERAL: out.append(('set', iset.diff(iset.FULL, ((av, av),))))
        elif op is sc.ANY: out.append(('set', iset.FULL if flags & re.DOTALL else iset.diff(iset.FULL, ((10, 10),))))
        elif op is sc.IN: out.append(('set', _in_set(av, flags)))
        elif op is sc.BRANCH: out.append(('alt', [_compile(b, flags) for b in av[1]]))
        elif op is sc.SUBPATTERN:
            g, add, rem, sub = av
            n = _compile(sub, (flags | add) & ~rem)
            out.append(('grp', g, n) if g is not None else n)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            out.append(('rep', lo, None if hi is sc.MAXREPEAT else hi, _compile(sub, flags), op is sc.MAX_REPEAT))
        elif op is getattr(sc, 'POSSESSIVE_REPEAT', 0):
            lo, hi, sub = av
            out.append(('atom', ('rep', lo, None if hi is sc.MAXREPEAT else hi, _compile(sub, flags), True)))
        elif op is getattr(sc, 'ATOMIC_GROUP', 0): out.append(('atom', _compile(av, flags)))
        elif op is sc.AT: out.append(('at', _str(av), flags))
        elif op is sc.GROUPREF: out.append(('ref', av))
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                lo, hi = sub.getwidth()
                if lo != hi: raise Unsupported('lookbehind')
                out.append(('behind', op is sc.ASSERT_NOT, _compile(sub, flags), lo))
            else: out.append(('ahead', op is sc.ASSERT_NOT, _compile(sub, flags)))
        else: raise Unsupported(_str(op))
    return _opt(('seq', out))


def _opt(node):
    if node[0] == 'seq' and len(node[1]) == 1: return node[1][0]
    return node


def _alt_as_set(node):
    """Alternations of single characters become one set (same language, same preference since all consume one character)."""
    if node[0] == 'alt':
        subs = [_alt_as_set(n) for n in node[1]]
        if all(s[0] == 'set' for s in subs):
            u = iset.EMPTY
            for s in subs: u = iset.union(u, s[1])
            return ('set', u)
        return ('alt', subs)
    if node[0] == 'seq': return _opt(('seq', [_alt_as_set(n) for n in node[1]]))
    if node[0] == 'grp':
        return ('grp', node[1], _alt_as_set(node[2]))
    if node[0] == 'rep': return ('rep', node[1], node[2], _alt_as_set(node[3]), node[4])
    return node


def program(pat):
    p = _progs.get(pat)
    if p is None:
        tree = sp.parse(pat.pattern, pat.flags)
        p = _progs[pat] = (_alt_as_set(_compile(tree, tree.state.flags)), tree.state.groups)
    return p


WORD = None


def _isword(x):
    return item_isin(x, iset.from_pred('word', lambda c: c.isalnum() or c == '_'))


class M:
    __slots__ = ('s', 'h', 'end', 'steps')

    def __init__(self, s, h, end):
        self.s, self.h, self.end = s, h, end

    def run(self, node, i, caps, k):
        """Continuation-passing match; k(i, caps) returns a result or None."""
        op = node[0]
        if op == 'set':
            if i >= self.end: return None
            x = self.h[i]
            if (iset.contains(node[1], x) if isinstance(x, int) else E.isin(x, node[1])): return k(i + 1, caps)
            return None
        if op == 'seq':
            subs = node[1]
            n = len(subs)
            def step(j, i, caps):
                if j == n: return k(i, caps)
                return self.run(subs[j], i, caps, lambda i2, c2: step(j + 1, i2, c2))
            return step(0, i, caps)
        if op == 'alt':
            for sub in node[1]:
                r = self.run(sub, i, caps, k)
                if r is not None: return r
            return None
        if op == 'grp':
            g = node[1]
            def kk(i2, c2):
                c3 = dict(c2)
                c3[g] = (i, i2)
                c3['last'] = g
                return k(i2, c3)
            return self.run(node[2], i, caps, kk)
        if op == 'rep':
            _, lo, hi, sub, greedy = node
            inner = sub
            g = None
            if inner[0] == 'grp' and inner[2][0] == 'set':
                g, inner = inner[1], inner[2]
            if inner[0] == 'set':           # fast path: single-character repeats
                st = inner[1]
                def fin(j):
                    if g is not None and j > i:
                        c = dict(caps)
                        c[g] = (j - 1, j)
                        c['last'] = g
                        return k(j, c)
                    return k(j, caps)
                def ok(j):
                    x = self.h[j]
                    return iset.contains(st, x) if isinstance(x, int) else E.isin(x, st)
                j = i
                while j - i < lo:
                    if j >= self.end or not ok(j): return None
                    j += 1
                if greedy:
                    while j < self.end and (hi is None or j - i < hi) and ok(j): j += 1
                    while j - i >= lo:
                        r = fin(j)
                        if r is not None: return r
                        j -= 1
                    return None
                while True:
                    r = fin(j)
                    if r is not None: return r
                    if j >= self.end or (hi is not None and j - i >= hi) or not ok(j): return None
                    j += 1
            def rep(n, i, caps, prev):
                def more():
                    if hi is not None and n >= hi: return None
                    return self.run(sub, i, caps, lambda i2, c2: rep(n + 1, i2, c2, i) if i2 != i or n < lo else None)
                if n < lo: return more()
                if greedy:
                    r = more()
                    return r if r is not None else k(i, caps)
                r = k(i, caps)
                return r if r is not None else more()
            return rep(0, i, caps, -1)
        if op == 'at':
            a = node[1]
            if a.endswith('BEGINNING_STRING') or a == 'AT_BEGINNING':
                if i == 0: return k(i, caps)
                if a == 'AT_BEGINNING' and node[2] & re.MULTILINE and item_isin(self.h[i - 1], ((10, 10),)): return k(i, caps)
                return None
            if a == 'AT_END_STRING': return k(i, caps) if i == self.end else None
            if a == 'AT_END':
                if i == self.end: return k(i, caps)
                if (i == self.end - 1 or node[2] & re.MULTILINE) and item_isin(self.h[i], ((10, 10),)): return k(i, caps)
                return None
            if 'BOUNDARY' in a:
                l = i > 0 and _isword(self.h[i - 1])
                r = i < self.end and _isword(self.h[i])
                return k(i, caps) if (l != r) == (a == 'AT_BOUNDARY') else None
            raise Unsupported(a)
        if op == 'ref':
            c = caps.get(node[1])
            if c is None: return None
            n = c[1] - c[0]
            if i + n > self.end: return None
            if E.alleq(list(zip(self.h[c[0]:c[1]], self.h[i:i + n]))): return k(i + n, caps)
            return None
        if op == 'atom':
            r = self.run(node[1], i, caps, lambda i2, c2: (i2, c2))
            return None if r is None else k(*r)
        if op == 'ahead':
            r = self.run(node[2], i, caps, lambda i2, c2: (i2, c2))
            if node[1]: return k(i, caps) if r is None else None
            return None if r is None else k(i, r[1])
        if op == 'behind':
            r = None
            if i >= node[3]:
                r = self.run(node[2], i - node[3], caps, lambda i2, c2: (i2, c2) if i2 == i else None)
            if node[1]: return k(i, caps) if r is None else None
            return None if r is None else k(i, r[1])
        raise Unsupported(op)


class Match:
    def __init__(self, pat, s, start, end, caps):
        self.re, self.string, self._s, self._e, self._caps = pat, s, start, end, caps
        self.pos, self.endpos = 0, len(s)

    @property
    def lastindex(self):
        # sre: index of the last *closed* group
        return self._caps.get('last')

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, g in self.re.groupindex.items():
            if g == i: return n
        return None

    def _g(self, g):
        if isinstance(g, _str):
            g = self.re.groupindex[conc(g)]
        if g == 0: return (self._s, self._e)
        if g > self.re.groups: raise IndexError('no such group')
        return self._caps.get(g, (-1, -1))

    def _get(self, g, default=None):
        a, b = self._g(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs: return self._get(0)
        if len(gs) == 1: return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g): return self._get(g)
    def groups(self, default=None): return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))
    def groupdict(self, default=None): return {n: self._get(i, default) for n, i in self.re.groupindex.items()}
    def start(self, g=0): return self._g(g)[0]
    def end(self, g=0): return self._g(g)[1]
    def span(self, g=0): return self._g(g)
    def __bool__(self): return True

    def expand(self, template):
        return _expand(self, template)


def _expand(m, template):
    if callable(template): return template(m)
    if '\\' not in conc(template): return template
    out = []
    i = 0
    t = conc(template)
    for mm in re.finditer(r'\\(?:g<(\w+)>|(\d+)|(.))', t, re.S):
        out.append(t[i:mm.start()])
        i = mm.end()
        if mm[1] is not None: out.append(m.group(int(mm[1]) if mm[1].isdigit() else mm[1]) or '')
        elif mm[2] is not None: out.append(m.group(int(mm[2])) or '')
        else: out.append({'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(mm[3], '\\' + mm[3]))
    out.append(t[i:])
    return fstr(*out)


def _match(pat, s, pos, endpos, full=False):
    prog, _ = program(pat)
    h = items_of(s)
    end = len(h) if endpos is None else min(endpos, len(h))
    m = M(s, h, end)
    k = (lambda i, c: (i, c) if i == end else None) if full else (lambda i, c: (i, c))
    r = m.run(prog, pos, {}, k)
    if r is None: return None
    return Match(pat, s, pos, r[0], r[1])


def match(pat, s, pos=0, endpos=None): return _match(pat, s, pos, endpos)
def fullmatch(pat, s, pos=0, endpos=None): return _match(pat, s, pos, endpos, True)


def search(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else min(endpos, len(s))
    for i in range(pos, n + 1):
        r = _match(pat, s, i, endpos)
        if r is not None: return r
    return None


def finditer(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else min(endpos, len(s))
    i = pos
    last = -1
    while i <= n:
        r = _match(pat, s, i, endpos)
        if r is None or (r._e == r._s and r._e == last):
            i += 1
            continue
        yield r
        last = r._e
        i = r._e if r._e > i else (i + 1 if r._e == r._s else r._e)


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        g = m.groups('')
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def subn(pat, repl, s, count=0):
    out = []
    i = n = 0
    for m in finditer(pat, s):
        if count and n >= count: break
        out.append(s[i:m._s])
        out.append(_expand(m, repl))
        i = m._e
        n += 1
    out.append(s[i:])
    return fstr(*out), n


def sub(pat, repl, s, count=0): return subn(pat, repl, s, count)[0]


def split(pat, s, maxsplit=0):
    out = []
    i = n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit: break
        out.append(s[i:m._s])
        out.extend(m.groups())
        i = m._e
        n += 1
    out.append(s[i:])
    return out


METHODS = dict(match=match, fullmatch=fullmatch, search=search, finditer=finditer, findall=findall, sub=sub, subn=subn, split=split)
