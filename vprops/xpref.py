"""Reference meaning of MicroXPath expressions, worked out from the lists of children alone.

Expressions are tuples: ('step', axis, test), ('dot',), ('dotdot',), ('path', left, '/' or '//', right), ('abs', '/' or '//', right or None),
('pred', expr, [exprs]), ('lit', string), ('num', number, text), ('var', name), ('seq', [exprs]), ('bin', left, op, right), ('neg', expr),
('call', name, [exprs]), ('foreach', expr, expr).  Tests: ('name', n), ('*',), ('node',), ('text',).
Items: elements and text nodes of the real tree, Root, Attr, strings, numbers, booleans."""
import math
from amara3.uxml import tree, uxpath
from amara3.uxml.uxpath import xast

AXES = ['child', 'descendant', 'self', 'parent', 'ancestor', 'following', 'preceding', 'following-sibling', 'preceding-sibling',
        'descendant-or-self', 'ancestor-or-self', 'attribute']


class Root:
    def __init__(self, top): self.top = top


class Attr:
    def __init__(self, el, name, value): self.el, self.name, self.value = el, name, value


def is_el(x): return isinstance(x, tree.element)
def is_text(x): return isinstance(x, tree.text)
def is_node(x): return isinstance(x, (tree.element, tree.text, Root, Attr))


class World:
    """Trees under given top nodes: parents and document order from the lists of children."""
    def __init__(self, *tops):
        self.roots = [Root(t) for t in tops]
        self.order = []          # (node, parent) in document order, without attributes
        for r in self.roots:
            self.order.append((r, None))
            self.walk(r.top, r)

    def walk(self, n, parent):
        self.order.append((n, parent))
        if is_el(n):
            for c in n.xml_children: self.walk(c, n)

    def index(self, n):
        return [i for i, (m, p) in enumerate(self.order) if m is n][0]

    def kids(self, n):
        if isinstance(n, Root): return [n.top]
        return list(n.xml_children) if is_el(n) else []

    def parent(self, n):
        if isinstance(n, Attr): return n.el
        return self.order[self.index(n)][1]

    def below(self, n):
        out = []
        for c in self.kids(n):
            out.append(c)
            out.extend(self.below(c))
        return out

    def above(self, n):
        out = []
        p = self.parent(n)
        while p is not None:
            out.append(p)
            p = self.parent(p)
        return out

    def root(self, n):
        return n if isinstance(n, Root) else self.above(n)[-1]

    def attrs(self, n):
        return [Attr(n, k, v) for k, v in n.xml_attributes.items()] if is_el(n) else []

    def sibs(self, n):
        """(before, after)"""
        if isinstance(n, (Root, Attr)): return [], []
        s = self.kids(self.parent(n))
        i = [k for k, c in enumerate(s) if c is n][0]
        return s[:i], s[i + 1:]

    def same_tree(self, n):
        r = self.root(n)
        return [r] + self.below(r)

    def axis(self, axis, n):
        """Nodes on the axis, forward axes in document order, reverse axes nearest first."""
        if axis == 'child': return self.kids(n)
        if axis == 'descendant': return self.below(n)
        if axis == 'self': return [n]
        if axis == 'descendant-or-self': return [n] + self.below(n)
        if axis == 'parent': return [p for p in [self.parent(n)] if p is not None]
        if axis == 'ancestor': return self.above(n)
        if axis == 'ancestor-or-self': return [n] + self.above(n)
        if axis == 'following-sibling': return self.sibs(n)[1]
        if axis == 'preceding-sibling': return self.sibs(n)[0][::-1]
        if axis == 'attribute': return self.attrs(n)
        every = self.same_tree(n)
        at = n.el if isinstance(n, Attr) else n
        i = [k for k, m in enumerate(every) if m is at][0]
        if axis == 'following':
            out = [] if isinstance(n, Attr) else self.below(n)
            return [m for m in every[i + 1:] if not any(m is d for d in out)]
        up = self.above(at)
        return [m for m in every[:i] if not any(m is d for d in up)][::-1]


def passes(test, n, axis):
    if test[0] == 'node': return True
    if test[0] == 'text': return is_text(n)
    if axis == 'attribute': return test[0] == '*' or n.name == test[1]
    if not is_el(n): return False
    return test[0] == '*' or n.xml_name == test[1]


# ------------------------------------------------------------ conversions
def string_value(n):
    if isinstance(n, Root): return string_value(n.top)
    if isinstance(n, Attr): return n.value
    if is_el(n): return ''.join([string_value(c) for c in n.xml_children])
    return str(n)


def number_of(s):
    """XPath: optional white space, optional minus, Digits ('.' Digits?)? or '.' Digits, optional white space; NaN otherwise."""
    i, j = 0, len(s)
    while i < j and s[i] in ' \t\r\n': i += 1
    while j > i and s[j - 1] in ' \t\r\n': j -= 1
    s = s[i:j]
    neg = s[:1] == '-'
    if neg: s = s[1:]
    whole, dot, frac = s.partition('.')
    if not whole and not frac: return math.nan
    for c in whole + frac:
        if c not in '0123456789': return math.nan
    v = float(whole + '.' + frac)
    return -v if neg else v


def tostring(x):
    if x is None: return ''
    if is_node(x): return string_value(x)
    if isinstance(x, str): return str(x)
    if isinstance(x, bool): return 'true' if x else 'false'
    if isinstance(x, int): return str(x)
    if x != x: return 'NaN'
    if x in (math.inf, -math.inf): return 'Infinity' if x > 0 else '-Infinity'
    if x == math.floor(x): return str(int(x))
    return plain_decimal(x)


def plain_decimal(x):
    """Shortest decimal digits that give x, without an exponent."""
    t = repr(x)
    mant, _, exp = t.partition('e')
    if not exp: return t
    neg = mant.startswith('-')
    if neg: mant = mant[1:]
    a, _, b = mant.partition('.')
    e = int(exp)
    digits, point = a + b, len(a) + e
    if point <= 0: t = '0.' + '0' * -point + digits
    elif point >= len(digits): t = digits + '0' * (point - len(digits))
    else: t = digits[:point] + '.' + digits[point:]
    return ('-' if neg else '') + t


def tonumber(x):
    if x is None: return math.nan
    if is_node(x) or isinstance(x, str): return number_of(tostring(x))
    if isinstance(x, bool): return 1.0 if x else 0.0
    return x


def toboolean(x):
    if x is None: return False
    if isinstance(x, bool): return x
    if isinstance(x, str): return len(x) > 0
    if is_node(x): return True
    return x == x and x != 0


def compare(a, op, b):
    if op in ('=', '!='):
        if isinstance(a, bool) or isinstance(b, bool): a, b = toboolean(a), toboolean(b)
        elif (isinstance(a, (int, float)) and not is_node(a)) or (isinstance(b, (int, float)) and not is_node(b)): a, b = tonumber(a), tonumber(b)
        else: a, b = tostring(a), tostring(b)
        return a == b if op == '=' else not a == b
    a, b = tonumber(a), tonumber(b)
    if a != a or b != b: return False
    return a < b if op == '<' else a <= b if op == '<=' else a > b if op == '>' else a >= b


def rounded(x):
    if x != x or x in (math.inf, -math.inf): return x
    return math.floor(x + 0.5)


def first(seq): return seq[0] if seq else None


# ------------------------------------------------------------ evaluation
class Ref:
    def __init__(self, world, vars=None): self.w, self.vars = world, vars or {}

    def ev(self, e, item):
        k = e[0]
        if k == 'step': return [n for n in self.w.axis(e[1], item) if passes(e[2], n, e[1])]
        if k == 'dot': return [item]
        if k == 'dotdot': return self.w.axis('parent', item)
        if k == 'path':
            out = []
            for n in self.below_path(self.ev(e[1], item)):
                for m in (self.w.axis('descendant-or-self', n) if e[2] == '//' else [n]): out.extend(self.ev(e[3], m))
            return out
        if k == 'abs':
            r = self.w.root(item)
            if e[2] is None: return [r]
            # node() right after the leading separator selects the root as well
            out = [r] if e[2] == ('step', 'child', ('node',)) else []
            for n in (self.w.axis('descendant-or-self', r) if e[1] == '//' else [r]): out.extend(self.ev(e[2], n))
            return out
        if k == 'pred':
            items = self.ev(e[1], item)
            for p in e[2]:
                kept = []
                for i, x in enumerate(items):
                    v = first(self.ev(p, x))
                    if isinstance(v, (int, float)) and not isinstance(v, (bool, str)): ok = v == i + 1
                    else: ok = toboolean(v)
                    if ok: kept.append(x)
                items = kept
            return items
        if k == 'lit': return [e[1]]
        if k == 'num': return [e[1]]
        if k == 'var': return [self.vars[e[1]]]
        if k == 'seq':
            out = []
            for x in e[1]: out.extend(self.ev(x, item))
            return out
        if k == 'neg': return [-tonumber(first(self.ev(e[1], item)))]
        if k == 'foreach':
            out = []
            for x in self.ev(e[1], item): out.extend(self.ev(e[2], x))
            return out
        if k == 'call': return [self.fn(e[1], e[2], item)]
        if k == 'bin':
            op = e[2]
            if op == 'or': return [toboolean(first(self.ev(e[1], item))) or toboolean(first(self.ev(e[3], item)))]
            if op == 'and': return [toboolean(first(self.ev(e[1], item))) and toboolean(first(self.ev(e[3], item)))]
            a, b = self.ev(e[1], item), self.ev(e[3], item)
            if op == '|': return self.union(a + b)
            for x in a:
                for y in b:
                    if compare(x, op, y): return [True]
            return [False]
        raise AssertionError(k)

    def below_path(self, items): return items

    def union(self, items):
        out = []
        for r in self.w.roots:
            for n in [r] + self.w.below(r):
                if any(x is n for x in items): out.append(n)
                for a in self.w.attrs(n):
                    if any(isinstance(x, Attr) and x.el is n and x.name == a.name for x in items): out.append(a)
        return out

    def fn(self, name, args, item):
        def arg(i): return first(self.ev(args[i], item))
        def s(i): return tostring(arg(i))
        if name == 'true': return True
        if name == 'false': return False
        if name == 'not': return not toboolean(arg(0))
        if name == 'boolean': return toboolean(arg(0))
        if name == 'string': return tostring(arg(0) if args else item)
        if name == 'number': return float(tonumber(arg(0) if args else item))
        if name == 'count': return len(self.ev(args[0], item))
        if name == 'name':
            x = arg(0) if args else item
            if is_el(x): return x.xml_name
            if isinstance(x, Attr): return x.name
            return '#text' if is_text(x) else ''
        if name == 'concat':
            out = ''
            for a in args:
                for x in self.ev(a, item): out = out + tostring(x)
            return out
        if name == 'starts-with': return s(0)[:len(s(1))] == s(1)
        if name in ('contains', 'substring-before', 'substring-after'):
            a, b = s(0), s(1)
            for i in range(len(a) - len(b) + 1):
                if a[i:i + len(b)] == b:
                    return True if name == 'contains' else a[:i] if name == 'substring-before' else a[i + len(b):]
            return False if name == 'contains' else ''
        if name == 'substring':
            a, st = s(0), rounded(tonumber(arg(1)))
            end = math.inf if len(args) < 3 else st + rounded(tonumber(arg(2)))
            out = ''
            for i in range(len(a)):
                if st <= i + 1 and i + 1 < end: out = out + a[i]
            return out
        if name == 'string-length': return len(s(0)) if args else len(tostring(item))
        raise AssertionError(name)


# ------------------------------------------------------------ text of an expression
def text(e):
    k = e[0]
    if k == 'step':
        t = e[2]
        nt = t[1] if t[0] == 'name' else '*' if t[0] == '*' else t[0] + '()'
        return (e[1] + '::' if e[1] else '') + nt
    if k == 'dot': return '.'
    if k == 'dotdot': return '..'
    if k == 'path': return text(e[1]) + e[2] + text(e[3])
    if k == 'abs': return e[1] + (text(e[2]) if e[2] is not None else '')
    if k == 'pred': return text(e[1]) + ''.join(['[' + text(p) + ']' for p in e[2]])
    if k == 'lit': return ('"%s"' if "'" in e[1] else "'%s'") % e[1]
    if k == 'num': return e[2]
    if k == 'var': return '$' + e[1]
    if k == 'seq': return '(' + ', '.join([text(x) for x in e[1]]) + ')'
    if k == 'neg': return '-' + text(e[1])
    if k == 'foreach': return 'for-each(' + text(e[1]) + ', ' + text(('lit', text(e[2]))) + ')'
    if k == 'call': return e[1] + '(' + ', '.join([text(x) for x in e[2]]) + ')'
    return text(e[1]) + ' ' + e[2] + ' ' + text(e[3])


def num(n, t=None): return ('num', n, t or str(n))
def name(n): return ('name', n)
def child(n): return ('step', 'child', ('name', n))


# ------------------------------------------------------------ running and comparing
def real_item(w, item):
    """The real object for a reference item."""
    if isinstance(item, Root): return xast.root_node.get(item.top)
    if isinstance(item, Attr):
        ctx = uxpath.context(item.el, force_root=False)
        for a in uxpath.parse('@*').compute(ctx):
            if a.xml_name == item.name: return a
        raise LookupError('attribute not found')
    return item


def run(w, expr, item, vars=None):
    """Evaluate expression text or a parsed expression from the context item."""
    if isinstance(item, (tree.element, tree.text)) and item.xml_parent is not None: return list(item.xml_xpath(expr, vars=vars))
    if isinstance(item, Root): return list(item.top.xml_xpath(expr, vars=vars))
    if isinstance(expr, str): expr = uxpath.parse(expr)
    return list(expr.compute(uxpath.context(real_item(w, item), variables=vars, force_root=False)))


def same_item(got, want):
    if isinstance(want, Root): return isinstance(got, xast.root_node) and len(got.xml_children) == 1 and got.xml_children[0] is want.top
    if isinstance(want, Attr):
        return isinstance(got, xast.attribute_node) and got.xml_parent is want.el and got.xml_name == want.name and got.xml_value == want.value
    if isinstance(want, (tree.element, tree.text)): return got is want
    if isinstance(want, bool) or isinstance(got, bool): return got is want
    if isinstance(want, str): return isinstance(got, str) and got == want
    if isinstance(got, str) or isinstance(got, tree.node): return False
    return got == want or (got != got and want != want)


def same(got, want):
    return len(got) == len(want) and all([same_item(g, x) for g, x in zip(got, want)])


def show(items):
    out = []
    for x in items:
        if isinstance(x, (Root, xast.root_node)): out.append('/')
        elif isinstance(x, Attr): out.append('@%s=%s' % (x.name, x.value))
        elif isinstance(x, xast.attribute_node): out.append('@%s=%s' % (x.xml_name, x.xml_value))
        elif is_el(x): out.append('<%s>' % x.xml_name)
        elif is_text(x): out.append('"%s"' % x)
        elif isinstance(x, (str, bool, int, float)): out.append(x)
        else: out.append('?')
    return out


def every(w, attrs=True):
    """All context items."""
    out = []
    for n, p in w.order:
        out.append(n)
        if attrs: out.extend(w.attrs(n))
    return out


def judge(ctx, w, e, item, vars=None, what='result', txt=None, *details):
    """Check a single evaluation against the reference."""
    txt = text(e) if txt is None else txt
    want = Ref(w, vars).ev(e, item)
    st, got = ctx.guard(run, w, txt, item, vars)
    ctx.check(st == 'ok', what + ': failed', None, txt, got, *details)
    ctx.check(same(got, want), what + ' differs', None, txt, show([item]), show(got), show(want), *details)
    ctx.obs(show(got))
    return got, want
