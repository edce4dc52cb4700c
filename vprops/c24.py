from symx.scen import registry
from amara3.uxml import tree, uxpath
from amara3.uxml.uxpath import xast
from .trees import make
from . import xpparse
from .xpref import World, run, same, show, real_item
from .c29 import doc, fn_a, viable, AL, WORDS
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Both expressions are evaluated on a document that has elements and attributes of the names used, from its root, its top element, a nested element and a text node; '
               'if the original fails there, so must the other.']


def outcome(ctx, p, w, item, vars):
    return ctx.guard(lambda: list(p.compute(uxpath.context(real_item(w, item), variables=vars, functions=dict(uxpath.BUILTIN_FUNCTIONS, a=fn_a), force_root=False))))


def equal(w, a, b):
    """Two results of the library."""
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, (tree.element, tree.text)) or isinstance(y, (tree.element, tree.text)): ok = x is y
        elif isinstance(x, xast.root_node) or isinstance(y, xast.root_node): ok = isinstance(x, xast.root_node) and isinstance(y, xast.root_node) and x.xml_value == y.xml_value
        elif isinstance(x, xast.attribute_node) or isinstance(y, xast.attribute_node):
            ok = isinstance(x, xast.attribute_node) and isinstance(y, xast.attribute_node) and x.xml_parent is y.xml_parent and x.xml_name == y.xml_name and x.xml_value == y.xml_value
        else: ok = type(x) is type(y) and (x == y or x != x and y != y)
        if not ok: return False
    return True


def judge(ctx, text, top=None, vars=None):
    st, p = ctx.guard(uxpath.parse, text)
    ctx.check(st != 'hang', 'the parser hangs', None, text)
    if st != 'ok' or p is None: return
    st, out = ctx.guard(xast.serialize, p)
    ctx.check(st == 'ok' and isinstance(out, str), 'cannot be serialized', None, text, out)
    ctx.obs(out)
    st, q = ctx.guard(uxpath.parse, out)
    ctx.check(st == 'ok' and q is not None, 'the serialization cannot be parsed', None, text, out, q)
    ctx.cover('round trip')
    w = World(top if top is not None else doc())
    t = w.roots[0].top
    if vars is None: vars = {'a': t.xml_children[2]}
    for item in [w.roots[0], t] + list(t.xml_children[:2]):
        st, a = outcome(ctx, p, w, item, vars)
        st2, b = outcome(ctx, q, w, item, vars)
        ctx.check(st == st2 and (st != 'ok' or equal(w, a, b)), 'evaluates differently', None, text, out, show(a) if st == 'ok' else a, show(b) if st2 == 'ok' else b)
        if st == 'ok':
            ctx.obs(show(b))
            if a: ctx.cover('value')


@scenario(quick=[dict(n=n) for n in range(1, 5)], thorough=[dict(n=n) for n in range(1, 7)], covers=('round trip', 'value'), steps=600000,
          bounds='every text of n characters among a / . * @ ( ) [ ] | = < - 1 , $ "')
def texts(ctx, n):
    judge(ctx, ctx.text('s', n, AL))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4), dict(n=5)], covers=('round trip', 'value'), steps=600000,
          bounds='every sequence of n words out of 30 (names, or and div, every operator, axis names, ::, literals, brackets), which starts as an expression can')
def words(ctx, n):
    out = []
    for k in range(n):
        out.append(WORDS[ctx.choice('w%d' % k, len(WORDS))])
        if k < n - 1: ctx.assume(viable(out))
    judge(ctx, ' '.join(out))


@scenario(quick=[dict(n=n) for n in range(4)], thorough=[dict(n=n) for n in range(6)], covers=('round trip', 'value'), steps=600000,
          bounds='string literals of n arbitrary characters (all of Unicode), between either quote, in seven places of an expression')
def literals(ctx, n):
    s = ctx.text('s', n)
    q = '"\''[ctx.choice('q', 2)]
    ctx.assume(q not in s)
    t = ["%s", "a = %s", "a[. = %s]", "concat(%s, 'x', %s)", "(%s, 1)", "contains(., %s) and 'b'", "//@*[. != %s]"][ctx.choice('t', 7)]
    top = make(('a', [('k', s)], [s, ('a', [('k', 'v')], [s]), 'x']))
    judge(ctx, t.replace('%s', q + s + q), top, {})


@scenario(quick=[dict(n=0, m=1), dict(n=1, m=0), dict(n=1, m=1), dict(n=2, m=0), dict(n=0, m=2)], thorough=[dict(n=n, m=m) for n in range(4) for m in range(4) if n + m < 4],
          covers=('round trip', 'value'), steps=600000,
          bounds='numbers of n and m arbitrary digits on each side of the point or without one, or 17 or 400 more zeros before or after, alone, negated, compared, as predicate, as argument')
def numbers(ctx, n, m):
    d = tuple([(48, 57)])
    a = ctx.text('a', n, d)
    b = ctx.text('b', m, d)
    form = ctx.choice('form', 6)
    s = [lambda: a, lambda: a + '.', lambda: a + '.' + b, lambda: '.' + b, lambda: a + '0' * [17, 400][ctx.choice('z', 2)] + '.' + b, lambda: a + '.' + '0' * [17, 400][ctx.choice('z', 2)] + b][form]()
    t = ["%s", "-%s", "%s = 1", "a[%s]", "string(%s)", "//a[%s]/text()", "%s < %s", "(%s, a)"][ctx.choice('t', 8)]
    judge(ctx, t.replace('%s', s))


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)], covers=('round trip', 'value'), steps=600000,
          bounds='names of n arbitrary characters (all of Unicode) of elements, attributes, variables and functions, where the element or attribute exists, after each axis and separator')
def names(ctx, n):
    s = ctx.text('s', n)
    ctx.assume(xpparse.NAMESTART.match(s[0]) is not None)
    for c in s[1:]: ctx.assume(xpparse.NAMEREST.match(c) is not None)
    t = ["%s", "/%s", "//%s/%s", "@%s", "$%s", "child::%s", "%s = %s", "-%s", "%s - 1", "%s[%s]", "self::%s/@%s", "%s|%s", "1 - %s", "%s()"][ctx.choice('t', 14)]
    top = make((s, [(s, '1')], ['1', (s, [], ['2', (s, [], [])])]))
    judge(ctx, t.replace('%s', s), top, {s: 5})


KEY = ['or', 'and', 'div', 'mod', 'text', 'node', 'self', 'child', 'parent', 'x-', '-', 'ancestor-or-self', 'true', 'a.b', 'a-1']


@scenario(quick=[dict()], thorough=[dict()], covers=('round trip', 'value'), steps=600000,
          bounds='elements, attributes, variables named like operators, axes, node types or with dots and hyphens, in 22 forms; two such names in each')
def keywords(ctx):
    s, u = KEY[ctx.choice('s', len(KEY))], KEY[ctx.choice('u', len(KEY))]
    t = ["%s", "/%s", "//%s/%u", "@%s", "$%s", "child::%s", "%s = %u", "-%s", "%s - %u", "%s[%u]", "self::%s/@%u", "%s|%u", "1 or %s", "%s()", "%s or %u", "%s and %u", "/%s | /%u",
         "/ = %s", "(/)/%s", "%s/self::%u", "%s and /", "/ or %s"][ctx.choice('t', 22)]
    top = make(('or', [('and', '1'), ('text', '2'), ('x-', '3')], ['1', ('or', [], ['2', ('and', [], []), ('div', [('self', '')], [])]), ('self', [], ['3']), ('text', [], []), ('a-1', [], ['1']), ('x-', [], [('node', [], [])])]))
    judge(ctx, t.replace('%s', s).replace('%u', u), top, {k: i for i, k in enumerate(KEY)})


OPERANDS = ['a', '1', '@a', 'a[1]', "'1'", '$a/a', '()', '-a[1]', '//a', 'a[1]/b', '/', '(a, b)', '(a | b)', '(-1)', '-@a', '..', 'text()', 'a[a][1]', '.', '(a = 1)', '--1', "a(1, (2, 'x'))", 'a//text()', '1.50', './/.',
            '(a)[1]/b', '//*[@*]', '((a))', 'following-sibling::node()[1]', "not(a)", 'self::a[. = "1"]/..']


@scenario(quick=[dict(k=1, m=31), dict(k=2, m=5)], thorough=[dict(k=1, m=31), dict(k=2, m=15), dict(k=3, m=5)], covers=('round trip', 'value'), steps=600000,
          bounds='k binary operators of every kind between m operands of every kind (steps, predicates, parentheses, unary minus, functions, literals), with and without parentheses around the first or last pair')
def nested(ctx, k, m):
    ops = ['or', 'and', '=', '!=', '<', '<=', '>', '>=', '|', '/', '//']
    parens = ctx.choice('p', 3) if k > 1 else 0
    t = OPERANDS[ctx.choice('x0', m)]
    for i in range(k):
        o, x = ops[ctx.choice('o%d' % i, len(ops))], OPERANDS[ctx.choice('x%d' % (i + 1), m)]
        if i == k - 1 and parens == 2: t = t + ' ' + o + ' (' + x + ')'
        else: t = t + ' ' + o + ' ' + x
        if i == 0 and parens == 1: t = '(' + t + ')'
    judge(ctx, t)


PREDS = ['1', '2', 'a', '@a', '. = "1"', 'b or a', 'not(a)', 'a[2]', '-1', '(1, 2)', 'b and a', '1.0', "'x'", '()', 'a = b', '..', '$n']


@scenario(quick=[dict(k=1, m=17), dict(k=2, m=17), dict(k=3, m=6)], thorough=[dict(k=1, m=17), dict(k=2, m=17), dict(k=3, m=17), dict(k=4, m=6)], covers=('round trip', 'value'), steps=600000,
          bounds='k predicates of m kinds (numbers, paths, comparisons, sequences, literals, variables) after a step, a path, a parenthesized path or a call, over a document of many equal elements')
def predicates(ctx, k, m):
    base = ['a', '//a', '(//a)', '//node()', 'a//b', '(a, 1, b)', 'ancestor-or-self::*'][ctx.choice('base', 7)]
    t = base + ''.join(['[' + PREDS[ctx.choice('p%d' % i, m)] + ']' for i in range(k)]) + ['', '/a', '//@a', '[1]'][ctx.choice('tail', 4)]
    leaf = lambda *kids: ('a', [('a', '1')], list(kids))
    top = make(('a', [], [leaf('1'), leaf(('b', [], [])), ('a', [], [leaf(), leaf('1'), ('b', [], ['1'])]), '1', ('b', [], [leaf()]), leaf(leaf(), leaf(('a', [], ['2'])), 'x')]))
    judge(ctx, t, top, {'n': 2})


@scenario(quick=[dict(n=n) for n in (5, 12, 40)], thorough=[dict(n=n) for n in (5, 12, 40, 100)], covers=('round trip', 'value'), steps=3000000,
          bounds='expressions with n parts: arguments, items of a sequence, predicates, steps, operands of |, or, and, = or <, nested parentheses, predicates or calls, unary minuses; one arbitrary character in them')
def long(ctx, n):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    parts = ["'%s'" % (c if i == n - 2 else 'q') if i % 2 else str(i) for i in range(n)]
    preds = ''.join(['[%s]' % ("'%s'" % c if i == n - 2 else ['true()', '1', 'a or 1', '. = .'][i % 4]) for i in range(n)])
    k = ctx.choice('kind', 15)
    deep = "'%s'" % c
    for i in range(n): deep = [ '(%s)', 'concat(%s, 1)', 'string(%s)'][i % 3] % deep
    inner = 'a'
    for i in range(n): inner = 'a[%s]' % inner if i % 2 else '*[%s]' % inner
    t = [lambda: 'concat(%s)' % ', '.join(parts), lambda: '(%s)' % ', '.join(parts), lambda: '//a' + preds, lambda: '/'.join(['.' if i % 3 else '*' for i in range(n)]), lambda: '/'.join(['self::*' if i % 2 else '.' for i in range(n)]) + '/a',
         lambda: ' | '.join(['a[%d]' % (i % 3 + 1) for i in range(n)]), lambda: ' or '.join(['false()'] * (n - 1) + ["a = '%s'" % c]), lambda: ' and '.join(['a'] * (n - 1) + ["not('%s' = 'k')" % c]),
         lambda: ' = '.join(parts), lambda: ' < '.join(parts[::2]), lambda: deep, lambda: inner, lambda: '-' * n + "'1'", lambda: ' or '.join(['false() and a'] * (n - 1) + ["'%s'" % c]), lambda: '//'.join(['.'] * 4 + ['a'] + ['@a'])][k]()
    judge(ctx, t)
