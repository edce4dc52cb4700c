import re
from symx.scen import registry
from amara3.uxml import tree, treeutil
from .trees import shape, make, shaped, check_links, textof, mkattrs, edited, HIST
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['A regular expression is matched at the start of the name (re.match), as documented by its name_pattern parameter. Selecting by value looks at '
               'every item, text nodes too.']


def nodes_of(root):
    """Every node below root in document order."""
    out = []
    for c in root.xml_children:
        out.append(c)
        if isinstance(c, tree.element): out.extend(nodes_of(c))
    return out


def sample(ctx, root, kind):
    """What to select from, and the items in it.  kind: the element itself, or iterables of several kinds."""
    if kind == 0: return root, list(root.xml_children)
    if kind == 1: return list(root.xml_children), list(root.xml_children)
    below = nodes_of(root)
    if kind == 2: return iter(below), below
    if kind == 3: return treeutil.descendants(root), [n for n in below if isinstance(n, tree.element)]
    rev = [root] + below[::-1]
    return tuple(rev), rev


def expect(ctx, st, got, want, what, *detail):
    ctx.check(st == 'ok', what + ' failed', None, *detail)
    ctx.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), what + ' differs', None,
              [shape(g) for g in got], [shape(w) for w in want], *detail)
    ctx.obs([shape(g) for g in got])
    if want: ctx.cover('some')
    else: ctx.cover('none')


def value_of(n):
    if not isinstance(n, tree.element): return str(n)
    return ''.join([value_of(c) for c in n.xml_children])


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('some', 'none'),
          bounds='every tree of up to `size` nodes with one-character names and texts and the name searched for arbitrary; five kinds of source')
def names(ctx, size):
    data, n = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1), [('x', '1')]), lambda i: ctx.text('t%d' % i, 1))
    root = make(data)
    name = ctx.text('name', 1)
    src, items = sample(ctx, root, ctx.choice('kind', 5))
    els = [x for x in items if isinstance(x, tree.element)]
    if ctx.choice('any', 2): expect(ctx, *ctx.guard(lambda: list(treeutil.select_elements(src))), els, 'select_elements', data)
    else: expect(ctx, *ctx.guard(lambda: list(treeutil.select_name(src, name))), [x for x in els if x.xml_name == name], 'select_name', data, name)
    ctx.check(shape(root, False) == data, 'the tree changed')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), bounds='names of n arbitrary characters against six patterns, the name searched for of n or n-1 or n+1 characters')
def longer(ctx, n):
    a, b = ctx.text('a', n), ctx.text('b', n)
    root = make(('r', [], ['t', (a, [], []), ('ab', [], [(b, [], [])]), (b, [], ['ab']), 'ab']))
    src, items = sample(ctx, root, ctx.choice('kind', 5))
    els = [x for x in items if isinstance(x, tree.element)]
    if ctx.choice('pat', 2):
        pat = ctx.pick('which', [re.compile('a'), re.compile('[a-c]b'), re.compile('.*b$'), re.compile('x*'), re.compile('^ab?$'), re.compile('(?:b|a){2}')])
        expect(ctx, *ctx.guard(lambda: list(treeutil.select_name_pattern(src, pat))), [x for x in els if pat.match(x.xml_name) is not None], 'select_name_pattern', a, b)
    else:
        q = ctx.text('q', n - 1 + ctx.choice('len', 3))
        expect(ctx, *ctx.guard(lambda: list(treeutil.select_name(src, q))), [x for x in els if x.xml_name == q], 'select_name', a, b, q)


@scenario(quick=[dict(size=5)], thorough=[dict(size=6)], covers=('some', 'none'),
          bounds='every tree of up to `size` nodes with arbitrary one-character texts and an arbitrary value of 0-2 characters; five kinds of source')
def values(ctx, size):
    data, n = shaped(ctx, size, lambda i: ('e', []), lambda i: ctx.text('t%d' % i, 1))
    root = make(data)
    v = ctx.text('v', ctx.choice('len', 3))
    src, items = sample(ctx, root, ctx.choice('kind', 5))
    expect(ctx, *ctx.guard(lambda: list(treeutil.select_value(src, v))), [x for x in items if value_of(x) == v], 'select_value', data, v)
    ctx.check(shape(root, False) == data, 'the tree changed')


@scenario(quick=[dict(size=3)], thorough=[dict(size=4)], covers=('some', 'none'),
          bounds='every tree of up to `size` nodes, 0-2 attributes each with arbitrary one-character names and values of 0-1 characters, any name and value (or none) searched for')
def attributes(ctx, size):
    def label(i):
        k = ctx.choice('na%d' % i, 3)
        ats = [(ctx.text('an%d.%d' % (i, j), 1), ctx.text('av%d.%d' % (i, j), ctx.choice('al%d.%d' % (i, j), 2))) for j in range(k)]
        if k == 2: ctx.assume(ats[0][0] != ats[1][0])
        return ('e', ats)
    data, n = shaped(ctx, size, label, lambda i: 'a')
    root = make(data)
    name = ctx.text('name', 1)
    val = ctx.text('val', ctx.choice('vl', 2)) if ctx.choice('hasval', 2) else None
    src, items = sample(ctx, root, ctx.choice('kind', 5))
    want = []
    for x in items:
        if isinstance(x, tree.element):
            for k, v in x.xml_attributes.items():
                if k == name and (val is None or v == val): want.append(x)
    if val is None and ctx.choice('omit', 2): r = ctx.guard(lambda: list(treeutil.select_attribute(src, name)))
    else: r = ctx.guard(lambda: list(treeutil.select_attribute(src, name, val)))
    expect(ctx, *r, want, 'select_attribute', data, name, val)
    ctx.check(shape(root, False) == data, 'the tree changed')


@scenario(quick=[dict(size=6)], thorough=[dict(size=7)], covers=('some', 'none'),
          bounds='every tree of up to `size` nodes with arbitrary one-character texts: descendants and following siblings of every node')
def order(ctx, size):
    data, n = shaped(ctx, size, lambda i: ('e', []), lambda i: ctx.text('t%d' % i, 1))
    root = make(data)
    every = [root] + nodes_of(root)
    for n in every:
        if isinstance(n, tree.element):
            expect(ctx, *ctx.guard(lambda: list(treeutil.descendants(n))), [x for x in nodes_of(n) if isinstance(x, tree.element)], 'descendants', data)
        want = []
        if n is not root:
            seen = False
            for s in n.xml_parent.xml_children:
                if seen: want.append(s)
                if s is n: seen = True
        expect(ctx, *ctx.guard(lambda: list(treeutil.following_siblings(n))), want, 'following_siblings', data, shape(n))
    ctx.check(shape(root, False) == data, 'the tree changed')


@scenario(quick=[dict(deep=40, wide=1), dict(deep=2, wide=40), dict(deep=200, wide=1), dict(deep=2, wide=350)], thorough=[dict(deep=300, wide=1), dict(deep=2, wide=1100)], covers=('some',), steps=900000,
          bounds='deep and wide trees with one arbitrary text and name at a chosen place')
def big(ctx, deep, wide):
    c, q = ctx.text('c', 1), ctx.text('q', 1)
    def el(d):
        if d == 0: return (c, [('k', c)], [c])
        return ('e', [], [x for i in range(wide if d == deep else 1) for x in (el(d - 1), 'a', ('m', [('k', 'a')], ['a']))])
    root = make(el(deep))
    below = nodes_of(root)
    els = [n for n in below if isinstance(n, tree.element)]
    k = ctx.choice('what', 4)
    if k == 0: expect(ctx, *ctx.guard(lambda: list(treeutil.descendants(root))), els, 'descendants')
    elif k == 1: expect(ctx, *ctx.guard(lambda: list(treeutil.select_name(below, q))), [e for e in els if e.xml_name == q], 'select_name', c, q)
    elif k == 2: expect(ctx, *ctx.guard(lambda: list(treeutil.select_attribute(below, 'k', q))), [e for e in els if e.xml_attributes.get('k') == q], 'select_attribute', c, q)
    else: expect(ctx, *ctx.guard(lambda: list(treeutil.select_value(below, q))), [e for e in below if value_of(e) == q], 'select_value', c, q)


@scenario(quick=[dict(d=d, steps=2) for d in range(len(HIST))], thorough=[dict(d=0, steps=3), dict(d=1, steps=3), dict(d=2, steps=4)], covers=('some', 'none', 'edited'),
          bounds='three trees: every selection from every element, an edit in place (ten kinds, any element), every selection again, ... `steps` edits; new names and texts one arbitrary letter')
def history(ctx, d, steps):
    data = HIST[d]
    root = make(data)
    for k in range(steps + 1):
        if k:
            data = edited(ctx, 'e%d' % k, root, data)
            ctx.cover('edited')
        for n in [root] + nodes_of(root):
            below = nodes_of(n) if isinstance(n, tree.element) else []
            if isinstance(n, tree.element):
                kids = n.xml_children
                els = [c for c in kids if isinstance(c, tree.element)]
                expect(ctx, *ctx.guard(lambda: list(treeutil.descendants(n))), [x for x in below if isinstance(x, tree.element)], 'descendants', data)
                expect(ctx, *ctx.guard(lambda: list(treeutil.select_elements(n))), els, 'select_elements', data)
                expect(ctx, *ctx.guard(lambda: list(treeutil.select_name(n, 'b'))), [x for x in els if x.xml_name == 'b'], 'select_name', data)
                expect(ctx, *ctx.guard(lambda: list(treeutil.select_attribute(n, 'x', '1'))), [x for x in els if x.xml_attributes.get('x') == '1'], 'select_attribute', data)
                expect(ctx, *ctx.guard(lambda: list(treeutil.select_value(n, 'v'))), [x for x in kids if value_of(x) == 'v'], 'select_value', data)
            if n is not root:
                sibs = n.xml_parent.xml_children
                at = [i for i, s in enumerate(sibs) if s is n]
                expect(ctx, *ctx.guard(lambda: list(treeutil.following_siblings(n))), sibs[at[0] + 1:], 'following_siblings', data)
    ctx.check(shape(root, False) == data, 'the tree changed')
