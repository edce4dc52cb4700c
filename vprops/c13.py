from symx.scen import registry
from amara3.uxml import tree
from amara3.uxml.treeutil import select_pattern
from .trees import shape, make, shaped, edited, HIST
from .pathpat import matches, stages
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['A pattern has at least one part. A part may also be a tuple of names, any of which matches (as in the code). Element names are not "*" or "**".']


def walk(e, path):
    for c in e.xml_children:
        if isinstance(c, tree.element):
            p = path + [c.xml_name]
            yield c, p
            yield from walk(c, p)


def judge(ctx, root, pattern, data):
    want = [e for e, p in walk(root, []) if matches(pattern, p)]
    st, got = ctx.guard(lambda: list(select_pattern(root, pattern)))
    ctx.check(st == 'ok', 'select_pattern failed', None, data, pattern)
    ctx.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), 'wrong selection', None, data, pattern,
              [shape(g) for g in got], [shape(w) for w in want])
    ctx.obs([g.xml_name for g in got])
    if want: ctx.cover('some')
    else: ctx.cover('none')
    if len(want) > 1: ctx.cover('several')


@scenario(quick=[dict(size=4, n=k) for k in (1, 2, 3)] + [dict(size=5, n=2)], thorough=[dict(size=5, n=k) for k in (1, 2, 3)] + [dict(size=6, n=2)],
          covers=('some', 'none'), bounds='every tree of up to `size` nodes with arbitrary one-character names, every pattern of n parts out of "a", "b", "*", "**", ("a","b"), an arbitrary name')
def shapes(ctx, size, n):
    dom = ((43, 0x10FFFF),)
    q = ctx.text('q', 1, dom)
    pattern = stages(ctx, n, ['a', 'b', '*', '**', ('a', 'b'), q])
    data, _ = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1, dom) if i else 'a', []), lambda i: 'a')
    root = make(data)
    judge(ctx, root, pattern, data)
    ctx.check(shape(root, False) == data, 'the tree changed')


@scenario(quick=[dict(deep=5, n=4)], thorough=[dict(deep=6, n=4), dict(deep=6, n=5)], covers=('some', 'none', 'several'),
          bounds='chains of `deep` levels with arbitrary one-character names, a sibling at each, and every pattern of n parts out of "a", "b", "*", "**"')
def chains(ctx, deep, n):
    pattern = stages(ctx, n, ['a', 'b', '*', '**'])
    data = ('b', [], [])
    for i in range(deep): data = (ctx.pick('n%d' % i, ['a', 'b']), [], ['t', data, ('a', [], [])])
    judge(ctx, make(data), pattern, data)


@scenario(quick=[dict(m=m, n=n) for m in (0, 1) for n in (40, 120)], thorough=[dict(m=0, n=200), dict(m=1, n=1100)], covers=('some', 'several'), steps=2000000,
          bounds='n levels; n children; one arbitrary name and eight patterns')
def big(ctx, m, n):
    c = ctx.text('c', 1, ((43, 0x10FFFF),))
    if m == 0:
        data = (c, [], [])
        for i in range(n): data = ('abc'[i % 3] if i != 20 else c, [], [data, ('z', [], [])])
    else: data = ('r', [], [('abc'[i % 3] if i != 20 else c, [], [('a', [], [('b', [], [])]), 't', ('x', [], [])]) for i in range(n)])
    judge(ctx, make(data), ctx.pick('p', [('**',), ('*', 'a'), ('**', 'a'), ('**', 'b', '**', 'a'), ('a', '**', 'z'), ('**', 'a', 'b'), ('**', '*', '*', 'z'), ('b', 'a', 'b')]), 'big')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('some', 'none'), bounds='names of n arbitrary characters in the tree and the pattern')
def longer(ctx, n):
    a, b, q = ctx.text('a', n), ctx.text('b', n - 1), ctx.text('q', n - ctx.choice('l', 2))
    for x in (a, b, q): ctx.assume(x not in ('*', '**'))
    data = ('r', [], [(a, [], [(b, [], []), (a, [], [])]), (b, [], [(a, [], [])])])
    judge(ctx, make(data), ctx.pick('p', [(q,), ('*', q), ('**', q), (a, '*'), ('**', b, a), ((q, b), '*'), ((a, q),)]), data)


@scenario(quick=[dict()], covers=('some',), bounds='two selections on one tree advanced in turn')
def two(ctx):
    data = ('r', [], [('a', [], [('b', [], []), ('a', [], [('b', [], [])])]), ('b', [], [('a', [], [])])])
    root = make(data)
    p1, p2 = [stages(ctx, 2, ['a', 'b', '*', '**'], k) for k in 'xy']
    g1, g2 = select_pattern(root, p1), select_pattern(root, p2)
    o1, o2 = [], []
    for i in range(8):
        x = next(g1, None)
        if x is not None: o1.append(x)
        x = next(g2, None)
        if x is not None: o2.append(x)
    for p, o in ((p1, o1), (p2, o2)):
        want = [e for e, q in walk(root, []) if matches(p, q)]
        ctx.check(len(o) == len(want) and all(g is w for g, w in zip(o, want)), 'selections affect each other', None, p1, p2)
        if o: ctx.cover('some')


WILD = [('**',) + ('*',) * 4 + ('b',), ('**', 'a') + ('*',) * 5, ('**', 'a', '**', 'b', '*', 'a'), ('**', 'a', '*', '**', 'b', '*'), ('**', '**', '**', 'b'),
        ('*', '**', '*', '*', '*', '*'), ('**', 'a', 'b', 'a', 'b', 'a'), ('**', 'b', '**', 'b', '**', 'b', 'a')]


@scenario(quick=[dict(deep=9)], thorough=[dict(deep=12)], covers=('some', 'none'), steps=2000000,
          bounds='chains of `deep` levels, each "a" or "b", and eight patterns of 4 to 7 parts that leave many ways to match open at once')
def wild(ctx, deep):
    pattern = ctx.pick('p', WILD)
    data = ('b', [], [])
    for i in range(deep): data = (ctx.pick('n%d' % i, ['a', 'b']), [], ['t', data, ('a', [], [])] if i % 3 == 0 else [data])
    judge(ctx, make(data), pattern, data)


@scenario(quick=[dict(d=d, steps=2) for d in (0, 1)], thorough=[dict(d=d, steps=3) for d in (0, 1)], covers=('some', 'none', 'edited'),
          bounds='two trees: eight patterns, an edit in place (ten kinds, any element), the patterns again, ... `steps` edits; new names one arbitrary letter')
def history(ctx, d, steps):
    data = HIST[d]
    root = make(data)
    for k in range(steps + 1):
        if k:
            data = edited(ctx, 'e%d' % k, root, data)
            ctx.cover('edited')
        for p in PATS: judge(ctx, root, p, data)


PATS = [('**',), ('*', '*'), ('b',), ('**', 'b'), ('b', '**'), ('*', 'c'), (('b', 'n'),), ('**', 'b', '**', '*')]


@scenario(quick=[dict(n=60), dict(n=350)], covers=('some', 'several'), steps=3000000, bounds='one wrapper with n children that match, and matches within them; one arbitrary name')
def wide(ctx, n):
    c = ctx.text('c', 1, ((43, 0x10FFFF),))
    data = ('r', [], [('w', [], [('abc'[i % 3] if i != n - 2 else c, [], [('a', [], [('b', [], [])])] if i > n - 4 else []) for i in range(n)])])
    judge(ctx, make(data), ctx.pick('p', [('**',), ('*', '**'), ('**', 'a'), ('w', '*', 'a'), ('**', 'b'), ('w', '**', 'a', 'b')]), 'wide')
