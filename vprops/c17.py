from symx.scen import registry
from amara3.uxml import tree
from .trees import shape, make, shaped, check_links
from . import xpref
from .xpref import World, AXES, judge, every
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The parent of the top element is the XPath root node. A name test or * selects elements, or attributes on the attribute axis. An attribute\'s '
               'following and preceding nodes are those of its element, and the descendants of its element follow it.']
TESTS = [('node',), ('text',), ('*',), ('name', 'a'), ('name', 'x')]


def label(ctx, i):
    ats = [('x', '1'), ('b', '2')][:ctx.choice('na%d' % i, 3)] if i < 2 else [('a', 'v')] if i == 2 else []
    return ('ab'[i % 2], ats)


@scenario(quick=[dict(size=5)], thorough=[dict(size=6)], covers=('some', 'none'), steps=600000,
          bounds='every tree of up to `size` nodes with elements a and b, 0-2 attributes on the first two, text of one arbitrary character; '
                 'every context node (root, elements, texts, attributes), every axis, five node tests')
def structure(ctx, size):
    data, n = shaped(ctx, size, lambda i: label(ctx, i), lambda i: ctx.text('t%d' % i, 1))
    top = make(data)
    w = World(top)
    axis = AXES[ctx.choice('axis', len(AXES))]
    for item in every(w):
        for t in TESTS:
            got, want = judge(ctx, w, ('step', axis, t), item, None, axis, None, data)
            ctx.cover('some' if want else 'none')
    ctx.check(shape(top, False) == data, 'the tree changed')
    check_links(ctx, top)


@scenario(quick=[dict(size=4, pre=''), dict(size=3, pre='Qb')], thorough=[dict(size=5, pre=''), dict(size=4, pre='Qb')], covers=('some', 'none'), steps=600000,
          bounds='every tree of up to `size` nodes; names of elements of `pre` and one arbitrary character, as is the name tested for; every axis and context node')
def names(ctx, size, pre):
    data, n = shaped(ctx, size, lambda i: (pre + ctx.text('n%d' % i, 1), []), lambda i: 't')
    q = pre + ctx.text('q', 1, ((65, 90), (97, 122), (0x100, 0x17F)))
    w = World(make(data))
    axis = AXES[ctx.choice('axis', len(AXES) - 1)]
    for item in every(w):
        got, want = judge(ctx, w, ('step', axis, ('name', q)), item, None, axis, None, data)
        ctx.cover('some' if want else 'none')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), steps=600000,
          bounds='0-2 attributes and an element with arbitrary names of 1..n characters, values of one arbitrary character, the name tested for arbitrary')
def attributes(ctx, n):
    def nm(k): return ctx.text(k, 1 + ctx.choice(k + 'len', n))
    ats = [(nm('a%d' % i), ctx.text('v%d' % i, 1)) for i in range(ctx.choice('na', 3))]
    if len(ats) == 2: ctx.assume(ats[0][0] != ats[1][0])
    q = ctx.text('q', 1 + ctx.choice('ql', n), ((97, 122),))
    w = World(make(('r', [], [(q, ats, ['t']), ('e', ats[:1], [])])))
    t = ('name', q) if ctx.choice('star', 2) else ('*',)
    for item in every(w):
        for axis in ('attribute', 'self', 'child', 'ancestor-or-self'):
            got, want = judge(ctx, w, ('step', axis, t), item, None, axis, None, ats, q)
            ctx.cover('some' if want else 'none')


@scenario(quick=[dict(deep=25, wide=1), dict(deep=2, wide=12), dict(deep=70, wide=1), dict(deep=2, wide=70)], thorough=[dict(deep=100, wide=1), dict(deep=2, wide=50)], covers=('some',), steps=5000000,
          bounds='deep and wide trees with one arbitrary text and name; context nodes at the start, middle and end')
def big(ctx, deep, wide):
    c = ctx.text('c', 1)
    def el(d):
        if d == 0: return ('a', [('k', c)], [c])
        return ('e', [], [x for i in range(wide if d == deep else 1) for x in (el(d - 1), 'a', ('m', [('k', 'a')], ['a']), c)])
    w = World(make(el(deep)))
    its = every(w, False)
    item = its[[0, 1, len(its) // 3, len(its) // 2, -2, -1][ctx.choice('item', 6)]]
    axis = AXES[ctx.choice('axis', len(AXES))]
    for t in (('node',), ('name', 'm'), ('text',)):
        got, want = judge(ctx, w, ('step', axis, t), item, None, axis)
        if want: ctx.cover('some')
