from symx.scen import registry
from amara3.uxml import tree
from .trees import shape, make, shaped, check_links
from . import xpref
from .xpref import World, judge, every, child, num
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['A predicate whose value is a sequence of several items counts by its first item, one whose value is empty is false.']
STAR = ('step', 'child', ('*',))
NODES = ('step', 'child', ('node',))


def digits(ctx, name, n):
    t = ctx.text(name, n, ((48, 57),))
    return ('num', int(t), t)


def pred(ctx, k, c, kinds=22):
    """Predicate number k; c is an arbitrary character."""
    lit = ('lit', c)
    at = ('step', 'attribute', ('name', 'x'))
    opts = [lambda: digits(ctx, 'd%d' % k, 1), lambda: child('b'), lambda: ('bin', at, '=', lit), lambda: lit, lambda: ('call', 'true', []), lambda: ('call', 'false', []),
            lambda: ('lit', ''), lambda: ('num', 1.0, '1.0'), lambda: ('num', 1.5, '1.5'), lambda: ('neg', num(1)),
            lambda: ('bin', ('dot',), '=', lit), lambda: ('call', 'count', [NODES]), lambda: ('call', 'not', [('step', 'child', ('text',))]),
            lambda: ('bin', ('call', 'name', []), '=', ('lit', 'b')), lambda: ('pred', NODES, [num(2)]), lambda: ('call', 'number', [lit]),
            lambda: ('seq', []), lambda: ('seq', [num(0), num(1)]), lambda: ('step', 'following-sibling', ('node',)), lambda: ('bin', child('b'), 'or', lit),
            lambda: ('bin', ('pred', at, [('bin', ('dot',), '=', lit)]), 'and', ('step', 'preceding-sibling', ('*',))), lambda: ('abs', '//', child('c'))]
    opts = opts[:kinds]
    return opts[ctx.choice('p%d' % k, len(opts))]()


BASES = [(STAR, '*'), (('abs', '//', STAR), '//*'), (('step', 'descendant', ('node',)), 'descendant::node()'), (('step', 'ancestor-or-self', ('*',)), 'ancestor-or-self::*'),
         (('path', STAR, '/', NODES), '*/node()'), (('step', 'attribute', ('*',)), '@*'), (('step', 'preceding', ('node',)), 'preceding::node()')]


def doc(c):
    return make(('r', [], [('a', [('x', c), ('y', 'z')], ['s', ('b', [], [c]), c]), ('b', [('x', 'q')], []), c, ('a', [('x', '')], [('b', [('x', c)], ['q']), ('c', [], []), ('b', [], [])]), 'q']))


def go(ctx, w, items, base, bt, preds):
    e = ('pred', base, preds)
    t = bt + ''.join(['[' + xpref.text(p) + ']' for p in preds])
    for item in items:
        got, want = judge(ctx, w, e, item, None, 'predicate', t)
        ctx.cover('some' if want else 'none')


@scenario(quick=[dict()], thorough=[dict()], covers=('some', 'none'), steps=900000,
          bounds='every base sequence out of 7 with one predicate out of 22, arbitrary digit or character in it and in the tree; three context nodes of one tree')
def one(ctx):
    c = ctx.text('c', 1, ((32, 33), (35, 38), (40, 0x17F)))
    w = World(doc(c))
    base, bt = BASES[ctx.choice('base', len(BASES))]
    its = every(w)
    go(ctx, w, [its[0], its[1], its[2], its[-3]], base, bt, [pred(ctx, 0, c)])


@scenario(quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=2), dict(n=3), dict(n=4)], covers=('some', 'none'), steps=900000,
          bounds='n predicates in a row, each out of 22 for n=2, 8 for n=3 and 4 for n=4')
def several(ctx, n):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    w = World(doc(c))
    base, bt = BASES[ctx.choice('base', len(BASES))]
    its = every(w)
    go(ctx, w, [its[1]], base, bt, [pred(ctx, k, c, {2: 22, 3: 8, 4: 4}[n]) for k in range(n)])


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('some', 'none'), steps=900000,
          bounds='every tree of up to `size` nodes with arbitrary one-character names; positions of two arbitrary digits, a name and two positions')
def trees(ctx, size):
    data, n = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1), []), lambda i: ctx.text('t%d' % i, 1))
    w = World(make(data))
    k = ctx.choice('kind', 4)
    d, q = digits(ctx, 'd', 2 if k == 0 else 1), child(ctx.text('q', 1, ((97, 122),)))
    ds = ('abs', '//', ('step', 'child', ('node',)))
    base, bt, ps = [lambda: (ds, '//node()', [d]), lambda: (ds, '//node()', [q, d]), lambda: (ds, '//node()', [NODES, d, num(1)]), lambda: (STAR, '*', [d, q])][k]()
    go(ctx, w, every(w) if k == 3 else [w.roots[0]], base, bt, ps)
    ctx.check(shape(w.roots[0].top, False) == data, 'the tree changed')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), steps=900000,
          bounds='sequences of n values (strings, numbers, booleans, nodes, false ones among them) filtered by one predicate or two')
def values(ctx, n):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    w = World(doc(c))
    def val(k):
        return [lambda: ('lit', c), lambda: ('lit', ''), lambda: num(0), lambda: num(2), lambda: ('num', 1.5, '1.5'), lambda: ('call', 'true', []),
                lambda: ('call', 'false', []), lambda: child('a'), lambda: child('b'), lambda: ('seq', [])][ctx.choice('v%d' % k, 10)]()
    seq = ('seq', [val(k) for k in range(n)])
    p = [lambda: ('dot',), lambda: digits(ctx, 'd', 1), lambda: ('bin', ('dot',), '=', ('lit', c)), lambda: ('bin', ('dot',), '=', num(0)), lambda: ('call', 'not', [('dot',)]),
         lambda: ('bin', ('dot',), '!=', ('lit', '')), lambda: ('call', 'string', []), lambda: ('call', 'boolean', [('dot',)])][ctx.choice('pred', 8)]()
    ps = [p] if ctx.choice('two', 2) == 0 else [p, num(1)]
    go(ctx, w, [w.roots[0].top], seq, xpref.text(seq), ps)


@scenario(quick=[dict(n=40)], thorough=[dict(n=40), dict(n=120)], covers=('some', 'none'), steps=9000000,
          bounds='n items filtered: any position of two digits, a name and a position, a position and a position, over four bases; positions within each of many short lists')
def long(ctx, n):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    w = World(make(('r', [], [('ab'[i % 3 == 0], [('x', c if i == n - 4 else 'q')], [c] if i % 5 == 4 else []) for i in range(n)])))
    top = w.roots[0].top
    base, bt, item = [(STAR, '*', top), (('abs', '//', STAR), '//*', top), (('step', 'preceding-sibling', ('*',)), 'preceding-sibling::*', top.xml_children[-1]),
                      (('path', ('step', 'following-sibling', NODES[2]), '/', ('dot',)), 'following-sibling::node()/.', top.xml_children[0])][ctx.choice('base', 4)]
    if bt == '//*': base = ('abs', '//', STAR)
    k = ctx.choice('kind', 6)
    d = digits(ctx, 'd', 2 if k < 4 else 1)
    at = ('bin', ('step', 'attribute', ('name', 'x')), '=', ('lit', c))
    ps = [lambda: [d], lambda: [('bin', ('call', 'name', []), '=', ('lit', 'a')), d], lambda: [num(n - 5, str(n - 5)), num(1)], lambda: [('call', 'true', []), d], lambda: [at, d],
          lambda: [('step', 'child', ('text',)), d]][k]()
    go(ctx, w, [item], base, bt, ps)
