from symx.scen import registry
from amara3.uxml import tree
from .trees import make
from . import xpref
from .xpref import World, judge, child, num
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Pairs of items are compared one by one: if either is a boolean, as booleans (only for = and !=); else if either is a number, or for < <= > >=, as numbers; '
               'else as strings. Conversions are those of XPath 1.0.']
OPS = ['=', '!=', '<', '<=', '>', '>=']
LETTERS = ((97, 122), (0x100, 0x17F))
NUMERIC = ((45, 46), (48, 50), (32, 32), (97, 97))     # - . 0 1 2 space a


def operand(ctx, pre, w, s, rich=True):
    """An operand of one item, or none, or several."""
    d = '%sd' % pre
    opts = [lambda: ('lit', s), lambda: child('a'), lambda: child('b'), lambda: ('step', 'attribute', ('name', 'x')), lambda: ('var', 'v'),
            lambda: num(1), lambda: ('num', 1.5, '1.5'), lambda: ('neg', num(2)), lambda: ('lit', '1'), lambda: ('lit', ''), lambda: ('call', 'true', []),
            lambda: ('call', 'false', []), lambda: ('seq', []), lambda: ('call', 'number', [('lit', 'x')]), lambda: ('step', 'child', ('text',)),
            lambda: ('seq', [num(1), ('lit', s), ('call', 'true', [])]), lambda: ('dot',), lambda: ('seq', [('bin', child('a'), '=', ('lit', s))]), lambda: child('empty')]
    return opts[ctx.choice(pre, len(opts))]()


def doc(s, t):
    return make(('r', [('x', s)], [('a', [], [s]), ('a', [], ['1']), ('b', [], ['2.0', ('c', [], [t])]), ('empty', [('k', '')], []), t]))


def go(ctx, w, e, item, vars, *details):
    got, want = judge(ctx, w, e, item, vars, 'comparison', None, *details)
    ctx.check(len(got) == 1 and (got[0] is True or got[0] is False), 'not one boolean', None, xpref.text(e))
    ctx.cover('true' if want[0] else 'false')


@scenario(quick=[dict(dom='text')], thorough=[dict(dom='text'), dict(dom='digit')], covers=('true', 'false'), steps=900000,
          bounds='every operator between two operands out of 19 kinds (strings, numbers, booleans, NaN, nodes, attributes, variables, sequences of 0, 1 or more), texts of an arbitrary character')
def pairs(ctx, dom):
    dm = LETTERS if dom == 'text' else NUMERIC
    s, t = ctx.text('s', 1, dm), ctx.text('t', 1, dm)
    w = World(doc(s, t))
    op = OPS[ctx.choice('op', 6)]
    e = ('bin', operand(ctx, 'l', w, s), op, operand(ctx, 'r', w, t))
    go(ctx, w, e, w.roots[0].top, {'v': t}, s, t)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('true', 'false'), steps=900000,
          bounds='texts of 1..n characters among - . 0 1 2 space a (every spelling of numbers and non-numbers) against numbers, texts and nodes with every operator')
def spellings(ctx, n):
    s = ctx.text('s', 1 + ctx.choice('len', n), NUMERIC)
    w = World(make(('r', [('x', s)], [('a', [], [s])])))
    op = OPS[ctx.choice('op', 6)]
    l = [('lit', s), child('a'), ('step', 'attribute', ('name', 'x'))][ctx.choice('l', 3)]
    r = [num(1), ('neg', num(1)), ('num', 0.5, '.5'), ('lit', '1'), ('call', 'true', []), child('a')][ctx.choice('r', 6)]
    e = ('bin', l, op, r) if ctx.choice('swap', 2) == 0 else ('bin', r, op, l)
    go(ctx, w, e, w.roots[0].top, None, s)


@scenario(quick=[dict(k=2, m=2)], thorough=[dict(k=3, m=2), dict(k=2, m=3)], covers=('true', 'false'), steps=900000,
          bounds='k elements a and m elements b, each with 0-1 arbitrary characters of text; every operator between the two sequences, and between one and itself')
def existential(ctx, k, m):
    def tx(p): return [ctx.text(p, 1, LETTERS if op < 2 else ((48, 51), (97, 97)))] if ctx.choice(p + 'len', 2) else []
    op = ctx.choice('op', 6)
    na, nb = ctx.choice('na', k + 1), ctx.choice('nb', m + 1)
    w = World(make(('r', [], [('a', [], tx('a%d' % i)) for i in range(na)] + [('b', [], tx('b%d' % i)) for i in range(nb)])))
    e = ('bin', child('a'), OPS[op], child('b') if ctx.choice('self', 2) == 0 else child('a'))
    go(ctx, w, e, w.roots[0].top, None)


@scenario(quick=[dict(n=2, kinds=15)], thorough=[dict(n=2, kinds=15), dict(n=3, kinds=7)], covers=('true', 'false'), steps=900000,
          bounds='n+1 operands (of `kinds` kinds, sequences of several items among them) joined by and / or in every combination, with parentheses and not() at a chosen place')
def logic(ctx, n, kinds):
    c = ctx.text('c', 1, LETTERS)
    w = World(doc(c, 'm'))
    def operand(i):
        return [lambda: ('call', 'true', []), lambda: ('call', 'false', []), lambda: child('empty'), lambda: ('lit', ''), lambda: ('bin', child('a'), '=', ('lit', c)),
                lambda: ('seq', [('call', 'false', []), ('call', 'true', [])]), lambda: ('seq', []), lambda: child('a'), lambda: child('zz'), lambda: ('lit', c), lambda: num(0),
                lambda: ('bin', ('step', 'attribute', ('name', 'x')), '!=', ('lit', 'm')), lambda: ('call', 'number', [('lit', c)]),
                lambda: ('seq', [('lit', c), ('lit', '')]), lambda: ('seq', [num(0), child('a')])][ctx.choice('o%d' % i, kinds)]()
    parts = [operand(i) for i in range(n + 1)]
    ops = [['and', 'or'][ctx.choice('op%d' % i, 2)] for i in range(n)]
    wrap = ctx.choice('wrap', n + 2)
    if wrap < n: parts[wrap] = ('call', 'not', [parts[wrap]])
    if wrap == n:
        # parentheses around the last two
        parts[n - 1:] = [('seq', [('bin', parts[n - 1], ops[n - 1], parts[n])])]
        ops.pop()
    # and binds tighter than or; both group to the left
    ors = [[parts[0]]]
    for o, p in zip(ops, parts[1:]):
        if o == 'and': ors[-1].append(p)
        else: ors.append([p])
    def fold(xs, op):
        e = xs[0]
        for x in xs[1:]: e = ('bin', e, op, x)
        return e
    go(ctx, w, fold([fold(x, 'and') for x in ors], 'or'), w.roots[0].top, None)


@scenario(quick=[dict()], thorough=[dict()], covers=('true', 'false'), steps=900000,
          bounds='comparisons combined without parentheses: = with <, comparisons with and / or, unary minus, union and paths')
def precedence(ctx):
    s = ctx.text('s', 1, ((48, 50), (97, 97)))
    w = World(make(('r', [('x', s)], [('a', [], [s]), ('b', [], ['1'])])))
    a, b, x = child('a'), child('b'), ('step', 'attribute', ('name', 'x'))
    o1, o2 = OPS[ctx.choice('o1', 6)], OPS[ctx.choice('o2', 6)]
    rank = lambda o: 0 if o in ('=', '!=') else 1
    k = ctx.choice('kind', 6)
    if k == 0:
        # x o1 y o2 z
        l, m, r = a, num(1), [('call', 'true', []), num(0), b][ctx.choice('z', 3)]
        e = ('bin', l, o1, ('bin', m, o2, r)) if rank(o2) > rank(o1) else ('bin', ('bin', l, o1, m), o2, r)
    elif k == 1: e = ('bin', ('bin', a, o1, b), 'and', ('bin', x, o2, num(1)))
    elif k == 2: e = ('bin', ('bin', a, o1, b), 'or', ('bin', x, o2, num(1)))
    elif k == 3: e = ('bin', ('neg', a), o1, ('neg', num(1)))
    elif k == 4: e = ('bin', ('bin', a, '|', b), o1, ('path', ('dot',), '/', x))
    else: e = ('bin', ('path', ('abs', '/', child('r')), '/', a), o1, ('bin', x, '|', b))
    txt = xpref.text(e)
    if k == 5: txt = '/r/a ' + o1 + ' @x | b'
    w2 = judge(ctx, w, e, w.roots[0].top, None, 'comparison', txt, s)
    ctx.cover('true' if w2[1][0] else 'false')


@scenario(quick=[dict(n=30)], thorough=[dict(n=120)], covers=('true', 'false'), steps=9000000,
          bounds='sequences of n items with one arbitrary character at a chosen place, on either side, compared with every operator to one value, to another long sequence, to nothing')
def long(ctx, n):
    op = OPS[ctx.choice('op', 6)]
    c = ctx.text('c', 1, ((48, 51), (97, 98)))
    at = [0, 9, n // 2, n - 1][ctx.choice('at', 4)]
    q = ctx.pick('q', ['1', 'a'])
    w = World(make(('r', [], [('a', [], [c if i == at else q]) for i in range(n)] + [('b', [], [q]) for i in range(3 * n // 2)])))
    other = [('lit', 'a'), num(1), child('b'), ('seq', []), ('lit', c)][ctx.choice('other', 5)]
    e = ('bin', child('a'), op, other) if ctx.choice('swap', 2) == 0 else ('bin', other, op, child('a'))
    go(ctx, w, e, w.roots[0].top, None, c, n, at)


@scenario(quick=[dict(n=30)], thorough=[dict(n=120)], covers=('true', 'false'), steps=3000000, bounds='n operands joined by and, or by or, or alternating; one of them, at a chosen place, depends on an arbitrary character')
def longlogic(ctx, n):
    c = ctx.text('c', 1, LETTERS)
    w = World(doc(c, 'm'))
    at = [0, 9, n // 2, n - 1][ctx.choice('at', 4)]
    k = ctx.choice('kind', 3)
    odd = [('bin', child('a'), '=', ('lit', 'm')), ('lit', c), child('zz'), ('call', 'not', [('bin', ('lit', c), '=', ('lit', 'k'))])][ctx.choice('odd', 4)]
    rest = ('call', 'true' if k == 0 else 'false', [])
    parts = [odd if i == at else rest for i in range(n)]
    if k == 2: parts = [('bin', p, 'and', ('call', 'true', [])) for p in parts]
    e = parts[0]
    for p in parts[1:]: e = ('bin', e, 'and' if k == 0 else 'or', p)
    go(ctx, w, e, w.roots[0].top, None)
