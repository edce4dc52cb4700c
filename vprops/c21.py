from symx.scen import registry
from amara3.uxml import tree
from .trees import make
from . import xpref
from .xpref import World, judge, every, child, num
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The value of an argument is its first item; concat takes every item of each argument. Text nodes are not empty. The name of a text node is "#text".',
               'Not implemented in the library, hence not covered: last, position, normalize-space, translate, same-lang, sum, floor, ceiling, round, arithmetic.']
NUMERIC = ((45, 46), (48, 50), (32, 32), (97, 97), (9, 9))


def lit(ctx, s):
    ctx.assume(not ("'" in s and '"' in s))
    return ('lit', s)


def call(f, *args): return ('call', f, list(args))


def go(ctx, w, e, item, *details):
    got, want = judge(ctx, w, e, item, None, 'function', None, *details)
    ctx.check(len(got) == 1, 'not exactly one value', None, xpref.text(e))
    ctx.cover(e[1])
    return want[0]


@scenario(quick=[dict(n=3, m=1), dict(n=2, m=2)], thorough=[dict(n=4, m=2), dict(n=4, m=1), dict(n=3, m=3)], covers=('starts-with', 'contains', 'substring-before', 'substring-after', 'concat'), steps=300000,
          bounds='strings of 0..n and 0..m arbitrary characters, as literals or text of nodes')
def searching(ctx, n, m):
    s, p = ctx.text('s', ctx.choice('ns', n + 1)), ctx.text('p', ctx.choice('np', m + 1))
    f = ['starts-with', 'contains', 'substring-before', 'substring-after', 'concat'][ctx.choice('fn', 5)]
    if ctx.choice('nodes', 2) == 0: e, w = call(f, lit(ctx, s), lit(ctx, p)), World(make(('r', [], [])))
    else:
        w = World(make(('r', [('x', p)], [('a', [], [s[:1], ('c', [], [s[1:]])] if len(s) else [])])))
        e = call(f, child('a'), ('step', 'attribute', ('name', 'x')))
    v = go(ctx, w, e, w.roots[0].top, s, p)
    if v: ctx.cover('nonempty')


NUMS = [num(0), num(1), num(2), num(3), ('neg', num(1)), ('num', 1.5, '1.5'), ('num', 0.5, '.5'), ('num', 2.4, '2.4'), ('neg', ('num', 0.5, '0.5')), ('neg', ('num', 1.6, '1.6')),
        ('call', 'number', [('lit', 'x')]), ('lit', '2'), ('lit', ' 1.0 '), ('lit', ''), ('call', 'true', []), child('a'), child('zz'), num(99999999999999999999), ('num', 2.5, '2.5')]


@scenario(quick=[dict(n=3)], thorough=[dict(n=6)], covers=('substring',), steps=300000,
          bounds='strings of 0..n arbitrary characters; 19 starts and 19 lengths (whole, fractional, negative, NaN, huge, strings, nodes, booleans, empty) or none')
def substrings(ctx, n):
    s = ctx.text('s', ctx.choice('ns', n + 1))
    w = World(make(('r', [], [('a', [], ['2'])])))
    args = [lit(ctx, s), NUMS[ctx.choice('start', len(NUMS))]]
    if ctx.choice('len', 2): args.append(NUMS[ctx.choice('length', len(NUMS))])
    go(ctx, w, call('substring', *args), w.roots[0].top, s)


def value(ctx, k, s):
    return [lambda: lit(ctx, s), lambda: child('a'), lambda: child('b'), lambda: ('step', 'attribute', ('name', 'x')), lambda: ('step', 'child', ('text',)), lambda: ('seq', []),
            lambda: num(7), lambda: ('num', 0.0, '0.0'), lambda: ('neg', ('num', 1.5, '1.5')), lambda: call('number', ('lit', 'q')), lambda: call('true'), lambda: call('false'),
            lambda: ('lit', ''), lambda: ('seq', [lit(ctx, s), num(2), child('a')]), lambda: ('abs', '/', None), lambda: ('dot',), lambda: ('step', 'child', ('*',)),
            lambda: ('num', 3.0, '3.0'), lambda: ('neg', num(0)), lambda: child('zz')][k]()


FNS = ['string', 'number', 'boolean', 'not', 'name', 'count', 'string-length', 'concat', 'starts-with', 'contains', 'substring-before', 'substring-after', 'true', 'false']


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)], covers=tuple(FNS), steps=300000,
          bounds='every function with every kind of argument (20 kinds: strings of n arbitrary characters, nodes, attributes, numbers, booleans, NaN, empty and longer sequences)')
def kinds(ctx, n):
    s, t = ctx.text('s', n), ctx.text('t', n)
    w = World(make(('r', [('x', t)], [('a', [('x', 'y')], [s]), ('a', [], []), t, ('b', [], ['1', ('c', [], [' 2']), s])])))
    f = FNS[ctx.choice('fn', len(FNS))]
    if f in ('true', 'false'): e = call(f)
    else:
        args = [value(ctx, ctx.choice('a0', 20), s)]
        if f in FNS[7:12]: args.append(value(ctx, ctx.choice('a1', 20), t) if f in ('concat', 'contains') else [lit(ctx, t), call('false'), child('zz')][ctx.choice('a1', 3)])
        if f == 'concat' and ctx.choice('third', 2): args.append(num(5))
        e = call(f, *args)
    go(ctx, w, e, w.roots[0].top, s, t)


@scenario(quick=[dict()], thorough=[dict()], covers=('string', 'number', 'string-length', 'name'), steps=300000,
          bounds='functions without an argument, from every context node (root, elements, texts, attributes) of a tree with arbitrary texts')
def context_item(ctx):
    c, d = ctx.text('c', 1), ctx.text('d', 1, NUMERIC)
    w = World(make(('r', [('x', d), ('y', c)], [d, ('a', [], [c, ('b', [('z', '1')], [d]), c]), ('e', [], [])])))
    f = ['string', 'number', 'string-length', 'name'][ctx.choice('fn', 4)]
    for item in every(w): go(ctx, w, call(f), item, c, d)
    # and with the context item in a sequence of values
    if f != 'name':
        want = xpref.Ref(w).ev(('pred', ('seq', [('lit', d), num(4), call('true')]), [('bin', call(f), '=', ('lit', '4'))]), w.roots[0])
        got = list(w.roots[0].top.xml_xpath("('%s', 4, true())[%s() = '4']" % (d, f)))
        ctx.check(xpref.same(got, want), 'differs with a value as context item', None, f, d)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('number', 'boolean', 'string'), steps=300000,
          bounds='number() of every string of 1..n arbitrary characters, and of every string of up to n+1 among - . 0 1 2 space tab a; converted back to string')
def spellings(ctx, n):
    if ctx.choice('full', 2): s = ctx.text('s', 1 + ctx.choice('len', n))
    else: s = ctx.text('s', 1 + ctx.choice('len', n + 1), NUMERIC)
    ctx.assume(not ('"' in s or "'" in s))
    w = World(make(('r', [], [('a', [], [s])])))
    x = ('lit', s) if ctx.choice('node', 2) else child('a')
    e = [call('number', x), call('boolean', call('number', x)), call('string', call('number', x)), call('string', ('neg', x))][ctx.choice('what', 4)]
    go(ctx, w, e, w.roots[0].top, s)


@scenario(quick=[dict(a=1, b=1)], thorough=[dict(a=2, b=2), dict(a=1, b=3)], covers=('string', 'boolean'), steps=300000,
          bounds='numbers written with up to a digits before and b after the point, every digit arbitrary; some very large and very small ones; negated or not; to string and to boolean')
def numbers(ctx, a, b):
    k = ctx.choice('kind', 3)
    if k == 0:
        t = ctx.text('w', a, ((48, 57),))
        v = int(t)
    elif k == 1:
        t = ctx.text('w', ctx.choice('a', a + 1), ((48, 57),)) + '.' + ctx.text('f', b, ((48, 57),))
        v = float(t)
    else:
        t = ['.0000001', '0.00000123', '1000000000000000000000.0', '123456789012345678901234567890.0', '123456789012345678901234567890', '.1', '3.', '0.30000000000000004',
             '12345678.90625', '1e', '99999999999999990000.5'][ctx.choice('big', 11)]
        ctx.assume(t != '1e')
        v = float(t) if '.' in t else int(t)
    e = ('num', v, t)
    if ctx.choice('neg', 2): e = ('neg', e)
    e = [call('string', e), call('boolean', e), call('concat', e, ('lit', 'x')), call('string-length', e)][ctx.choice('to', 4)]
    w = World(make(('r', [], [])))
    go(ctx, w, e, w.roots[0].top, t)


NAMES = ['name', 'count', 'string', 'true', 'text', 'node', 'or', 'for-each', 'ancestor', 'q']


@scenario(quick=[dict()], thorough=[dict()], covers=('some', 'none'), steps=300000,
          bounds='for-each() over 12 sequences (nodes, attributes, values of every kind, duplicates, nothing) with 14 expressions, an arbitrary character in both and in the tree; elements named like functions and node tests among them')
def mapping(ctx):
    c = ctx.text('c', 1, ((32, 33), (35, 38), (40, 0x17F)))
    nm = NAMES[ctx.choice('name', len(NAMES))] if ctx.choice('named', 2) else 'q'
    s = lambda ax, t: ('step', ax, t)
    w = World(make(('r', [('x', c)], [('a', [('x', 'y')], [c, (nm, [], ['k'])]), 't', (nm, [(nm, c)], [('a', [], [c])]), ('a', [], [])])))
    seqs = [child('a'), s('child', ('node',)), s('child', ('*',)), ('seq', [num(1), ('lit', c)]), ('seq', [child('a'), ('lit', 'b'), call('true'), child('a')]), ('seq', []), ('lit', c), ('dot',),
            ('abs', '//', s('attribute', ('*',))), ('abs', '/', None), ('foreach', s('child', ('*',)), s('child', ('node',))), s('child', ('name', nm))]
    base = seqs[ctx.choice('seq', len(seqs))]
    exprs = [('dot',), call('concat', ('dot',), ('lit', '!')), call('string'), call('name', ('dot',)), ('lit', c), num(1), ('bin', ('dot',), '=', ('lit', c)), call('count', ('dot',)),
             ('seq', [('dot',), ('dot',)]), ('seq', []), call('string-length'),
             s('child', ('name', nm)), s('attribute', ('*',)), ('dotdot',)]
    k = ctx.choice('expr', len(exprs))
    if k > 10: ctx.assume(not any([isinstance(x, (str, bool, int, float)) and not xpref.is_node(x) for x in xpref.Ref(w).ev(base, w.roots[0].top)]))
    e, i = exprs[k], base
    e = ('foreach', i, e)
    t = xpref.text(e)
    # an expression text of its own, with blanks around it
    if k == 11: t = 'for-each(' + xpref.text(i) + ', ' + xpref.text(('lit', [nm, ' ' + nm + ' ', './' + nm][ctx.choice('spelling', 3)])) + ')'
    if k in (3, 7): t = t.replace('name(.)', 'name( . )')
    got, want = judge(ctx, w, e, w.roots[0].top, None, 'for-each', t, c)
    ctx.cover('some' if want else 'none')


@scenario(quick=[dict()], thorough=[dict()], covers=('some', 'none'), steps=300000,
          bounds='paths and predicates over elements and attributes named like functions, node tests, axes and operators (10 names)')
def names(ctx):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    nm = NAMES[ctx.choice('name', len(NAMES))]
    w = World(make(('r', [(nm, c)], [(nm, [], [c, (nm, [], [])]), 't', ('a', [(nm, 'v')], [(nm, [], ['u'])])])))
    q = child(nm)
    at = ('step', 'attribute', ('name', nm))
    e, t = [(q, nm), (q, 'child::' + nm), (('path', q, '/', q), nm + '/' + nm), (('abs', '//', q), '//' + nm), (at, '@' + nm), (('pred', ('step', 'child', ('*',)), [q]), '*[' + nm + ']'),
            (('pred', q, [num(1)]), nm + '[1]'), (call('string', q), 'string(' + nm + ')'), (call('count', ('bin', q, '|', at)), 'count(' + nm + ' | @' + nm + ')'),
            (('bin', q, '=', ('lit', c)), "%s = '%s'" % (nm, c)), (('bin', q, 'and', q), nm + ' and ' + nm), (call('name', q), 'name(' + nm + ')')][ctx.choice('shape', 12)]
    for item in (w.roots[0].top, w.roots[0].top.xml_children[2], w.roots[0]):
        got, want = judge(ctx, w, e, item, None, 'name', t, nm)
        ctx.cover('some' if want else 'none')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)], covers=('number', 'string-length', 'string', 'boolean', 'count'), steps=400000,
          bounds='lengths beyond what tests try: numbers and strings of up to 400 characters with n arbitrary ones in them; empty first items; duplicates counted')
def long(ctx, n):
    k = ctx.choice('kind', 6)
    c = ctx.text('c', n, NUMERIC if k < 2 else ((32, 33), (35, 38), (40, 0x17F), (0x10000, 0x10400)))
    m = [15, 16, 17, 18, 40, 300][ctx.choice('m', 6)]
    w = World(make(('r', [('x', c)], [('a', [], [c]), ('a', [], []), ('e', [], [])])))
    lit_ = lambda s: ('lit', s)
    star = ('step', 'child', ('*',))
    if k == 0: e = call('number', lit_(['0' * m + c + '7', ' ' * m + c, '1' * m + c, c + '.' + '0' * m + '5', '-' + c + '9' * m][ctx.choice('how', 5)]))
    elif k == 1: e = call('boolean', call('number', lit_(['-0.' + '0' * m + c + '1', '0.' + '0' * m + c, '-' + '0' * m + '.' + c][ctx.choice('how', 3)])))
    elif k == 2: e = call(['string-length', 'string', 'boolean'][ctx.choice('how', 3)], lit_('z' * m + c + 'y' * m))
    elif k == 3: e = call('string', ('seq', [[lit_(''), child('e'), ('seq', []), lit_(c), call('false'), num(0)][ctx.choice('h1', 6)], [lit_('a'), child('a')][ctx.choice('h2', 2)]]))
    elif k == 4: e = call('count', [('seq', [child('a'), child('a')]), ('path', star, '/', ('dotdot',)), ('seq', [lit_(c), lit_(c)]), ('path', star, '//', ('step', 'ancestor', ('node',))),
                                    ('bin', child('a'), '|', child('a'))][ctx.choice('how', 5)])
    else: e = call([ 'boolean', 'string-length', 'number'][ctx.choice('how', 3)], ('seq', [[lit_(''), child('e'), lit_(c), num(0), call('false')][ctx.choice('h1', 5)], [lit_('a'), num(5)][ctx.choice('h2', 2)]]))
    go(ctx, w, e, w.roots[0].top, c)


@scenario(quick=[dict(n=n) for n in (10, 40, 90)], thorough=[dict(n=n) for n in (10, 40, 90, 300)], covers=('some',), steps=2000000,
          bounds='two for-each() in a row whose expressions are alike in all but one arbitrary character at the end or the start of n; for-each() over n items; concat() of n arguments; nested calls 12 deep')
def longer(ctx, n):
    a, b = ctx.text('a', 1, ((97, 122),)), ctx.text('b', 1, ((97, 122),))
    w = World(make(('r', [], [('a', [], [a]), ('b', [], ['2'])] + [('e', [], [str(i)]) for i in range(n)])))
    k = ctx.choice('kind', 5)
    filler = 'x' * n
    two = ('seq', [child('a'), child('b')])
    if k == 0: e = ('seq', [('foreach', two, call('concat', ('lit', filler + a), ('dot',))), ('foreach', two, call('concat', ('lit', filler + b), ('dot',)))])
    elif k == 1: e = ('seq', [('foreach', two, call('concat', ('lit', a + filler), ('dot',))), ('foreach', two, call('concat', ('lit', b + filler), ('dot',)))])
    elif k == 2: e = ('foreach', child('e'), call('concat', ('dot',), ('lit', a)))
    elif k == 3: e = ('call', 'concat', [('lit', a if i == n - 2 else b if i == n // 2 else str(i)) for i in range(n)])
    else:
        e = ('lit', a)
        for i in range(12): e = call('concat', e, ('lit', b)) if i % 3 else call('substring', call('concat', ('lit', 'qq'), e), num(2))
    got, want = judge(ctx, w, e, w.roots[0].top, None, 'function', None, a, b)
    if want: ctx.cover('some')


# lookup(), with the scenario of C30
from . import c30
SCENARIOS['lookups'] = c30.SCENARIOS['lookups']
