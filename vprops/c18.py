from symx.scen import registry
from amara3.uxml import tree, uxpath
from .trees import shape, make, shaped, check_links
from . import xpref
from .xpref import World, judge, every, child, Ref, same, show
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['a/b maps over the nodes of a in order, so a node reached from two of them comes twice. node() directly after a leading / or // selects the root node as well '
               '(as the existing tests demand). The root node is the parent of the top element.']
NODE, TEXT, STAR = ('node',), ('text',), ('*',)
STEPS = [('dot',), ('dotdot',), child('a'), child('b'), ('step', 'child', STAR), ('step', 'child', NODE), ('step', 'child', TEXT), ('step', 'attribute', ('name', 'x')),
         ('step', 'ancestor', STAR), ('step', 'following-sibling', NODE), ('step', 'descendant', ('name', 'b')), ('step', 'self', ('name', 'a')),
         ('step', 'preceding', NODE), ('step', 'descendant-or-self', NODE), ('step', 'parent', NODE), ('step', 'attribute', STAR)]
TEXTS = ['.', '..', 'a', 'b', '*', 'node()', 'text()', '@x', 'ancestor::*', 'following-sibling::node()', 'descendant::b', 'self::a',
         'preceding::node()', 'descendant-or-self::node()', 'parent::node()', '@*']


def path(ctx, n, steps=len(STEPS), pre='', seps=2):
    """A relative path of n steps, with its text in abbreviated form."""
    i = ctx.choice(pre + 's0', steps)
    e, t = STEPS[i], TEXTS[i]
    for k in range(1, n):
        i = ctx.choice('%ss%d' % (pre, k), steps)
        sep = ['/', '//'][ctx.choice('%ssep%d' % (pre, k), seps)]
        e, t = ('path', e, sep, STEPS[i]), t + sep + TEXTS[i]
    return e, t


def rooted(ctx, e, t):
    k = ctx.choice('lead', 3)
    return (e, t) if k == 0 else (('abs', '/', e), '/' + t) if k == 1 else (('abs', '//', e), '//' + t)


def doc(m=0):
    if m == 0: return make(('a', [('x', '1')], ['t', ('b', [('x', '2'), ('y', '3')], [('a', [], ['t', ('b', [], [])]), 'u']), ('a', [], []), 't', ('c', [], [('b', [('x', '')], ['t'])])]))
    if m == 1: return make(('b', [], [('b', [('x', 'p')], [('b', [], ['s', ('a', [('x', 'q')], []), 's'])]), ('a', [], [('a', [], [])])]))
    return make(('a', [], []))


def all_items(ctx, w, e, t, vars=None):
    for item in every(w):
        got, want = judge(ctx, w, e, item, vars, 'path', t)
        if want: ctx.cover('some')


@scenario(quick=[dict(m=m) for m in range(3)], thorough=[dict(m=m) for m in range(3)], covers=('some',), steps=900000,
          bounds='every path of two steps out of 16, joined by / or //, leading nothing, / or //, from every context node of three trees')
def two(ctx, m):
    w = World(doc(m))
    if ctx.choice('one', 2): e, t = path(ctx, 1)
    else: e, t = path(ctx, 2)
    e, t = rooted(ctx, e, t)
    all_items(ctx, w, e, t)


@scenario(quick=[dict(steps=8, m=0)], thorough=[dict(steps=16, m=0), dict(steps=16, m=1)], covers=('some',), steps=900000,
          bounds='every path of three steps out of the first `steps`, from four context nodes of one tree')
def three(ctx, steps, m):
    w = World(doc(m))
    e, t = rooted(ctx, *path(ctx, 3, steps))
    its = every(w)
    for item in (its[0], its[1], its[5], its[-1]):
        got, want = judge(ctx, w, e, item, None, 'path', t)
        if want: ctx.cover('some')


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('some',), steps=900000,
          bounds='every tree of up to `size` nodes with arbitrary one-character element names and texts; ten kinds of path whose names are an arbitrary character')
def trees(ctx, size):
    data, n = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1), [('x', 'v')] if i == 1 else []), lambda i: ctx.text('t%d' % i, 1))
    q = ctx.text('q', 1, ((97, 122),))
    w = World(make(data))
    k = ctx.choice('kind', 10)
    a, star, node = child(q), ('step', 'child', STAR), ('step', 'child', NODE)
    e, t = [lambda: (('path', a, '/', node), q + '/node()'), lambda: (('abs', '//', a), '//' + q), lambda: (('path', ('dot',), '//', a), './/' + q),
            lambda: (('path', star, '/', ('dotdot',)), '*/..'), lambda: (('abs', '/', ('path', a, '/', star)), '/' + q + '/*'),
            lambda: (('path', ('dotdot',), '/', a), '../' + q), lambda: (('path', ('path', star, '//', ('step', 'child', TEXT)), '/', ('dotdot',)), '*//text()/..'),
            lambda: (('abs', '//', ('path', a, '//', node)), '//' + q + '//node()'), lambda: (('abs', '//', ('path', node, '/', ('step', 'attribute', ('name', 'x')))), '//node()/@x'),
            lambda: (('path', ('dot',), '/', ('path', ('dotdot',), '/', a)), './../' + q)][k]()
    if k == 9: e = ('path', ('path', ('dot',), '/', ('dotdot',)), '/', a)
    all_items(ctx, w, e, t)
    ctx.check(shape(w.roots[0].top, False) == data, 'the tree changed')


@scenario(quick=[dict()], thorough=[dict()], covers=('some',), steps=900000,
          bounds='steps after parenthesised sequences, unions, predicates and variables; absolute paths inside other expressions; four context nodes of three trees')
def composite(ctx):
    m = ctx.choice('doc', 3)
    w = World(doc(m))
    i, j = ctx.choice('i', 12), ctx.choice('j', 12)
    if STEPS[i][0] != 'step': ctx.cover('abbreviated')
    s, st, r, rt = STEPS[i], TEXTS[i], STEPS[j], TEXTS[j]
    its = every(w)
    four = [its[0], its[1], its[len(its) // 2], its[-1]]
    v = [x for x in its if xpref.is_el(x)][-1]
    k = ctx.choice('kind', 8)
    one = xpref.num(1)
    e, t = [(('path', ('seq', [s]), '/', r), '(%s)/%s' % (st, rt)), (('path', ('seq', [s, r]), '/', r), '(%s, %s)/%s' % (st, rt, rt)),
            (('path', ('seq', [('bin', s, '|', r)]), '//', r), '(%s|%s)//%s' % (st, rt, rt)), (('path', ('pred', s, [one]), '/', r), '%s[1]/%s' % (st, rt)),
            (('path', ('var', 'v'), '/', r), '$v/' + rt), (('path', ('var', 'v'), '//', r), '$v//' + rt),
            (('path', ('path', ('seq', [('abs', '/', None)]), '/', r), '/', s), '(/)/%s/%s' % (rt, st)),
            (('path', ('path', ('var', 'v'), '/', s), '//', r), '$v/%s//%s' % (st, rt))][k]
    for item in four:
        got, want = judge(ctx, w, e, item, {'v': v}, 'path', t)
        if want: ctx.cover('some')


@scenario(quick=[dict()], thorough=[dict()], covers=('same',), steps=900000,
          bounds='qquery on text, bytes, a top or inner element; xml_xpath with text or a parsed expression; parse().compute(context()); document with an arbitrary text and name')
def entry(ctx):
    c = ctx.text('c', 1, ((97, 122),))
    src = '<a x="1">%s<%s>t</%s><b><%s/>%s</b></a>' % (c, c, c, c, c)
    src = src.replace('/>', '></%s>' % c)
    t, e = [('a/' + c, ('path', child('a'), '/', child(c))), ('//' + c, ('abs', '//', child(c))), ('//text()', ('abs', '//', ('step', 'child', TEXT))),
            ('a/@x', ('path', child('a'), '/', ('step', 'attribute', ('name', 'x')))), ('.', ('dot',)), ('b/node()', ('path', child('b'), '/', ('step', 'child', NODE)))][ctx.choice('expr', 6)]
    top = tree.treebuilder().parse(src)
    w = World(top)
    root = w.roots[0]
    b = top.xml_children[-1]
    def shapes(r):
        return [shape(x) if isinstance(x, (tree.element, tree.text)) else '/' if isinstance(x, uxpath.xast.root_node) else (x.xml_name, x.xml_value) for x in r]
    def ref(item):
        return [shape(x) if isinstance(x, (tree.element, tree.text)) else '/' if isinstance(x, xpref.Root) else (x.name, x.value) for x in Ref(w).ev(e, item)]
    k = ctx.choice('how', 7)
    p = uxpath.parse(t)
    how = [lambda: uxpath.qquery(src, t), lambda: uxpath.qquery(src.encode('utf-8'), p), lambda: uxpath.qquery(top, t), lambda: uxpath.qquery(b, p),
           lambda: b.xml_xpath(p), lambda: top.xml_xpath(p), lambda: p.compute(uxpath.context(b, force_root=True))][k]
    want = ref(b if k in (3, 4) else root)
    st, got = ctx.guard(lambda: shapes(list(how())))
    ctx.check(st == 'ok' and got == want, 'differs by how it is run', None, k, t, src, got, want)
    ctx.cover('same')
    ctx.obs(got)


def longdoc(m, n, c):
    """n elements side by side (m=0), n levels (m=1), 12 by 12 (m=2); c is an arbitrary character somewhere."""
    if m == 0: return make(('r', [], [x for i in range(n) for x in (('ab'[i % 2], [('x', c if i == n - 3 else 'x')], [c if i == n - 2 else 't', ('b', [], [])] if i % 10 == 9 else []), 't')]))
    if m == 1:
        data = ('b', [('x', c)], [c])
        for i in range(n): data = ('ab'[i % 2], [('x', 'q')] if i % 7 == 0 else [], [data, 't'] if i % 5 else ['t', data, ('c', [], [])])
        return make(data)
    return make(('r', [], [('a', [('x', 'u')], [('b', [], [c] if i == 7 and j == 11 else []) for j in range(n // 10)]) for i in range(n // 10)]))


@scenario(quick=[dict(m=0, n=80), dict(m=1, n=60), dict(m=2, n=120)], thorough=[dict(m=0, n=200), dict(m=1, n=120), dict(m=2, n=200)], covers=('some',), steps=9000000,
          bounds='twelve paths over documents of n nodes side by side, n levels deep, or a tenth by a tenth, from four context nodes; one arbitrary character')
def long(ctx, m, n):
    c = ctx.text('c', 1)
    w = World(longdoc(m, n, c))
    star, node, a, b = ('step', 'child', STAR), ('step', 'child', NODE), child('a'), child('b')
    at = ('step', 'attribute', STAR)
    k = ctx.choice('kind', 12)
    e, t = [(('path', star, '/', node), '*/node()'), (('path', star, '/', ('dotdot',)), '*/..'), (('abs', '//', b), '//b'), (('abs', '//', at), '//@*'), (('path', ('dot',), '//', node), './/node()'),
            (('path', ('path', star, '/', b), '/', ('dotdot',)), '*/b/..'), (('abs', '//', ('path', b, '/', ('dotdot',))), '//b/..'), (('path', ('step', 'following-sibling', NODE), '/', at), 'following-sibling::node()/@*'),
            (('path', ('step', 'ancestor', STAR), '/', at), 'ancestor::*/@*'), (('path', ('step', 'preceding', STAR), '/', ('dot',)), 'preceding::*/.'),
            (('path', ('step', 'descendant', ('name', 'a')), '/', b), 'descendant::a/b'), (('path', ('path', a, '/', b), '/', ('step', 'child', TEXT)), 'a/b/text()')][k]
    its = every(w, False)
    for item in (its[0], its[1], its[len(its) // 2], its[-2]):
        got, want = judge(ctx, w, e, item, None, 'path', t)
        if want: ctx.cover('some')


@scenario(quick=[dict(m=m) for m in range(3)], thorough=[dict(m=m) for m in range(3)], covers=('some',), steps=900000,
          bounds='every axis with every kind of test (node(), text(), *, a name), spelled out or abbreviated, after nothing, /, //, ./, .//, ../ or */, alone or before /.. or /node() or in a predicate, from every context node of three trees')
def axes(ctx, m):
    w = World(doc(m))
    axis = ctx.pick('axis', xpref.AXES)
    test, tt = ctx.pick('test', [(NODE, 'node()'), (TEXT, 'text()'), (STAR, '*'), (('name', 'a'), 'a'), (('name', 'x'), 'x')])
    e, t = ('step', axis, test), axis + '::' + tt
    if axis == 'child' and ctx.choice('short', 2): t = tt
    k = ctx.choice('after', 4)
    star = ('step', 'child', STAR)
    steps = [(e, t)] + ([[], [(('dotdot',), '..')], [(('step', 'child', NODE), 'node()')], [(('pred', e, [e]), '')]][k])
    if k == 3: steps = [(('pred', e, [e]), t + '[' + t + ']')]
    lead = ctx.choice('lead', 7)
    if lead > 2: steps = [[(('dot',), '.'), (('dot',), '.'), (('dotdot',), '..'), (star, '*')][lead - 3]] + steps
    e, t = steps[0]
    for i, (s, x) in enumerate(steps[1:]):
        sep = '//' if lead == 4 and i == 0 else '/'
        e, t = ('path', e, sep, s), t + sep + x
    if k == 3: ctx.assume(lead < 3)
    if lead in (1, 2):
        # a predicate filters what the whole path gives
        e = ('pred', ('abs', '/' * lead, e[1]), e[2]) if k == 3 else ('abs', '/' * lead, e)
        t = '/' * lead + t
    all_items(ctx, w, e, t)
