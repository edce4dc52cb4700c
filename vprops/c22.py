from symx.scen import registry
from amara3.uxml import tree, uxpath
from .trees import make, shape, shaped, check_links
from . import xpref
from .xpref import World, judge, every, child, num, Ref, same, show
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Both operands select nodes. Attributes come after their element and before its children, in the order they have in the element. Nodes of different trees are kept apart.']
NODE, TEXT, STAR = ('node',), ('text',), ('*',)
OPERANDS = [('*', ('step', 'child', STAR)), ('//b', ('abs', '//', child('b'))), ('//text()', ('abs', '//', ('step', 'child', TEXT))), ('//@*', ('abs', '//', ('step', 'attribute', STAR))),
            ('preceding::node()', ('step', 'preceding', NODE)), ('ancestor-or-self::node()', ('step', 'ancestor-or-self', NODE)), ('following::node()', ('step', 'following', NODE)),
            ('//@x', ('abs', '//', ('step', 'attribute', ('name', 'x')))), ('()', ('seq', [])), ('descendant::a', ('step', 'descendant', ('name', 'a'))),
            ('.', ('dot',)), ('//*/..', ('abs', '//', ('path', ('step', 'child', STAR), '/', ('dotdot',))))]


def doc(c):
    return make(('r', [('x', c), ('y', '2')], ['t', ('b', [('z', '1'), ('x', c)], [c, ('a', [], ['t', ('b', [('x', '')], [])]), 't']), ('a', [('x', '')], []), c]))


@scenario(quick=[dict()], thorough=[dict()], covers=('some', 'none', 'both'), steps=900000,
          bounds='every pair of 12 operands (elements, texts, attributes, root, reverse axes, empty) from every context node of one tree with an arbitrary character in texts and attributes')
def pairs(ctx):
    c = ctx.text('c', 1)
    w = World(doc(c))
    (lt, l), (rt, r) = OPERANDS[ctx.choice('l', 12)], OPERANDS[ctx.choice('r', 12)]
    for item in every(w):
        got, want = judge(ctx, w, ('bin', l, '|', r), item, None, 'union', '%s | %s' % (lt, rt))
        ctx.cover('some' if want else 'none')
        if want and len(want) < len(Ref(w).ev(l, item)) + len(Ref(w).ev(r, item)): ctx.cover('both')


@scenario(quick=[dict(size=5)], thorough=[dict(size=6)], covers=('some',), steps=900000,
          bounds='every tree of up to `size` nodes with arbitrary one-character texts; names of 0-2 kinds and attributes; six unions of two, three or four operands, nested and in parentheses')
def trees(ctx, size):
    def label(i): return ('ab'[i % 2], [('x', '1'), ('y', '1')][:i % 3])
    data, n = shaped(ctx, size, label, lambda i: ctx.text('t%d' % i, 1))
    w = World(make(data))
    a, b, t, at = ('abs', '//', child('a')), ('abs', '//', child('b')), ('abs', '//', ('step', 'child', TEXT)), ('abs', '//', ('step', 'attribute', STAR))
    U = lambda l, r: ('bin', l, '|', r)
    e, txt = [(U(b, a), '//b|//a'), (U(U(t, at), b), '//text() | //@* | //b'), (U(t, ('seq', [U(b, t)])), '//text()|(//b|//text())'),
              (U(U(U(at, a), t), b), '//@*|//a|//text()|//b'), (('path', ('seq', [U(a, b)]), '/', ('step', 'preceding-sibling', NODE)), '(//a|//b)/preceding-sibling::node()'),
              (('call', 'count', [U(t, ('abs', '//', ('step', 'child', NODE)))]), 'count(//text()|//node())')][ctx.choice('e', 6)]
    got, want = judge(ctx, w, e, w.roots[0], None, 'union', txt, data)
    if want: ctx.cover('some')
    ctx.check(shape(w.roots[0].top, False) == data, 'the tree changed')


@scenario(quick=[dict(ops=2)], thorough=[dict(ops=3)], covers=('edited',), steps=900000,
          bounds='a union evaluated before, between and after `ops` edits (append, insert first, remove, move, set attribute, replace children list) on one tree')
def edits(ctx, ops):
    c = ctx.text('c', 1)
    top = doc(c)
    lt, l = OPERANDS[ctx.choice('l', 4)]
    rt, r = OPERANDS[2 + ctx.choice('r', 4)]
    e, txt = ('bin', l, '|', r), lt + ' | ' + rt
    p = uxpath.parse(txt)
    def check(what):
        w = World(top)
        for item in (w.roots[0], top):
            want = Ref(w).ev(e, item)
            st, got = ctx.guard(xpref.run, w, p, item)
            ctx.check(st == 'ok' and same(got, want), 'union differs ' + what, None, txt, show(got) if got else got, show(want))
            ctx.obs(show(got))
    check('at first')
    new = 0
    for k in range(ops):
        els = [n for n, q in World(top).order if isinstance(n, tree.element)]
        tgt = els[ctx.choice('tgt%d' % k, 3)]
        op = ctx.choice('op%d' % k, 6)
        if op == 0: tgt.xml_append(make(('b', [('x', 'n')], [c])))
        elif op == 1: tgt.xml_insert(tree.text(c), 0)
        elif op == 2:
            if tgt.xml_children: tgt.xml_remove(tgt.xml_children[0])
        elif op == 3: top.xml_insert(top.xml_children[-1], 0)
        elif op == 4:
            tgt.xml_attributes['x'] = 'm'
            tgt.xml_attributes['w'] = c
        else: tgt.xml_children.reverse()
        check('after %d edits' % (k + 1))
    ctx.cover('edited')


@scenario(quick=[dict()], thorough=[dict()], covers=('some',), steps=900000, bounds='nodes of two trees, through variables, with the same shape and texts')
def two_trees(ctx):
    c = ctx.text('c', 1)
    one, two = doc(c), doc(c)
    w1, w2 = World(one), World(two)
    v = [n for n, p in w2.order][1 + ctx.choice('node', 6)]
    own = ctx.choice('own', 4)
    lt, l = OPERANDS[ctx.choice('l', 4)]
    w = World(one, two)
    if own == 0: e, txt = ('bin', l, '|', ('var', 'v')), lt + ' | $v'
    elif own == 1: e, txt = ('bin', l, '|', ('path', ('var', 'v'), '/', ('step', 'ancestor-or-self', NODE))), lt + ' | $v/ancestor-or-self::node()'
    elif own == 2: e, txt = ('bin', ('bin', l, '|', ('var', 'v')), '|', l), lt + ' | $v | ' + lt
    else: e, txt = ('bin', l, '|', ('bin', ('var', 'v'), '|', ('var', 'u'))), lt + ' | ($v | $u)'
    u = one.xml_children[1]
    want = Ref(w, {'v': v, 'u': u}).ev(e, one)
    if not Ref(w, {}).ev(l, one): return
    st, got = ctx.guard(xpref.run, w1, txt, one, {'v': v, 'u': u})
    ctx.check(st == 'ok' and len(got) == len(want), 'union of two trees has other nodes', None, txt, show(got) if got else got, show(want))
    for t in (w1, w2):
        a = [g for g in got if any(g is n or isinstance(g, uxpath.xast.attribute_node) and g.xml_parent is n or isinstance(g, uxpath.xast.root_node) and g.xml_children[0] is t.roots[0].top for n, p in t.order)]
        b = [x for x in want if any(x is n or isinstance(x, xpref.Attr) and x.el is n or isinstance(x, xpref.Root) and x.top is t.roots[0].top for n, p in t.order)]
        ctx.check(same(a, b), 'nodes of one tree are missing or out of order', None, txt, show(a), show(b))
    ctx.cover('some')


@scenario(quick=[dict(n=12, m=90)], thorough=[dict(n=40, m=200)], covers=('some',), steps=9000000, bounds='unions of n operands; unions of operands of about m nodes each, from three context nodes, with an arbitrary character in the tree')
def long(ctx, n, m):
    c = ctx.text('c', 1)
    w = World(make(('r', [('x', c)], [('abc'[i % 3], [('x', '1')] if i % 4 == 0 else [], [c] if i == m - 3 else ['t'] if i % 5 == 0 else []) for i in range(m)])))
    top = w.roots[0].top
    U = lambda l, r: ('bin', l, '|', r)
    k = ctx.choice('kind', 5)
    if k == 0:
        e, t = None, ''
        for i in range(n):
            s = ('pred', child('abc'[i % 3]), [num((i * 5) % n + 1)])
            e, t = (s, xpref.text(s)) if e is None else (U(e, s), t + ' | ' + xpref.text(s))
    else:
        OP = [('*', ('step', 'child', STAR)), ('//text()', ('abs', '//', ('step', 'child', TEXT))), ('//@*', ('abs', '//', ('step', 'attribute', STAR))), ('b', child('b')),
              ('preceding::node()', ('step', 'preceding', NODE))]
        (lt, l), (rt, r) = OP[k], OP[(k + ctx.choice('r', 4)) % 5]
        e, t = U(l, r), lt + ' | ' + rt
    for item in (top, top.xml_children[-1], w.roots[0]):
        got, want = judge(ctx, w, e, item, None, 'union', t)
        if want: ctx.cover('some')
