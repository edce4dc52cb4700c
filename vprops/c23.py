from symx.scen import registry
from amara3.uxml import tree, uxpath
from amara3.uxml.uxpath import xast
from .trees import make, shape, check_links
from . import xpref
from .xpref import World, child, num, Ref, same, show
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The tree is not edited while a result is being iterated. Edits are made with xml_append, xml_insert and xml_remove, and by assigning attributes.']
NODE, TEXT, STAR = ('node',), ('text',), ('*',)


def exprs(c):
    s = lambda ax, t: ('step', ax, t)
    return [('//b', ('abs', '//', child('b'))), ('/', ('abs', '/', None)), ('ancestor-or-self::node()', s('ancestor-or-self', NODE)), ('//b | //text()', ('bin', ('abs', '//', child('b')), '|', ('abs', '//', s('child', TEXT)))),
            ('..//b[1]', ('pred', ('path', ('dotdot',), '//', child('b')), [num(1)])), ("count(//*[@x='%s'])" % c, ('call', 'count', [('pred', ('abs', '//', s('child', STAR)), [('bin', s('attribute', ('name', 'x')), '=', ('lit', c))])])),
            ('following::node()', s('following', NODE)), ('preceding-sibling::node()[2]', ('pred', s('preceding-sibling', NODE), [num(2)])),
            ('string(/)', ('call', 'string', [('abs', '/', None)])), ('($v, .)/@x', ('path', ('seq', [('var', 'v'), ('dot',)]), '/', s('attribute', ('name', 'x')))),
            ('//@* | $v', ('bin', ('abs', '//', s('attribute', STAR)), '|', ('var', 'v'))), ("for-each(//b, 'name()')", None)]


def doc(c):
    return make(('r', [('x', c)], ['t', ('b', [('x', 'q')], [c, ('b', [], ['u'])]), ('a', [('x', c)], [('b', [], [])]), 't']))


def whole(n):
    while n.xml_parent is not None: n = n.xml_parent
    return n


def evaluate(ctx, top, item, p, e, vars, what, c):
    """The top the item hangs from now decides; compare with the reference and look for side effects."""
    w = World(top)
    before = shape(top, False)
    text = xast.serialize(p)
    keys = list(vars.items())
    want = Ref(w, vars).ev(e, item if item is not top else w.roots[0]) if e is not None else [n.xml_name for n in Ref(w).ev(('abs', '//', child('b')), item)]
    st, got = ctx.guard(lambda: list(item.xml_xpath(p, vars=vars)))
    ctx.check(st == 'ok' and same(got, want), 'result differs ' + what, None, text, show(got) if got else got, show(want))
    ctx.check(shape(top, False) == before, 'evaluating changed the tree', None, text)
    ctx.check(xast.serialize(p) == text, 'evaluating changed the expression', None, text)
    ctx.check(list(vars.items()) == keys, 'evaluating changed the variables', None, text)
    ctx.obs(show(got))
    return got


def edit(ctx, k, top, c):
    """Returns the tree's (possibly new) top."""
    op = ctx.choice('op%d' % k, 8)
    kids = top.xml_children
    if op == 0: top.xml_append(make(('b', [('x', c)], ['n'])))
    elif op == 1: top.xml_insert(tree.text(c), 0)
    elif op == 2: kids[0].xml_parent.xml_remove(kids[0])
    elif op == 3: top.xml_insert(kids[-1], 0)
    elif op == 4: top.xml_attributes['x'] = 'm'
    elif op == 5:
        new = tree.element('b')
        new.xml_append(top)
        return new
    elif op == 6:
        for n in kids:
            if isinstance(n, tree.element):
                n.xml_append('t')
                n.xml_attributes['w'] = c
    else:
        # the second element moves into the first
        els = [n for n in kids if isinstance(n, tree.element)]
        if len(els) > 1: els[0].xml_append(els[1])
    return top


@scenario(quick=[dict(ops=2, ctxs=3)], thorough=[dict(ops=3, ctxs=3)], covers=('done',), steps=900000,
          bounds='one of 12 parsed expressions evaluated from one of `ctxs` context nodes before and after each of `ops` edits out of 8 (the top element may get a new parent), earlier results held on to or not, with an arbitrary character in the tree and the expression')
def edits(ctx, ops, ctxs):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    top = doc(c)
    t, e = exprs(c)[ctx.choice('expr', 12)]
    item = [top, top.xml_children[2], top.xml_children[3]][ctx.choice('item', ctxs)]
    p = uxpath.parse(t)
    vars = {'v': top.xml_children[1]}
    now = whole(item)
    held = []
    hold = ctx.choice('hold', 2)
    got = evaluate(ctx, now, item, p, e, vars, 'at first', c)
    if hold: held.append((got, list(top.xml_xpath('/'))))
    got = None
    for k in range(ops):
        top = edit(ctx, k, top, c)
        keep = top
        now = whole(item)
        if now is not top: evaluate(ctx, now, item, p, e, {'v': item}, 'in a part cut off', c)
        else: evaluate(ctx, now, item, p, e, vars if whole(vars['v']) is top else {'v': item}, 'after edit %d' % (k + 1), c)
    ctx.cover('done')


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('done',), steps=900000,
          bounds='n expressions in a row (each out of 12, from 3 context nodes), then the first again, on the same tree and on another tree of the same shape')
def several(ctx, n):
    c = ctx.text('c', 1, ((97, 122),))
    one, two = doc(c), doc('z')
    ex = exprs(c)
    hist = []
    for k in range(n):
        i = ctx.choice('expr%d' % k, 12)
        p = uxpath.parse(ex[i][0])
        hist.append((p, ex[i][1], ctx.choice('item%d' % k, 3)))
    for p, e, it in hist + hist[:1]:
        for top in (one, two):
            item = [top, top.xml_children[2], top.xml_children[3]][it]
            evaluate(ctx, top, item, p, e, {'v': top.xml_children[1]}, 'in a row', c)
    ctx.cover('done')


@scenario(quick=[dict()], thorough=[dict()], covers=('done',), steps=900000,
          bounds='two iterations over parsed expressions (the same, or one of 12 each) advanced in turns in every order, on the same or different trees; and an iteration given up after 0-2 items')
def interleaved(ctx):
    c = ctx.text('c', 1, ((97, 122),))
    one = doc(c)
    two = doc('z') if ctx.choice('trees', 2) else one
    ex = exprs(c)
    i = ctx.choice('i', 12)
    j = i if ctx.choice('same', 2) else (i * 5 + 3) % 12
    p = uxpath.parse(ex[i][0])
    q = p if i == j else uxpath.parse(ex[j][0])
    items = [one.xml_children[1], two.xml_children[2]]
    vs = [{'v': one.xml_children[1]}, {'v': two.xml_children[1]}]
    want = []
    for x, item, e, v in ((one, items[0], ex[i][1], vs[0]), (two, items[1], ex[j][1], vs[1])):
        w = World(x)
        want.append(Ref(w, v).ev(e, item) if e is not None else [n.xml_name for n in Ref(w).ev(('abs', '//', child('b')), item)])
    its = [iter(items[0].xml_xpath(p, vars=vs[0])), iter(items[1].xml_xpath(q, vars=vs[1]))]
    got = [[], []]
    if ctx.choice('giveup', 2):
        for k in range(ctx.choice('taken', 3)): next(its[0], None)
        its[0] = iter(items[0].xml_xpath(p, vars=vs[0]))
    first = ctx.choice('first', 2)
    step = ctx.choice('stride', 3)
    turn = first
    live = [True, True]
    while live[0] or live[1]:
        for k in range(step + 1 if turn == first else 1):
            if live[turn]:
                x = next(its[turn], None)
                if x is None: live[turn] = False
                else: got[turn].append(x)
        turn = 1 - turn
    for k in (0, 1):
        ctx.check(same(got[k], want[k]), 'interleaved evaluation differs', None, ex[i][0], ex[j][0], show(got[k]), show(want[k]))
        ctx.obs(show(got[k]))
    ctx.cover('done')


@scenario(quick=[dict()], thorough=[dict()], covers=('done',), steps=900000,
          bounds='variables and functions given for one evaluation are not seen by a later one, nor do built-in functions change; a default context is the same each time')
def separate(ctx):
    c = ctx.text('c', 1, ((97, 122),))
    top = doc(c)
    p = uxpath.parse('$u')
    def shout(ctx, *a): yield 'hey'
    before = sorted(uxpath.BUILTIN_FUNCTIONS)
    k = ctx.choice('first', 4)
    if k == 0: list(top.xml_xpath(p, vars={'u': c}))
    elif k == 1: list(uxpath.qquery(top, 'shout()', funcs={'shout': shout}))
    elif k == 2: list(top.xml_xpath('name(.)', funcs=dict(uxpath.BUILTIN_FUNCTIONS, name=shout)))
    else: list(uxpath.qquery('<q>%s</q>' % c, '$u/b', vars={'u': top}))
    st, got = ctx.guard(lambda: list(top.xml_xpath(p)))
    ctx.check(st == 'err', 'a variable of an earlier evaluation is seen', None, got)
    st, got = ctx.guard(lambda: list(top.xml_xpath('shout()')))
    ctx.check(st == 'err', 'a function of an earlier evaluation is seen', None, got)
    st, got = ctx.guard(lambda: list(top.xml_xpath('name(*)')))
    ctx.check(st == 'ok' and got == ['r'], 'a built-in function is replaced', None, got)
    st, got = ctx.guard(lambda: [x for x in top.xml_xpath(p, vars={'u': 'other'})])
    ctx.check(st == 'ok' and got == ['other'], 'a variable has an earlier value', None, got)
    ctx.check(sorted(uxpath.BUILTIN_FUNCTIONS) == before, 'the built-in functions change')
    ctx.cover('done')
