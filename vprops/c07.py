from symx.scen import registry
from amara3.uxml import tree
from .trees import shape, make, shaped, textof, check_links, edited, HIST
SCENARIOS, scenario = registry()


def judge(ctx, data, root=None):
    if root is None: root = make(data)
    work = [(root, data)]
    while work:
        n, d = work.pop()
        want = textof(d)
        v = n.xml_value
        s = tree.strval(n)
        ctx.check(isinstance(v, str) and v == want, 'xml_value differs', None, data, v, want)
        ctx.check(isinstance(s, str) and s == want, 'strval differs', None, data, s, want)
        if not isinstance(d, str): work.extend(list(zip(n.xml_children, d[2])))
    ctx.obs(root.xml_value)
    ctx.check(shape(root, False) == data, 'computing the value changed the tree', None, data, shape(root, False))
    check_links(ctx, root)
    if textof(data): ctx.cover('text')
    else: ctx.cover('empty')
    ctx.check(root.xml_value == textof(data), 'second time differs')


@scenario(quick=[dict(size=5)], thorough=[dict(size=7)], covers=('text', 'empty'),
          bounds='every tree of up to `size` nodes (elements and text, at most 3 children each), text of 0-2 arbitrary characters')
def shapes(ctx, size):
    data, n = shaped(ctx, size, lambda i: ('e%d' % i, [('x', 'attr')]), lambda i: ctx.text('t%d' % i, ctx.choice('l%d' % i, 2) * 2))
    judge(ctx, data)


@scenario(quick=[dict(deep=d, wide=w) for d, w in ((60, 1), (2, 80), (9, 3), (250, 1), (2, 300), (1, 700))], thorough=[dict(deep=d, wide=w) for d, w in ((250, 1), (2, 1000), (9, 3), (5, 6))],
          covers=('text',), bounds='deep and wide trees with texts of three arbitrary characters at chosen places')
def big(ctx, deep, wide):
    t = [ctx.text('a', 3), ctx.text('b', 3), ctx.text('c', 1)]
    def el(d):
        if d == 0: return ('leaf', [], [t[1]])
        kids = [t[0]] if d == 1 else []
        for i in range(wide if d == deep else 1):
            kids.append(el(d - 1))
            kids.append(('m', [], []) if i % 2 else t[2])
        return ('e', [], kids)
    judge(ctx, el(deep))


@scenario(quick=[dict(n=n) for n in (70, 5000, 70000)], covers=('text',), bounds='texts of n characters with two arbitrary ones at the ends')
def long(ctx, n):
    a, b = ctx.text('a', 1), ctx.text('b', 1)
    judge(ctx, ('a', [], [a + 'x' * n, ('b', [], [' ' * n + b, a]), b, 'y' * n]))


@scenario(quick=[dict(n=3)], covers=('parsed',), bounds='documents <a>T<b>T</b>T</a> with texts of n arbitrary characters as parsed')
def parsed(ctx, n):
    s = [ctx.text('s%d' % i, n) for i in range(2)]
    for x in s:
        for c in x: ctx.assume(c not in '<>&\r' and (c in '\t\n' or c >= ' '))
    st, t = ctx.guard(tree.parse, '<a>' + s[0] + '<b>x</b>' + s[1] + '</a>')
    if st != 'ok': ctx.assume(False)
    ctx.cover('parsed')
    ctx.check(t.xml_value == s[0] + 'x' + s[1], 'value differs', None, s, t.xml_value)
    ctx.check(tree.strval(t) == s[0] + 'x' + s[1], 'strval differs', None, s)


@scenario(quick=[dict(d=d, steps=2) for d in range(len(HIST))], thorough=[dict(d=0, steps=3), dict(d=1, steps=3), dict(d=2, steps=4)], covers=('text', 'edited'),
          bounds='three trees: values of every node, an edit in place (ten kinds, any element), values again, ... `steps` edits; new text one arbitrary letter')
def history(ctx, d, steps):
    data = HIST[d]
    root = make(data)
    judge(ctx, data, root)
    for k in range(steps):
        data = edited(ctx, 'e%d' % k, root, data)
        judge(ctx, data, root)
        ctx.cover('edited')
