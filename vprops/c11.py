from symx.scen import registry
from amara3.uxml import tree
from amara3.uxml.treeutil import make_pretty
from .trees import shape, make, shaped, check_links, mkattrs
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['White space is XML white space (space, tab, line feed, carriage return). The indent strings asked for are white space.']


def blank(s):
    return all(c in ' \t\r\n' for c in s)


def snapshot(e):
    """The nodes to be kept, in order: elements (recursively) and texts that are not blank, as (node, plain data)."""
    out = []
    for c in e.xml_children:
        if isinstance(c, tree.element): out.append((c, (c.xml_name, list(c.xml_attributes.items())), snapshot(c)))
        elif not blank(c.xml_value): out.append((c, str(c), None))
    return out


def compare(ctx, e, kept, depth, indent, data):
    k = 0
    kids = e.xml_children
    for i, c in enumerate(kids):
        ctx.check(c.xml_parent is e, 'a child does not report its parent', None, data)
        if isinstance(c, tree.element):
            ctx.check(k < len(kept) and kept[k][0] is c, 'elements are not kept in order', None, data, shape(e, False))
            ctx.check((c.xml_name, list(c.xml_attributes.items())) == kept[k][1], 'an element changed', None, data)
            ctx.check(i > 0 and not isinstance(kids[i - 1], tree.element), 'an element is not on its own line', None, data, shape(e, False))
            compare(ctx, c, kept[k][2], depth + 1, indent, data)
            k += 1
        elif not blank(c.xml_value):
            ctx.check(k < len(kept) and kept[k][2] is None and str(c) == kept[k][1], 'texts are not kept in place', None, data, shape(e, False))
            k += 1
        else:
            want = '\n' + indent * (depth if i == len(kids) - 1 else depth + 1)
            ctx.check(c.xml_value == want, 'added text is not the indentation for its depth', None, data, c.xml_value, want)
    ctx.check(k == len(kept), 'something is lost', None, data, shape(e, False))
    ctx.check(not kids or not isinstance(kids[-1], tree.element), 'the end tag is not on its own line', None, data, shape(e, False))


def judge(ctx, data, depth, indent, root=None):
    if root is None: root = make(data)
    kept = snapshot(root)
    own = (root.xml_name, list(root.xml_attributes.items()), root.xml_parent)
    st, r = ctx.guard(make_pretty, root, depth, indent) if depth is not None else ctx.guard(make_pretty, root) if indent is None else ctx.guard(make_pretty, root, indent=indent)
    depth, indent = depth or 0, '  ' if indent is None else indent
    ctx.check(st == 'ok', 'make_pretty failed', None, data)
    ctx.check(r is root, 'a different object is returned')
    ctx.check((root.xml_name, list(root.xml_attributes.items())) == own[:2] and root.xml_parent is own[2], 'the element itself changed', None, data)
    compare(ctx, root, kept, depth, indent, data)
    check_links(ctx, root)
    once = shape(root, False)
    ctx.obs(once)
    if kept: ctx.cover('kept')
    if any(k[2] is None for k in kept): ctx.cover('mixed')
    make_pretty(root, depth, indent)
    ctx.check(shape(root, False) == once, 'pretty-printing again changes the tree', None, data, once, shape(root, False))


def mode(ctx):
    m = ctx.choice('mode', 5)
    if m == 0: return None, None
    if m == 1: return None, '\t'
    if m == 2: return 0, ''
    if m == 3: return 1, ' '
    return 2, '\t  '


@scenario(quick=[dict(size=6)], thorough=[dict(size=7)], covers=('kept', 'mixed'),
          bounds='every tree of up to `size` nodes (elements and text), text of one arbitrary character, five combinations of depth and indent')
def shapes(ctx, size):
    data, n = shaped(ctx, size, lambda i: ('e%d' % i, [('x', ' v %d\n' % i)] if i % 2 else []), lambda i: ctx.text('t%d' % i, 1))
    judge(ctx, data, *mode(ctx))


@scenario(quick=[dict(n=3)], thorough=[dict(n=5)], covers=('kept', 'mixed'),
          bounds='text of 0..n arbitrary characters at each place of <a>T<b>T</b>U<c/><d></d></a>')
def texts(ctx, n):
    s = ctx.text('s', ctx.choice('len', n + 1))
    t = ctx.text('t', 1)
    w = ctx.choice('where', 4)
    data = ('a', [], ([s] if w == 0 else []) + [('b', [('k', ' ')], [s] if w == 1 else [t] if w == 0 else [])] + ([s] if w == 2 else []) +
            [('c', [], []), ('d', [], [s, t] if w == 3 else [])] + ([t] if w == 1 else []))
    judge(ctx, data, *mode(ctx))


@scenario(quick=[dict(m=m) for m in range(6)], thorough=[dict(m=m) for m in range(6)], covers=('kept',),
          bounds='adjacent texts; 40 or 250 levels; 60 or 220 children; white space and texts of up to 5000 characters; with arbitrary characters at chosen places', steps=2000000)
def big(ctx, m):
    c = [ctx.text('c%d' % i, 1) for i in range(4)]
    if m == 0: data = ('a', [], [c[0], c[1], ('b', [], [c[2], c[3], ('c', [], []), c[0]]), c[3], c[2]])
    elif m in (1, 3):
        data = ('z', [], [c[0], ('y', [], []), c[1]])
        for i in range(250 if m == 3 else 40): data = ('e%d' % i, [('i', str(i))], [data] if i % 3 else ['\n', data, ' \t ' if i % 2 else '\n\n'])
    elif m == 4:
        k = [90, 700, 5000][ctx.choice('k', 3)]
        data = ('r', [], [' ' * k + c[0], ('e', [], [' \n' * k]), '\n' * k, ('f', [], ['\t' * k + c[1] + ' ' * k]), ('g', [], [('h', [], []), c[2] + ' ' * k])])
    else: data = ('r', [], [('e', [], ['x'] if i % 3 else []) if i % 4 else c[i % 16 // 4] for i in range(60 if m == 2 else 220)])
    judge(ctx, data, *mode(ctx))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('kept',), bounds='an indent of n arbitrary white space characters; an element inside a larger tree')
def indents(ctx, n):
    ind = ctx.text('ind', n, ((9, 9), (32, 32)))
    top = make(('top', [], ['x', ('a', [('k', 'v')], [('b', [], [('c', [], ['t']), ' ']), 'm', ('b', [], [])]), 'y']))
    judge(ctx, 'top', ctx.choice('depth', 3), ind, top.xml_children[1])
    ctx.check(len(top.xml_children) == 3 and top.xml_children[0] == 'x' and top.xml_children[2] == 'y', 'changed outside the element')
