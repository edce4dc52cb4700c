"""Tree helpers for the harnesses: a tree's content as plain data, link checks, building trees from choices."""
from amara3.uxml import tree
from . import refmx


def shape(n, join=True):
    """Element -> (name, [(attr, value)], [children]); text -> str.  join: adjacent text joined, empty text left out."""
    if isinstance(n, str): return str(n)
    kids = []
    for c in n.xml_children:
        s = shape(c, join)
        if join and isinstance(s, str):
            if len(s) == 0: continue
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1] + s
                continue
        kids.append(s)
    return (n.xml_name, list(n.xml_attributes.items()), kids)


def check_links(ctx, root, what=''):
    """Every node reachable from root reports the element listing it as its parent; no node occurs twice."""
    seen = []
    work = [root]
    while work:
        n = work.pop()
        for s in seen: ctx.check(s is not n, 'a node occurs twice ' + what)
        seen.append(n)
        if isinstance(n, tree.element):
            for c in n.xml_children:
                ctx.check(isinstance(c, tree.node), 'a child is not a node ' + what, None, c)
                ctx.check(c.xml_parent is n, 'a child does not report its parent ' + what, None, shape(c), shape(n))
                work.append(c)


def same(n, want):
    """Does the tree equal the plain data (adjacent text joined)?"""
    return shape(n) == want


def legal_text(ctx, name, n):
    """n arbitrary legal MicroXML characters."""
    s = ctx.text(name, n)
    for c in s: ctx.assume(refmx.legal(c))
    return s


def legal_name(ctx, name, n):
    s = ctx.text(name, n)
    for i, c in enumerate(s):
        ctx.assume((refmx.NAMESTART if i == 0 else refmx.NAMEREST).match(c) is not None and refmx.NONCHAR.match(c) is None)
    return s


def shaped(ctx, size, label, leaf, pre='', maxkids=3):
    """A tree of at most `size` nodes, any shape: label(i) -> (name, attributes), leaf(i) -> text for text nodes.
    Text nodes count as nodes.  Returns (plain data with every text node separate, number of nodes)."""
    n = [0]
    def el(budget):
        i = n[0]
        n[0] += 1
        nm, ats = label(i)
        kids = []
        k = ctx.choice('%skids%d' % (pre, i), min(budget, maxkids) + 1)
        rest = budget - k
        for j in range(k):
            if ctx.choice('%skind%d.%d' % (pre, i, j), 2):
                kids.append(leaf(n[0]))
                n[0] += 1
            else:
                sub, rest = el(rest)
                kids.append(sub)
        return (nm, ats, kids), rest
    t, _ = el(size - 1)
    return t, n[0]


def make(data, cls=None):
    """Plain data -> real tree through the public API."""
    if isinstance(data, str): return tree.text(data)
    e = tree.element(data[0], attrs=mkattrs(data[1]))
    for c in data[2]: e.xml_append(make(c))
    return e


def mkattrs(items):
    d = {}
    for k, v in items: d[k] = v
    return d


def joined(data):
    if isinstance(data, str): return data
    kids = []
    for c in data[2]:
        c = joined(c)
        if isinstance(c, str):
            if len(c) == 0: continue
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1] + c
                continue
        kids.append(c)
    return (data[0], list(data[1]), kids)


def textof(data):
    if isinstance(data, str): return data
    return ''.join([textof(c) for c in data[2]])


def spots(root, data):
    """[(element, its data, path)] in document order."""
    out = [(root, data, [])]
    for i, (c, d) in enumerate(zip(root.xml_children, data[2])):
        if not isinstance(d, str): out += [(e, x, [i] + p) for e, x, p in spots(c, d)]
    return out


def replaced(data, path, new):
    if not path: return new
    kids = list(data[2])
    kids[path[0]] = replaced(kids[path[0]], path[1:], new)
    return (data[0], data[1], kids)


OPS = ['name', 'text', 'attr', 'append', 'remove', 'insert', 'move', 'clear', 'attrs', 'swap']


def edited(ctx, tag, root, data, ops=None, string=None):
    """One edit in place, any of OPS on any element: the same change made to the tree and to the plain data, which is returned.
    string: the new text, value or name (default: one arbitrary lower-case letter)."""
    places = spots(root, data)
    e, d, path = places[ctx.choice(tag + 'where', len(places))]
    op = ctx.pick(tag + 'op', ops or OPS)
    s = string if string is not None else ctx.text(tag + 's', 1, ((97, 122),))
    name, ats, kids = d[0], list(d[1]), list(d[2])
    strs = [i for i, c in enumerate(kids) if isinstance(c, str)]
    if op == 'name':
        e.xml_name = s
        name = s
    elif op == 'text':
        # the text stays one of as many children
        if not strs: ctx.assume(False)
        i = strs[ctx.choice(tag + 'i', len(strs))]
        if ctx.choice(tag + 'how', 2):
            e.xml_remove(e.xml_children[i])
            if i == len(e.xml_children): e.xml_append(s)
            else: e.xml_insert(s, i)
        else: e.xml_children[i] = tree.text(s, parent=e)
        kids[i] = s
    elif op == 'attr':
        e.xml_attributes['x'] = s
        ats = [(k, s if k == 'x' else v) for k, v in ats] + ([] if any(k == 'x' for k, v in ats) else [('x', s)])
    elif op == 'attrs':
        e.xml_attributes = {'y': s, 'z': '1'}
        ats = [('y', s), ('z', '1')]
    elif op == 'append':
        e.xml_append(tree.element('n', attrs={'k': s}))
        kids.append(('n', [('k', s)], []))
    elif op == 'insert':
        e.xml_insert(s, 0)
        kids.insert(0, s)
    elif op == 'remove':
        if not kids: ctx.assume(False)
        i = ctx.choice(tag + 'i', len(kids))
        e.xml_remove(e.xml_children[i])
        del kids[i]
    elif op == 'clear':
        e.xml_children = []
        kids = []
    elif op == 'swap':
        if len(kids) < 2: ctx.assume(False)
        e.xml_children.reverse()
        kids.reverse()
    else:
        # the last child becomes the first of the root
        if not kids or not path: ctx.assume(False)
        root.xml_insert(e.xml_children[len(kids) - 1], 0)
        moved = kids.pop()
        data = replaced(data, path, (name, ats, kids))
        return (data[0], data[1], [moved] + list(data[2]))
    return replaced(data, path, (name, ats, kids))


HIST = [('a', [('x', '1')], ['t', ('b', [], ['u', ('c', [('x', '2')], ['v'])]), 'w']),
        ('a', [], [('b', [], []), ('b', [('x', '1')], [])]),
        ('a', [('x', '1')], ['t'])]
