from symx.scen import registry
from amara3.uxml import tree
from .trees import shape, check_links
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Positions are those of Python lists, except that -1 means append; an element is not inserted under itself.']

PRINT = ((0x20, 0x7e),)


def place(ctx, name, l):
    """0..len and -1 (the end), one past the end, or the second place from the end."""
    k = ctx.choice(name, len(l) + 4) - 1
    return k if k <= len(l) else len(l) + 1 if k == len(l) + 1 else -2


def at(l, i):
    return len(l) if i == -1 or i > len(l) else max(0, len(l) + i) if i < 0 else i


class Model:
    """Children as lists of node objects, kept independently of the library."""
    def __init__(self):
        self.kids = []      # [(element, [children])]

    def of(self, e):
        for x, l in self.kids:
            if x is e: return l
        l = []
        self.kids.append((e, l))
        return l

    def parent(self, n):
        for x, l in self.kids:
            for c in l:
                if c is n: return x
        return None

    def detach(self, n):
        p = self.parent(n)
        if p is not None:
            l = self.of(p)
            for i, c in enumerate(l):
                if c is n:
                    del l[i]
                    break

    def check(self, ctx, nodes):
        for e, l in self.kids:
            got = e.xml_children
            ctx.check(len(got) == len(l), 'wrong number of children', None, shape(e, False), [shape(x, False) for x in l])
            for a, b in zip(got, l):
                ctx.check(a is b, 'wrong child at a position', None, shape(e, False), [shape(x, False) for x in l])
        for n in nodes:
            p = self.parent(n)
            ctx.check(n.xml_parent is p, 'a node reports the wrong parent', None, shape(n, False))
            if not isinstance(n, tree.text): continue
            ctx.check(len(n.xml_children) == 0, 'text with children')


def inserted(ctx, m, nodes, target, index, what):
    """After inserting a plain string: the new node at index is a text node of that content."""
    kids = target.xml_children
    l = m.of(target)
    ctx.check(len(kids) == len(l) + 1, 'string not inserted')
    index = at(l, index)
    n = kids[index]
    ctx.check(isinstance(n, tree.text) and str(n) == what, 'string not inserted as a text node', None, n, what)
    for o in nodes: ctx.check(o is not n, 'an old node stands for the new string')
    l.insert(index, n)
    nodes.append(n)


@scenario(quick=[dict(steps=3, kinds=2), dict(steps=2, kinds=3)], thorough=[dict(steps=3, kinds=3), dict(steps=4, kinds=2)], covers=('append', 'insert', 'remove', 'move', 'notchild', 'string'),
          bounds='every sequence of `steps` edits (append, insert at any position, remove any child, remove a non-child, move from another element) on '
                 'a root with an element and two text children and a second element; strings of one arbitrary printable character')
def edits(ctx, steps, kinds):
    m = Model()
    root = tree.element('r')
    e1 = tree.element('e', attrs={'k': 'v'})
    t1 = tree.text(ctx.text('t1', 1, PRINT))
    t2 = tree.text(ctx.text('t2', 1, PRINT))
    other = tree.element('o')
    t3 = tree.text('x', parent=None)
    nodes = [root, e1, t1, t2, other, t3]
    for p, c in ((root, t1), (root, e1), (root, t2), (other, t3)):
        p.xml_append(c)
        m.of(p).append(c)
    m.of(e1)
    m.check(ctx, nodes)
    for step in range(steps):
        op = ctx.pick('op%d' % step, [0, 1, 2, 4, 3] if step == steps - 1 else [0, 1, 2, 4])
        target = [root, other, e1][ctx.choice('target%d' % step, kinds)]
        l = m.of(target)
        if op == 0:
            k = ctx.choice('what%d' % step, 2 if step == 0 or kinds > 2 else 1)
            ctx.cover('append')
            if k == 0:
                s = ctx.text('s%d' % step, 1, PRINT)
                target.xml_append(s)
                ctx.cover('string')
                inserted(ctx, m, nodes, target, -1, s)
            else:
                n = tree.element('n')
                nodes.append(n)
                target.xml_append(n)
                l.append(n)
        elif op == 1:
            i = place(ctx, 'at%d' % step, l)
            k = ctx.choice('what%d' % step, 2 if step == 0 or kinds > 2 else 1)
            ctx.cover('insert')
            if k == 0:
                s = ctx.text('s%d' % step, 1, PRINT)
                target.xml_insert(s, i)
                inserted(ctx, m, nodes, target, i, s)
            else:
                n = tree.text(ctx.text('s%d' % step, 1, PRINT))
                nodes.append(n)
                target.xml_insert(n, i)
                l.insert(at(l, i), n)
        elif op == 2:
            if not l: ctx.assume(False)
            n = l[ctx.choice('which%d' % step, len(l))]
            ctx.cover('remove')
            target.xml_remove(n)
            m.detach(n)
        elif op == 3:
            # something that is not a child: a node elsewhere, an equal text, a plain string
            k = ctx.choice('non%d' % step, 4)
            if k == 0: n = tree.text(str(t2)) if kinds < 3 else tree.text('x')
            elif k == 1: n = 'x'
            elif k == 2: n = tree.element('e')
            else:
                n = t1
                if m.parent(t1) is target: ctx.assume(False)
            ctx.cover('notchild')
            before = n.xml_parent if isinstance(n, tree.node) else None
            try:
                target.xml_remove(n)
                ctx.fail('removing something that is not a child succeeds', None, shape(target, False), n)
            except ValueError: pass
            if isinstance(n, tree.node): ctx.check(n.xml_parent is before, 'a failed removal changed a parent')
        else:
            n = [t1, e1, t3, t2][ctx.choice('moved%d' % step, 3 if kinds < 3 else 4)]
            if n is target: ctx.assume(False)
            m.detach(n)
            l = m.of(target)
            i = place(ctx, 'to%d' % step, l)
            ctx.cover('move')
            target.xml_insert(n, i)
            l.insert(at(l, i), n)
        m.check(ctx, nodes)
    ctx.obs([shape(root, False), shape(other, False)])


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('removed',),
          bounds='n text or element children, each text one arbitrary character (so any of them may be equal); remove any one, then any other')
def equal_siblings(ctx, n):
    root = tree.element('r')
    kids = []
    for i in range(n):
        c = tree.text(ctx.text('t%d' % i, 1)) if ctx.choice('kind%d' % i, 2) == 0 else tree.element('e')
        root.xml_append(c)
        kids.append(c)
    for step in range(2):
        k = ctx.choice('which%d' % step, len(kids))
        c = kids.pop(k)
        root.xml_remove(c)
        ctx.cover('removed')
        ctx.check(c.xml_parent is None, 'removed node keeps a parent')
        got = root.xml_children
        ctx.check(len(got) == len(kids), 'wrong number of children left')
        for a, b in zip(got, kids):
            ctx.check(a is b, 'the wrong node was removed', None, shape(root, False))
            ctx.check(a.xml_parent is root, 'a remaining child lost its parent', None, shape(root, False))
        try:
            root.xml_remove(c)
            ctx.fail('removing twice succeeds')
        except ValueError: pass
    ctx.obs(shape(root, False))


WAYS = ['element', 'empty', 'given', 'parsed', 'parsedgiven']


def fresh(way, v):
    if way == 'element': return tree.element('e'), []
    if way == 'empty': return tree.element('e', attrs={}), []
    if way == 'given': return tree.element('e', attrs={'k': v}), [('k', v)]
    if way == 'parsed': return tree.parse('<e></e>'), []
    return tree.parse('<r><e k="v"></e></r>').xml_children[0], [('k', 'v')]


@scenario(quick=[dict(steps=2)], thorough=[dict(steps=3)], covers=('set', 'deleted'),
          bounds='three elements, each made in any of five ways (with and without attributes, by the constructor or by parsing), two of them in one tree; `steps` attributes set or deleted on any of them, names and values one arbitrary letter')
def attributes_apart(ctx, steps):
    els, want = [], []
    for i in range(3):
        e, a = fresh(ctx.pick('way%d' % i, WAYS), 'w')
        els.append(e)
        want.append(a)
    els[0].xml_append(els[1])
    for k in range(steps):
        i = ctx.choice('which%d' % k, 3)
        n = ctx.text('n%d' % k, 1, ((106, 108),))
        if ctx.choice('op%d' % k, 2):
            els[i].xml_attributes[n] = 'x%d' % k
            if any([a == n for a, b in want[i]]): want[i] = [(a, 'x%d' % k if a == n else b) for a, b in want[i]]
            else: want[i] = want[i] + [(n, 'x%d' % k)]
            ctx.cover('set')
        else:
            if not any([a == n for a, b in want[i]]): ctx.assume(False)
            del els[i].xml_attributes[n]
            want[i] = [(a, b) for a, b in want[i] if a != n]
            ctx.cover('deleted')
        for e, w in zip(els, want): ctx.check(list(e.xml_attributes.items()) == w, 'the attributes of an element are wrong after an edit', None, list(e.xml_attributes.items()), w)
        late = tree.element('new')
        ctx.check(len(late.xml_attributes) == 0, 'a new element has attributes', None, list(late.xml_attributes.items()))
    ctx.obs([list(e.xml_attributes.items()) for e in els])


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('empty', 'done'), bounds='n strings of 0 or 1 arbitrary printable characters or white space, appended or inserted anywhere, next to one another and to an element; then one removed')
def strings(ctx, n):
    m = Model()
    root = tree.element('r')
    e = tree.element('e')
    root.xml_append(e)
    m.of(root).append(e)
    nodes = [root, e]
    for k in range(n):
        s = ctx.text('s%d' % k, ctx.choice('len%d' % k, 2), ((9, 10), (13, 13), (32, 126)))
        if not len(s): ctx.cover('empty')
        l = m.of(root)
        if ctx.choice('op%d' % k, 2):
            root.xml_append(s)
            inserted(ctx, m, nodes, root, -1, s)
        else:
            i = place(ctx, 'at%d' % k, l)
            root.xml_insert(s, i)
            inserted(ctx, m, nodes, root, i, s)
        m.check(ctx, nodes)
    l = m.of(root)
    x = l[ctx.choice('gone', len(l))]
    root.xml_remove(x)
    m.detach(x)
    m.check(ctx, nodes)
    ctx.cover('done')
    ctx.obs(shape(root, False))
