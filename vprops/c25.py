from symx.scen import registry
from amara3.uxml import tree, html5
from .trees import shape, check_links
from .c06 import Model
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Operations are used as html5lib uses them: nodes are created through the tree builder, a node is not put under itself, insertBefore gets two '
               'different nodes. Attribute names do not start with "xmlns" (such attributes are dropped on purpose).']
XHTML = 'http://www.w3.org/1999/xhtml'
SVG = 'http://www.w3.org/2000/svg'


def make(tb, name, ns, attrs):
    e = tb.elementClass(name, ns)
    e.attributes = attrs
    return e


def inside(n, top):
    while n is not None:
        if n is top: return True
        n = n.xml_parent
    return False


def put(ctx, m, nodes, target, before, data, how):
    """insertText: a new text node of that content has to stand at the place."""
    l = m.of(target)
    at = len(l)
    if before is not None: at = [i for i, x in enumerate(l) if x is before][0]
    st, r = ctx.guard(target.insertText, data, before) if before is not None or how else ctx.guard(target.insertText, data)
    ctx.check(st == 'ok', 'insertText failed')
    kids = target.xml_children
    ctx.check(len(kids) == len(l) + 1, 'text lost or not inserted', None, shape(target, False))
    n = kids[at]
    ctx.check(isinstance(n, tree.text) and str(n) == data, 'text is not where it was inserted', None, shape(target, False), data)
    for o in nodes: ctx.check(o is not n, 'an old node stands for the new text')
    l.insert(at, n)
    nodes.append(n)


@scenario(quick=[dict(steps=2, full=1), dict(steps=3, full=0)], thorough=[dict(steps=3, full=1), dict(steps=4, full=0)],
          covers=('append', 'before', 'text', 'textbefore', 'remove', 'clone', 'reparent', 'attr', 'move', 'assign'),
          bounds='every sequence of `steps` operations (append, insert, remove, clone, move or assign children, set attributes) on four elements, a comment and two equal texts; inserted texts of two arbitrary characters')
def operations(ctx, steps, full):
    tb = html5.treebuilder()
    m = Model()
    a, b, c, d = [make(tb, n, XHTML, {'k': n}) for n in 'abcd']
    com = tb.commentClass('note')
    els = [a, b, c, d]
    nodes = [a, b, c, d, com]
    attrs = [(e, [('k', n)]) for e, n in zip(els, 'abcd')]
    for e in els: m.of(e)
    for p, x in ((a, b), (a, com), (a, c)):
        p.appendChild(x)
        m.of(p).append(x)
        if x is b: put(ctx, m, nodes, a, None, 'same', 0)
    put(ctx, m, nodes, a, None, 'same', 0)
    put(ctx, m, nodes, c, None, 'in', 0)
    m.check(ctx, nodes)
    for s in range(steps):
        op = ctx.choice('op%d' % s, 9 if full else 7 + (s == 0))
        if op == 7 and not full: op = 8
        t = els[ctx.choice('on%d' % s, 4)] if full else [a, d, c][ctx.choice('on%d' % s, 3 if steps < 4 and s else 2)]
        l = m.of(t)
        if op in (0, 1):
            x = (nodes if full else [nodes[5], b, d])[ctx.choice('x%d' % s, min(len(nodes), 8) if full else 3)]
            if x is t or (isinstance(x, tree.element) and inside(t, x)): ctx.assume(False)
            if m.parent(x) is not None: ctx.cover('move')
            if op == 0:
                ctx.cover('append')
                st, r = ctx.guard(t.appendChild, x)
                ctx.check(st == 'ok', 'appendChild failed')
                m.detach(x)
                l.append(x)
            else:
                if not l: ctx.assume(False)
                ref = l[ctx.choice('ref%d' % s, len(l))]
                if ref is x: ctx.assume(False)
                ctx.cover('before')
                st, r = ctx.guard(t.insertBefore, x, ref)
                ctx.check(st == 'ok', 'insertBefore failed')
                m.detach(x)
                at = [i for i, y in enumerate(l) if y is ref][0]
                l.insert(at, x)
        elif op == 2:
            k = ctx.choice('where%d' % s, len(l) + 1)
            ctx.cover('text' if k == len(l) else 'textbefore')
            put(ctx, m, nodes, t, None if k == len(l) else l[k], ctx.text('t%d' % s, 2), s % 2)
        elif op == 3:
            x = nodes[ctx.choice('x%d' % s, min(len(nodes), 8))] if full else nodes[ctx.pick('x%d' % s, [1, 4, 6])]
            mine = any(y is x for y in l)
            st, r = ctx.guard(t.removeChild, x)
            if mine:
                ctx.cover('remove')
                ctx.check(st == 'ok', 'removeChild failed')
                m.detach(x)
                ctx.check(x.xml_parent is None, 'a removed node has a parent')
            else: ctx.check(st == 'err' and r == 'ValueError', 'removing a node that is not a child raised no ValueError', None, st, r)
        elif op == 4:
            x = t.cloneNode()
            ctx.cover('clone')
            want = attrs[[i for i, e in enumerate(els) if e is t][0]][1]
            ctx.check(x is not t and isinstance(x, tree.element) and x.xml_parent is None and len(x.xml_children) == 0, 'a clone has a parent or children')
            ctx.check((x.xml_name, x.name, x.namespace, x.nameTuple) == (t.xml_name, t.name, t.namespace, t.nameTuple), 'a clone has another name')
            ctx.check(list(x.xml_attributes.items()) == want, 'a clone has other attributes')
            x.attributes['new'] = 'only here'
            els.append(x)
            nodes.append(x)
            m.of(x)
            attrs.append((x, want + [('new', 'only here')]))
        elif op == 5:
            o = ([a, b, d] if full else [b, d])[ctx.choice('to%d' % s, 3 if full else 2)]
            if o is t or inside(o, t): ctx.assume(False)
            ctx.cover('reparent')
            st, r = ctx.guard(t.reparentChildren, o)
            ctx.check(st == 'ok', 'reparentChildren failed')
            m.of(o).extend(l)
            del l[:]
        elif op == 6:
            ctx.cover('attr')
            v = ctx.text('v%d' % s, 1)
            t.attributes['x'] = v
            w = attrs[[i for i, e in enumerate(els) if e is t][0]][1]
            for i, (k, old) in enumerate(w):
                if k == 'x': w[i] = (k, v)
            if not any(k == 'x' for k, old in w): w.append(('x', v))
        elif op == 8:
            # the children are given anew: in another order, none, one less, one more from elsewhere
            how = ctx.choice('assign%d' % s, 4)
            x = nodes[5] if how == 3 else None
            if x is not None and (x is t or any(y is x for y in l)): ctx.assume(False)
            new = [list(reversed(l)), [], l[1:], [x] + l][how]
            ctx.cover('assign')
            def assign(): t.childNodes = new
            st, r = ctx.guard(assign)
            ctx.check(st == 'ok', 'assigning childNodes failed', None, how, r)
            for y in list(l):
                if not any(y is z for z in new): ctx.check(y.xml_parent is None, 'a child left out still has a parent', None, how)
            if x is not None: m.detach(x)
            l[:] = new
        else:
            ctx.check(t.hasContent() == bool(l), 'hasContent differs')
            ctx.check(t.childNodes is t.xml_children or list(t.childNodes) == list(t.xml_children), 'childNodes differs')
        m.check(ctx, nodes)
        for e, w in attrs: ctx.check(list(e.xml_attributes.items()) == w, 'attributes differ', None, list(e.xml_attributes.items()), w)
        for n in nodes: ctx.check(n.parent is n.xml_parent if not isinstance(n, tree.text) or n is com else True, 'parent differs')
    ctx.obs(shape(a, False))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('html', 'foreign', 'noname', 'tuple'),
          bounds='element names of n, attribute names of one to n, values and texts of no or n arbitrary characters; HTML and foreign namespace, missing name; clones of them')
def created(ctx, n):
    xns = ctx.bool('xns')
    tb = html5.treebuilder(xns) if xns else html5.treebuilder()
    name = ctx.text('name', n) if ctx.choice('named', 2) else None
    if name is not None: ctx.assume(':' not in name)
    ns = ctx.pick('ns', [XHTML, SVG])
    key, val = ctx.text('key', 1 + ctx.choice('keylen', n)), ctx.text('val', ctx.choice('vallen', 2) * n)
    ctx.assume(not key.startswith('xmlns') and key != 'z' and key != 'href')
    src = {'z': '1'}
    src[key] = val
    if ctx.choice('tuple', 2):
        src[('xlink', 'href', 'http://www.w3.org/1999/xlink')] = val
        ctx.cover('tuple')
    e = tb.elementClass(name, ns)
    e.attributes = src
    want = [('z', '1'), (key, val)] + ([('href', val)] if len(src) == 3 else [])
    ctx.cover('noname' if name is None else 'html' if ns == XHTML else 'foreign')
    if name is not None: ctx.check(e.xml_name == name, 'name differs', None, name, e.xml_name)
    ctx.check(e.name == name, 'html5lib name differs', None, name, e.name)
    ctx.check(e.nameTuple[1] == name, 'html5lib name differs', None, name, e.name)
    if ns == XHTML and not xns: ctx.check(e.namespace == XHTML and e.nameTuple[0] == XHTML, 'namespace of an HTML element lost')
    ctx.check(list(e.xml_attributes.items()) == want, 'attributes differ', None, list(e.xml_attributes.items()), want)
    ctx.check(e.xml_parent is None and len(e.xml_children) == 0, 'a new element has a parent or children')
    f = e.cloneNode()
    ctx.check((f.name, f.namespace, f.nameTuple, f.xml_name) == (e.name, e.namespace, e.nameTuple, e.xml_name), 'a clone has another name')
    ctx.check(list(f.xml_attributes.items()) == want, 'a clone has other attributes')
    f.attributes['more'] = 'f'
    f.insertText(val)
    e.attributes[key] = 'e'
    ctx.check(len(e.xml_children) == 0 and e.xml_attributes.get('more') is None, 'a clone is not independent')
    ctx.check(f.xml_attributes[key] == val, 'a clone is not independent')
    src['late'] = 'x'
    ctx.check(e.xml_attributes.get('late') is None, 'attributes are shared with their source')
    g = tb.elementClass('g', XHTML)
    g.attributes = f.attributes
    f.attributes['late'] = 'y'
    ctx.check(g.xml_attributes.get('late') is None, 'attributes are shared between elements')
    for x in (f, g):
        e.appendChild(x)
        e.insertText(val)
    ctx.check(e.xml_value == val + val + val, 'text lost', None, val, e.xml_value)
    com = tb.commentClass(val)
    e.insertBefore(com, g)
    ctx.check(e.xml_value == val + val + val and com.xml_value == '', 'a comment is text')
    ctx.check([x is y for x, y in zip(e.xml_children, [f, e.xml_children[1], com, g])] == [True] * 4, 'comment misplaced')
    ctx.obs(shape(e))


class RefNode:
    """Reference for the tree builder: the same operations on plain lists."""
    def __init__(self, name, namespace):
        self.name, self.namespace, self.parent, self.attributes, self.childNodes, self._flags = name, namespace, None, {}, [], []
        self.nameTuple = (namespace, name)

    def take(self, n):
        if n.parent is not None: n.parent.childNodes = [c for c in n.parent.childNodes if c is not n]
        n.parent = self

    def appendChild(self, n):
        self.take(n)
        self.childNodes.append(n)

    def insertBefore(self, n, ref):
        self.take(n)
        self.childNodes.insert([i for i, c in enumerate(self.childNodes) if c is ref][0], n)

    def insertText(self, data, insertBefore=None):
        t = RefNode('#text', None)
        t.data = data
        if insertBefore is None: self.appendChild(t)
        else: self.insertBefore(t, insertBefore)

    def removeChild(self, n):
        n.parent.childNodes = [c for c in n.parent.childNodes if c is not n]
        n.parent = None

    def reparentChildren(self, other):
        for c in list(self.childNodes): other.appendChild(c)

    def cloneNode(self):
        n = RefNode(self.name, self.namespace)
        n.attributes = dict(self.attributes)
        return n

    def hasContent(self): return bool(self.childNodes)


def refshape(n):
    kids = []
    for c in n.childNodes:
        s = c.data if c.name == '#text' else '' if c.name == '#comment' else refshape(c)
        if isinstance(s, str):
            if len(s) == 0: continue
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1] + s
                continue
        kids.append(s)
    return (n.name, list(n.attributes.items()), kids)


@scenario(quick=[dict(steps=4)], thorough=[dict(steps=6)], covers=('table', 'format', 'adopt', 'comment', 'text'),
          bounds='every sequence of `steps` tree-building calls (open and close elements, text, comments, misnested table content, reopening formatting elements, moving children) '
                 'with arbitrary texts, compared with the same html5lib base tree builder over plain list nodes')
def building(ctx, steps):
    from html5lib.treebuilders.base import TreeBuilder
    class Ref(TreeBuilder):
        documentClass = lambda self: RefNode('#document', None)
        elementClass = RefNode
        commentClass = lambda self, data: RefNode('#comment', None)
    tbs = [html5.treebuilder(), Ref(True)]
    ops = []
    roots = []
    names = ['p', 'table', 'b', 'td']
    def each(f):
        for tb in tbs: f(tb)
    def tok(name, i): return {'name': name, 'data': {'i': str(i)}, 'namespace': XHTML}
    each(lambda tb: tb.insertRoot(tok('html', 'r')))
    each(lambda tb: tb.insertElement(tok('table', 't')) if hasattr(tb, 'insertElement') else tb.insertElementNormal(tok('table', 't')))
    each(lambda tb: setattr(tb, 'insertFromTable', False))
    for s in range(steps):
        op = ctx.choice('op%d' % s, 9)
        if op < 3:
            n = ['p', 'b', 'table'][op]
            def f(tb):
                tb.insertElement(tok(n, s))
                if n == 'b': tb.activeFormattingElements.append(tb.openElements[-1])
        elif op == 3:
            data = ctx.text('t%d' % s, 1)
            ctx.cover('text')
            f = lambda tb: tb.insertText(data)
        elif op == 4:
            ctx.cover('comment')
            f = lambda tb: tb.insertComment({'data': 'c'})
        elif op == 5:
            def f(tb):
                if len(tb.openElements) > 2: tb.openElements.pop()
        elif op == 6:
            ctx.cover('table')
            f = lambda tb: setattr(tb, 'insertFromTable', not tb.insertFromTable)
        elif op == 7:
            ctx.cover('format')
            f = lambda tb: tb.reconstructActiveFormattingElements()
        else:
            ctx.cover('adopt')
            def f(tb):
                # as in the adoption agency algorithm: a clone takes the children of an element and goes under it
                e = tb.openElements[-1]
                c = e.cloneNode()
                e.reparentChildren(c)
                e.appendChild(c)
                tb.openElements.append(c)
        st, r = ctx.guard(each, f)
        ctx.check(st == 'ok', 'tree building failed', None, op, r)
    got, want = tbs[0].openElements[0], tbs[1].openElements[0]
    ctx.check(shape(got) == refshape(want), 'the tree differs', None, shape(got), refshape(want))
    check_links(ctx, got)
    ctx.check(tbs[0].document.root_nodes[0] is got, 'the document lost its element')
    ctx.obs(shape(got))
