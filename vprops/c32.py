import gc, io, weakref
from symx.scen import registry
from amara3.uxml import tree, treeiter, treeutil, xml, xmliter, writer, uxpath
from .trees import shape, make, shaped, legal_text
from .pathpat import stages
from .xmlev import callbacks, stripped
from .c14 import markup, outermost
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['CPython releases an object as soon as nothing refers to it; the cyclic collector is off while the harness looks, except that the XML builder and sender (which do form cycles with their callbacks) are collected once dropped. A builder or sender may hold on to the last tree it built. '
               'The XML parser (expat) as in C15.']


def below(e):
    out = [e]
    for c in e.xml_children:
        if isinstance(c, tree.element): out.extend(below(c))
    return out


def quiet(fn, *a):
    """Run without the cyclic collector."""
    on = gc.isenabled()
    gc.disable()
    try: return fn(*a)
    finally:
        if on: gc.enable()


EXPRS = ['//b', '/', '//b/ancestor::node()', '//b | //@x', 'count(//node())', "for-each(//b, '..')", '//b[1]/following::node()', '//text()/preceding::*', '//@x/..', 'string(/)']


def use(root, k, x):
    """Uses that must not keep anything."""
    if k == 0: return
    if k == 1:
        for n in below(root): list(n.xml_xpath(x))
    elif k == 2:
        root.xml_encode()
        root.xml_value
        writer.write(root, writer.raw(io.StringIO()))
    elif k == 3:
        list(treeutil.descendants(root))
        list(treeutil.select_pattern(root, ('**', 'b')))
        list(treeutil.select_name(treeutil.descendants(root), 'b'))
        for n in below(root): list(treeutil.following_siblings(n))
    elif k == 4: treeutil.make_pretty(root)
    elif k == 5:
        # given up half way
        it = root.xml_xpath('//node()')
        next(it)
        it = treeutil.descendants(root)
        next(it, None)
    else:
        # the same parsed expression, kept for good
        list(KEPT.compute(uxpath.context(root)))
        list(uxpath.qquery(root, KEPT))


KEPT = uxpath.parse('//b/ancestor-or-self::node() | //@*')


def build(ctx, how, data):
    if how == 0: return make(data)
    if how == 1: return tree.parse(markup(data))
    if how == 2: return tree.treebuilder().parse(markup(data))
    d = lambda n: n if isinstance(n, str) else ((None, n[0]), [((None, k), v) for k, v in n[1]], [d(c) for c in n[2]])
    return xml.treebuilder().parse(ctx.xml(callbacks(d(data), {}, [])))


def edit(ctx, root, els, op):
    """One edit; els: the elements in document order."""
    if op == 0: return
    i = ctx.choice('i', len(els))
    if op == 1:
        ctx.assume(i > 0)
        els[i].xml_parent.xml_remove(els[i])
    elif op == 2:
        j = ctx.choice('j', len(els))
        ctx.assume(i > 0 and all([x is not els[j] for x in below(els[i])]))
        els[j].xml_insert(els[i], 0)
    elif op == 3:
        new = tree.element('new')
        els[i].xml_append(new)
        els[i].xml_remove(new)
    elif op == 4:
        ctx.assume(i > 0)
        p = els[i].xml_parent
        p.xml_children = [c for c in p.xml_children if c is not els[i]]
    else: root.xml_append(els[i].xml_children[0] if els[i].xml_children else 'x')


@scenario(quick=[dict(size=4, edits=0), dict(size=3, edits=5)], thorough=[dict(size=5, edits=0), dict(size=4, edits=5)], covers=('kept', 'none', 'freed'), steps=900000,
          bounds='every tree of up to `size` nodes with names out of two and an arbitrary character in texts, built in four ways, edited in `edits` ways or not, used in seven ways (ten queries), then dropped except for one node or none')
def trees(ctx, size, edits):
    c = legal_text(ctx, 'c', 1)
    data, n = shaped(ctx, size, lambda i: ('ab'[i % 2], [('x', c)] if i == 1 else []), lambda i: c + str(i))
    how = ctx.choice('how', 4)
    op = ctx.choice('op', edits) + 1 if edits else 0
    k = ctx.choice('use', 7)
    ctx.assume(op == 0 or k in (0, 1, 6))
    ctx.assume(how in (1, 3) or not op)
    x = EXPRS[ctx.choice('expr', len(EXPRS))] if k == 1 else None
    refs, held = [], []
    def go():
        root = build(ctx, how, data)
        els = below(root)
        for e in els: refs.append(weakref.ref(e))
        use(root, k, x)
        edit(ctx, root, els, op)
        use(root, k if op else 0, x)
        h = ctx.choice('hold', len(els) + 1)
        if h: held.append(els[h - 1])
    def run():
        st, r = ctx.guard(go)
        ctx.check(st == 'ok', 'failed', None, data, how, op, k, r)
        if how == 3: gc.collect(0)
        keep = below(held[0]) if held else []
        for r in refs:
            e = r()
            want = e is not None and any([e is x for x in keep])
            ctx.check(e is None or want, 'a dropped element is still there', None, data, how, op, k, shape(held[0]) if held else None)
            if e is None: ctx.cover('freed')
            e = None
        if held:
            ctx.check(len(keep) == len([r for r in refs if r() is not None]), 'an element below a held one is gone')
            ctx.check(held[0].xml_parent is None, 'the parent of a held element lives on', None, data, how, op, k)
            for e in keep:
                for x in e.xml_children: ctx.check(x.xml_parent is e, 'a child below a held element lost its parent')
            ctx.cover('kept')
        else: ctx.cover('none')
    quiet(run)


class Census:
    """Counts the elements there are."""
    def __enter__(self):
        self.refs = refs = []
        self.old = old = tree.element.__init__
        def init(e, *a, **k):
            old(e, *a, **k)
            refs.append(weakref.ref(e))
        tree.element.__init__ = init
        return self
    def __exit__(self, *a): tree.element.__init__ = self.old
    def alive(self): return [e for e in [r() for r in self.refs] if e is not None]


@scenario(quick=[dict(size=5, n=2)], thorough=[dict(size=6, n=2), dict(size=6, n=3)], covers=('some', 'several', 'nothing'), steps=900000,
          bounds='every document of up to `size` nodes with arbitrary one-letter names and every pattern of n parts out of "a", "b", "*", "**", streamed from MicroXML or XML into a sink that keeps nothing')
def streaming(ctx, size, n):
    pattern = stages(ctx, n, ['a', 'b', '*', '**'])
    data, _ = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1, ((97, 99),)) if i < 3 else 'ab'[i % 2], []), lambda i: 't')
    which = ctx.choice('xml', 2)
    seen, counts = [], []
    def sink(cen):
        while True:
            e = yield
            mine = below(e)
            counts.append((len(mine), len(cen.alive())))
            seen.extend([weakref.ref(x) for x in mine])
            mine = None
            e = None
    def go():
        with Census() as cen:
            if which:
                d = lambda n: n if isinstance(n, str) else ((None, n[0]), [], [d(c) for c in n[2]])
                s = xmliter.sender(pattern, sink(cen))
                s.parse(ctx.xml(callbacks(d(data), {}, [])))
            else:
                s = treeiter.sender(pattern, sink(cen))
                s.parse(markup(data))
            counts.append((None, len(cen.alive())))
            s = None
            return None
    def run():
        st, r = ctx.guard(go)
        ctx.check(st == 'ok', 'streaming failed', None, data, pattern, r)
        if which: gc.collect(0)
    quiet(run)
    want = outermost(data, pattern)
    ctx.check(len(counts) == len(want) + 1, 'wrong number of subtrees', None, data, pattern)
    for i, (mine, all_) in enumerate(counts[:-1]):
        ctx.check(all_ == mine, 'elements other than those of the subtree delivered are kept', None, data, pattern, which, counts)
    last = counts[-2][0] if want else 0
    ctx.check(counts[-1][1] <= last, 'more than the last subtree is kept', None, data, pattern, which, counts)
    for r in seen: ctx.check(r() is None, 'a subtree outlives the sender', None, data, pattern)
    if want: ctx.cover('some')
    else: ctx.cover('nothing')
    if len(want) > 1: ctx.cover('several')


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('held', 'both'), steps=900000,
          bounds='every document of up to `size` nodes streamed to two sinks with five pairs of patterns; one of the sinks keeps any part of what it is given, the other nothing')
def sinks(ctx, size):
    data, _ = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1, ((97, 98),)), []), lambda i: 't')
    pats = [[('**',), ('**', 'b')], [('*', 'a'), ('*', 'b')], [('**', 'a'), ('**', 'b')], [('a',), ('*', '*')], [('*', '**'), ('**', 'b')]][ctx.choice('pats', 5)]
    which = ctx.choice('keep', 3)
    held, refs = [], [[], []]
    def sink(k):
        while True:
            e = yield
            part = below(e)
            for x in part: refs[k].append(weakref.ref(x))
            if k == 0 and which: held.append(part[0 if which == 1 else len(part) - 1])
            part = None
            e = None
    def go():
        s = treeiter.sender(pats, [sink(0), sink(1)])
        s.parse(markup(data))
        s = None
    def run():
        st, r = ctx.guard(go)
        ctx.check(st == 'ok', 'streaming failed', None, data, pats, r)
        keep = [x for h in held for x in below(h)]
        for k in (0, 1):
            for r in refs[k]:
                e = r()
                ctx.check(e is None or any([e is x for x in keep]), 'a dropped element is still there', None, data, pats, k, which)
                e = None
        ctx.check(all([any([r() is x for r in refs[0]]) for x in keep]), 'held elements are not the ones delivered')
        if held: ctx.cover('held')
        if refs[0] and refs[1]: ctx.cover('both')
    quiet(run)
