import io
from symx.scen import registry
from amara3.uxml import tree, treeutil, html5, writer
from . import refmx, xpref, c11
from .trees import shape, check_links, legal_text
from .pathpat import matches, stages
from .xpref import World, child, every
from .c06 import Model, inserted
from .c12 import nodes_of, value_of
from .c13 import walk
from .c28 import S, E, X, tokens
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['As C28 for html5lib. What the tree is, C28 settles; here it is read off the lists of children. Comments are zero-length texts.']
MIX = [X, S('p'), E('p'), S('b', ('k', '1')), E('b'), ('comment', None), S('ns:q'), S('table'), ('text', ' '), S('svg')]


def parsed(ctx, given):
    pieces = []
    for x in given:
        # texts side by side are one to the tokenizer
        if x[0] == 'text' and pieces and pieces[-1][0] == 'text': pieces[-1] = ('text', pieces[-1][1] + x[1])
        else: pieces.append(x)
    st, t = ctx.guard(html5.parse, ctx.html(pieces))
    ctx.check(st == 'ok', 'parsing fails', None, pieces)
    return t


def document(ctx, n, c):
    ts = tokens(ctx, n, MIX)
    if any([t == ('comment', None) for t in ts]):
        # any character is well in a comment but those that could end it
        d = c if isinstance(c, str) and len(c) == 1 and c != '-' and c != '>' else ' '
        ts = [('comment', d) if t == ('comment', None) else t for t in ts]
    return parsed(ctx, [S('p', ('k', c)), ('text', c)] + ts + [('text', c), E('b')])


def joined(e):
    """Content as data, texts joined."""
    kids = []
    for c in e.xml_children:
        if isinstance(c, tree.element): kids.append(joined(c))
        elif value_of(c):
            if kids and isinstance(kids[-1], str): kids[-1] = kids[-1] + value_of(c)
            else: kids.append(value_of(c))
    return (e.xml_name, list(e.xml_attributes.items()), kids)


def snapshot(t):
    return [(n, n.xml_parent, shape(n, False)) for n in [t] + nodes_of(t)]


def unchanged(ctx, t, was):
    now = snapshot(t)
    ctx.check(len(now) == len(was) and all([a[0] is b[0] and a[1] is b[1] and a[2] == b[2] for a, b in zip(now, was)]), 'the tree changed')


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('done',),
          bounds='n of ten pieces (texts, comments, elements opened and closed) among texts and an attribute of one arbitrary legal character; encoded, written to a file, through the writer; values of all nodes')
def output(ctx, n):
    c = legal_text(ctx, 'c', 1)
    ctx.assume(c != '\r')
    t = document(ctx, n, c)
    was = snapshot(t)
    want = joined(t)
    st, out = ctx.guard(t.xml_encode)
    ctx.check(st == 'ok', 'cannot be encoded', None, want, out)
    ctx.obs(out)
    try: back = refmx.tree(refmx.events(out))
    except refmx.Ill: ctx.fail('the encoded tree is not well-formed', None, want, out)
    ctx.check(back == want, 'the encoded tree says something else', None, want, out, back)
    st, r = ctx.guard(tree.parse, out)
    ctx.check(st == 'ok' and shape(r) == want, 'round trip differs', None, want, out)
    fp, fp2 = io.StringIO(), io.StringIO()
    t.xml_write(fp)
    st, r = ctx.guard(writer.write, t, writer.raw(fp2))
    ctx.check(st == 'ok' and fp.getvalue() == out and fp2.getvalue() == out, 'written otherwise than encoded', None, out, fp.getvalue(), fp2.getvalue())
    for x in [t] + nodes_of(t):
        ctx.check(x.xml_value == (value_of(x) if isinstance(x, tree.element) else str(x)), 'wrong value', None, shape(x), x.xml_value)
        st, o = ctx.guard(x.xml_encode)
        if not isinstance(x, tree.element): ctx.check(st == 'ok' and refmx.tree(refmx.events('<t>' + o + '</t>'))[2] == [str(x)][:len(x)], 'a text is encoded wrongly', None, str(x), o)
    unchanged(ctx, t, was)
    els = [x for x in [t] + nodes_of(t) if isinstance(x, tree.element)]
    for i, x in enumerate(els): x.xml_attributes['z%d' % i] = '1'
    for i, x in enumerate(els): ctx.check([k for k in x.xml_attributes if k[:1] == 'z'] == ['z%d' % i], 'an attribute set on one element shows on another', None, want, shape(t))
    ctx.cover('done')


ALL = ('abs', '//', ('step', 'child', ('node',)))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('some',), steps=900000, bounds='n of ten pieces; every axis from every node with four node tests; nine expressions from the root')
def queries(ctx, n):
    t = document(ctx, n, ctx.pick('c', ['x', ' ']))
    was = snapshot(t)
    w = World(t)
    k = ctx.choice('axis', len(xpref.AXES) + 1)
    if k < len(xpref.AXES):
        for item in every(w):
            for test in [('node',), ('text',), ('*',), ('name', 'b')]:
                if xpref.judge(ctx, w, ('step', xpref.AXES[k], test), item)[1]: ctx.cover('some')
    else:
        for e in [ALL, ('abs', '//', child('b')), ('abs', '//', ('step', 'attribute', ('*',))), ('pred', ('abs', '//', child('p')), [child('b')]), ('call', 'count', [ALL]), ('call', 'string', [('abs', '/', None)]),
                  ('pred', ('abs', '//', ('step', 'child', ('*',))), [('bin', ('dot',), '=', ('lit', ''))]), ('bin', ('abs', '//', ('step', 'child', ('text',))), '|', ('abs', '//', child('b'))),
                  ('call', 'concat', [ALL])]: xpref.judge(ctx, w, e, w.roots[0])
    unchanged(ctx, t, was)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('some', 'pretty'), bounds='n of ten pieces; traversal, selection by name, by pattern (two parts) and of siblings, or making it pretty')
def selections(ctx, n):
    t = document(ctx, n, 'x')
    was = snapshot(t)
    below = nodes_of(t)
    els = [x for x in below if isinstance(x, tree.element)]
    def expect(st, got, want, what):
        ctx.check(st == 'ok' and len(got) == len(want) and all([a is b for a, b in zip(got, want)]), what + ' differs', None, was[0][2])
        if want: ctx.cover('some')
    k = ctx.choice('what', 6)
    if k == 0: expect(*ctx.guard(lambda: list(treeutil.descendants(t))), els, 'descendants')
    elif k == 1: expect(*ctx.guard(lambda: list(treeutil.select_name(treeutil.descendants(t), 'b'))), [x for x in els if x.xml_name == 'b'], 'select_name')
    elif k == 2: expect(*ctx.guard(lambda: list(treeutil.select_value(below, 'x'))), [x for x in below if value_of(x) == 'x'], 'select_value')
    elif k == 3:
        p = stages(ctx, 2, ['p', 'b', '*', '**', ('b', 'body')])
        expect(*ctx.guard(lambda: list(treeutil.select_pattern(t, p))), [e for e, path in walk(t, []) if matches(p, path)], 'select_pattern')
    elif k == 4:
        for x in els:
            sibs = x.xml_parent.xml_children
            i = [j for j, y in enumerate(sibs) if y is x][0]
            expect(*ctx.guard(lambda: list(treeutil.following_siblings(x))), sibs[i + 1:], 'following_siblings')
    if k < 5: return unchanged(ctx, t, was)
    c11.judge(ctx, None, None, None, t)
    ctx.cover('pretty')


@scenario(quick=[dict(steps=2)], thorough=[dict(steps=3)], covers=('append', 'insert', 'remove', 'refused', 'string', 'move'), bounds='every sequence of `steps` edits (append or insert a new string or element or any node of the tree or of a plain one, remove) on the paragraph, its parent '
          'and an element in it of a tree with texts, comments and elements; then encoding and value')
def edits(ctx, steps):
    t = parsed(ctx, [S('p', ('k', '1')), X, ('comment', 'c'), S('b'), X, E('b'), ('comment', 'd'), X])
    body = t.xml_children[1]
    p = body.xml_children[0]
    b = [c for c in p.xml_children if isinstance(c, tree.element)][0]
    plain = tree.parse('<r>1<e></e></r>')
    m = Model()
    nodes = [t, plain] + nodes_of(t) + nodes_of(plain)
    for x in nodes:
        if isinstance(x, tree.element): m.of(x).extend(x.xml_children)
    m.check(ctx, nodes)
    first = list(nodes)
    pool = [p.xml_children[0], p.xml_children[1], b, p, plain.xml_children[0], plain.xml_children[1], tree.element('new'), html5.element('made', {'k': 'v'})]
    for x in pool[6:]:
        nodes.append(x)
        m.of(x)
    def inside(n, top):
        while n is not None:
            if n is top: return True
            n = m.parent(n)
        return False
    for s in range(steps):
        target = [p, body, b, plain, pool[7]][ctx.choice('target%d' % s, 5)]
        l = m.of(target)
        op = ctx.choice('op%d' % s, 3)
        if op == 2:
            x = pool[ctx.choice('what%d' % s, len(pool))]
            was = m.parent(x) is target
            st, r = ctx.guard(target.xml_remove, x)
            ctx.check(st == ('ok' if was else 'err'), 'removed or not', None, was, r)
            if was: m.detach(x)
            ctx.cover('remove' if was else 'refused')
        else:
            k = ctx.choice('what%d' % s, len(pool) + 1)
            i = -1
            if op == 1: i = ctx.choice('at%d' % s, len(l) + 1)
            if k == len(pool):
                st, r = ctx.guard(target.xml_insert, 'str', i) if op else ctx.guard(target.xml_append, 'str')
                ctx.check(st == 'ok', 'a string is refused')
                inserted(ctx, m, nodes, target, i, 'str')
                ctx.cover('string')
            else:
                x = pool[k]
                ctx.assume(not inside(target, x))
                had = m.parent(x)
                m.detach(x)
                l = m.of(target)
                if i > len(l): i = len(l)
                st, r = ctx.guard(target.xml_insert, x, i) if op else ctx.guard(target.xml_append, x)
                ctx.check(st == 'ok', 'a node is refused', None, r)
                if i == -1: l.append(x)
                else: l.insert(i, x)
                ctx.cover('move' if had is not None else 'insert' if op else 'append')
        m.check(ctx, nodes)
    for top in (t, plain):
        check_links(ctx, top)
        out = top.xml_encode()
        ctx.check(refmx.tree(refmx.events(out)) == joined(top), 'encodes otherwise', None, out, joined(top))
        ctx.check(top.xml_value == value_of(top), 'wrong value', None, out)
    ctx.obs([t.xml_encode(), plain.xml_encode()])
