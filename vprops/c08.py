import io
from symx.scen import registry
from amara3.uxml import tree
from . import refmx, mxdocs
from .trees import shape, make, shaped, joined, legal_text, legal_name, edited, HIST
from .c09 import only_space_added
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Names and characters are legal MicroXML (vprops/refmx.py); attribute names within an element are different.']


def judge(ctx, data, root=None):
    if root is None: root = make(data)
    want = joined(data)
    out = root.xml_encode()
    ctx.obs(out)
    try: back = refmx.tree(refmx.events(out))
    except refmx.Ill: ctx.fail('the encoded tree is not well-formed', None, data, out)
    ctx.check(back == want, 'the encoded tree says something else', None, data, out, back)
    st, t = ctx.guard(tree.parse, out)
    ctx.check(st == 'ok', 'the encoded tree is rejected by the parser', None, data, out)
    ctx.check(shape(t) == want, 'round trip differs', None, data, out, shape(t))
    fp = io.StringIO()
    root.xml_write(fp)
    ctx.check(fp.getvalue() == out, 'xml_write differs from xml_encode', None, data, out, fp.getvalue())
    ctx.check(shape(root, False) == data, 'encoding changed the tree', None, data)
    ctx.cover('done')


@scenario(quick=[dict(n=5)], thorough=[dict(n=7)], covers=('done',), bounds='one element, one attribute value of n arbitrary legal characters')
def attribute(ctx, n):
    judge(ctx, ('a', [('x', legal_text(ctx, 'v', n))], []))


@scenario(quick=[dict(n=5)], thorough=[dict(n=7)], covers=('done',), bounds='one element, text of n arbitrary legal characters')
def textonly(ctx, n):
    judge(ctx, ('a', [], [legal_text(ctx, 't', n)]))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('done',), bounds='element and attribute names of n arbitrary legal name characters')
def names(ctx, n):
    a, b, c = [legal_name(ctx, k, n) for k in 'abc']
    ctx.assume(b != c)
    judge(ctx, (a, [(b, '1'), (c, '2')], [(c, [(a, '')], [])]))


@scenario(quick=[dict(size=4, n=1)], thorough=[dict(size=5, n=1), dict(size=3, n=2)], covers=('done',),
          bounds='every tree of up to `size` nodes, one or two attributes each, texts and values of n arbitrary legal characters, adjacent and empty texts included')
def shapes(ctx, size, n):
    data, k = shaped(ctx, size, lambda i: ('e%d' % i, [('x', legal_text(ctx, 'v%d' % i, n)), ('a', "'\"")][:1 + i % 2]),
                     lambda i: legal_text(ctx, 't%d' % i, n) if ctx.choice('l%d' % i, 2) == 0 else '')
    judge(ctx, data)


@scenario(quick=[dict(big=b, m=m) for b in (0, 1) for m in range(4)], thorough=[dict(big=2, m=m) for m in range(4)], covers=('done',), steps=3000000,
          bounds='long text (300/3000/70000), many attributes (40/300/7000), deep (40/200/320) and wide (60/400/8750) trees with arbitrary legal characters at chosen places')
def big(ctx, big, m):
    c = legal_text(ctx, 'c', 1)
    d = legal_text(ctx, 'd', 1)
    n = [300, 3000, 70000][big]
    if m == 0: data = ('a', [('x', 'y' * n + c + '&' * 9 + d)], ['<' * 20 + 'z' * n + c + d + '\n'])
    elif m == 1: data = ('a', [('a%d' % i, c if i == n // 10 - 2 else str(i)) for i in range(n // 10)], [d])
    elif m == 2:
        data = ('z', [('q', c)], [d])
        for i in range([40, 200, 320][big]): data = ('e%d' % i, [], [data] if i % 2 else ['t', data, 'u'])
    else: data = ('r', [], [('e', [('k', c if i % 7 == 3 else str(i))], [d if i % 9 == 4 else str(i)]) for i in range(n // 8)])
    judge(ctx, data)


def pieces(data, out):
    """Tags and texts as they are encoded without indentation."""
    if isinstance(data, str): out.append(make(data).xml_encode())
    else:
        empty = make((data[0], data[1], [])).xml_encode()
        end = '</' + data[0] + '>'
        out.append(empty[:len(empty) - len(end)])
        for c in data[2]: pieces(c, out)
        out.append(end)
    return out


@scenario(quick=[dict(size=4, n=1)], thorough=[dict(size=5, n=1), dict(size=4, n=2)], covers=('indented',), steps=900000,
          bounds='every tree of up to `size` nodes, attributes, texts of n arbitrary legal characters, with seven kinds of indentation and depth')
def indented(ctx, size, n):
    data, k = shaped(ctx, size, lambda i: ('e%d' % i, [('x', legal_text(ctx, 'v%d' % i, n)), ('a', "'\"")][:1 + i % 2] if i < 2 else []), lambda i: legal_text(ctx, 't%d' % i, n))
    root = make(data)
    kw = ctx.pick('how', [dict(indent='  '), dict(indent='\t'), dict(indent=''), dict(indent=' ', depth=2), dict(depth=3), dict(indent='\n'), dict(indent=None, depth=1)])
    st, out = ctx.guard(root.xml_encode, **kw)
    ctx.check(st == 'ok', 'cannot be encoded with indentation', None, data, kw, out)
    ctx.obs(out)
    ctx.check(only_space_added(out, pieces(data, [])), 'indentation changed more than white space', None, data, kw, out)
    if not kw.get('indent'): ctx.check(out == root.xml_encode(), 'white space without being asked for', None, data, kw, out)
    try: refmx.events(out)
    except refmx.Ill: ctx.fail('not well-formed with indentation', None, data, kw, out)
    ctx.check(shape(root, False) == data, 'encoding changed the tree', None, data)
    ctx.cover('indented')


@scenario(quick=[dict(d=d, steps=2) for d in range(len(HIST))], thorough=[dict(d=0, steps=3), dict(d=1, steps=3), dict(d=2, steps=4)], covers=('done', 'edited'),
          bounds='three trees: encode, an edit in place (ten kinds, any element), encode again, ... `steps` edits; new names and texts one arbitrary letter')
def history(ctx, d, steps):
    data = HIST[d]
    root = make(data)
    judge(ctx, data, root)
    for k in range(steps):
        data = edited(ctx, 'e%d' % k, root, data)
        judge(ctx, data, root)
        ctx.cover('edited')


@scenario(quick=[dict(m=m) for m in (0, 1)], covers=('indented',), steps=3000000, bounds='indented encoding of trees 150 deep and 200 wide, arbitrary legal characters at chosen places')
def longindent(ctx, m):
    c, d = legal_text(ctx, 'c', 1), legal_text(ctx, 'd', 1)
    if m == 0:
        data = ('z', [('q', c)], [d])
        for i in range(150): data = ('e%d' % i, [], [data] if i % 2 else ['t', data, 'u'])
    else: data = ('r', [], [('e', [('k', c if i % 7 == 3 else str(i))], [d if i % 9 == 4 else str(i)]) for i in range(200)])
    root = make(data)
    kw = ctx.pick('how', [dict(indent='  '), dict(indent='\t', depth=1)])
    st, out = ctx.guard(root.xml_encode, **kw)
    ctx.check(st == 'ok', 'cannot be encoded with indentation', None, kw, out)
    ctx.check(only_space_added(out, pieces(data, [])), 'indentation changed more than white space', None, kw, out)
    ctx.check(out != root.xml_encode(), 'no indentation', None, kw, out)
    ctx.cover('indented')


@scenario(quick=[dict(far=0)], thorough=[dict(far=0), dict(far=1)], covers=('done',), steps=5000000,
          bounds='encoded documents whose length is, or whose text or attribute value has a length, one less than, equal to or one more than a power of two from 32 to 8192 (thorough: 65536), the last or first character arbitrary')
def lengths(ctx, far):
    n = ctx.pick('n', mxdocs.FAR if far else mxdocs.EDGES)
    c = legal_text(ctx, 'c', 1)
    k = ctx.choice('how', 5)
    x = 'x' * (n - 1)
    if k == 0: judge(ctx, ('a', [], ['x' * (n - 8) + c]))
    elif k == 1: judge(ctx, ('a', [], [x + c]))
    elif k == 2: judge(ctx, ('a', [('k', x + c)], [c + x]))
    elif k == 3: judge(ctx, ('a', [], ['x' * (n - 11), ('b', [], []), c]))
    else: judge(ctx, ('a', [('k', c)], ['x' * (n - 13), ('b', [], [])]))
