import io
from symx.scen import registry
from amara3.uxml import tree, writer
from . import refmx, mxdocs
from .trees import shape, make, shaped, joined, legal_text, legal_name, mkattrs
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Names and characters are legal MicroXML (vprops/refmx.py). The output is read by vprops/refmx.py, with the XML empty-element tags the '
               'writer can be asked for; output without such tags is read by the library\'s parser too.']


def feed(w, data, empties):
    """Drive the writer; empties: write childless elements as empty-element tags."""
    if isinstance(data, str):
        w.text(data)
        return
    ats = mkattrs(data[1])
    if empties and not data[2]:
        w.start_element(data[0], ats, empty=True)
        return
    if ats: w.start_element(data[0], attribs=ats)
    else: w.start_element(data[0])
    for c in data[2]: feed(w, c, empties)
    w.end_element(data[0])


def tokens(data, empties, out):
    """The tags and texts, as the plain writer writes each (taken from one-element documents), in order."""
    if isinstance(data, str):
        fp = io.StringIO()
        writer.raw(fp).text(data)
        out.append(fp.getvalue())
        return out
    fp = io.StringIO()
    writer.raw(fp).start_element(data[0], mkattrs(data[1]), empty=bool(empties and not data[2]))
    out.append(fp.getvalue())
    if not (empties and not data[2]):
        for c in data[2]: tokens(c, empties, out)
        out.append('</' + data[0] + '>')
    return out


def only_space_added(out, toks):
    """Can out be read as the tokens in order with only white space between them?"""
    pos = [0]
    for t in toks:
        nxt = []
        for p in pos:
            while True:
                if out[p:p + len(t)] == t and p + len(t) not in nxt: nxt.append(p + len(t))
                if p < len(out) and out[p] in ' \t\n': p += 1
                else: break
        pos = nxt
    for p in pos:
        if all(c in ' \t\n' for c in out[p:]): return True
    return False


def judge(ctx, data, empties, indent):
    want = joined(data)
    fp = io.StringIO()
    feed(writer.raw(fp) if indent is None else writer.raw(fp, indent=indent), data, empties)
    out = fp.getvalue()
    ctx.obs(out)
    try: back = refmx.tree(refmx.events(out, xml=empties))
    except refmx.Ill: ctx.fail('output is not well-formed', None, data, out)
    if indent is None:
        ctx.cover('plain')
        ctx.check(back == want, 'output says something else', None, data, out, back)
        if not empties:
            st, t = ctx.guard(tree.parse, out)
            ctx.check(st == 'ok', 'output is rejected by the parser', None, data, out)
            ctx.check(shape(t) == want, 'round trip differs', None, data, out)
            root = make(data)
            fp = io.StringIO()
            writer.write(root, writer.raw(fp))
            ctx.check(fp.getvalue() == root.xml_encode(), 'writing a tree differs from encoding it', None, data, fp.getvalue(), root.xml_encode())
            ctx.check(fp.getvalue() == out, 'writing a tree differs from the calls', None, data, fp.getvalue(), out)
            ctx.check(shape(root, False) == data, 'writing changed the tree', None, data)
        else: ctx.cover('empty')
    else:
        ctx.cover('indent')
        ctx.check(only_space_added(out, tokens(data, empties, [])), 'indentation changed more than white space', None, data, out)


def modes(ctx):
    return ctx.bool('empties'), ctx.pick('indent', [None, ' ', '\t'])


@scenario(quick=[dict(n=4)], thorough=[dict(n=6)], covers=('plain', 'indent', 'empty'), bounds='attribute value or text of n arbitrary legal characters, every mode')
def chars(ctx, n):
    e, i = modes(ctx)
    s = legal_text(ctx, 's', n)
    if ctx.choice('where', 2): judge(ctx, ('a', [('x', s)], [('b', [('y', s)], [])]), e, i)
    else: judge(ctx, ('a', [], [s, ('b', [], [s]), ('c', [], [])]), e, i)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('plain', 'indent'), bounds='element and attribute names of n arbitrary legal name characters')
def names(ctx, n):
    a, b, c = [legal_name(ctx, k, n if k == 'a' else 1) for k in 'abc']
    ctx.assume(b != c)
    judge(ctx, (a, [(b, '1'), (c, '2')], [(c, [(a, '')], [])]), *modes(ctx))


@scenario(quick=[dict(size=5)], thorough=[dict(size=6)], covers=('plain', 'indent', 'empty'),
          bounds='every tree of up to `size` nodes, 0-2 attributes each, one arbitrary legal character in each text, every mode')
def shapes(ctx, size):
    data, k = shaped(ctx, size, lambda i: ('e%d' % i, [('x', '<%d"\'\n' % i), ('a', "'\"")][:i % 3]),
                     lambda i: legal_text(ctx, 't%d' % i, 1) if i % 2 else 'x  ')
    judge(ctx, data, *modes(ctx))


@scenario(quick=[dict(big=b, m=m) for b in (0, 1) for m in range(3)], thorough=[dict(big=2, m=m) for m in range(3)], covers=('plain', 'indent'), steps=3000000,
          bounds='long text (300/3000/70000), many attributes (30/300/7000), deep (40/200/320) and wide (37/375/8750) trees with arbitrary legal characters at chosen places')
def big(ctx, big, m):
    c = legal_text(ctx, 'c', 1)
    d = legal_text(ctx, 'd', 1)
    n = [300, 3000, 70000][big]
    if m == 0: data = ('a', [('a%d' % i, c if i == n // 10 - 2 else str(i)) for i in range(n // 10)], ['<' * 20 + 'z' * n + c + d + '\n'])
    elif m == 1:
        data = ('z', [('q', c)], [d])
        for i in range([40, 200, 320][big]): data = ('e%d' % i, [], [data] if i % 2 else ['t', data, 'u'])
    else: data = ('r', [], [('e', [('k', c if i % 7 == 3 else str(i))], [d if i % 9 == 4 else str(i)]) for i in range(n // 8)])
    judge(ctx, data, *modes(ctx))


@scenario(quick=[dict()], covers=('two',), bounds='two writers used in turn on different files; one with attributes, one without')
def two_writers(ctx):
    f1, f2 = io.StringIO(), io.StringIO()
    i1, i2 = ctx.pick('i1', [None, '  ']), ctx.pick('i2', [None, ' '])
    w1, w2 = writer.raw(f1, indent=i1), writer.raw(f2, indent=i2)
    w1.start_element('a', {'x': '1'})
    w2.start_element('b')
    k = ctx.choice('order', 2)
    if k: w1.start_element('c')
    w2.start_element('d', {'y': legal_text(ctx, 'v', 1)})
    if not k: w1.start_element('c')
    w1.text('t')
    w2.end_element('d')
    w1.end_element('c')
    w2.end_element('b')
    w1.end_element('a')
    g1, g2 = io.StringIO(), io.StringIO()
    feed(writer.raw(g1, indent=i1), ('a', [('x', '1')], [('c', [], ['t'])]), False)
    ctx.cover('two')
    ctx.check(f1.getvalue() == g1.getvalue(), 'writers affect each other', None, f1.getvalue())
    if i2 is None: ctx.check(f2.getvalue().startswith('<b><d y=') and f2.getvalue().endswith('></d></b>'), 'writers affect each other', None, f2.getvalue())


@scenario(quick=[dict(far=0)], thorough=[dict(far=0), dict(far=1)], covers=('plain', 'indent'), steps=5000000,
          bounds='a text, attribute value or whole output of a length one less than, equal to or one more than a power of two from 32 to 8192 (thorough: 65536), one character arbitrary')
def lengths(ctx, far):
    n = ctx.pick('n', mxdocs.FAR if far else mxdocs.EDGES)
    c = legal_text(ctx, 'c', 1)
    k = ctx.choice('how', 3)
    x = 'x' * (n - 1)
    if k == 0: data = ('a', [], ['x' * (n - 8) + c])
    elif k == 1: data = ('a', [], [x + c])
    else: data = ('a', [('k', x + c)], [c + x])
    judge(ctx, data, False, ctx.pick('indent', [None, ' ']))
