import io
from symx.scen import registry
from amara3.uxml import tree, treeiter, treeutil, xml, xmliter, writer, parser as P, uxpath
from . import refmx
from .trees import shape, make, joined, check_links, mkattrs, legal_text
from .mxutil import simple
from .xmlev import callbacks, stripped
from .c14 import markup, outermost
from .c15 import A, B, keep, received, flat
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The XML parser (expat) as in C15. Each piece of work has its own builder, parser, sender or writer object; within one thread. Documents of this harness: '
               'a few shapes with an arbitrary character in names, attribute values and texts.']


def data(k, c, t):
    """Documents as trees of (namespace, local) names."""
    return [((None, 'a'), [((None, 'x'), t)], ['t', ((A, 'b'), [], [t]), t]),
            ((B, 'r'), [], [((B, 'b'), [((None, 'y'), 'v')], [((None, 'a'), [], [t + 'u'])])]),
            ((None, 'b'), [((None, 'xx'), '1'), ((None, c), '2')], [((None, c), [], []), t])][k]


def cut(s, n):
    """n pieces of about the same size."""
    size = max(1, (len(s) + n - 1) // n)
    return [s[i:i + size] for i in range(0, len(s), size)]


# Jobs: generator functions (ctx, data, out) yielding between steps; what they leave in out is compared with expect()
def j_parser(ctx, d, out):
    acc = []
    p = P.parser(P.handler(acc))
    for piece in cut(markup(stripped(d)), 3):
        p.send((piece, False))
        yield
    p.send(('', True))
    out.append(simple(acc))


def j_frags(ctx, d, out):
    def src():
        for piece in cut(markup(stripped(d)), 5): yield piece
    acc = []
    for i, e in enumerate(P.parsefrags(src())):
        acc.append(e)
        if i % 2: yield
    out.append(simple(acc))


def j_parse(ctx, d, out):
    acc = []
    for i, e in enumerate(P.parse(markup(stripped(d)))):
        acc.append(e)
        if i % 2: yield
    out.append(simple(acc))


def j_ill(ctx, d, out):
    """Fails at the end."""
    acc = []
    p = P.parser(P.handler(acc))
    t = markup(stripped(d))
    out.append('no error')
    try:
        for piece in cut(t[:-1], 2) + ['x>']:
            p.send((piece, False))
            yield
        p.send(('', True))
    except Exception: out[0] = 'error'


def j_tree(ctx, d, out):
    tb = tree.treebuilder()
    t = tb.parse(markup(stripped(d)))
    yield
    out.append(shape(t))


def j_xmltree(ctx, d, out):
    src = ctx.xml(callbacks(d, {A: 'p', B: None}, []))
    yield
    t = xml.treebuilder().parse(src)
    yield
    out.append(shape(t))


def j_xmlevents(ctx, d, out):
    src = ctx.xml(callbacks(d, {A: None, B: 'q'}, []))
    yield
    acc = []
    xml.parse(src, keep(acc))
    yield
    out.append(received(acc))


def collect(got):
    while True:
        e = yield
        got.append(shape(e))


PATTERNS = [('**', 'b'), ('*',)]


def j_sender(ctx, d, out):
    got = [[], []]
    s = treeiter.sender(PATTERNS, [collect(got[0]), collect(got[1])])
    yield
    s.parse(markup(stripped(d)))
    yield
    out.append(got)


def j_xmlsender(ctx, d, out):
    evs = callbacks(d, {A: 'p', B: 'q'}, [])
    pieces = [evs[:4], evs[4:]] if evs[3][0] != 'ns' else [evs[:5], evs[5:]]
    srcs = ctx.xml_pieces(pieces)
    got = [[], []]
    s = xmliter.sender(PATTERNS, [collect(got[0]), collect(got[1])])
    yield
    for x in srcs:
        s.parse(x)
        yield
    out.append(got)


def events(d): return flat(stripped(d), [])


def j_writer(ctx, d, out, **kw):
    fp = io.StringIO()
    w = writer.raw(fp) if not kw else writer.namespacer(fp, **kw)
    for i, e in enumerate(events(d)):
        if e[0] == 'S': w.start_element(e[1], mkattrs(e[2]))
        elif e[0] == 'E': w.end_element(e[1])
        else: w.text(e[1])
        if i % 2: yield
    out.append(fp.getvalue())


PREFIXES, MAPPING = {'p': 'urn:p'}, {'b': ('urn:p', 'p')}


def j_nswriter(ctx, d, out):
    yield from j_writer(ctx, d, out, prefixes=PREFIXES, mapping=MAPPING)


QUERY = uxpath.parse('//*/@* | //b | //text()')


def j_query(ctx, d, out):
    acc = []
    for i, x in enumerate(make(stripped(d)).xml_xpath(QUERY)):
        acc.append(x.xml_name)
        if i % 2: yield
    out.append(acc)


def j_select(ctx, d, out):
    root = make(stripped(d))
    acc = []
    for x in treeutil.select_pattern(root, ('**', 'b')):
        acc.append(shape(x))
        yield
    out.append(acc)


JOBS = [j_parser, j_frags, j_parse, j_ill, j_xmlsender, j_writer, j_nswriter, j_query, j_select, j_tree, j_xmltree, j_xmlevents, j_sender]


def walk(d):
    for c in d[2]:
        if not isinstance(c, str):
            yield c
            yield from walk(c)


def inorder(d, out):
    """Names for QUERY: attributes, b elements and texts in document order."""
    if isinstance(d, str):
        out.append('#text')
        return out
    if d[0] == 'b': out.append('b')
    out.extend([k for k, v in d[1]])
    for c in d[2]: inorder(c, out)
    return out


def expect(job, d):
    plain = stripped(d)
    if job in (j_parser, j_frags, j_parse): return [refmx.events(markup(plain))]
    if job is j_ill: return ['error']
    if job in (j_tree, j_xmltree): return [plain]
    if job is j_xmlevents: return [flat(plain, [])]
    if job in (j_sender, j_xmlsender): return [[[joined(x) for x in outermost(plain, p)] for p in PATTERNS]]
    if job is j_query: return [inorder(plain, [])]
    if job is j_select: return [[x for x in walk(plain) if x[0] == 'b']]
    if job is j_writer: return [written(plain, True, False)]
    return [written(plain, True, True)]


def written(d, top, ns):
    """What the document written has to read as: events."""
    def nm(n): return 'p:' + n if ns and n == 'b' else n
    def go(d, top):
        if isinstance(d, str): return [('T', d)]
        out = [('S', nm(d[0]), ([('xmlns:p', 'urn:p')] if ns and top else []) + list(d[1]))]
        for c in d[2]: out.extend(go(c, False))
        return out + [('E', nm(d[0]))]
    return go(d, top)


def compare(ctx, job, d, out, *detail):
    name = job.__name__[2:]
    if job in (j_writer, j_nswriter) and len(out) == 1:
        try: out = [refmx.events(out[0].replace('p:', 'p_').replace('xmlns:', 'xmlns_') if job is j_nswriter else out[0])]
        except refmx.Ill: ctx.fail('what is written is ill-formed', None, out, *detail)
        want = [[(e[0], e[1].replace('p:', 'p_')) + ((([(k.replace(':', '_'), v) for k, v in e[2]]),) if e[0] == 'S' else ()) if e[0] != 'T' else e for e in expect(job, d)[0]]]
        if job is j_writer: want = expect(job, d)
    else: want = expect(job, d)
    ctx.check(out == want, name + ' gives something else', None, d, out, want, *detail)


CHARS = ((97, 122), (0xE0, 0xEF), (0x3B1, 0x3C9))


@scenario(quick=[dict(steps=4)], thorough=[dict(steps=6)], covers=('done', 'turns'), steps=900000,
          bounds='two jobs out of 9 kinds (MicroXML parser fed in pieces, parsefrags and parse read event by event, a parser meeting an error, XML sender fed in pieces, the two writers, a query, a selection) '
                 'advanced in turns in every order for the first `steps` turns, then one after the other; an arbitrary character in names, another in texts and attribute values')
def turns(ctx, steps):
    c, t = ctx.text('c', 1, CHARS), legal_text(ctx, 't', 1)
    one, two = JOBS[ctx.choice('one', 9)], JOBS[ctx.choice('two', 9)]
    docs = [(1, 0), (2, 1), (0, 2)][ctx.choice('docs', 3)]
    ds = [data(docs[0], c, t), data(docs[1], c, t)]
    outs = [[], []]
    gens = [one(ctx, ds[0], outs[0]), two(ctx, ds[1], outs[1])]
    order = []
    live = [True, True]
    def step(k):
        try: next(gens[k])
        except StopIteration: live[k] = False
    for t in range(40):
        if not (live[0] or live[1]): break
        k = (ctx.choice('turn%d' % t, 2) if t < steps else 0) if live[0] and live[1] else (0 if live[0] else 1)
        order.append(k)
        st, r = ctx.guard(step, k)
        ctx.check(st == 'ok', 'failed', None, [j.__name__ for j in (one, two)], order, ds, r)
    if 1 in order and 0 in order[order.index(1):]: ctx.cover('turns')
    for j, d, o in zip((one, two), ds, outs): compare(ctx, j, d, o, one.__name__, two.__name__, order)
    ctx.check(PATTERNS == [('**', 'b'), ('*',)] and list(PREFIXES.items()) == [('p', 'urn:p')] and list(MAPPING.items()) == [('b', ('urn:p', 'p'))], 'something shared was changed')
    ctx.cover('done')


def during(ctx, d, at, run):
    """Outer jobs: call run() at the at-th opportunity; return (what came out, what should)."""
    plain = stripped(d)
    n = [0]
    def tick():
        if n[0] == at: run()
        n[0] += 1
    how = ctx.choice('outer', 7)
    def handler(acc):
        while True:
            e = yield
            acc.append(e)
            tick()
    def sink(got):
        while True:
            e = yield
            tick()
            got.append(shape(e))
    if how == 0:
        acc = []
        p = P.parser(handler(acc))
        p.send((markup(plain), False))
        p.send(('', True))
        return n[0], simple(acc), refmx.events(markup(plain))
    if how == 1:
        got = [[], []]
        treeiter.sender(PATTERNS, [sink(got[0]), sink(got[1])]).parse(markup(plain))
        return n[0], got, [[joined(x) for x in outermost(plain, p)] for p in PATTERNS]
    if how == 2:
        acc = []
        xml.parse(ctx.xml(callbacks(d, {A: None, B: 'q'}, [])), handler(acc))
        return n[0], received(acc), flat(plain, [])
    if how == 3:
        got = [[], []]
        xmliter.sender(PATTERNS, [sink(got[0]), sink(got[1])]).parse(ctx.xml(callbacks(d, {A: 'p', B: 'q'}, [])))
        return n[0], got, [[joined(x) for x in outermost(plain, p)] for p in PATTERNS]
    if how == 4:
        def f(c):
            tick()
            yield c.item
        t = make(plain)
        got = list(t.xml_xpath('//node()[here()/self::*]', funcs={'here': f}))
        return n[0], [shape(x) for x in got], [plain] + list(walk(plain))
    if how == 5:
        bits = []
        class File:
            def write(self, s):
                tick()
                bits.append(s)
        writer.write(make(plain), writer.raw(File()))
        return n[0], refmx.events(''.join(bits)), written(plain, True, False)
    def frags():
        for piece in cut(markup(plain), 4):
            tick()
            yield piece
    evs = list(P.parsefrags(frags()))
    return n[0], simple(evs), refmx.events(markup(plain))


@scenario(quick=[dict(ats=3)], thorough=[dict(ats=8)], covers=('done',), steps=900000,
          bounds='any of 13 kinds of job run whole from inside another job (7 kinds: handler of either parser, sink of either sender, a function called by a query, a file written to, a source of text), '
                 'at any of the first `ats` opportunities; an arbitrary character in names, another in texts and attribute values')
def inside(ctx, ats):
    c, t = ctx.text('c', 1, CHARS), legal_text(ctx, 't', 1)
    docs = [(1, 0), (2, 1), (0, 2)][ctx.choice('docs', 3)]
    ds = [data(docs[0], c, t), data(docs[1], c, t)]
    job = JOBS[ctx.choice('inner', 13)]
    at = ctx.choice('at', ats)
    out = []
    def run():
        for x in job(ctx, ds[1], out): pass
    st, r = ctx.guard(during, ctx, ds[0], at, run)
    ctx.check(st == 'ok', 'failed', None, job.__name__, ds, r)
    n, got, want = r
    ctx.assume(n > at)
    ctx.check(got == want, 'the outer work gives something else', None, job.__name__, ds, got, want)
    compare(ctx, job, ds[1], out)
    ctx.cover('done')


def editor(got, edits, name):
    while True:
        e = yield
        got.append(shape(e))
        edits(e)


@scenario(quick=[dict()], thorough=[dict()], covers=('edited',), steps=900000,
          bounds='two patterns (out of 6 pairs, overlapping) on one sender of either kind, each sink changing attributes, names and children of what it is given, on three documents with an arbitrary character')
def edits(ctx):
    c, t = ctx.text('c', 1, CHARS), legal_text(ctx, 't', 1)
    d = data(ctx.choice('doc', 3), c, t)
    plain = stripped(d)
    pats = [[('**', 'b'), ('*',)], [('*',), ('**', 'b')], [('*', '*'), ('*', '**')], [('**', 'a'), ('**', 'a')], [('*',), ('*',)], [('*', 'b', 'a'), ('r', '*')]][ctx.choice('pats', 6)]
    def change(e):
        e.xml_attributes['seen'] = 'yes'
        for k in list(e.xml_attributes.keys()):
            if k != 'seen': e.xml_attributes[k] = 'gone'
        for x in list(walk2(e)):
            x.xml_attributes['in'] = c
            x.xml_name = 'z'
        e.xml_append('more')
    gots = [[], []]
    which = ctx.choice('who', 3)
    def run():
        sinks = [editor(gots[k], change if which in (k, 2) else (lambda e: None), '') for k in (0, 1)]
        if ctx.choice('xml', 2): xmliter.sender(pats, sinks).parse(ctx.xml(callbacks(d, {A: 'p', B: 'q'}, [])))
        else: treeiter.sender(pats, sinks).parse(markup(plain))
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'streaming failed', None, plain, pats, r)
    want = [[joined(x) for x in outermost(plain, p)] for p in pats]
    ctx.check(gots == want, 'a sink sees what another changed', None, plain, pats, gots, want)
    if all(gots): ctx.cover('edited')


def walk2(e):
    for c in e.xml_children:
        if isinstance(c, tree.element):
            yield c
            yield from walk2(c)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('done',), steps=900000,
          bounds='two parsers given three fragments each in every order of turns, by the coroutine, by parsefrags or through tree senders; the last and first characters of the fragments arbitrary, fragments ending in a carriage return or in the middle '
                 'of a reference, tag or value among them')
def fragments(ctx, n):
    dom = ((10, 10), (13, 13), (32, 32), (97, 98), (38, 38), (60, 60))
    FORMS = [lambda k: ['<a>x' + ctx.text('p%d' % k, 1, dom), ctx.text('q%d' % k, 1, dom), '\n</a>'], lambda k: ['<a k="x\r', ctx.text('p%d' % k, 1, dom) + '"', '>\r</a>\r'],
             lambda k: ['<a>&', ctx.pick('r%d' % k, ['l', 'a', '#x']) + ctx.pick('s%d' % k, ['t', 'mp', '41']), ';</a>'], lambda k: ['<a' + ctx.pick('r%d' % k, ['', '\r', ' ']), ctx.pick('s%d' % k, ['b', '\n', ' ']) + '>\r', '</a>' if k else '</ab>']]
    parts = [FORMS[ctx.choice('form%d' % k, 4)](k) for k in (0, 1)]
    how = ctx.choice('how', 2)
    outs = [[], []]
    gens = []
    def feed(k):
        acc = []
        p = P.parser(P.handler(acc))
        outs[k].append('begun')
        try:
            for f in parts[k]:
                p.send((f, False))
                yield
            p.send(('', True))
            outs[k][0] = simple(acc)
        except StopIteration: outs[k][0] = 'stop'
        except Exception: outs[k][0] = 'error'
    def pull(k):
        turn = []
        def src():
            for f in parts[k]: yield f
        outs[k].append('begun')
        acc = []
        try:
            for e in P.parsefrags(src()):
                acc.append(e)
                yield
            outs[k][0] = simple(acc)
        except Exception: outs[k][0] = 'error'
    gens = [feed(0), (feed if how == 0 else pull)(1)]
    live = [True, True]
    order = []
    for t in range(60):
        if not (live[0] or live[1]): break
        k = (ctx.choice('turn%d' % t, 2) if t < 2 + n else t % 2) if live[0] and live[1] else (0 if live[0] else 1)
        order.append(k)
        def step():
            try: next(gens[k])
            except StopIteration: live[k] = False
        st, r = ctx.guard(step)
        ctx.check(st == 'ok', 'failed', None, parts, order, r)
    for k in (0, 1):
        try: want = refmx.events(''.join(parts[k]))
        except refmx.Ill: want = 'error'
        ctx.check(outs[k] == [want], 'parsers affect each other', None, parts, order, outs[k], want)
    ctx.cover('done')
