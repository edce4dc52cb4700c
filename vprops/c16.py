import io
from symx.scen import registry
from amara3.uxml import xmliter, treeiter, xml, tree
from .trees import shape, check_links, shaped, legal_text, joined
from .pathpat import matches, stages
from .xmlev import callbacks, stripped, local_name, ns_name
from .c14 import outermost, sink, markup
from .c15 import A, B, joined_markup
from .xmltexts import TEXTS, BYTES, BAD
from .mxdocs import EDGES, FAR
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['As C15 for the XML parser. Expected deliveries: vprops/pathpat.py over the tree of local names, and what treeiter.sender delivers for the same document.']


class Pieces:
    """A file whose reads give the pieces one after the other."""
    def __init__(self, pieces): self.pieces = [p.encode('utf-8') for p in pieces if len(p)]
    def read(self, n=-1):
        if not self.pieces: return b''
        p = self.pieces.pop(0)
        if 0 <= n < len(p): self.pieces.insert(0, p[n:])
        return p[:n] if n >= 0 else p


def judge(ctx, data, patterns, cuts=(), chop=None, callback=0):
    evs = callbacks(data, {A: None, B: 'q'}, [], (), chop)
    plain = stripped(data)
    pieces, p = [], 0
    for c in cuts:
        if c > p and evs[c - 1][0] != 'ns':
            pieces.append(evs[p:c])
            p = c
    pieces.append(evs[p:])
    srcs = ctx.xml_pieces(pieces)
    gots = [[] for p in patterns]
    sinks = [sink(ctx, [], k, g) for k, g in enumerate(gots)]
    how = ctx.choice('file', 2)
    def run():
        kw = dict(callbacks=xml.ns_expat_callbacks) if callback else {}
        if len(patterns) == 1: s = xmliter.sender(patterns[0], sinks[0], **kw)
        elif how: s = xmliter.sender(list(patterns), sinks, **kw)
        else:
            for x in sinks: next(x)
            s = xmliter.sender(list(patterns), sinks, prime_sinks=False, **kw)
        if how: s.parse_file(Pieces(srcs))
        else:
            for x in srcs: s.parse(x)
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'streaming failed', None, data, patterns, st, r)
    ctx.cover('file' if how else 'parse')
    ref = [[] for p in patterns]
    st, r = ctx.guard(lambda: treeiter.sender(list(patterns), [sink(ctx, [], k, g) for k, g in enumerate(ref)]).parse(markup(plain)))
    ctx.check(st == 'ok', 'streaming MicroXML failed', None, data, patterns)
    for p, g, r in zip(patterns, gots, ref):
        want = [joined(d) for d in outermost(plain, p)]
        ctx.check([s for e, s in g] == want, 'wrong subtrees delivered', None, data, p, [s for e, s in g], want)
        ctx.check([s for e, s in r] == want, 'wrong subtrees delivered from MicroXML', None, data, p, [s for e, s in r], want)
        for e, s in g:
            ctx.check(shape(e) == s, 'a delivered subtree changed later', None, data, p)
            check_links(ctx, e)
        if want: ctx.cover('some')
        else: ctx.cover('none')
        ctx.obs([s for e, s in g])


@scenario(quick=[dict(size=3, n=2), dict(size=3, n=1)], thorough=[dict(size=4, n=1), dict(size=4, n=2), dict(size=3, n=3)], covers=('some', 'none', 'file', 'parse'),
          bounds='every document of up to `size` elements and texts in no or either of two namespaces, every pattern of n parts out of "a", "b", "*", "**"')
def shapes(ctx, size, n):
    pattern = stages(ctx, n, ['a', 'b', '*', '**'])
    data, _ = shaped(ctx, size, lambda i: ((ctx.pick('ns%d' % i, [None, A, B]), ctx.pick('n%d' % i, ['a', 'b'])), [((B, 'x'), 'v')] if i == 1 else []), lambda i: 't%d' % i)
    judge(ctx, data, [pattern])


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)], covers=('some', 'none'), bounds='local names of n arbitrary name characters, a namespace name with an arbitrary character, arbitrary text; plain or namespace-tracking callbacks')
def names(ctx, n):
    c, d = local_name(ctx, 'c', n), local_name(ctx, 'd', 1)
    t = legal_text(ctx, 't', 2)
    q = local_name(ctx, 'q', n)
    u = ns_name(ctx, 'u', 1)
    ctx.assume(u != B)
    data = ((None, 'r'), [], [((B, c), [((None, d), t)], [t, ((B, d), [], [])]), t, ((None, d), [], [((B, c), [], [t])])])
    judge(ctx, data, [ctx.pick('p', [('r', q), ('**', q), ('*', d, '*'), ('*', '**', d)])], callback=ctx.choice('cb', 2))


@scenario(quick=[dict()], covers=('some', 'none', 'file', 'parse'), bounds='three documents fed in up to three pieces cut at any callback, with each of eight pairs of patterns, text chopped or not')
def pieces(ctx):
    data = DOCS[ctx.choice('doc', 3)]
    p = ctx.pick('p', [(('a',), ('**', 'b')), (('*', 'b'), ('*', '*')), (('**', 'a', 'b'), ('a', '**', 'b')), (('**',), ('b', '**')), (('b', '*'), ('*', '*', '*'))])
    a = 1 + ctx.choice('cut1', 14)
    b = 1 + ctx.choice('cut2', 14)
    n = len(callbacks(data, {A: None, B: 'q'}, []))
    ctx.assume(a <= b and b < n)
    judge(ctx, data, p, (a, b), (lambda t: [t[:1], t[1:]]) if ctx.choice('chop', 2) else None)


DOCS = [((A, 'a'), [((None, 'x'), '1')], ['t1', ((A, 'b'), [], ['u2', ((B, 'a'), [], [((A, 'b'), [], [])])]), ((B, 'b'), [((B, 'k'), 'z')], ['v3'])]),
        ((None, 'b'), [], [((B, 'a'), [], [((A, 'b'), [], ['w4']), 'x5']), 'y6']),
        ((B, 'a'), [], [((B, 'a'), [], [((B, 'a'), [], [((B, 'b'), [], [])])])])]


@scenario(quick=[dict(m=m, big=b) for b in (0, 1) for m in range(2)], thorough=[dict(m=m, big=2) for m in range(2)], covers=('some',), steps=3000000, bounds='deep (40/150/200) and wide (60/300/1100) documents with one arbitrary name')
def big(ctx, m, big):
    c = local_name(ctx, 'c', 1)
    if m == 0:
        data = ((A, c), [], [])
        for i in range([40, 150, 200][big]): data = ((A if i % 2 else B, 'abc'[i % 3] if i != 20 else c), [], [data, ((None, 'z'), [], [])])
    else: data = ((None, 'r'), [], [((A, 'abc'[i % 3] if i != 20 else c), [((None, 'i'), str(i))], [((A, 'a'), [], [((None, 'b'), [], ['t%d' % i])]), 't']) for i in range([60, 300, 1100][big])])
    judge(ctx, data, [ctx.pick('p', [('*', 'a'), ('**', 'a'), ('*', '**', 'z'), ('**', c), ('*', '*')]), ('**', 'b', '**', 'a')])


@scenario(quick=[dict(d=d) for d in range(3)], covers=('cut', 'error', 'some'), steps=400000,
          bounds='each of three documents cut off or ill-formed after any callback, as a file, in one piece or in two (where only what is ill-formed is an error), with each of five patterns')
def broken(ctx, d):
    data = DOCS[d]
    evs = callbacks(data, {A: None, B: 'q'}, [])
    k = 1 + ctx.choice('at', len(evs) - 1)
    ctx.assume(evs[k - 1][0] != 'ns' and any([e[0] == 'end' for e in evs[k:]]))
    bad = ctx.choice('bad', 2)
    how = ctx.choice('how', 3)
    first = k if how < 2 else 1 + ctx.choice('split', k)
    if how == 2: ctx.assume(first < k and evs[first - 1][0] != 'ns')
    pieces = [evs[:first]] + ([evs[first:k]] if how == 2 else [])
    if bad: pieces[-1] = pieces[-1] + [('error',)]
    pattern = ctx.pick('p', [('**', 'b'), ('a',), ('*', '*'), ('**', 'a'), ('a', '**', 'b')])
    got = []
    srcs = ctx.xml_pieces(pieces, False)
    def run():
        s = xmliter.sender(pattern, sink(ctx, [], 0, got))
        if how == 0: s.parse_file(Pieces(srcs))
        else:
            for x in srcs: s.parse(x)
    st, r = ctx.guard(run)
    # what ends before the break
    depth, stack, want, open_ = 0, [], [], []
    def done(evs):
        out, names = [], []
        opened = []
        for e in evs:
            if e[0] == 'start':
                names.append(e[1][1])
                opened.append(matches(pattern, tuple(names)) and not any(opened))
            elif e[0] == 'end':
                names.pop()
                out.append(opened.pop())
        return sum([1 for x in out if x])
    n = done(evs[:k])
    want = [joined(x) for x in outermost(stripped(data), pattern)][:n]
    ctx.check(st == ('err' if bad or how == 0 else 'ok'), 'ill-formed XML accepted' if bad or how == 0 else 'a part of a document is rejected', None, data, k, how, bad, st, r)
    got = [x for e, x in got]
    ctx.check(got == want, 'not the subtrees complete before the break', None, data, k, pattern, got, want)
    ctx.cover('error' if bad else 'cut')
    if want: ctx.cover('some')
    ctx.obs(got)


@scenario(quick=[dict(cuts=1), dict(cuts=2)], thorough=[dict(cuts=2)], covers=('some', 'file'), steps=400000,
          bounds='eleven texts and byte strings with white space around, declarations of encodings, CDATA, comments, entities, attribute defaults and line ends, read by expat itself, cut at any place (two cuts: a piece of up to three characters), fed '
                 'in pieces or as a file')
def texts(ctx, cuts):
    all_ = TEXTS + BYTES
    src, want = all_[ctx.choice('text', len(all_))]
    want = joined_markup(want)
    a = ctx.choice('cut', len(src) + 1)
    b = a if cuts == 1 else min(len(src), a + 1 + ctx.choice('more', 3))
    pieces = [src[:a], src[a:b], src[b:]]
    pattern = ctx.pick('p', [('**', 'b'), ('r',), ('*', '*')])
    got = []
    how = ctx.choice('how', 2)
    # a file of bytes says its encoding
    if how: ctx.assume(isinstance(src, bytes) or 'encoding' not in src)
    def run():
        s = xmliter.sender(pattern, sink(ctx, [], 0, got))
        if how: s.parse_file(Bytes(pieces))
        else:
            for x in pieces: s.parse(x)
    if how: ctx.cover('file')
    st, r = ctx.guard(run)
    got = [x for e, x in got]
    exp = [joined(x) for x in outermost(want, pattern)]
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, pieces, how, r)
    ctx.check(got == exp, 'wrong subtrees delivered', None, pieces, how, pattern, got, exp)
    if exp: ctx.cover('some')
    ctx.obs(got)


class Bytes(Pieces):
    def __init__(self, pieces): self.pieces = [p if isinstance(p, bytes) else p.encode('utf-8') for p in pieces if len(p)]


@scenario(quick=[dict()], covers=('bad',), bounds='nineteen ill-formed texts and byte strings as a file, read by expat itself')
def badtexts(ctx):
    src = BAD[ctx.choice('text', len(BAD))]
    def run(): xmliter.sender(('**', 'b'), sink(ctx, [], 0, [])).parse_file(Bytes([src]))
    st, r = ctx.guard(run)
    ctx.cover('bad')
    ctx.check(st == 'err', 'no error for ill-formed XML', None, src, st, r)


@scenario(quick=[dict(far=0), dict(far=1)], covers=('file', 'parse'), steps=5000000,
          bounds='files, and pieces of a document, of a length one less than, equal to or one more than a power of two from 32 to 65536 (and twice that), read by expat itself; lines of any length')
def lengths(ctx, far):
    n = ctx.pick('n', FAR if far else EDGES)
    k = ctx.choice('how', 4)
    x = 'x' * (n - 20)
    if k == 0: src, want = '<a><b>' + x[1:] + '\u00e9</b></a>', [('b', [], [x[1:] + '\u00e9'])]
    elif k == 1: src, want = '<a>' + x + '<b> \n</b>\n</a>\n', [('b', [], [' \n'])]
    elif k == 2: src, want = '<a>\n' + '<b>t</b>\n' * (n // 9) + '</a>', [('b', [], ['t'])] * (n // 9)
    else: src, want = '<a><b k="' + x + '">\u20ac&#13;\r\n' + x * 2 + '\r\n\t</b></a>', [('b', [('k', x)], ['\u20ac\r\n' + x * 2 + '\n\t'])]
    data = src.encode('utf-8')
    got = []
    how = ctx.choice('feed', 3)
    def run():
        s = xmliter.sender(('**', 'b'), sink(ctx, [], 0, got))
        if how == 0: s.parse_file(io.BytesIO(data))
        elif how == 1:
            for i in range(0, len(data), n): s.parse(data[i:i + n])
        else: s.parse(src)
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, k, n, how, r)
    ctx.check([s for e, s in got] == want, 'wrong subtrees delivered', None, k, n, how)
    ctx.cover('parse' if how else 'file')
