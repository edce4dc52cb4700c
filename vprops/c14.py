from symx.scen import registry
from amara3.uxml import tree, treeiter
from . import refmx
from .trees import shape, check_links, joined, shaped, textof
from .pathpat import matches, stages
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Documents are written by the harness from a tree and are well-formed. A pattern has at least one part; the full parse is that of tree.parse.']


def esc(s, attr=False):
    out = []
    for c in s:
        if c == '<': out.append('&lt;')
        elif c == '>': out.append('&gt;')
        elif c == '&': out.append('&amp;')
        elif c == '"' : out.append('&quot;')
        elif c in '\t\n\r': out.append('&#x%X;' % ord(c))
        else: out.append(c)
    return ''.join(out)


def markup(d):
    if isinstance(d, str): return esc(d)
    return '<' + d[0] + ''.join([' ' + k + '="' + esc(v) + '"' for k, v in d[1]]) + '>' + ''.join([markup(c) for c in d[2]]) + '</' + d[0] + '>'


def outermost(d, pattern, path=()):
    if isinstance(d, str): return []
    path = path + (d[0],)
    if matches(pattern, path): return [d]
    return [x for c in d[2] for x in outermost(c, pattern, path)]


def sink(ctx, log, k, got):
    while True:
        e = yield
        # at this moment the subtree has to be complete
        got.append((e, shape(e)))
        log.append(k)


def judge(ctx, data, patterns, cls=treeiter.sender, feed=None, single=None, doc=None):
    log = []
    gots = [[] for p in patterns]
    sinks = [sink(ctx, log, k, g) for k, g in enumerate(gots)]
    how = ctx.choice('how', 2) if single is None else single
    def run():
        if how == 0 and len(patterns) == 1 and isinstance(patterns[0][0], str): s = cls(patterns[0], sinks[0])
        elif how == 1:
            for x in sinks: next(x)
            s = cls(tuple(patterns) if len(patterns) > 1 and not isinstance(patterns[0], str) else list(patterns), tuple(sinks), prime_sinks=False)
        else: s = cls(list(patterns), sinks)
        if feed is None: s.parse(doc if doc is not None else markup(data))
        else: feed(s)
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'streaming failed', None, data, patterns, st, r)
    for p, g in zip(patterns, gots):
        want = [joined(d) for d in outermost(data, p)]
        ctx.check([s for e, s in g] == want, 'wrong subtrees delivered', None, data, p, [s for e, s in g], want)
        for e, s in g:
            ctx.check(isinstance(e, tree.element), 'not an element')
            ctx.check(shape(e) == s, 'a delivered subtree changed later', None, data, p)
            check_links(ctx, e)
        for i in range(len(g)):
            for j in range(i): ctx.check(g[i][0] is not g[j][0], 'the same element delivered twice')
        if want: ctx.cover('some')
        else: ctx.cover('none')
        if len(want) > 1: ctx.cover('several')
        ctx.obs([s for e, s in g])
    return gots


@scenario(quick=[dict(size=4, n=k) for k in (1, 2, 3)] + [dict(size=5, n=2)], thorough=[dict(size=5, n=k) for k in (1, 2, 3)] + [dict(size=6, n=2)], covers=('some', 'none', 'several'),
          bounds='every document of up to `size` elements and texts with arbitrary one-letter names, every pattern of n parts out of "a", "b", "*", "**", an arbitrary name')
def shapes(ctx, size, n):
    dom = ((97, 122),)
    q = ctx.text('q', 1, dom)
    pattern = stages(ctx, n, ['a', 'b', '*', '**', q])
    data, _ = shaped(ctx, size, lambda i: (ctx.text('n%d' % i, 1, dom), []), lambda i: 't%d' % i)
    judge(ctx, data, [pattern], single=0)


@scenario(quick=[dict(deep=4, n=3), dict(deep=5, n=4)], thorough=[dict(deep=6, n=4), dict(deep=6, n=5)], covers=('some', 'none', 'several'),
          bounds='chains of `deep` levels, each "a" or "b", with a sibling after each, and every pattern of n parts out of "a", "b", "*", "**"')
def chains(ctx, deep, n):
    pattern = stages(ctx, n, ['a', 'b', '*', '**'])
    data = ('b', [], [])
    for i in range(deep): data = (ctx.pick('n%d' % i, ['a', 'b']), [], ['t', data, ('a', [], [])] if i % 2 else [data, ('a', [], [('b', [], [])]), 't'])
    judge(ctx, data, [pattern], single=0)


@scenario(quick=[dict(size=4, n=2)], thorough=[dict(size=5, n=2), dict(size=4, n=3)], covers=('some', 'none', 'several'),
          bounds='two patterns of n parts each out of "a", "b", "*", "**" on one sender, every document of up to `size` elements named a or b')
def pairs(ctx, size, n):
    patterns = [stages(ctx, n, ['a', 'b', '*', '**'], k) for k in 'pq']
    data, _ = shaped(ctx, size, lambda i: (ctx.pick('n%d' % i, ['a', 'b']) if i else 'a', []), lambda i: 't%d' % i)
    judge(ctx, data, patterns, single=1)


@scenario(quick=[dict()], covers=('some', 'none', 'several'), bounds='one to four patterns of one to three parts on one sender, five documents')
def many(ctx):
    data = DOCS[ctx.choice('doc', len(DOCS))]
    pats = [('a',), ('*',), ('**',), ('a', '*'), ('**', 'b'), ('a', 'b', 'a'), ('a', '**', 'b'), ('*', 'c'), ('**', 'a', 'b'), ('b',), ('*', '*', '*'), ('a', '**')]
    first = ctx.choice('p0', len(pats))
    second = ctx.choice('p1', len(pats))
    patterns = [pats[i % len(pats)] for i in (first, second, first * 5 + 2, second * 3 + 1)][:1 + ctx.choice('np', 4)]
    judge(ctx, data, patterns)


DOCS = [('a', [('x', '1')], [('b', [], ['1', ('a', [], [('b', [], [])])]), 't', ('b', [('y', '2')], ['2', ('c', [], ['3'])]), ('c', [], [])]),
        ('a', [], []),
        ('b', [], [('a', [], [('a', [], [('b', [], ['q']), ('b', [], [])]), 'z']), ('c', [], [('c', [], ['w'])])]),
        ('a', [], [('a', [], [('a', [], [('a', [], ['deep'])])])]),
        ('c', [], ['x', ('b', [], []), ('b', [], []), 'y', ('a', [], [('b', [], ['u'])])])]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'),
          bounds='texts and attribute values of n arbitrary legal characters inside and outside the matching subtrees')
def content(ctx, n):
    from .trees import legal_text
    s, t = legal_text(ctx, 's', n), legal_text(ctx, 't', 1)
    data = ('a', [('x', t)], [s, ('b', [('y', s), ('z', t)], [t, ('c', [('k', s)], []), s, ('b', [], [s])]), s, ('c', [], [t])])
    judge(ctx, data, [ctx.pick('p', [('a',), ('a', 'b'), ('**', 'c'), ('*', '*'), ('**', 'b'), ('b',)])])


@scenario(quick=[dict(m=m, big=b) for b in (0, 1) for m in range(3)], thorough=[dict(m=m, big=2) for m in range(3)], covers=('some', 'several'), steps=3000000,
          bounds='deep (40/150/200) and wide (60/300/1100) documents, long text; one arbitrary name')
def big(ctx, m, big):
    c = ctx.text('c', 1, ((97, 122),))
    if m == 0:
        data = (c, [], [])
        for i in range([40, 150, 200][big]): data = ('abc'[i % 3] if i != 20 else c, [], [data, ('z', [], [])])
    elif m == 1: data = ('r', [], [('abc'[i % 3] if i != 20 else c, [('i', str(i))], [('a', [], [('b', [], ['t%d' % i])]), 't']) for i in range([60, 300, 1100][big])])
    else: data = ('a', [], ['x' * [500, 5000, 70000][big], (c, [], ['<y' * [500, 5000, 9000][big], ('d', [], [])]), (c, [], []), ('b', [], [])])
    judge(ctx, data, [ctx.pick('p', [('*', 'a'), ('**', 'a'), ('**', 'b', '**', 'a'), ('*', '**', 'z'), ('**', 'c', 'd'), ('**', '*', 'a', 'b'), ('*', '*')]), ('**', c)])


@scenario(quick=[dict()], covers=('some', 'none'), bounds='one sender used for two well-formed documents in turn')
def again(ctx):
    docs = [DOCS[ctx.choice('d%d' % i, len(DOCS))] for i in range(2)]
    pattern = ctx.pick('p', [('a',), ('a', 'b'), ('**', 'b'), ('*', '*'), ('a', '**', 'b')])
    got = []
    s = treeiter.sender(pattern, sink(ctx, [], 0, got))
    for d in docs:
        del got[:]
        st, r = ctx.guard(s.parse, markup(d))
        want = [joined(x) for x in outermost(d, pattern)]
        ctx.check(st == 'ok' and [x for e, x in got] == want, 'wrong subtrees delivered', None, docs, pattern, [x for e, x in got], want)
        ctx.cover('some' if want else 'none')


WILD = [('**',) + ('*',) * 4 + ('b',), ('**', 'a') + ('*',) * 5, ('**', 'a', '**', 'b', '*', 'a'), ('**', 'a', '*', '**', 'b', '*'), ('**', '**', '**', 'b'),
        ('*', '**', '*', '*', '*', '*'), ('**', 'a', 'b', 'a', 'b', 'a'), ('**', 'b', '**', 'b', '**', 'b', 'a')]


@scenario(quick=[dict(deep=9)], thorough=[dict(deep=12)], covers=('some', 'none'), steps=2000000,
          bounds='chains of `deep` levels, each "a" or "b", and eight patterns of 4 to 7 parts that leave many ways to match open at once')
def wild(ctx, deep):
    pattern = ctx.pick('p', WILD)
    data = ('b', [], [])
    for i in range(deep): data = (ctx.pick('n%d' % i, ['a', 'b']), [], ['t', data, ('a', [], [])] if i % 3 == 0 else [data])
    judge(ctx, data, [pattern], single=0)


def changer(got):
    """A receiver that makes what it received its own."""
    while True:
        e = yield
        got.append((e, shape(e)))
        e.xml_attributes['x'] = 'changed'
        e.xml_attributes['new'] = 'new'
        for c in list(e.xml_children): e.xml_remove(c)
        e.xml_append(tree.text('changed'))


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('some', 'several'),
          bounds='two receivers with one of seven patterns each, which change all they receive; every document of up to `size` elements and texts named a or b')
def changed(ctx, size):
    data, _ = shaped(ctx, size, lambda i: (ctx.pick('n%d' % i, ['a', 'b']) if i else 'a', [('x', '%d' % i), ('y', 'k')][:1 + i % 2]), lambda i: 't%d' % i)
    pats = [('a',), ('*',), ('**',), ('a', '*'), ('**', 'b'), ('a', 'b'), ('**', 'a')]
    patterns = [ctx.pick('p%d' % i, pats) for i in range(2)]
    gots = [[], []]
    st, r = ctx.guard(lambda: treeiter.sender(patterns, [changer(g) for g in gots]).parse(markup(data)))
    ctx.check(st == 'ok', 'streaming failed', None, data, patterns, st, r)
    for p, g in zip(patterns, gots):
        want = [joined(d) for d in outermost(data, p)]
        ctx.check([s for e, s in g] == want, 'a receiver gets what another has changed', None, data, patterns, [s for e, s in g], want)
        if want: ctx.cover('some')
        if len(want) > 1: ctx.cover('several')
        ctx.obs([s for e, s in g])


def ends(d, at, path, pattern, out):
    """Where each outermost matching subtree ends in the markup; returns the end of d."""
    if isinstance(d, str): return at + len(esc(d))
    path = path + (d[0],)
    hit = matches(pattern, path)
    p = at + len(markup((d[0], d[1], []))) - len(d[0]) - 3
    for c in d[2]: p = ends(c, p, path, pattern, [] if hit else out)
    p += len(d[0]) + 3
    if hit: out.append((p, d))
    return p


@scenario(quick=[dict(d=d) for d in range(3)], thorough=[dict(d=d) for d in range(5)], covers=('cut', 'changed', 'some'), steps=400000,
          bounds='each of three (five) documents cut off at any position, or with any one character replaced by an arbitrary one, with each of five patterns')
def broken(ctx, d):
    data = DOCS[d]
    s = markup(data)
    pattern = ctx.pick('p', [('**', 'b'), ('a',), ('*', '*'), ('**', 'c'), ('a', '**', 'b')])
    k = ctx.choice('at', len(s))
    cut = ctx.choice('cut', 2)
    t = s[:k] if cut else s[:k] + ctx.text('c', 1) + s[k + 1:]
    got = []
    st, r = ctx.guard(lambda: treeiter.sender(pattern, sink(ctx, [], 0, got)).parse(t))
    got = [x for e, x in got]
    ctx.obs(got)
    try: whole = refmx.tree(refmx.events(t))
    except refmx.Ill: whole = None
    if whole is not None:
        want = [joined(x) for x in outermost(whole, pattern)]
        ctx.check(st == 'ok' and got == want, 'wrong subtrees delivered', None, t, pattern, st, got, want)
        return
    ctx.check(st == 'err', 'no error for an ill-formed document', None, t, pattern, st)
    done = []
    ends(data, 0, (), pattern, done)
    want = [joined(x) for e, x in done if e <= k]
    ctx.cover('cut' if cut else 'changed')
    if want: ctx.cover('some')
    if cut: ctx.check(got == want, 'not the subtrees complete before the document broke off', None, t, pattern, got, want)
    else: ctx.check(got[:len(want)] == want, 'not the subtrees complete before the error', None, t, pattern, got, want)
