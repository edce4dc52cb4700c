from symx.scen import registry
from amara3.uxml import xml, tree
from amara3.uxml.parser import event
from . import refmx
from .trees import shape, check_links, shaped, legal_text
from .xmlev import callbacks, stripped, local_name, ns_name
from .mxutil import simple
from .xmltexts import TEXTS, BYTES, BAD
from .mxdocs import EDGES, FAR
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The XML parser (expat) is replaced in symbolic runs by a stand-in that delivers the callbacks of a document described by the harness; counterexamples '
               'and sampled paths are replayed through the real expat on the document written out as text. Local names of the attributes of one element are distinct. '
               'Namespace names have no space character, which expat refuses.']
A, B = 'urn:a', 'http://x.test/b#'


def flat(d, out, up=()):
    """The events the handler has to receive."""
    if isinstance(d, str):
        out.append(('T', d))
        return out
    out.append(('S', d[0], d[1], list(up)))
    for c in d[2]: flat(c, out, up + (d[0],))
    out.append(('E', d[0], list(up)))
    return out


def received(evs):
    out = []
    for e in evs:
        if e[0] == event.start_element: out.append(('S', e[1], list(e[2].items()), list(e[3])))
        elif e[0] == event.end_element: out.append(('E', e[1], list(e[2])))
        elif e[0] == event.characters:
            if len(e[1]) == 0: continue
            if out and out[-1][0] == 'T': out[-1] = ('T', out[-1][1] + e[1])
            else: out.append(('T', e[1]))
        else: out.append(('?',))
    return out


def keep(acc):
    while True:
        e = yield
        acc.append(e)


def judge(ctx, data, evs, tb=None):
    want = stripped(data)
    how = ctx.choice('entry', 2) if tb is None else 0
    src = ctx.xml(evs)
    if how == 0:
        st, t = ctx.guard((tb or xml.treebuilder()).parse, src)
        ctx.check(st == 'ok', 'well-formed XML is rejected', None, data, st, t)
        ctx.check(isinstance(t, tree.element) and shape(t) == want, 'tree differs', None, data, shape(t), want)
        ctx.check(t.xml_parent is None, 'document element has a parent')
        check_links(ctx, t)
        ctx.cover('tree')
        ctx.obs(shape(t))
        return t
    acc = []
    st, r = ctx.guard(xml.parse, src, keep(acc))
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, data, st, r)
    got, exp = received(acc), flat(want, [])
    ctx.check(got == exp, 'events differ', None, data, got, exp)
    ctx.cover('events')
    ctx.obs(got)


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('tree', 'events'),
          bounds='every document of up to `size` elements and texts, each element in no namespace or one of two, an attribute with or without namespace, arbitrary one-character text')
def shapes(ctx, size):
    def label(i):
        ns = ctx.pick('ns%d' % i, [None, A, B])
        at = ctx.choice('at%d' % i, 3) if i < 2 else i % 3
        return (ns, 'e%d' % i), [((None, 'x'), '1'), ((B, 'y'), ' &<'), ((A, 'x%d' % i), '3')][:at]
    data, n = shaped(ctx, size, label, lambda i: legal_text(ctx, 't%d' % i, 1))
    judge(ctx, data, callbacks(data, {A: 'p', B: 'q'}, []))


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('tree', 'events'),
          bounds='element and attribute local names of n arbitrary name characters and namespace names with n arbitrary characters (no space), default or prefixed declarations')
def names(ctx, n):
    a, b, c = [local_name(ctx, k, n if k == 'a' else 1) for k in 'abc']
    u, v = ns_name(ctx, 'u', n), ns_name(ctx, 'v', 1)
    ctx.assume(u != v and b != c)
    k = ctx.choice('kind', 4)
    pre = {u: None if k in (0, 3) else 'p', v: 'q'}
    x, y = [(u, v), (u, u), (None, u), (v, u)][k]
    at = [((None, b), u), ((v, c), 'z')]
    data = ((x, a), at, [((y, b), [], ['t']), ((x, a), [((None, c), '')], [((v, c), at[:1], [])])])
    judge(ctx, data, callbacks(data, pre, []))


@scenario(quick=[dict(n=5)], thorough=[dict(n=7)], covers=('tree', 'events'), bounds='texts of n arbitrary legal characters delivered in every possible chopping, comments between')
def chunks(ctx, n):
    s = legal_text(ctx, 's', n)
    cuts = [ctx.choice('cut%d' % i, 2) for i in range(n - 1)]
    def chop(t):
        if len(t) != n: return [t]
        out, p = [], 0
        for i in range(1, n):
            if cuts[i - 1]:
                out.append(t[p:i])
                p = i
        return out + [t[p:]]
    data = ((A, 'a'), [], [s, ((A, 'b'), [((None, 'k'), s)], [s]), 'x', ((None, 'c'), [], ['y'])])
    evs = callbacks(data, {A: None}, [], (), chop)
    if ctx.choice('comment', 2): evs.insert(3, ('comment', ' c '))
    judge(ctx, data, evs)


DOCS = [((A, 'a'), [((None, 'x'), '1')], ['t', ((A, 'b'), [], ['u']), ((B, 'c'), [], [((B, 'd'), [], [])])]),
        ((None, 'p'), [], [((None, 'q'), [((B, 'y'), '2')], []), ((B, 'q'), [], [])]),
        ((B, 'm'), [], ['n'])]


@scenario(quick=[dict()], covers=('cut', 'bad'), bounds='every proper prefix of three documents at any callback, ended there or broken there')
def broken(ctx):
    data = DOCS[ctx.choice('doc', 3)]
    evs = callbacks(data, {A: None, B: 'q'}, [])
    starts = [i for i, e in enumerate(evs) if e[0] == 'start']
    ends = [i for i, e in enumerate(evs) if e[0] == 'end']
    cut = starts[0] + 1 + ctx.choice('cut', ends[-1] - starts[0])
    bad = ctx.choice('bad', 2)
    if cut < len(evs) and evs[cut - 1][0] == 'ns': ctx.assume(False)
    src = ctx.xml(evs[:cut] + ([('error',)] if bad else []), False)
    if ctx.choice('entry', 2): st, r = ctx.guard(xml.parse, src, keep([]))
    else: st, r = ctx.guard(xml.treebuilder().parse, src)
    ctx.cover('bad' if bad else 'cut')
    ctx.check(st == 'err', 'no error for ill-formed XML', None, data, cut, bad)


@scenario(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=3), dict(n=4)], covers=('tree', 'failed'),
          bounds='one builder given n documents in turn, each complete, truncated or broken at any callback')
def reuse(ctx, n):
    tb = xml.treebuilder()
    kept = []
    for k in range(n):
        data = DOCS[k % 3 if k else ctx.choice('first', 3)]
        evs = callbacks(data, {A: None, B: 'q'}, [])
        last = max(i for i, e in enumerate(evs) if e[0] == 'end')
        first = min(i for i, e in enumerate(evs) if e[0] == 'start')
        how = ctx.choice('how%d' % k, 3) if k < n - 1 else 0
        if how:
            cut = first + 1 + ctx.choice('cut%d' % k, last - first)
            if evs[cut - 1][0] == 'ns': ctx.assume(False)
            st, t = ctx.guard(tb.parse, ctx.xml(evs[:cut] + ([('error',)] if how == 2 else []), False))
            ctx.check(st == 'err', 'no error for ill-formed XML', None, data, cut)
            ctx.cover('failed')
        else:
            t = judge(ctx, data, evs, tb)
            for t0, w0 in kept: ctx.check(t0 is not t, 'the same tree again')
            kept.append((t, stripped(data)))
        for t0, w0 in kept:
            ctx.check(shape(t0) == w0 and t0.xml_parent is None, 'an earlier tree changed', None, w0, shape(t0))
            check_links(ctx, t0)


@scenario(quick=[dict(size=3)], thorough=[dict(size=4)], covers=('events',),
          bounds='the namespace-tracking callbacks, streaming or not, called directly for every document of up to `size` elements, namespace names of one arbitrary character')
def tracking(ctx, size):
    u = ns_name(ctx, 'u', 1)
    ctx.assume(u != B)
    def label(i):
        return (ctx.pick('ns%d' % i, [None, u, B]), 'e%d' % (i % 2)), [((None, 'x'), '1'), ((B, 'y'), '2')][:ctx.choice('at%d' % i, 3)]
    data, n = shaped(ctx, size, label, lambda i: 't%d' % i)
    acc = []
    def run():
        h = xml.ns_expat_callbacks(keep(acc), stream=ctx.bool('stream'))
        full = lambda n: n[1] if n[0] is None else n[0] + ' ' + n[1]
        for e in callbacks(data, {u: None, B: 'q'}, []):
            if e[0] == 'ns': h.start_namespace(e[1], e[2])
            elif e[0] == 'endns': h.end_namespace(e[1])
            elif e[0] == 'start':
                d = {}
                for k, v in e[2]: d[full(k)] = v
                h.start_element(full(e[1]), d)
            elif e[0] == 'end': h.end_element(full(e[1]))
            else: h.char_data(e[1])
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'callbacks failed', None, data, st, r)
    got, exp = received(acc), flat(stripped(data), [])
    ctx.check(got == exp, 'events differ', None, data, got, exp)
    ctx.cover('events')


@scenario(quick=[dict(m=m, big=b) for b in (0, 1) for m in range(3)], thorough=[dict(m=m, big=2) for m in range(3)], covers=('tree', 'events'), steps=2000000,
          bounds='40/200/300 levels, 60/300/1100 children, 30/300/1100 attributes, text of up to 70000 characters with white space at its ends, with an arbitrary name at a chosen place')
def big(ctx, m, big):
    c = local_name(ctx, 'c', 1)
    if m == 0:
        data = ((A, c), [], ['t'])
        for i in range([40, 200, 300][big]): data = ((A if i % 2 else None, 'e%d' % (i % 3)), [], [data, 'x'])
    elif m == 1: data = ((None, 'r'), [], [((A, 'e') if i != 17 else (B, c), [((None, 'i'), str(i))], ['t%d' % i] if i % 2 else []) for i in range([60, 300, 1100][big])])
    else: data = ((A, 'r'), [((None if i % 2 else B, 'a%d' % i), str(i)) for i in range([30, 300, 1100][big])], [((A, c), [((None, c), c)], ['  ' + 'z' * [400, 5000, 70000][big] + ' ' * 300])])
    judge(ctx, data, callbacks(data, {A: None if m == 2 else 'p', B: 'q'}, []))


def joined_markup(w): return (w[0], list(w[1]), [x if isinstance(x, str) else joined_markup(x) for x in w[2]])


@scenario(quick=[dict()], covers=('tree', 'events'), bounds='eleven texts and byte strings with white space around, declarations of encodings, CDATA, comments, entities, attribute defaults, line ends and characters of all kinds, read by expat itself')
def texts(ctx):
    all_ = TEXTS + BYTES
    src, want = all_[ctx.choice('text', len(all_))]
    want = joined_markup(want)
    if ctx.choice('entry', 2) == 0:
        st, t = ctx.guard(xml.treebuilder().parse, src)
        ctx.check(st == 'ok', 'well-formed XML is rejected', None, src, st, t)
        ctx.check(shape(t) == want, 'tree differs', None, src, shape(t), want)
        check_links(ctx, t)
        ctx.cover('tree')
        ctx.obs(shape(t))
        return
    acc = []
    st, r = ctx.guard(xml.parse, src, keep(acc))
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, src, st, r)
    got, exp = received(acc), flat(want, [])
    ctx.check(got == exp, 'events differ', None, src, got, exp)
    ctx.cover('events')
    ctx.obs(got)


@scenario(quick=[dict()], covers=('bad',), bounds='nineteen ill-formed texts and byte strings, read by expat itself')
def badtexts(ctx):
    src = BAD[ctx.choice('text', len(BAD))]
    if ctx.choice('entry', 2): st, r = ctx.guard(xml.parse, src, keep([]))
    else: st, r = ctx.guard(xml.treebuilder().parse, src)
    ctx.cover('bad')
    ctx.check(st == 'err', 'no error for ill-formed XML', None, src, st, r)


@scenario(quick=[dict(far=0), dict(far=1)], covers=('tree', 'events'), steps=5000000,
          bounds='texts, attribute values and documents of a length one less than, equal to or one more than a power of two from 32 to 65536, read by expat itself')
def lengths(ctx, far):
    n = ctx.pick('n', FAR if far else EDGES)
    x = 'x' * (n - 1)
    k = ctx.choice('how', 4)
    if k == 0: src, want = '<a>' + x[6:] + '</a>', ('a', [], [x[6:]])
    elif k == 1: src, want = '<a>' + x + '\u00e9</a>', ('a', [], [x + '\u00e9'])
    elif k == 2: src, want = '<a k="' + x + '\u20ac">&amp;' + x + '&#13;\n</a>', ('a', [('k', x + '\u20ac')], ['&' + x + '\r\n'])
    else: src, want = '<a>' + '<b>t</b>' * (n // 8) + '</a>', ('a', [], [('b', [], ['t'])] * (n // 8))
    if ctx.choice('bytes', 2): src = src.encode('utf-8')
    if ctx.choice('entry', 2) == 0:
        st, t = ctx.guard(xml.treebuilder().parse, src)
        ctx.check(st == 'ok', 'well-formed XML is rejected', None, k, n, st)
        ctx.check(shape(t) == want, 'tree differs', None, k, n)
        ctx.cover('tree')
        return
    acc = []
    st, r = ctx.guard(xml.parse, src, keep(acc))
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, k, n, st, r)
    ctx.check(received(acc) == flat(want, []), 'events differ', None, k, n)
    ctx.cover('events')
