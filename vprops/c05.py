from symx.scen import registry
import amara3.uxml
from amara3.uxml import tree
from . import refmx, mxdocs
from .trees import shape, check_links
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Reference: vprops/refmx.py.']

ENTRY = [tree.parse, lambda s: tree.treebuilder().parse(s), amara3.uxml.parse]


def judge(ctx, s, fn):
    try: want = refmx.tree(refmx.events(s))
    except refmx.Ill:
        ctx.cover('ill')
        st, t = ctx.guard(fn, s)
        ctx.check(st == 'err', 'no error for an ill-formed document', None, s)
        return None, None
    st, t = ctx.guard(fn, s)
    ctx.cover('well')
    ctx.check(st == 'ok', 'well-formed document rejected', None, s, st)
    ctx.check(isinstance(t, tree.element), 'no tree', None, s, t)
    ctx.obs(shape(t))
    ctx.check(shape(t) == want, 'tree differs from the document', None, s, shape(t), want)
    ctx.check(t.xml_parent is None, 'document element has a parent', None, s)
    check_links(ctx, t)
    return t, want


@scenario(quick=[dict(n=7)], thorough=[dict(n=8)], covers=('ill', 'well'), bounds='any text of n characters')
def anytext(ctx, n):
    judge(ctx, ctx.text('s', n), tree.parse)


@scenario(quick=[dict(t=i, cap=2) for i in range(len(mxdocs.TEMPLATES))], thorough=[dict(t=i, cap=4) for i in range(len(mxdocs.TEMPLATES))],
          covers=('ill', 'well'), bounds='document families of vprops/mxdocs.py TEMPLATES, by each entry point')
def templates(ctx, t, cap):
    judge(ctx, mxdocs.build(ctx, mxdocs.TEMPLATES[t][1], cap=cap), ENTRY[ctx.choice('entry', 3)])


@scenario(quick=[dict(t=i, big=b) for b in (0, 2) for i in range(12)], thorough=[dict(t=i, big=1) for i in range(12)], covers=('ill', 'well'), steps=2000000,
          bounds='document families of vprops/mxdocs.py LONG')
def long(ctx, t, big):
    judge(ctx, mxdocs.build(ctx, mxdocs.LONG(big)[t][1]), tree.parse)


@scenario(quick=[dict(size=4)], thorough=[dict(size=6)], covers=('well',),
          bounds='every element tree of up to `size` elements, text and attributes at every place')
def shapes(ctx, size):
    n = [0]
    def element(budget):
        i = n[0]
        n[0] += 1
        nm = ctx.pick('name%d' % i, ['a', 'b'])
        out = '<' + nm + ctx.pick('at%d' % i, ['', ' x="%d" y="z"' % i]) + '>'
        kids = ctx.choice('kids%d' % i, min(budget, 3) + 1)
        rest = budget - kids
        if ctx.choice('t%d' % i, 2): out += 't%d' % i
        for c in range(kids):
            sub, rest = element(rest)
            out += sub + ('u' if c == 1 else '')
        return out + '</' + nm + '>', rest
    s, _ = element(size - 1)
    judge(ctx, s, tree.parse)


DOCS = ['<a x="1">t<b>u</b>v<c><d></d></c></a>', ' <p><q y="2"></q><q></q></p>\n', '<m>n</m>']


@scenario(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=2), dict(n=3), dict(n=4)], covers=('ill', 'well', 'third'),
          bounds='one builder given n documents in turn; all but the last cut off at any position (or complete) with an arbitrary character appended')
def reuse(ctx, n):
    tb = tree.treebuilder() if ctx.choice('global', 2) == 0 else amara3.uxml.TB
    kept = []
    for k in range(n):
        s = DOCS[(k + ctx.choice('first', 3) if k == 0 else k) % 3]
        if k < n - 1:
            s = s[:ctx.choice('cut%d' % k, len(s) + 1)] if n < 4 else s[:ctx.pick('cut%d' % k, [3, 11, len(s) - 4, len(s)])]
            if n == 2: s = s + ctx.text('c%d' % k, ctx.choice('extra%d' % k, 2))
        t, want = judge(ctx, s, tb.parse)
        for t0, w0 in kept:
            ctx.check(shape(t0) == w0, 'an earlier tree changed', None, w0, shape(t0))
            check_links(ctx, t0, '(earlier tree)')
            ctx.check(t0 is not t, 'the same tree again')
            ctx.check(t0.xml_parent is None, 'an earlier tree got a parent')
        if t is not None: kept.append((t, want))
        if k == 2: ctx.cover('third')


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], covers=('changed',),
          bounds='n trees built in turn by one builder or several; then every element gets an attribute, a child and a name of its own: no other element shows them, in its own tree or in the others, and the next tree is as it should be')
def apart(ctx, n):
    c = ctx.text('c', 1, ((97, 122),))
    docs = ['<a><b></b>%s<b>%s</b><b x="%s"><c></c></b></a>' % (c, c, c), '<a>%s</a>' % c, '<a><b></b></a>']
    tb = tree.treebuilder()
    def build(s): return tb.parse(s) if one else tree.parse(s)
    one = ctx.choice('one', 2)
    ds = [docs[ctx.choice('doc%d' % i, 3)] for i in range(n)]
    tops = [build(s) for s in ds]
    wants = [refmx.tree(refmx.events(s)) for s in ds]
    def els(t):
        out = [t]
        for x in t.xml_children:
            if isinstance(x, tree.element): out.extend(els(x))
        return out
    every = [e for t in tops for e in els(t)]
    for i, e in enumerate(every):
        e.xml_attributes['own'] = str(i)
        e.xml_append('own%d' % i)
    for i, e in enumerate(every):
        ctx.check(e.xml_attributes['own'] == str(i) and [str(x) for x in e.xml_children if isinstance(x, tree.text) and x[:3] == 'own'] == ['own%d' % i], 'two elements share something', None, ds)
    for s, w in zip(ds, wants):
        t = build(s)
        ctx.check(shape(t) == w, 'a later tree shows what was done to an earlier one', None, s, shape(t), w)
    ctx.cover('changed')
    ctx.obs([shape(t) for t in tops])


@scenario(quick=[dict(far=0)], thorough=[dict(far=0), dict(far=1)], covers=('well',), steps=5000000,
          bounds='documents, and texts, attribute values and names in them, of a length one less than, equal to or one more than a power of two from 32 to 8192 (thorough: 65536), one character arbitrary')
def lengths(ctx, far):
    n = ctx.pick('n', mxdocs.FAR if far else mxdocs.EDGES)
    c = ctx.text('c', 1)
    k = ctx.choice('how', 5)
    x = 'x' * (n - 1)
    if k == 0: s = '<a>' + 'x' * (n - 8) + c + '</a>'
    elif k == 1: s = '<a>' + x + c + '</a>'
    elif k == 2: s = '<a k="' + x + c + '" l="' + c + x + '">' + c + x + '</a>'
    elif k == 3: s = '<a>' + 'x' * (n - 5) + '&amp;' + c + '</a>'
    else:
        if n > 9000: ctx.assume(False)
        s = '<n' + x[1:] + c + ' m' + x[1:] + c + '="">' + '</n' + x[1:] + c + '>'
    judge(ctx, s, tree.parse)
