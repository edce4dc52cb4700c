from symx.scen import registry
from . import refmx, mxdocs
from .mxutil import whole, simple
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Reference: vprops/refmx.py, an independent recursive-descent reader of the accepted MicroXML subset.']


def judge(ctx, s):
    try: want = refmx.events(s)
    except refmx.Ill:
        ctx.cover('ill')
        return
    st, got = ctx.guard(whole, s)
    ctx.cover('well')
    ctx.check(st == 'ok', 'well-formed text rejected', None, s)
    got = simple(got)
    ctx.obs(got)
    ctx.check(got == want, 'events differ', None, s, got, want)


@scenario(quick=[dict(n=7)], thorough=[dict(n=n) for n in (7, 8)], covers=('well',), bounds='any text of n characters')
def anytext(ctx, n):
    judge(ctx, ctx.text('s', n))


@scenario(quick=[dict(t=i, cap=3) for i in range(len(mxdocs.TEMPLATES))], thorough=[dict(t=i, cap=5) for i in range(len(mxdocs.TEMPLATES))], covers=('well',),
          bounds='each document family of vprops/mxdocs.py TEMPLATES, holes (of at most cap characters) filled with arbitrary characters')
def templates(ctx, t, cap):
    judge(ctx, mxdocs.build(ctx, mxdocs.TEMPLATES[t][1], cap=cap))


@scenario(quick=[dict(t=i, big=b) for b in (0, 2) for i in range(12)], thorough=[dict(t=i, big=1) for i in range(12)], covers=('well',), steps=2000000,
          bounds='document families of vprops/mxdocs.py LONG (300/3000/70000 characters, 40/200/320 levels or attributes), arbitrary characters in the holes')
def long(ctx, t, big):
    judge(ctx, mxdocs.build(ctx, mxdocs.LONG(big)[t][1]))


WS = ((9, 10), (13, 13), (32, 32))
PRINT = ((33, 126), (0x3b1, 0x3c9))


@scenario(quick=[dict(size=2, wsholes=0)], thorough=[dict(size=3, wsholes=1)], covers=('well',),
          bounds='every document with up to `size` elements, each with 0-2 attributes and text before, between and after children; one chosen '
                 'element has arbitrary characters in its attribute values and text and any white space at the allowed places')
def structured(ctx, size, wsholes):
    n = [0]
    focus = ctx.choice('focus', size)
    def element(budget):
        i = n[0]
        n[0] += 1
        f = i == focus
        nm = ctx.pick('name%d' % i, ['a', 'b-1', '\u03c0.x'] if f else ['a', 'b'])
        out = '<' + nm
        k = ctx.choice('atts%d' % i, 3) if f else i % 2
        for j in range(k):
            q = '"' if (i + j) % 2 else "'"
            sp = ctx.text('sp%d.%d' % (i, j), 1, WS) if f and (wsholes or not j) else ' '
            out += sp + ('u%d' % j) + (sp if j else '') + '=' + q + (ctx.text('v%d.%d' % (i, j), 1) if f else '&#x41;') + q
        out += '>'
        out += ctx.pick('t%d' % i, ['', '&#x9;', 'a\r\n', '&quot;x']) if f else ['', 'y', '&lt;'][i % 3]
        kids = ctx.choice('kids%d' % i, min(budget, 2) + 1)
        rest = budget - kids
        for c in range(kids):
            sub, rest = element(rest)
            out += sub
            if c == 0: out += ctx.text('m%d' % i, 1) if f else '.'
        return out + '</' + nm + '>', rest
    s, _ = element(size - 1)
    if n[0] <= focus: ctx.assume(False)
    judge(ctx, s)


@scenario(quick=[dict(far=0)], thorough=[dict(far=0), dict(far=1)], covers=('well',), steps=5000000,
          bounds='documents, and texts, attribute values and names in them, of a length one less than, equal to or one more than a power of two from 32 to 8192 (thorough: 65536), one character arbitrary')
def lengths(ctx, far):
    n = ctx.pick('n', mxdocs.FAR if far else mxdocs.EDGES)
    c = ctx.text('c', 1)
    k = ctx.choice('how', 5)
    x = 'x' * (n - 1)
    if k == 0: s = '<a>' + 'x' * (n - 8) + c + '</a>'
    elif k == 1: s = '<a>' + x + c + '</a>'
    elif k == 2: s = '<a k="' + x + c + '" l="' + c + x + '">' + c + x + '</a>'
    elif k == 3: s = '<a>' + 'x' * (n - 5) + '&amp;' + c + '</a>'
    else:
        if n > 9000: ctx.assume(False)
        s = '<n' + x[1:] + c + ' m' + x[1:] + c + '="">' + '</n' + x[1:] + c + '>'
    judge(ctx, s)


LEADS = ['', '0', '00000000000000000', 'D', 'F', '1F', '2000', 'FFF', '10F', '11', '20', '200', '2000', 'FFF0', 'FFFF0', '1000000', '80000', '10000000000000']


@scenario(quick=[dict(n=2)], thorough=[dict(n=4)], covers=('well',), steps=400000,
          bounds='character references, in text or a value, of n arbitrary hexadecimal digits after any of seventeen leading parts (zeros, surrogates, non-characters, the end of Unicode and far beyond)')
def references(ctx, n):
    r = '&#x' + ctx.pick('lead', LEADS) + ctx.text('d', n, ((48, 57), (65, 70), (97, 102))) + ';'
    judge(ctx, '<a>x' + r + 'y</a>' if ctx.choice('where', 2) else "<a b='x" + r + "'></a>")
