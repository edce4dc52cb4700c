from symx.scen import registry
from amara3.uxml import tree
from . import refmx, mxdocs
from .mxutil import whole, split
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Reference: vprops/refmx.py, an independent recursive-descent reader of the accepted MicroXML subset; white space '
               'between "<", "/" and a name is tolerated (the library tests pin that).',
               'Termination: at most 60000 (2000000 for the long families) instrumented steps.']


def judge(ctx, s, fn=whole):
    try:
        refmx.events(s)
        ill = False
    except refmx.Ill: ill = True
    st, got = ctx.guard(fn, s)
    ctx.obs(st)
    ctx.check(st != 'hang', 'parsing does not end', None, s)
    if ill:
        ctx.cover('ill')
        ctx.check(st == 'err', 'ill-formed text accepted', None, s, got)
    else: ctx.cover('well')


@scenario(quick=[dict(n=n) for n in range(0, 8)], thorough=[dict(n=n) for n in range(0, 9)], covers=('ill', 'well'), bounds='any text of n characters')
def anytext(ctx, n):
    judge(ctx, ctx.text('s', n))


@scenario(quick=[dict(t=i, cap=3) for i in range(len(mxdocs.TEMPLATES))], thorough=[dict(t=i, cap=5) for i in range(len(mxdocs.TEMPLATES))],
          covers=('ill', 'well'), bounds='each document family of vprops/mxdocs.py TEMPLATES, holes (of at most cap characters) filled with arbitrary characters')
def templates(ctx, t, cap):
    judge(ctx, mxdocs.build(ctx, mxdocs.TEMPLATES[t][1], cap=cap))


@scenario(quick=[dict(t=i, big=b) for b in (0, 2) for i in range(12)], thorough=[dict(t=i, big=1) for i in range(12)], covers=('ill', 'well'), steps=2000000,
          bounds='document families of vprops/mxdocs.py LONG (300/3000/70000 characters, 40/200/320 levels or attributes), arbitrary characters in the holes')
def long(ctx, t, big):
    judge(ctx, mxdocs.build(ctx, mxdocs.LONG(big)[t][1]))


DOCS = ['<a x="1" y=\'&lt;\'>t<b>&#x41;u</b>v</a>', ' <a><b></b><c d="e">&amp;</c></a> ', '<ab><cd>x</cd><cd ef="gh"></cd></ab>']


@scenario(quick=[dict(d=d) for d in range(3)], covers=('ill', 'well'),
          bounds='truncation of a document at every position, with one arbitrary character appended; whole, in two fragments, and through the tree builder')
def truncated(ctx, d):
    s = DOCS[d]
    k = ctx.choice('cut', len(s) + 1)
    s = s[:k] + ctx.text('c', ctx.choice('extra', 2))
    m = ctx.choice('mode', 3)
    if m == 0: judge(ctx, s)
    elif m == 1: judge(ctx, s, lambda x: split([x[:2], x[2:]]))
    else: judge(ctx, s, lambda x: tree.treebuilder().parse(x))


@scenario(quick=[dict(d=d) for d in range(3)], covers=('ill', 'well'),
          bounds='one arbitrary character substituted for, or inserted at, or one character deleted from every position of a document')
def edited(ctx, d):
    s = DOCS[d]
    k = ctx.choice('at', len(s) + 1)
    m = ctx.choice('edit', 3)
    if m == 0: s = s[:k] + ctx.text('c', 1) + s[k + 1:]
    elif m == 1: s = s[:k] + ctx.text('c', 1) + s[k:]
    else: s = s[:k] + s[k + 1:]
    judge(ctx, s)


@scenario(quick=[dict(d=d) for d in range(3)], thorough=[dict(d=d) for d in range(3)], covers=('ill', 'well'),
          bounds='two positions of a document replaced by arbitrary characters')
def edited2(ctx, d):
    s = DOCS[d]
    k = ctx.choice('at', len(s) - 1)
    j = ctx.choice('gap', 4)
    l = min(k + 1 + j, len(s) - 1)
    s = s[:k] + ctx.text('c', 1) + s[k + 1:l] + ctx.text('e', 1) + s[l + 1:]
    judge(ctx, s)


LEADS = ['', '0', '00000000000000000', 'D', 'F', '1F', '2000', 'FFF', '10F', '11', '20', '200', '2000', 'FFF0', 'FFFF0', '1000000', '80000', '10000000000000']


@scenario(quick=[dict(n=2)], thorough=[dict(n=4)], covers=('well',), steps=400000,
          bounds='character references, in text or a value, of n arbitrary hexadecimal digits after any of seventeen leading parts (zeros, surrogates, non-characters, the end of Unicode and far beyond)')
def references(ctx, n):
    r = '&#x' + ctx.pick('lead', LEADS) + ctx.text('d', n, ((48, 57), (65, 70), (97, 102))) + ';'
    judge(ctx, '<a>x' + r + 'y</a>' if ctx.choice('where', 2) else "<a b='x" + r + "'></a>")
