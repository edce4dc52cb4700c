from symx.scen import registry
from amara3.uxml import parser as P
from . import mxdocs
from .mxutil import whole, split, simple
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Oracle: the same parser fed the whole text in one piece (its own correctness is C02/C03).']


def collector(acc):
    while True:
        ev = yield
        acc.append(ev)


def coro(frags, final):
    """Feed through the coroutine interface; final: the last fragment carries the end-of-input flag itself."""
    acc = []
    h = collector(acc)
    p = P.parser(h)
    for i, f in enumerate(frags):
        p.send((f, final and i == len(frags) - 1))
    if not final: p.send(('', True))
    p.close()
    h.close()
    return acc


def judge(ctx, s, frags, how=0):
    st1, a = ctx.guard(whole, s)
    fn = split if how == 0 else (lambda f: coro(f, how == 2))
    st2, b = ctx.guard(fn, frags)
    ctx.check(st2 != 'hang', 'fragmented parse does not end', None, frags)
    ctx.check(st1 == st2, 'whole and fragmented parse disagree on acceptance', None, s, frags, st1, st2)
    if st1 == 'ok':
        ctx.cover('accepted')
        a, b = simple(a), simple(b)
        ctx.obs(b)
        ctx.check(a == b, 'events differ', None, s, frags, a, b)
    else: ctx.cover('rejected')


def cut(ctx, s, n, how=None):
    """n cut points chosen anywhere (equal ones give empty fragments)."""
    out, prev = [], 0
    for i in range(n):
        k = prev + ctx.choice('cut%d' % i, len(s) - prev + 1)
        out.append(s[prev:k])
        prev = k
    out.append(s[prev:])
    return out


@scenario(quick=[dict(n=n, cuts=1) for n in range(0, 6)] + [dict(n=4, cuts=2)], thorough=[dict(n=n, cuts=1) for n in range(0, 8)] + [dict(n=6, cuts=2)],
          covers=('rejected',), bounds='any text of n characters, cut at any one (two) positions')
def anytext(ctx, n, cuts):
    s = ctx.text('s', n)
    judge(ctx, s, cut(ctx, s, cuts))


@scenario(quick=[dict(n=n) for n in range(1, 8)], thorough=[dict(n=n) for n in range(1, 9)], covers=('accepted', 'rejected'), bounds='any text of n characters, fed one character at a time')
def single(ctx, n):
    s = ctx.text('s', n)
    judge(ctx, s, [s[i:i + 1] for i in range(n)])


@scenario(quick=[dict(t=i) for i in range(len(mxdocs.TEMPLATES))], covers=('accepted', 'rejected'),
          bounds='each document family of vprops/mxdocs.py TEMPLATES with holes shortened to 2, fed one character at a time, in pairs, or with empty fragments, by three entry points')
def templates(ctx, t):
    parts = [p if isinstance(p, str) else min(p, 2) for p in mxdocs.TEMPLATES[t][1]]
    s = mxdocs.build(ctx, parts)
    m = ctx.choice('mode', 4)
    if m == 0: f = [s[i:i + 1] for i in range(len(s))]
    elif m == 1: f = [s[:1]] + [s[i:i + 2] for i in range(1, len(s), 2)]
    elif m == 2: f = [s[i:i + 3] for i in range(0, len(s), 3)] + ['']
    else: f = sum([[s[i:i + 2], ''] for i in range(0, len(s), 2)], [''])
    judge(ctx, s, f, ctx.choice('how', 3) if m < 3 else 0)


@scenario(quick=[dict(t=i, h=1) for i in range(len(mxdocs.TEMPLATES))], thorough=[dict(t=i, h=3) for i in range(len(mxdocs.TEMPLATES))], covers=('accepted', 'rejected'),
          bounds='each document family with holes shortened to 1 (at most h holes open), cut at any two positions')
def anycut(ctx, t, h):
    left = [h]
    parts = []
    for p in mxdocs.TEMPLATES[t][1]:
        if isinstance(p, str): parts.append(p)
        elif left[0] > 0:
            left[0] -= 1
            parts.append(1)
        else: parts.append(' ')
    s = mxdocs.build(ctx, parts)
    judge(ctx, s, cut(ctx, s, 2))


@scenario(quick=[dict(t=i, big=b) for b in (0, 2) for i in range(12)], thorough=[dict(t=i, big=1) for i in range(12)], covers=('accepted', 'rejected'), steps=3000000,
          bounds='document families of vprops/mxdocs.py LONG in fragments of 7, 29 and 64 (8192, 30000 and 66000 for the longest) characters')
def long(ctx, t, big):
    s = mxdocs.build(ctx, mxdocs.LONG(big)[t][1])
    k = ctx.pick('frag', [[7, 64, 29], [7, 64], [8192, 30000, 66000]][big])
    judge(ctx, s, [s[i:i + k] for i in range(0, len(s), k)])


@scenario(quick=[dict(m=m) for m in (60, 300, 2100, 9000)], thorough=[dict(m=m) for m in (1100, 4200, 70000)], covers=('accepted', 'rejected'), steps=3000000,
          bounds='two fragments of m characters or one of m and short ones, in text, an attribute value, a name or white space; the cut between two arbitrary characters, either side of a carriage return or inside a reference')
def longcut(ctx, m):
    a, b = ctx.text('a', 1), ctx.text('b', 1)
    k = ctx.choice('kind', 6)
    x = 'x' * m
    if k == 0: f = ['<a>' + x + a, b + x + '</a>']
    elif k == 1: f = ['<a k="' + x + a, b + x + '"></a>']
    elif k == 2: f = ['<a>' + x + '\r', b, a + 'y</a>']
    elif k == 3: f = ['<a>' + x + '&' + ['', 'l', 'lt', '#', '#x', '#x4'][ctx.choice('ref', 6)], a + b, 't;' + x + '</a>']
    elif k == 4: f = ['<' + x + a, b + '>t</', x, a + b + '>']
    else: f = ['<a>' + '\r' * m + a, b, '\r' * m + '</a']
    if k == 5: f.append('>')
    s = ''.join(f)
    judge(ctx, s, f, ctx.choice('how', 3))


@scenario(quick=[dict(far=0)], thorough=[dict(far=0), dict(far=1)], covers=('accepted', 'rejected'), steps=5000000,
          bounds='a first fragment of a length one less than, equal to or one more than a power of two from 32 to 8192 (thorough: 65536), or all fragments of that length, an arbitrary character either side of the cut, which is in text, a value, a tag or after a carriage return')
def lengths(ctx, far):
    n = ctx.pick('n', mxdocs.FAR if far else mxdocs.EDGES)
    c, d = ctx.text('c', 1), ctx.text('d', 1)
    k = ctx.choice('how', 6)
    x = 'x' * (n - 4)
    if k == 0: f = ['<a>' + x + c, d + 'y</a>']
    elif k == 1: f = ['<a>' + x + '\r', d + c + '</a>']
    elif k == 2: f = ['<a k="' + 'x' * (n - 7) + c, d + '"></a>']
    elif k == 3: f = ['<a>' + 'x' * (n - 6) + '</a', c, '>' + d]
    elif k == 4:
        s = '<a>' + 'x' * (n - 7) + '</a>' + ' ' * (n - 1) + c + d
        f = [s[i:i + n] for i in range(0, len(s), n)]
    else:
        s = '<r>' + '<b>xy</b>' * (n // 9 + 2) + c + '<b k="z"></b>' + d + '</r>'
        f = [s[i:i + n] for i in range(0, len(s), n)]
    judge(ctx, ''.join(f), f)
