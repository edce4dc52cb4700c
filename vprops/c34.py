from symx.scen import registry
from amara3.uxml import tree, treeiter, html5iter
from .trees import shape as tshape, check_links, legal_text
from .pathpat import stages
from .c14 import outermost
from .c28 import reference, pairs, S, E, X, tokens, Text, FORMAT, TABLE, STRUCT, FOREIGN
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['As C28 for html5lib. Expected deliveries: vprops/pathpat.py over the tree of the plain builder of C28.']


def norm(d):
    return d if isinstance(d, str) else (d[0], pairs(d[1]), [norm(c) for c in d[2]])


def sink(log, k, got):
    while True:
        e = yield
        got.append((e, norm(tshape(e))))
        log.append(k)


def order(d, patterns, path, done):
    """Which sink gets something when: a subtree is delivered at its end, for patterns in the order given."""
    from .pathpat import matches
    path = path + (d[0],)
    on = [k for k, p in enumerate(patterns) if k not in done and matches(p, path)]
    out = []
    for c in d[2]:
        if not isinstance(c, str): out += order(c, patterns, path, done + on)
    return out + [on] if on else out


def judge(ctx, docs, patterns, prime=True, file=False):
    log, gots = [], [[] for p in patterns]
    sinks = [sink(log, k, g) for k, g in enumerate(gots)]
    wants = [reference(ctx.html(d)) for d in docs]
    def run():
        if not prime:
            for x in sinks: next(x)
        s = html5iter.sender(patterns[0], sinks[0], prime_sinks=prime) if len(patterns) == 1 and isinstance(patterns[0][0], str) else html5iter.sender(list(patterns), sinks, prime_sinks=prime)
        for d in docs:
            src = ctx.html(d)
            s.parse(Text(src) if file else src)
    st, r = ctx.guard(run)
    ctx.check(st == 'ok', 'streaming failed', None, docs, patterns, st, r)
    for p, g in zip(patterns, gots):
        want = [d for w in wants for d in outermost(w, p)]
        ctx.check([s for e, s in g] == want, 'wrong subtrees delivered', None, docs, p, [s for e, s in g], want)
        for e, s in g:
            ctx.check(isinstance(e, tree.element) and e.xml_parent is None, 'not the root of a tree of its own')
            ctx.check(norm(tshape(e)) == s, 'a delivered subtree changed later')
            check_links(ctx, e)
        ctx.cover('some' if want else 'none')
        ctx.obs([s for e, s in g])
    at = 0
    for on in [on for w in wants for on in order(w, patterns, (), [])]:
        ctx.check(sorted(log[at:at + len(on)]) == on, 'delivered out of order', None, docs, patterns, log)
        at += len(on)


STAGES = ['p', 'b', '*', '**', ('a', 'b')]


@scenario(quick=[dict(n=3, k=2), dict(n=4, k=1)], thorough=[dict(n=3, k=3), dict(n=5, k=1)], covers=('some', 'none'),
          bounds='n pieces of misnested formatting, every pattern html, body, then k parts out of p, b, *, **, (a, b)')
def formatting(ctx, n, k):
    judge(ctx, [[S('p')] + tokens(ctx, n, FORMAT) + [E('b'), X]], [('html', 'body') + stages(ctx, k, STAGES)], prime=n != 3)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('some', 'none'), bounds='n pieces in tables, foreign content or document structure; eight patterns')
def others(ctx, n):
    kind = ctx.choice('kind', 3)
    doc = [[S('table')], [S('svg')], []][kind] + tokens(ctx, n, [TABLE, FOREIGN, STRUCT][kind]) + [X]
    p = ctx.pick('pattern', [('**', 'table'), ('html',), ('**', 'p'), ('html', '*'), ('*', 'body', '**', 'tr'), ('**', ('b', 'td')), ('html', 'body', 'svg', '*'), ('html', 'head')])
    judge(ctx, [doc], [p])


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), bounds='two patterns of two parts each with their own sinks, two documents in turn by one sender, from a file or as text; arbitrary text and attribute values of n characters')
def several(ctx, n):
    s, v = legal_text(ctx, 's', n), legal_text(ctx, 'v', 1)
    for c in s + v: ctx.assume(c != '\r')
    doc = [S('p', ('k', v)), ('text', s), ctx.pick('t0', [S('b'), S('p'), S('table'), E('p')]), ('comment', 'c'), ('text', s), S('b', ('k', s))]
    two = ctx.bool('two')
    judge(ctx, [doc] + [[S('b'), X]] * two, [('html', 'body') + stages(ctx, 1, STAGES), ('**',) + stages(ctx, 1, STAGES, 'q')], file=two)


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), bounds='patterns with an arbitrary name of n letters, two nestings of elements of one to three letters, six patterns')
def names(ctx, n):
    q = ctx.text('q', n, ((0x61, 0x7a),))
    docs = [[S('p'), S('b'), S('a', ('k', '1')), X, S('i'), E('b'), S(['u', 'tt', 'bdo'][n - 1]), X], [S('table'), S('tr'), S('td'), S('a'), X, S('td'), S('b'), X]]
    form = [('html', 'body', '**', q), ('html', '**', (q, 'p')), ('**', q, '*'), ('**', q, '**', 'b'), ('*', '*', q), ('**', ('x', q))]
    judge(ctx, [docs[ctx.choice('doc', 2)]], [form[ctx.choice('form', 6)]])


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('some', 'none'), bounds='documents that begin and end with n arbitrary legal characters, as text or a file, five patterns')
def ends(ctx, n):
    s, v = legal_text(ctx, 's', n), legal_text(ctx, 'v', n)
    for c in s + v: ctx.assume(c != '\r')
    doc = [('text', s), S('b', ('k', v)), ('text', v)] + [[], [E('b')]][ctx.choice('closed', 2)]
    patterns = [[('html',)], [('**', 'b')], [('html', 'body')], [('html', '*', 'b')], [('**', 'p')]]
    judge(ctx, [doc], patterns[ctx.choice('pattern', 5)], file=ctx.bool('file'))


@scenario(quick=[dict(m=24)], thorough=[dict(m=24), dict(m=90)], covers=('some', 'none'), steps=3000000,
          bounds='m levels, m siblings, m texts or m attributes; an arbitrary letter in one of them; six patterns')
def long(ctx, m):
    c = ctx.text('c', 1, ((97, 122),))
    k = ctx.choice('kind', 4)
    at = [0, m // 2, m - 1][ctx.choice('at', 3)]
    def tx(i): return c if i == at else 't'
    if k == 0: doc = [S('div', ('k', tx(i))) for i in range(m)] + [('text', 'q'), S('em'), ('text', c)] + [E('div')] * m
    elif k == 1: doc = [p for i in range(m) for p in (S('p', ('k', tx(i))), ('text', tx(i)), E('p'))]
    elif k == 2: doc = [S('p')] + [p for i in range(m) for p in (('text', tx(i)), S('br'))]
    else: doc = [S('p', *[('k%d' % i, tx(i)) for i in range(m)]), ('text', 'x' * m + c), S('em')]
    p = [('**', 'em'), ('html', 'body', '*'), ('**', 'div', 'div', 'em'), ('html', 'body') + ('div',) * m, ('**', 'br'), ('**', 'p')][ctx.choice('pattern', 6)]
    judge(ctx, [doc], [p])
