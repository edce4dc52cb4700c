import io
from symx.scen import registry
from amara3.uxml import tree, writer
from . import refmx
from .trees import shape, make, shaped, joined, legal_text, mkattrs
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The output is read by vprops/refmx.py extended with colons in names; namespaces are resolved by the harness (Namespaces in XML 1.0).',
               'No attribute of the tree is itself called xmlns.']


def rename(data, mapping):
    """What the mapping asks for: prefixed names."""
    if isinstance(data, str): return data
    def pre(key, n):
        p = None
        for k, (u, q) in mapping:
            if k == key: p = q
        return p + ':' + n if p else n
    return (pre(data[0], data[0]), [(pre('@' + k, k), v) for k, v in data[1]], [rename(c, mapping) for c in data[2]])


def resolve(data, scope):
    """Expanded names: ((uri, local), [((uri, local), value)], children); raises Ill for an unbound prefix."""
    if isinstance(data, str): return data
    scope = dict(scope)
    ats = []
    for k, v in data[1]:
        if k == 'xmlns': scope[''] = v
        elif k[:6] == 'xmlns:': scope[k[6:]] = v
        else: ats.append((k, v))
    def q(n, attr):
        p, c, l = n.partition(':')
        if not c: return (None if attr else (scope.get('') or None), n)
        if p not in scope: raise refmx.Ill('unbound prefix')
        return (scope[p], l)
    return (q(data[0], False), [(q(k, True), v) for k, v in ats], [resolve(c, scope) for c in data[2]])


def expected(data, mapping, default):
    if isinstance(data, str): return data
    def q(key, n, attr):
        u = None if attr else default
        for k, (uri, p) in mapping:
            if k == key and p: u = uri
        return (u, n)
    return (q(data[0], data[0], False), [(q('@' + k, k, True), v) for k, v in data[1]], [expected(c, mapping, default) for c in data[2]])


def judge(ctx, data, prefixes, mapping, entry=0):
    """prefixes: [(prefix or '', uri)]; mapping: [(name or @name, (uri, prefix))]"""
    root = make(data)
    fp = io.StringIO()
    kw = {}
    pd, md = mkattrs(prefixes), mkattrs(mapping)
    if prefixes: kw['prefixes'] = pd
    if mapping: kw['mapping'] = md
    w = writer.namespacer(fp, **kw)
    writer.write(root, w)
    out = fp.getvalue()
    ctx.obs(out)
    ctx.check(list(pd.items()) == prefixes and list(md.items()) == mapping, 'the tables were changed')
    ctx.check(shape(root, False) == data, 'the tree was changed')
    try: back = refmx.tree(refmx.events(out, xml=True))
    except refmx.Ill: ctx.fail('output is not well-formed', None, data, prefixes, mapping, out)
    want = joined(rename(data, mapping))
    decls = [(('xmlns:' + p) if p else 'xmlns', u) for p, u in prefixes]
    got_decls = [a for a in back[1] if a[0] == 'xmlns' or a[0][:6] == 'xmlns:']
    rest = [a for a in back[1] if not (a[0] == 'xmlns' or a[0][:6] == 'xmlns:')]
    ctx.check(len(got_decls) == len(decls), 'wrong number of declarations', None, data, prefixes, mapping, out)
    for d in decls: ctx.check(d in got_decls, 'declaration missing or altered', None, data, prefixes, mapping, out)
    ctx.check((back[0], rest, back[2]) == want, 'names, values or texts differ', None, data, prefixes, mapping, out)
    # the raw writer's output plus the declarations and prefixes
    fp = io.StringIO()
    writer.write(make(rename(data, mapping)), writer.raw(fp))
    raw = fp.getvalue()
    if not prefixes: ctx.check(out == raw, 'output is not the raw output plus prefixes', None, data, mapping, out, raw)
    else:
        bound = [p for p, u in prefixes]
        if all(p in bound or not p for k, (u, p) in mapping):
            ctx.cover('resolved')
            uris = mkattrs(prefixes)
            m2 = [(k, (uris[p] if p else None, p)) for k, (u, p) in mapping]
            default = uris.get('') or None
            try: r = resolve(back, {})
            except refmx.Ill: ctx.fail('unbound prefix', None, data, prefixes, mapping, out)
            ctx.check(r == joined_ns(expected(data, m2, default)), 'namespace reading differs', None, data, prefixes, mapping, out, r)
    ctx.cover('decls' if prefixes else 'nodecls')


def joined_ns(d):
    return joined(d)


PREF = [[], [('', 'urn:d')], [('p', 'urn:p')], [('p', 'urn:p'), ('q', 'urn:q')], [('', 'urn:d'), ('q', 'urn:q&"\'<')], [('p', 'urn:p'), ('', 'urn:p'), ('q', 'urn:p')],
        [('p', 'urn:p'), ('q', 'urn:q'), ('a', 'urn:a'), ('b', 'urn:q'), ('', 'urn:p'), ('c', 'urn:a')]]
MAPS = [[], [('e0', ('urn:p', 'p'))], [('e1', ('urn:q', 'q')), ('@x', ('urn:p', 'p'))], [('x', ('urn:p', 'p')), ('@e1', ('urn:q', 'q'))],
        [('e0', ('urn:p', 'p')), ('e1', ('urn:p', 'p')), ('@y', ('urn:q', 'q'))], [('e0', ('urn:d', '')), ('@x', ('urn:q', 'q')), ('@y', ('urn:p', 'p'))],
        [('e0', ('urn:p', 'p')), ('x', ('urn:p', 'p')), ('y', ('urn:q', 'q')), ('@e1', ('urn:q', 'q')), ('@y', ('urn:p', 'p'))]]


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('decls', 'nodecls', 'resolved'),
          bounds='every tree of up to `size` nodes over element names e0/e1 and attributes x/y, seven prefix tables, seven mappings')
def tables(ctx, size):
    data, k = shaped(ctx, size, lambda i: ('e%d' % (i % 2) if i == 0 else ctx.pick('n%d' % i, ['e0', 'e1']), [('x', '1<'), ('y', '"2')][:ctx.choice('a%d' % i, 2) + i % 2]),
                     lambda i: 't&', maxkids=2)
    judge(ctx, data, ctx.pick('prefixes', PREF), ctx.pick('mapping', MAPS))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('decls', 'resolved'), bounds='declared namespace, attribute value or text of n arbitrary legal characters')
def values(ctx, n):
    s = legal_text(ctx, 's', n)
    k = ctx.choice('where', 3)
    u = s if k == 0 else 'urn:p'
    if k == 0: ctx.assume(len(s) > 0)
    judge(ctx, ('e0', [('x', s if k == 1 else 'v')], [s if k == 2 else 't', ('e1', [('x', s if k == 1 else 'v')], [])]),
          [('p', u), ('q', 'urn:q')], [('e1', ('urn:p', 'p')), ('@x', ('urn:q', 'q'))])


NM = ((0x61, 0x64),)


@scenario(quick=[dict()], covers=('decls', 'nodecls', 'resolved'),
          bounds='one-letter names and prefixes from a..d, all symbolic: element, child, attribute, mapped name, mapped attribute, both prefixes')
def names(ctx):
    e, c, a, me, ma, p, q = [ctx.text(k, 1, NM) for k in ('e', 'c', 'a', 'me', 'ma', 'p', 'q')]
    ctx.assume(p != q)
    prefixes = [(p, 'urn:1'), (q, 'urn:2')] if ctx.choice('declared', 2) else []
    judge(ctx, (e, [(a, '1')], ['t', (c, [(a, '2')], [(e, [], [])])]), prefixes, [(me, ('urn:1', p)), ('@' + ma, ('urn:2', q))])


@scenario(quick=[dict()], covers=('decls', 'resolved'),
          bounds='four mapped names, each for an element or an attribute called a, b or c, with one of two prefixes or none; a document where a, b and c are both elements and attributes')
def crossed(ctx):
    mapping = []
    for i in range(4):
        key = ctx.pick('k%d' % i, ['a', 'b', '@a', '@b', 'c', '@c'][i % 2 * 2:][:4])
        ctx.assume(all(key != k for k, v in mapping))
        mapping.append((key, ctx.pick('v%d' % i, [('urn:1', 'p'), ('urn:2', 'q'), ('urn:3', '')])))
    judge(ctx, ('a', [('a', '1'), ('b', '2')], ['t', ('b', [('b', '1'), ('c', '2'), ('a', '3')], []), ('c', [('c', '1')], [('a', [], [])])]), [('p', 'urn:1'), ('q', 'urn:2')], mapping)


@scenario(quick=[dict(n=n) for n in (12, 60)], thorough=[dict(n=n) for n in (12, 60, 300)], covers=('decls', 'resolved'), steps=3000000,
          bounds='n prefixes (some for the same namespace), 2n mapped names, n attributes, documents n wide and n deep; an arbitrary legal character in a namespace, a value and a text')
def long(ctx, n):
    c = legal_text(ctx, 'c', 1)
    k = ctx.choice('where', 3)
    prefixes = [('p%d' % i if i else '', 'urn:%d' % (i % 7) + (c if k == 0 and i == n - 2 else '')) for i in range(n)]
    used = [(p, u) for p, u in prefixes if p]
    mapping = [('e%d' % i, (used[(i * 3) % len(used)][1], used[(i * 3) % len(used)][0])) for i in range(n) if i % 4] + [('@x%d' % i, (used[i % len(used)][1], used[i % len(used)][0])) for i in range(n) if i % 3]
    leaf = ('e3', [('x%d' % i, c if k == 1 and i == n - 3 else str(i)) for i in range(n)], [c if k == 2 else 't'])
    data = leaf
    for i in range(n): data = ('e%d' % i, [('x1', 'v')] if i % 5 == 0 else [], [data, ('e2', [], [])] if i % 7 == 0 else [data])
    judge(ctx, ('r', [], [data] + [('e%d' % i, [('x%d' % i, '1')], []) for i in range(n)]), prefixes, mapping)
