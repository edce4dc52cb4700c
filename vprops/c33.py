import io
from symx.scen import registry
from amara3.uxml import xml, xmliter, writer
from . import refmx
from .trees import shape, shaped, legal_text, mkattrs, joined
from .xmlev import local_name, ns_name, stripped
from .c10 import resolve, joined_ns
SCENARIOS, scenario = registry()
XMLNS = 'http://www.w3.org/XML/1998/namespace'
B = 'http://x.test/b#'
ASSUMPTIONS = ['The XML parser (expat) is replaced in symbolic runs by a stand-in that delivers the callbacks of a document described by the harness; counterexamples and sampled '
               'paths are replayed through the real expat on the document written out as text.',
               'The round trip is claimed for documents in which each prefix stands for one namespace and each element name and attribute name for one namespace, and in which no '
               'element is left out of every namespace once a default namespace is declared anywhere.']


def emit(d, out):
    """(decls, (ns, local), attrs, children) -> parser callbacks"""
    if isinstance(d, str):
        out.append(('text', d))
        return out
    for p, u in d[0]: out.append(('ns', p, u))
    out.append(('start', d[1], d[2]))
    for c in d[3]: emit(c, out)
    out.append(('end', d[1]))
    for p, u in d[0][::-1]: out.append(('endns', p))
    return out


def plain(d):
    return d if isinstance(d, str) else (d[1], d[2], [plain(c) for c in d[3]])


def put(table, p, u):
    """Association list with p bound to u."""
    return [(k, v) for k, v in table if not (k == p)] + [(p, u)]


def scopes(d, seen, table=()):
    """What has been declared when each event arrives: [(in scope, declared so far)] in document order."""
    if isinstance(d, str):
        seen.append((list(table), list(seen[-1][1])))
        return seen
    table, sofar = list(table), (list(seen[-1][1]) if seen else [])
    for p, u in d[0]:
        table = put(table, p, u)
        sofar = put(sofar, p, u)
    seen.append((table, sofar))
    for c in d[3]: scopes(c, seen, table)
    seen.append((table, list(seen[-1][1])))
    return seen


def same(table, want):
    """A dictionary against an association list; an undeclared default namespace may be there as None or not at all."""
    got = [(k, v) for k, v in table.items() if v is not None]
    want = [(k, v) for k, v in want if v is not None]
    if len(got) != len(want): return False
    for k, v in want:
        if not any(k == k2 and v == v2 for k2, v2 in got): return False
    return True


def reader(src, stream, each):
    """Parse with the tracking callbacks; `each` sees the callbacks object at every event that comes through."""
    made, roots = [], []

    def keep():
        while True:
            roots.append((yield))

    def tap(h):
        while True:
            ev = yield
            if made: each(made[0], ev)
            h.send(ev)

    def callbacks(h):
        next(h)
        made.append(xml.ns_expat_callbacks(tap(h), stream=stream))
        return made[0]
    s = xmliter.sender(('*',), keep(), callbacks=callbacks)
    s.parse(src)
    return s, roots


def uses(d, out):
    """[(key, namespace)] of every element and attribute in document order."""
    out += [(k, ns) for k, ns, sc in scoped(d, [])]
    return out


def scoped(d, out, table=()):
    """[(key, namespace, declarations in scope)] of every element and attribute in document order."""
    if isinstance(d, str): return out
    table = list(table)
    for p, u in d[0]: table = put(table, p, u)
    out.append((d[1][1], d[1][0], table))
    for k, v in d[2]: out.append(('@' + k[1], k[0], table))
    for c in d[3]: scoped(c, out, table)
    return out


def judge(ctx, d, stream, evs=None):
    evs = emit(d, [])
    seen = []

    def each(h, ev):
        seen.append([(k, v) for k, v in h.prefixes.items()])
    st, r = ctx.guard(reader, ctx.xml(evs), stream, each)
    ctx.check(st == 'ok', 'well-formed XML is rejected', None, d, st, r)
    s, roots = r
    ctx.check(len(roots) == 1 and shape(roots[0]) == stripped(plain(d)), 'the tree differs', None, d)
    h = s.handler
    want = scopes(d, [])
    if len(seen) == len(want):
        for got, (scope, sofar) in zip(seen, want): ctx.check(same(mkattrs(got), scope if stream else sofar), 'prefixes differ', None, d, stream, got, scope, sofar)
    else: ctx.check(False, 'number of events', None, d, len(seen), len(want))
    ctx.check(same(h.prefixes, [] if stream else want[-1][1]), 'prefixes differ at the end', None, d, stream, list(h.prefixes.items()))
    port = h.ns_portfolio
    us = uses(d, [])
    placed = scoped(d, [])
    for key, ns in us: ctx.check(key in port, 'a name is missing from the portfolio', None, d, key)
    for key in port:
        mine = [ns for k, ns in us if k == key]
        ctx.check(len(mine) > 0, 'a name that is not in the document', None, d, key)
        ns, prefix = port[key]
        ctx.check(any(ns == m for m in mine), 'wrong namespace', None, d, key, ns)
        if key[0] != '@': ctx.check(ns == mine[0], 'not the namespace of the first such element', None, d, key, ns)
        if ns is None: ctx.check(not prefix, 'a prefix for no namespace', None, d, key, prefix)
        elif ns == XMLNS: ctx.check(prefix == 'xml', 'the xml prefix is lost', None, d, key, prefix)
        else:
            # with a state that follows the scope, the prefix stands for the namespace where the name is used
            where = [sc for k, m, sc in placed if k == key and m == ns] if stream else [sc for sc, x in want]
            ctx.check(any(prefix == p and ns == u for sc in where for p, u in sc), 'a prefix that does not stand for the namespace', None, d, key, ns, prefix, stream)
    ctx.cover('stream' if stream else 'whole')
    return s, roots[0]


def back(ctx, d):
    """Whole document read, written back with what was set aside, and read again by the harness."""
    s, root = judge(ctx, d, False)
    fp = io.StringIO()
    st, r = ctx.guard(writer.write, root, writer.namespacer(fp, prefixes=s.handler.prefixes, mapping=s.handler.ns_portfolio))
    out = fp.getvalue()
    ctx.check(st == 'ok', 'cannot be written back', None, d, st, r)
    ctx.obs(out)
    try: got = resolve(refmx.tree(refmx.events(out, xml=True)), {'xml': XMLNS})
    except refmx.Ill: ctx.fail('what is written back is not well-formed or has an unbound prefix', None, d, out)
    ctx.check(got == joined_ns(plain(d)), 'what is written back differs', None, d, out, got)
    ctx.cover('back')


def visible(table, attr):
    """Namespaces that can be used where `table` is in scope."""
    out = []
    for p, u in table:
        if u is not None and (p is not None or not attr) and not any(u == v for v in out): out.append(u)
    if attr or not any(p is None and u is not None for p, u in table): out.append(None)
    return out


def grow(ctx, size, decls, names, attrs):
    """Documents of exactly `size` elements: parent, declarations, namespaces of element and attribute chosen."""
    nodes = []
    for i in range(size):
        par = ctx.choice('par%d' % i, i) if i > 1 else 0
        chain, j = [], par
        if i:
            chain = nodes[par][4]
            # document order: only the last node and its ancestors can still get children
            j = i - 1
            while j != par:
                if j == 0: ctx.assume(False)
                j = nodes[j][5]
        d = ctx.pick('decl%d' % i, decls)
        table = list(chain)
        for p, u in d: table = put(table, p, u)
        ns = ctx.pick('ns%d' % i, visible(table, False))
        at = []
        for a in attrs[i % len(attrs)]:
            at.append(((ctx.pick('ans%d%s' % (i, a), visible(table, True) + ([XMLNS] if i == 0 else [])), a), 'v%d' % i))
        node = (d, (ns, names[i % len(names)]), at, [], table, par)
        nodes.append(node)
        if i: nodes[par][3].append(node)
    def cut(n): return n[:3] + ([cut(c) for c in n[3]],)
    return cut(nodes[0])


@scenario(quick=[dict(size=2), dict(size=3)], thorough=[dict(size=3, wide=1), dict(size=4)], covers=('stream', 'whole'),
          bounds='every document of `size` elements, each declaring nothing, one of two prefixes or the default namespace for either of two namespaces, or undoing the default; '
                 'names and one attribute in any namespace in scope; one namespace name with an arbitrary character')
def scoping(ctx, size, wide=0):
    u = ns_name(ctx, 'u', 1)
    ctx.assume(u != B)
    decls = [[], [('p', u)], [('p', B)], [('q', u)], [(None, u)], [(None, None)]]
    if wide or size < 3: decls += [[('q', B)], [(None, B)], [('p', u), (None, u)], [(None, u), ('q', u)], [('p', u), ('q', B)]]
    d = grow(ctx, size, decls, ['a', 'b', 'a'], [[], ['x'], ['x']] if size > 2 else [['x'], ['y', 'x']])
    judge(ctx, d, ctx.bool('stream'))


def consistent(d):
    us = uses(d, [])
    for i in range(len(us)):
        for j in range(i):
            if us[i][0] == us[j][0] and us[i][1] != us[j][1]: return False
    return True


@scenario(quick=[dict(size=2), dict(size=3)], thorough=[dict(size=3, wide=1), dict(size=4)], covers=('back',),
          bounds='every document of `size` elements in which a prefix or the default always stands for the same namespace, and a name is always in the same one')
def roundtrip(ctx, size, wide=0):
    u = ns_name(ctx, 'u', 1)
    ctx.assume(u != B)
    n = ctx.choice('default', 3)
    default = [None, u, B][n]
    decls = [[], [('p', u)], [('q', B)]]
    if n: decls += [[(None, default)], [('p', u), (None, default)], [(None, default), ('p', u)]]
    if wide or size < 3: decls += [[('r', u)], [('r', u), ('q', B), ('p', u)]]
    d = grow(ctx, size, decls, ['a', 'b', 'c'] if size > 2 else ['a', 'a'], [['x'], ['y'], ['x']])
    ctx.assume(consistent(d))
    if n: ctx.assume(all(ns is not None for k, ns in uses(d, []) if k[0] != '@'))
    back(ctx, d)


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], covers=('back', 'stream'),
          bounds='local names, namespace names and prefixes with n arbitrary name characters, the same letter used as element, attribute and prefix where the solver likes')
def names(ctx, n):
    a, b, c = [local_name(ctx, k, n) for k in 'abc']
    p, q = local_name(ctx, 'p', n), local_name(ctx, 'q', n)
    u, v = ns_name(ctx, 'u', n), ns_name(ctx, 'v', 1)
    ctx.assume(u != v and p != q)
    if n == 3: ctx.assume(p[:3] != 'xml' and q[:3] != 'xml')
    d = ([(p, u)], (u, a), [((None, b), '1'), ((XMLNS, c), 'en')], ['t', ([(q, v)], (v, b), [((v, a), '2')], [([], (u, a), [((None, b), u)], [])])])
    ctx.assume(a != b and b != c)
    if ctx.bool('stream'): judge(ctx, d, True)
    else:
        ctx.assume(a != c)
        back(ctx, d)


@scenario(quick=[dict(m=m, big=b) for b in (0, 1) for m in range(3)], thorough=[dict(m=m, big=2) for m in range(3)], covers=('back', 'stream', 'whole'), steps=3000000,
          bounds='12 (40, 150) prefixes declared on one element, each on an element inside the one before, or each on an element of its own after the one before, with an arbitrary letter in one namespace name')
def many(ctx, m, big):
    n = [12, 40, 150][big]
    u = ns_name(ctx, 'u', 1)
    for i in range(n): ctx.assume(u != 'urn:%d' % i)
    uri = [u if i == 2 else 'urn:%d' % i for i in range(n)]
    at = [((None, 'k'), 'v')]
    if m == 0: d = ([('p%d' % i, uri[i]) for i in range(n)], (None, 'r'), [], [([], (uri[i], 'e%d' % i), [((uri[n - 1 - i], 'a%d' % i), 'x')] + at, ['t']) for i in range(n)])
    elif m == 1:
        d = ([], (uri[0], 'last'), at, [([], (uri[n - 1], 'z'), [], [])])
        for i in range(n - 1, -1, -1): d = ([('p%d' % i, uri[i])], (uri[i], 'e%d' % i), [((uri[i // 2], 'a%d' % i), 'x')], [([], (uri[0], 'first'), [], []), d, 't'])
    else: d = ([('p', u)], (None, 'r'), [], [([('p%d' % i, uri[i])] if i != 2 else [], (uri[i], 'e%d' % i), [((u, 'y'), 'x')], ['t']) for i in range(n)])
    if ctx.bool('stream'): judge(ctx, d, True)
    elif ctx.choice('back', 2): back(ctx, d)
    else: judge(ctx, d, False)
