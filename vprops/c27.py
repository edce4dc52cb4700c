from symx.scen import registry
from symx import cmd
from amara3.uxml import tree, uxpath, html5
from amara3.uxml.uxpath import xast
from .trees import make, shaped, joined
from .xmlev import callbacks, local_name
from . import xpref, xpparse
from .xpref import World, Ref, Root, Attr, is_el, is_text
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['The XML parser is replaced as for C15. The texts of the documents are letters, digits or spaces, which the XML parser reports in one piece. '
               'Numbers and booleans are printed as Python prints them. With --html and --lax the tree is the one html5.parse and html5.parse_lax_xml give (C28). Markup of an element is what C07 to C09 decide.']
PLAIN = ((32, 32), (48, 57), (97, 122), (0xE0, 0xF6), (0x4E00, 0x4E10))


def source(data):
    def lift(d): return d if isinstance(d, str) else ((None, d[0]), [((None, k), v) for k, v in d[1]], [lift(c) for c in d[2]])
    return callbacks(lift(data), {}, [])


def printed(x):
    if isinstance(x, Root): return printed(x.top)
    if isinstance(x, Attr): return x.value + '\n'
    if is_el(x) or is_text(x): return x.xml_encode() + '\n'
    if isinstance(x, str): return x + '\n'
    return repr(x) + '\n'


def all_elements(t):
    out = [t]
    for c in t.xml_children:
        if is_el(c): out.extend(all_elements(c))
    return out


def partitions(t, name):
    if t.xml_name == name: return [t]
    out = []
    for c in t.xml_children:
        if is_el(c): out.extend(partitions(c, name))
    return out


def alone(e):
    """A copy that is a tree of its own."""
    def data(n): return str(n) if is_text(n) else (n.xml_name, list(n.xml_attributes.items()), [data(c) for c in n.xml_children])
    return make(data(e))


def expected(docs, kind, text, foreach=None, limit=None, partition=None, attrs=()):
    e = xpparse.parse(text) if kind != 'find-text' else None
    f = xpparse.parse(foreach) if foreach is not None else None
    found = ''
    n = 0
    for d in docs:
        t = d if is_el(d) else make(d)
        for top in ([alone(p) for p in partitions(t, partition)] if partition is not None else [t]):
            w = World(top)
            if kind == 'find-text':
                found = found + find(top, text, attrs, '')
                continue
            results = []
            if kind == 'expr': results = Ref(w).ev(e, w.roots[0])
            else:
                for el in all_elements(top): results.extend(Ref(w).ev(e, el))
            for r in results:
                if limit is not None and n >= limit: break
                n += 1
                for x in ([r] if f is None else Ref(w).ev(f, r)): found = found + printed(x)
    return found, n


def find(el, text, attrs, path):
    path = (path + '/' if len(path) else '') + el.xml_name
    for a in attrs:
        for k, v in el.xml_attributes.items():
            if k == a: path = path + '[@' + a + '="' + v + '"]'
    out = ''
    for c in el.xml_children:
        if is_text(c) and text in c: out = out + path + '\n'
    # a line for each text of this element, then those below in document order
    for c in el.xml_children:
        if is_el(c): out = out + find(c, text, attrs, path)
    return out


def judge(ctx, docs, kind, text, foreach=None, limit=None, partition=None, attrs=(), pieces=0, into=False):
    argv = ['--%s=%s' % (kind, text)]
    if foreach is not None: argv.append('--foreach=' + foreach)
    if limit is not None: argv.extend(['-l', str(limit)])
    if partition is not None: argv.append('--partition=' + partition)
    if attrs: argv.append('--show-attrs=' + ','.join(attrs))
    files = {}
    for i, d in enumerate(docs):
        name = 'http://x.test/d%d.xml' % i if i == 2 else 'd%d.xml' % i
        evs = source(d)
        cut = len(evs) // 2
        files[name] = ctx.xml_pieces([evs[:cut], evs[cut:]]) if pieces else ctx.xml(evs)
        argv.append(name)
    want, n = expected(docs, kind, text, foreach, limit, partition, attrs)
    finish(ctx, argv, files, want, docs, into)


def finish(ctx, argv, files, want, docs, into=False):
    written = {}
    if into: argv.extend(['-o', 'out.txt'])
    st, got = ctx.guard(cmd.main, ctx, argv, files, written)
    ctx.check(st == 'ok', 'the command fails', None, argv, got)
    if into:
        ctx.check(list(written) == ['out.txt'] and got == '', 'output not in the file', None, argv, got)
        ctx.check(written['out.txt'].closed, 'the file is left open', None, argv)
        got = written['out.txt'].text
    else: ctx.check(not written, 'a file is written', None, argv, list(written))
    ctx.check(got == want, 'output differs', None, argv, docs, got, want)
    ctx.obs(got)
    ctx.cover('output' if want else 'nothing')


EXPRS = ['//b', '//@x', "//*[@x='1']", '/', '//text()', 'count(//*)', '/a/b[1]', "concat(//b, '!')", '//b | //@*', '(1, //a, "s")', '//b = "7"', '//nothing', 'string(.)', '/*/..']
EACH = [None, '.', '..', '@x', "concat(name(), ':', .)", 'count(*)', 'b | text()', '/', "'&lt;'"]
NODES = (0, 1, 2, 3, 4, 6, 8, 11, 13)


def documents(ctx, size, c, two):
    def label(i): return ctx.pick('n%d' % i, ['a', 'b']), [[], [('x', c)], [('x', '1'), ('y', '2')], [('x', '')]][ctx.choice('at%d' % i, 4) if i < 2 else i % 3]
    data, _ = shaped(ctx, size, label, lambda i: '7' if i % 2 else c)
    return [joined(data), ('a', [('x', '5')], ['t', ('b', [], [c]), ('b', [], [])])][:1 + two]


@scenario(quick=[dict(size=3, m=9), dict(size=2, m=14)], thorough=[dict(size=3, m=14), dict(size=4, m=6)], covers=('output', 'nothing'), steps=600000,
          bounds='--expr: every document of up to `size` elements and texts with an arbitrary letter as text and attribute value; m of 14 expressions, with one of 9 --foreach or none; one or two sources')
def expr(ctx, size, m):
    c = ctx.text('c', 1, PLAIN)
    e = ctx.choice('e', m)
    f = EACH[ctx.choice('f', 9 if e in NODES else 2)]
    judge(ctx, documents(ctx, size, c, ctx.choice('two', 2)), 'expr', EXPRS[e], f)


MATCH = ['b', '.', 'self::b', '@x', '..', 'text()', "b[@x='1']", 'count(*)', './/b', 'a | b', '/', "self::a and b"]


@scenario(quick=[dict(size=3)], thorough=[dict(size=4)], covers=('output', 'nothing'), steps=600000,
          bounds='--match: every document as for expr; 12 expressions on each element, with one of five --foreach or none; one or two sources')
def match(ctx, size):
    c = ctx.text('c', 1, PLAIN)
    e = ctx.choice('e', 12)
    f = EACH[ctx.choice('f', 1 if e in (7, 11) else 5)]
    judge(ctx, documents(ctx, size, c, ctx.choice('two', 2)), 'match', MATCH[e], f)


@scenario(quick=[dict()], thorough=[dict()], covers=('output', 'nothing'), steps=600000,
          bounds='limits 0 to 7 on --expr and --match with and without --foreach, one to three sources (the third from the Web), whole or partitioned')
def limits(ctx):
    n = ctx.choice('limit', 8)
    docs = [('a', [], [('b', [], ['1']), ('b', [], ['2']), ('c', [], [('b', [], ['3'])])]), ('b', [], ['4', ('b', [], ['5'])]), ('a', [], ['6', ('b', [('x', 'y')], [])])][:1 + ctx.choice('docs', 3)]
    k = ctx.choice('kind', 2)
    judge(ctx, docs, ['expr', 'match'][k], ['//b', 'b'][k], [None, 'text()', '(name(), .)'][ctx.choice('f', 3)], n, 'b' if ctx.choice('part', 2) else None, into=n % 2 > 0)


@scenario(quick=[dict(size=4)], thorough=[dict(size=5)], covers=('output', 'nothing'), steps=600000,
          bounds='--partition: every document of up to `size` elements and texts, read whole or in two pieces, seven queries on each partition')
def partition(ctx, size):
    c = ctx.text('c', 1, PLAIN)
    def label(i): return ctx.pick('n%d' % i, ['a', 'b']), [('x', c)] if i == 1 else []
    data, _ = shaped(ctx, size, label, lambda i: '7' if i % 2 else c)
    kind, e, f = [('expr', '//a', None), ('expr', '/', 'count(//*)'), ('match', '.', None), ('match', 'text()', '..'), ('match', 'count(ancestor::*)', None), ('expr', 'b/..', None), ('find-text', '7', None)][ctx.choice('q', 7)]
    judge(ctx, [joined(data)], kind, e, f, None, 'b', (), ctx.choice('pieces', 2))


@scenario(quick=[dict(size=4, n=1)], thorough=[dict(size=5, n=1), dict(size=4, n=2)], covers=('output', 'nothing'), steps=600000,
          bounds='--find-text of n arbitrary characters in every document of up to `size` elements and texts, each text of n+1 arbitrary letters, with none or up to two attributes shown')
def find_text(ctx, size, n):
    c = ctx.text('c', n + 1, PLAIN)
    search = ctx.text('s', n)
    def label(i): return ctx.pick('n%d' % i, ['a', 'b']), [[('y', '')], [('x', c)], [('y', '2'), ('x', '')]][i % 3]
    data, _ = shaped(ctx, size, label, lambda i: c if i % 2 else 'ab')
    data = joined(data)
    attrs = [[], ['x'], ['x', 'y'], ['z', 'x']][ctx.choice('attrs', 4)]
    out = cmd.Out()
    m = cmd.library(ctx)
    want = find(make(data), search, attrs, '')
    st, r = ctx.guard(m.run, 'find_text', search, sources=[cmd.In(ctx.xml(source(data)))], out=out, show_attrs=attrs)
    ctx.check(st == 'ok', 'the command fails', None, data, r)
    ctx.check(out.text == want, 'output differs', None, search, data, attrs, out.text, want)
    ctx.obs(out.text)
    ctx.cover('output' if want else 'nothing')


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)], covers=('output', 'nothing'), steps=600000,
          bounds='literals, names and --foreach with n arbitrary characters, documents with arbitrary names of n+1 characters; any of the commands by itself')
def characters(ctx, n):
    c, d = local_name(ctx, 'c', n + 1), local_name(ctx, 'd', 1)
    s = ctx.text('s', n)
    ctx.assume("'" not in s)
    t = ctx.text('t', 1, PLAIN)
    data = (c, [(d, t)], [t, (d, [(c, '1')], [(c, [], ['2'])])])
    kind, e, f = [('expr', '//' + d, None), ('expr', '//@' + c, None), ('match', d, c), ('match', "@*[. != '" + s + "']", None), ('expr', "'" + s + "'", None), ('match', '.', "concat('" + s + "', name())"),
                  ('expr', '//text()', "(., '" + s + "')")][ctx.choice('q', 7)]
    out = cmd.Out()
    m = cmd.library(ctx)
    want, _ = expected([data], kind, e, f)
    st, r = ctx.guard(m.run, kind, e, sources=[cmd.In(ctx.xml(source(data)))], foreach=f, out=out)
    ctx.check(st == 'ok', 'the command fails', None, e, f, r)
    ctx.check(out.text == want, 'output differs', None, e, f, out.text, want)
    ctx.obs(out.text)
    ctx.cover('output' if want else 'nothing')


@scenario(quick=[dict(m=20)], thorough=[dict(m=20), dict(m=60)], covers=('output', 'nothing'), steps=3000000,
          bounds='m siblings, m levels, m texts or m attributes in a document, an arbitrary letter in one of them; twelve commands; standard output or a file')
def long(ctx, m):
    c = ctx.text('c', 1, PLAIN)
    k = ctx.choice('doc', 4)
    at = [0, m // 2, m - 1][ctx.choice('at', 3)]
    def tx(i): return c if i == at else 't'
    if k == 0: d = ('a', [], [('b', [('x', str(i))], [tx(i)]) for i in range(m)])
    elif k == 1:
        d = ('b', [('x', '1')], [tx(m - 1)])
        for i in range(m - 2, -1, -1): d = ('b', [('x', '%d' % (i % 3))], [d, tx(i)])
    elif k == 2: d = ('a', [], [x for i in range(m) for x in (tx(i), ('b', [], []))])
    else: d = ('a', [('x%d' % i, tx(i)) for i in range(m)], [('b', [('x', 's')], ['s'])])
    cmds = [('expr', '//b', None), ('expr', '//text()', None), ('expr', '//@*', None), ('match', '.', 'name()'), ('match', '@*', '.'), ('find-text', 's', None), ('find-text', 't', None), ('match', 'text()', '..//@x'),
            ('expr', '//b[%d]' % (at + 1), None), ('expr', 'count(//node())', None), ('match', 'count(ancestor::*)', None), ('expr', '//b', '@x')]
    kind, e, f = cmds[ctx.choice('cmd', 12)]
    judge(ctx, [d], kind, e, f, None, 'b' if k == 0 and ctx.choice('part', 2) else None, ('x',) if kind == 'find-text' else (), 0, ctx.choice('into', 2) > 0)


HTML = [('text', 'x'), ('start', 'p', [('x', '1')]), ('end', 'p'), ('start', 'b', []), ('end', 'b'), ('start', 'table', []), ('start', 'a', [('x', '')]), ('start', 'c', [('x', '2')], True)]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('output', 'nothing'), steps=900000,
          bounds='--html and --lax: every sequence of n of eight pieces around a text and an attribute value of an arbitrary letter; ten commands')
def html(ctx, n):
    c = ctx.text('c', 1, PLAIN)
    lax = ctx.choice('lax', 2)
    ps = [('start', 'a', [('x', c)])] + [HTML[ctx.choice('t%d' % i, 8)] for i in range(n)]
    # a text of its own, not beside another
    ps = ps + [('start', 'i', []), ('text', c), ('end', 'i')]
    src = ctx.html(ps)
    st, t = ctx.guard(html5.parse_lax_xml if lax else html5.parse, src)
    ctx.check(st == 'ok' and is_el(t), 'parsing fails', None, ps)
    kind, e, f = [('expr', '//b', None), ('expr', '//text()', None), ('expr', '//@*', None), ('match', '.', 'name()'), ('match', '@x', None), ('find-text', 'x', None), ('expr', '/', None), ('match', 'a', 'count(ancestor::*)'),
                  ('expr', '/*/..', 'name(*)'), ('match', 'i', '..')][ctx.choice('cmd', 10)]
    want, _ = expected([t], kind, e, f, None, None, ('x',) if kind == 'find-text' else ())
    argv = ['--%s=%s' % (kind, e), '--lax' if lax else '--html'] + (['--foreach=' + f] if f is not None else []) + (['--show-attrs=x'] if kind == 'find-text' else []) + ['d.html']
    finish(ctx, argv, {'d.html': src}, want, ps, ctx.choice('into', 2) > 0)
    ctx.obs(want)
    ctx.cover('output' if want else 'nothing')
