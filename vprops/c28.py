import io
from symx.scen import registry
import html5lib
from html5lib.treebuilders import base
from amara3.uxml import tree, html5
from .trees import check_links, legal_text
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Text with symbolic characters goes through a stand-in for html5lib\'s tokenizer, which delivers the tokens of HTML text described by the harness piece by piece (other text goes through the real one); counterexamples and '
               'sampled paths are replayed through the real tokenizer on that text. html5lib\'s tree construction itself is executed symbolically, once with this library\'s tree '
               'builder and once with the plain one below; in replays the plain one is also compared with html5lib\'s own etree builder.',
               'Attributes called xmlns or xmlns:... are outside of the claim.']


# ------------------------------------------------------------ a plain tree builder
class Node(base.Node):
    def __init__(self, name, namespace=None):
        base.Node.__init__(self, name)
        self.namespace = namespace

    @property
    def nameTuple(self): return (self.namespace, self.name)

    def at(self, n):
        for i in range(len(self.childNodes)):
            if self.childNodes[i] is n: return i
        raise ValueError('not a child')

    def put(self, n, i):
        self.childNodes.insert(i, n)
        n.parent = self

    def appendChild(self, n):
        if n.parent is not None: n.parent.removeChild(n)
        self.put(n, len(self.childNodes))

    def insertBefore(self, n, ref):
        if n.parent is not None: n.parent.removeChild(n)
        self.put(n, self.at(ref))

    def insertText(self, data, insertBefore=None):
        n = Node('#text')
        n.value = data
        self.put(n, len(self.childNodes) if insertBefore is None else self.at(insertBefore))

    def removeChild(self, n):
        del self.childNodes[self.at(n)]
        n.parent = None

    def cloneNode(self):
        n = Node(self.name, self.namespace)
        n.attributes = dict(self.attributes)
        return n

    def reparentChildren(self, newParent):
        for c in list(self.childNodes): newParent.appendChild(c)

    def hasContent(self): return len(self.childNodes) > 0


class Plain(base.TreeBuilder):
    elementClass = fragmentClass = Node

    def commentClass(self, data): return Node('#comment')
    def doctypeClass(self, name, pub, system): return Node('#doctype')
    def documentClass(self): return Node('#document')


def local(n): return n.split(':')[-1]


def reduced(n):
    kids = []
    for c in n.childNodes:
        if c.name == '#text':
            if len(c.value) == 0: continue
            if kids and isinstance(kids[-1], str): kids[-1] = kids[-1] + c.value
            else: kids.append(c.value)
        elif c.name[:1] != '#': kids.append(reduced(c))
    return (local(n.name), pairs([(local(k[1]) if isinstance(k, tuple) else k, v) for k, v in n.attributes.items()]), kids)


def pairs(l):
    """Without order; of two attributes reduced to one name the later counts."""
    out = []
    for k, v in l: out = [x for x in out if not (x[0] == k)] + [(k, v)]
    return sorted(out, key=lambda x: x[0]) if all(type(x[0]) is str for x in out) else out


def shape(n):
    kids = []
    for c in n.xml_children:
        if isinstance(c, tree.element): kids.append(shape(c))
        elif isinstance(c, html5.comment): pass
        elif len(c) == 0: pass
        elif kids and isinstance(kids[-1], str): kids[-1] = kids[-1] + str(c)
        else: kids.append(str(c))
    return (n.xml_name, pairs(list(n.xml_attributes.items())), kids)


def reference(src):
    d = html5lib.HTMLParser(tree=lambda ns: Plain(True)).parse(src)
    return reduced([c for c in d.childNodes if c.name[:1] != '#'][0])


def etree(src):
    """html5lib's own builder, in replays."""
    def conv(e):
        kids = []
        def add(t):
            if t:
                if kids and isinstance(kids[-1], str): kids[-1] += t
                else: kids.append(t)
        add(e.text)
        for c in e:
            if isinstance(c.tag, str): kids.append(conv(c))
            add(c.tail)
        return (local(e.tag.split('}')[-1]), pairs([(local(k.split('}')[1]) if k[:1] == '{' else k, v) for k, v in e.attrib.items()]), kids)
    return conv(html5lib.parse(src, treebuilder='etree'))


def judge(ctx, pieces, lax=False, encoding=None, xhtml=False, given=None, file=False, fragment=False):
    src = ctx.html(pieces, encoding)
    kw = {}
    if given or encoding: kw['encoding'] = given or encoding
    if file: src = io.BytesIO(src) if encoding else Text(src)
    want = reference(ctx.html(pieces))
    if ctx.real: ctx.check(etree(ctx.html(pieces)) == want, 'the plain builder differs from html5lib\'s own', None, src)
    if xhtml: kw['use_xhtml_ns'] = True
    st, t = ctx.guard(html5.markup_fragment if fragment else html5.parse_lax_xml if lax else html5.parse, src, **kw)
    if fragment:
        want = ([c for c in want[2] if not isinstance(c, str) and c[0] == 'body'] + [None])[0]
        if want is None:
            ctx.check(st == 'ok' and t is None, 'not None for a document without body', None, pieces, st, t)
            ctx.cover('no body')
            return
    if lax:
        body = want[2][1] if len(want[2]) > 1 else None
        first = body[2][0] if body and body[0] == 'body' and body[2] else None
        if first is None:
            ctx.check(st == 'err' and t == 'ValueError', 'no ValueError for a document without content', None, pieces, st, t)
            ctx.cover('empty')
            return
        if isinstance(first, str): ctx.assume(False)
        want = first
    ctx.check(st == 'ok' and isinstance(t, tree.element), 'parsing fails', None, pieces, st, t)
    got = shape(t)
    ctx.obs(got)
    ctx.check(got == want, 'tree differs', None, pieces, got, want)
    ctx.check(fragment or t.xml_parent is None, 'the root has a parent')
    check_links(ctx, t)
    ctx.cover('lax' if lax else 'fragment' if fragment else 'parse')


class Text:
    """A text file."""
    def __init__(self, s): self.s = s

    def read(self, n=-1):
        out = self.s if n is None or n < 0 else self.s[:n]
        self.s = self.s[len(out):]
        return out


def S(n, *at): return ('start', n, list(at))


def E(n): return ('end', n)


def tokens(ctx, n, alphabet, pre='t'):
    return [ctx.pick('%s%d' % (pre, i), alphabet) for i in range(n)]


X = ('text', 'x')
FORMAT = [X, S('p'), E('p'), S('b'), E('b'), S('a', ('h', '1')), E('a'), S('div'), E('div'), S('table'), S('nobr'), E('nobr')]
TABLE = [X, ('text', ' '), S('table'), E('table'), S('tr'), S('td'), E('td'), S('b'), S('caption'), S('col'), S('tbody'), E('tr'), ('comment', ' '), S('input', ('type', 'hidden'))]
BLOCKS = [X, S('p'), S('li'), S('ul'), E('ul'), S('dd'), S('dt'), S('h1'), E('h2'), S('form'), E('form'), S('button'), S('option'), S('select'), E('select'), S('optgroup'), S('br'), E('br'), E('p'), S('rt')]
STRUCT = [X, ('text', ' '), S('html', ('x', '1')), S('head'), E('head'), S('body', ('y', '2')), E('body'), E('html'), S('meta'), S('b'), ('comment', 'c'), S('frameset'), S('frame'), E('frameset'), ('doctype', 'html', None, None)]
FOREIGN = [X, S('svg'), E('svg'), S('math'), S('foreignObject'), E('foreignObject'), S('desc'), S('mi'), S('p'), S('b'), E('b'), S('annotation-xml', ('encoding', 'text/HTML')), S('table'), ('start', 'circle', [], True)]
COLON = [X, S('a:b:p'), S('o:p'), E('o:p'), S('p'), E('p'), S('v:table'), E('v:table'), S('x:b'), S('b'), E('b'), S('svg'), S('table')]


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], covers=('parse',),
          bounds='every sequence of n pieces of twelve: text, p, b, a, div, table, nobr opened or closed in any order (misnested formatting, adoption agency, foster parenting), then </b></a>x')
def formatting(ctx, n): judge(ctx, tokens(ctx, n, FORMAT) + [E('b'), E('a'), X])


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], covers=('parse',), bounds='every sequence of n pieces of fourteen in a table, then </table> x')
def tables(ctx, n): judge(ctx, [S('a'), S('table')] + tokens(ctx, n, TABLE) + [E('table'), X])


@scenario(quick=[dict(n=6)], thorough=[dict(n=7)], covers=('parse',), bounds='every sequence of n pieces of five: text, a or b opened in and around tables (foster parenting of formatting elements)')
def foster(ctx, n): judge(ctx, [S('table')] + tokens(ctx, n, [X, S('a'), S('td'), E('table'), S('b'), E('a')][:5 if n < 7 else 6]) + [E('table'), X])


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('parse',), bounds='every sequence of n pieces of twenty: lists, headings, forms, buttons, selections, implied end tags')
def blocks(ctx, n): judge(ctx, tokens(ctx, n, BLOCKS) + [X])


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('parse',), bounds='every sequence of n pieces of fifteen: html, head, body, frames, comments and text before, between and after')
def structure(ctx, n): judge(ctx, tokens(ctx, n, STRUCT), xhtml=ctx.bool('xhtml'))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('parse',), bounds='every sequence of n pieces of fourteen after <svg> or <math>: SVG, MathML, HTML inside of them, breaking out; use_xhtml_ns or not')
def foreign(ctx, n):
    judge(ctx, [ctx.pick('in', [S('svg'), S('math')])] + tokens(ctx, n, FOREIGN) + [X], xhtml=ctx.bool('xhtml'))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('parse',), bounds='every sequence of n pieces of thirteen with colons in tag names')
def colons(ctx, n): judge(ctx, tokens(ctx, n, COLON) + [X], xhtml=ctx.bool('xhtml'))


PLACES = [[], [S('p')], [S('pre')], [S('table')], [S('table'), S('tr'), S('td')], [S('select')], [S('svg')], [S('head'), E('head')], [S('b'), S('p'), E('b')], [S('frameset')], [S('textarea')], [S('title')],
          [S('script')], [S('body'), E('body')], [S('ul'), S('li')], [S('table'), S('colgroup')], [S('math'), S('mi')], [S('pre'), S('img')], [S('listing'), ('comment', 'c')], [S('pre'), S('b'), E('b')]]


@scenario(quick=[dict(n=5)], thorough=[dict(n=6)], covers=('parse',), bounds='a text of n arbitrary legal characters (no carriage return) at twenty places, then </p>')
def texts(ctx, n):
    s = legal_text(ctx, 's', n)
    for c in s: ctx.assume(c != '\r')
    k = ctx.choice('place', len(PLACES))
    where = PLACES[k]
    if k in (10, 11, 12): 
        for c in s: ctx.assume(not (c in '<&'))
        judge(ctx, where + [('text', s), E(where[0][1]), X])
    else: judge(ctx, where + [('text', s), E('p'), S('i'), ('text', s)])


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('parse',),
          bounds='attribute names of n letters a..z, - or :, values of 0 or n arbitrary legal characters, on html, body, formatting elements (cloned, merged), SVG and MathML elements')
def attributes(ctx, n):
    a = ctx.text('a', n, ((0x61, 0x7a), (0x2d, 0x2d), (0x3a, 0x3a)))
    v, w = legal_text(ctx, 'v', n if ctx.bool('full') else 0), legal_text(ctx, 'w', 1)
    for c in v + w: ctx.assume(c != '\r')
    where = ctx.choice('where', 6)
    at = [(a, v), ('id', w)]
    ctx.assume(a != 'id')
    if where == 0: ps = [S('html', *at), S('html', (a, 'other'), ('new', v)), X]
    elif where == 1: ps = [S('body', *at), X, S('body', (a, 'other'), ('new', v))]
    elif where == 2: ps = [S('b', *at), S('p'), X, E('b'), X, S('b', *at), S('b', *at), S('b', (a, w), ('id', v)), S('b', *at), S('b', *at), E('p'), X]
    elif where == 3: ps = [S('svg', *at), S('g', (a, w), ('xlink:href', v), ('attributename', w)), S('foreignObject', *at), S('p', *at), X]
    elif where == 4: ps = [S('math', ('definitionurl', v), ('xml:lang', w), (a, w)), S('annotation-xml', ('encoding', v)), S('p', *at), X]
    else: ps = [S('o:p', ('xml:lang', v), ('xlink:href', w), *at), S('input', ('type', v), (a, w)), S('table'), S('input', ('type', v), (a, w)), X]
    judge(ctx, ps)


AROUND = [('comment', 'c'), ('text', ' '), ('doctype', 'html', None, None), ('doctype', 'other', '-//W3C//DTD HTML 4.01//EN', 'http://www.w3.org/TR/html4/strict.dtd'), ('doctype', 'p', None, 'about:legacy-compat'), E('p')]


@scenario(quick=[dict(n=4)], thorough=[dict(n=6)], covers=('parse', 'fragment'),
          bounds='every sequence of n pieces of six before the root: comments, space, doctypes of three names with and without identifiers; then <p>, with the same after it; use_xhtml_ns or not, as a fragment or not')
def around(ctx, n):
    a = tokens(ctx, n, AROUND)
    f = ctx.choice('fragment', 2)
    judge(ctx, a + ([S('html', ('k', legal_text(ctx, 'v', 1))), S('p')] if ctx.choice('html', 2) else [S('p')]) + [X, E('html')] + a[::-1], xhtml=not f and ctx.bool('xhtml'), fragment=bool(f))


LAX = [X, S('a'), E('a'), S('c', ('k', 'v')), E('c'), ('start', 'c', [], True), S('ns:a'), E('ns:a'), ('comment', 'c'), ('text', ' '), S('b'), E('b')]


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], covers=('lax', 'empty'), bounds='every sequence of up to n pieces of twelve read as lax XML')
def lax(ctx, n): judge(ctx, tokens(ctx, ctx.choice('n', n + 1), LAX), lax=True)


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('parse', 'lax'), bounds='text of n arbitrary legal characters given as text, UTF-8 bytes or a file of either, with the encoding named or (for text) not')
def sources(ctx, n):
    s, v = legal_text(ctx, 's', n), legal_text(ctx, 'v', 1)
    for c in s + v: ctx.assume(c != '\r')
    how = ctx.choice('how', 6)
    lax = ctx.bool('lax')
    judge(ctx, ([] if lax else [S('p'), ('text', s)]) + [S('a', ('k', v)), ('text', s), E('a')], lax=lax, encoding='utf-8' if how > 3 else None,
          given=[None, 'utf-8', None, 'utf-8', 'utf-8', 'UTF-8'][how], file=how in (2, 3, 5))


@scenario(quick=[dict(n=3)], thorough=[dict(n=4)], covers=('fragment', 'no body'), bounds='every sequence of n pieces of fifteen read with markup_fragment, as text or UTF-8 bytes')
def fragments(ctx, n):
    judge(ctx, tokens(ctx, n, STRUCT) + ([X] if ctx.bool('text') else []), fragment=True, encoding='utf-8' if ctx.bool('bytes') else None)


@scenario(quick=[dict(n=n) for n in (20, 70)], thorough=[dict(n=n) for n in (20, 70, 150)], covers=('parse',), steps=9000000,
          bounds='n elements nested or side by side, n attributes, texts of 300n characters, n misnested pieces, n rows; one arbitrary legal character in a text, another in an attribute value')
def long(ctx, n):
    c, d = legal_text(ctx, 'c', 1), legal_text(ctx, 'd', 1)
    for x in c + d: ctx.assume(x != '\r')
    T = ('text', c)
    k = ctx.choice('kind', 9)
    if k == 0: ps = [S(['div', 'ul', 'em'][i % 3], ('k', d) if i == n - 2 else ('n', str(i))) for i in range(n)] + [T, E('p'), X]
    elif k == 1: ps = [p for i in range(n) for p in (S('p', ('k', d if i == n - 2 else 'v')), T if i == n - 3 else X)]
    elif k == 2: ps = [S('p', *[('a%d' % i, d if i == n - 2 else str(i)) for i in range(n)]), T]
    elif k == 3: ps = [S('p'), ('text', 'x' * (300 * n) + c + 'y' * n), S('br'), ('text', ' ' * n + c), S('i')]
    elif k == 4: ps = [p for i in range(n // 4) for p in (S('b', ('k', d if i == 3 else 'v')), S('p'), T if i == 4 else X, E('b'), S('i'), E('p'))] + [X]
    elif k == 5: ps = [S('table')] + [p for i in range(n) for p in (S('tr'), S('td', ('k', d)) if i == n - 2 else S('td'), T if i == n - 3 else X)] + [E('table'), X]
    elif k == 6: ps = [S('select')] + [p for i in range(n) for p in (S('option', ('value', d)) if i == n - 2 else S('option'), T if i == n - 3 else X)] + [E('select'), X]
    elif k == 7: ps = [S('table')] + [p for i in range(n // 3) for p in (T if i == 4 else X, S('em'), ('comment', 'c'), E('em'))] + [E('table'), X]
    else: ps = [S('svg')] + [S('g', ('viewbox', d) if i == n - 2 else ('k', 'v')) for i in range(n)] + [T, S('p'), X]
    judge(ctx, ps)
