from symx.scen import registry
from amara3.uxml import tree, uxpath
from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
from .trees import make, shape, legal_text
from . import refmx, xpref
from .xpref import World, Root, Ref, child, num, same, show
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Variables are strings, numbers, booleans and nodes of the tree. The mapping of functions given is not empty. In symbolic runs a bytes object that decodes to '
               'the arbitrary text stands for the UTF-8 bytes; counterexamples and sampled paths are replayed with real bytes.']
STAR, TEXT = ('*',), ('text',)


def step(axis, test): return ('step', axis, test)
def call(f, *args): return ('call', f, list(args))
def each(seq, inner): return ('each', seq, inner)
def eq(a, b): return ('bin', a, '=', b)
def dot(): return ('dot',)
def v(n='v'): return ('var', n)
def att(n): return step('attribute', ('name', n))
def pred(e, *ps): return ('pred', e, list(ps))
def path(a, b): return ('path', a, '/', b)
def all_(n): return ('abs', '//', child(n))


class Eval(Ref):
    """Reference with functions of the caller, for-each and the position."""
    def __init__(self, world, vars=None, funcs=None, only=False):
        Ref.__init__(self, world, vars)
        self.funcs, self.only, self.pos = funcs or {}, only, None

    def ev(self, e, item):
        if e[0] == 'each':
            if self.only: raise LookupError('for-each')
            return [x for i in self.ev(e[1], item) for x in self.ev(e[2], i)]
        if e[0] == 'var' and e[1] not in self.vars: raise LookupError(e[1])
        if e[0] == 'call' and e[1] in self.funcs: return self.funcs[e[1]](self, item, e[2])
        if e[0] == 'call' and self.only: raise LookupError(e[1])
        if e[0] == 'pred':
            items = self.ev(e[1], item)
            for p in e[2]:
                kept = []
                for i, x in enumerate(items):
                    old, self.pos = self.pos, i + 1
                    val = xpref.first(self.ev(p, x))
                    self.pos = old
                    if isinstance(val, (int, float)) and not isinstance(val, (bool, str)): ok = val == i + 1
                    else: ok = xpref.toboolean(val)
                    if ok: kept.append(x)
                items = kept
            return items
        return Ref.ev(self, e, item)


def text(e):
    if e[0] == 'each':
        t = text(e[2])
        return 'for-each(%s, %s)' % (text(e[1]), '"%s"' % t if "'" in t else "'%s'" % t)
    if e[0] == 'seq': return '(' + ', '.join([text(x) for x in e[1]]) + ')'
    if e[0] == 'pred': return text(e[1]) + ''.join(['[' + text(p) + ']' for p in e[2]])
    if e[0] == 'path': return text(e[1]) + e[2] + text(e[3])
    if e[0] == 'call': return e[1] + '(' + ', '.join([text(x) for x in e[2]]) + ')'
    if e[0] == 'bin': return text(e[1]) + ' ' + e[2] + ' ' + text(e[3])
    if e[0] == 'neg': return '-' + text(e[1])
    return xpref.text(e)


def start(w, item, txt, vars, funcs):
    """Every way in: node method, qquery, parsed expression."""
    if item is None: item = w.roots[0]
    top = isinstance(item, Root)
    node = item.top if top else item
    return [lambda: list(node.xml_xpath(txt, vars=vars, funcs=funcs)), lambda: list(uxpath.qquery(node, txt, vars=vars, funcs=funcs)),
            lambda: list(uxpath.parse(txt).compute(uxpath.context(node, variables=vars, functions=funcs, force_root=top)))]


def judge(ctx, w, e, item, vars=None, rfuncs=None, funcs=None, only=False, *details):
    txt = text(e)
    try: want = Eval(w, vars, rfuncs, only).ev(e, item)
    except LookupError: want = None
    keys, fkeys = list((vars or {}).items()), list((funcs or {}).items())
    st, got = ctx.guard(start(w, item, txt, vars, funcs)[ctx.choice('entry', 3)])
    if want is None:
        ctx.check(st == 'err', 'an unknown variable or function is accepted', None, txt, got if st != 'ok' else show(got), *details)
        ctx.cover('unknown')
        return
    ctx.check(st == 'ok', 'evaluation failed', None, txt, got, *details)
    ctx.check(same(got, want), 'result differs', None, txt, show([item]), show(got), show(want), *details)
    ctx.check(list((vars or {}).items()) == keys and list((funcs or {}).items()) == fkeys, 'what was given is changed', None, txt)
    ctx.cover('result')
    ctx.obs(show(got))


def doc(c):
    return make(('r', [('x', c)], ['t', ('b', [('x', 'q')], [c, ('b', [], ['u'])]), ('a', [('x', c)], [('b', [], []), c]), ('b', [], ['1'])]))


VALUES = 10


def value(k, top, c):
    return [lambda: c, lambda: '', lambda: 'q', lambda: 2, lambda: 0, lambda: 1.0, lambda: True, lambda: False, lambda: top.xml_children[1], lambda: top.xml_children[0]][k]()


PLACES = [v(), ('seq', [v(), v('w'), v()]), eq(v(), v('w')), pred(child('b'), eq(dot(), v())), pred(all_('b'), v()), call('concat', v(), v('w')), call('string', v()),
          call('count', ('seq', [v(), v('w')])), ('neg', v()), each(all_('b'), v()), each(v(), call('string')), ('bin', v(), 'and', v('w')), ('bin', v(), 'or', v('w')),
          path(v(), child('b')), pred(('abs', '//', step('child', STAR)), eq(att('x'), v())), call('not', v()), call('substring', v('w'), v()), pred(v(), v('w')),
          pred(('seq', [v(), v('w'), num(3)]), eq(dot(), v())), each(child('b'), pred(child('b'), eq(call('string', v()), dot()))), call('boolean', pred(child('b'), v('w'))),
          ('path', child('a'), '/', pred(step('child', ('node',)), ('bin', dot(), '!=', v()))), ('abs', '/', pred(child('r'), eq(att('x'), v()))), each(v('w'), each(v(), ('seq', [v('w'), dot()])))]


@scenario(quick=[dict()], thorough=[dict(more=1)], covers=('result',), steps=600000,
          bounds='24 expressions with variables in every kind of place, two variables, each one of 10 values (strings with an arbitrary character, empty, numbers, booleans, an element, a text); '
                 'from the root or an element inside; asked of a node, through qquery or of a parsed expression')
def variables(ctx, more=0):
    c = ctx.text('c', 1)
    for x in c: ctx.assume(refmx.legal(x))
    top = doc(c)
    w = World(top)
    e = PLACES[ctx.choice('place', len(PLACES))]
    item = [w.roots[0], top.xml_children[2], top.xml_children[1]][ctx.choice('item', 3)]
    i = ctx.choice('v', VALUES)
    ctx.assume(e[0] != 'path' or e[1] != v() or i >= 8)  # steps start at nodes
    j = ctx.choice('w', VALUES) if more else (i * 3 + 1 + 4 * ctx.choice('w', 2)) % VALUES
    vars = {'v': value(i, top, c), 'w': value(j, top, c)}
    judge(ctx, w, e, item, vars, None, None, False, c)


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], covers=('result', 'unknown'), steps=600000,
          bounds='variable and function names of n arbitrary name characters, two given and one asked for (equal to neither, one or both)')
def names(ctx, n):
    def nm(k):
        s = ctx.text(k, n)
        for i, c in enumerate(s): ctx.assume((refmx.NAMESTART if i == 0 else refmx.NAMEREST).match(c) is not None and refmx.NONCHAR.match(c) is None)
        return s
    a, q = nm('a'), nm('q')
    b = a + 'b' if ctx.choice('longer', 2) else 'b'
    top = doc('c')
    w = World(top)
    kind = ctx.choice('kind', 3)
    if kind == 0:
        e = [v(q), pred(child('r'), eq(att('x'), v(q))), each(all_('b'), v(q))][ctx.choice('e', 3)]
        judge(ctx, w, e, w.roots[0], {a: 'one', b: 'two'} if ctx.choice('some', 2) else None, None, None, False, a, q)
    else:
        # node and text are the names of tests
        ctx.assume(q not in ('node', 'text', 'or', 'and', 'div', 'mod'))
        one, two = (lambda c, *args: iter(['one'])), (lambda c, *args: iter(['two', 'two']))
        ones, twos = (lambda r, item, args: ['one']), (lambda r, item, args: ['two', 'two'])
        # functions given take the place of the ones built in
        judge(ctx, w, call(q) if kind == 1 else call(q, num(1)), w.roots[0], None, {a: ones, b: twos}, {a: one, b: two}, True, a, q)


def items(ctx, a):
    return list(a.compute(ctx)) if hasattr(a, 'compute') else [a]


def reals():
    def here(ctx): yield ctx.item
    def back(ctx, *args):
        for a in args[::-1]: yield from items(ctx, a)
    def none(ctx, *args): return iter(())
    def pos(ctx): yield ctx.pos
    def var(ctx): yield ctx.variables['v']
    def other(ctx, name): yield from ctx.functions[items(ctx, name)[0]](ctx)
    def count(ctx, *args): yield len(args)
    def lst(ctx, a): return [x for x in items(ctx, a)]
    return dict(here=here, back=back, none=none, pos=pos, var=var, other=other, count=count, lst=lst)


def refs():
    return dict(here=lambda r, item, args: [item], back=lambda r, item, args: [x for a in args[::-1] for x in r.ev(a, item)], none=lambda r, item, args: [],
                pos=lambda r, item, args: [r.pos], var=lambda r, item, args: [r.vars['v']], other=lambda r, item, args: r.funcs[args[0][1]](r, item, []),
                count=lambda r, item, args: [len(args)], lst=lambda r, item, args: r.ev(args[0], item))


def lit(s): return ('lit', s)


CALLS = [lambda c: call('here'), lambda c: call('back', lit(c), v(), child('b')), lambda c: call('none'), lambda c: pred(all_('b'), eq(call('pos'), num(2))), lambda c: pred(all_('b'), call('pos')),
         lambda c: pred(child('b'), eq(call('here'), lit(c))), lambda c: each(all_('b'), call('here')), lambda c: call('back', call('back', child('b'), num(1)), lit(c)),
         lambda c: call('count', child('b'), child('b'), lit(c)), lambda c: call('var'), lambda c: each(child('b'), call('var')), lambda c: call('other', lit('here')),
         lambda c: path(call('here'), step('child', STAR)), lambda c: path(call('lst', all_('b')), step('child', TEXT)), lambda c: pred(call('back', num(1), child('b')), eq(dot(), lit('1'))),
         lambda c: eq(call('back', lit('q'), lit(c)), lit('q')), lambda c: call('back', call('none'), call('here'), call('none')), lambda c: ('seq', [call('here'), call('none'), call('lst', ('seq', [num(1), num(1)]))]),
         lambda c: pred(child('b'), call('none')), lambda c: pred(all_('b'), pred(('path', child('b'), '/', dot()), eq(call('pos'), num(1)))), lambda c: call('back', ('bin', child('b'), '|', child('a')), att('x')),
         lambda c: each(('seq', [num(1), lit(c), child('b')]), call('here')), lambda c: path(path(call('back', child('a'), child('b')), step('child', STAR)), ('dotdot',)), lambda c: ('neg', call('back', num(1), num(2))),
         lambda c: call('count'), lambda c: each(child('b'), call('other', lit('here'))), lambda c: pred(pred(all_('b'), ('bin', call('pos'), '>', num(1))), call('pos'))]


@scenario(quick=[dict()], thorough=[dict()], covers=('result', 'unknown'), steps=600000,
          bounds='27 expressions calling functions of the caller (yielding the context item, its position, a variable, other functions, none, one or several items, their arguments) in every kind of place, with the built-in ones or alone')
def functions(ctx):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F), (32, 33)))
    top = doc(c)
    w = World(top)
    e = CALLS[ctx.choice('call', len(CALLS))](c)
    item = [w.roots[0], top.xml_children[1], top.xml_children[2]][ctx.choice('item', 3)]
    only = ctx.choice('only', 2)
    mine = reals()
    funcs = mine if only else dict(BUILTIN_FUNCTIONS, **mine)
    judge(ctx, w, e, item, {'v': c}, refs(), funcs, bool(only), c)


EACH = [each(all_('b'), call('name')), each(child('b'), child('b')), each(step('child', STAR), ('dotdot',)), each(child('b'), each(step('child', ('node',)), call('string'))), each(('seq', []), lit('x')),
        each(('seq', [num(1), lit(''), call('false'), lit('a'), child('b')]), dot()), each(child('b'), ('seq', [])), each(child('b'), ('abs', '/', child('r'))), each(att('x'), ('dotdot',)),
        pred(each(child('b'), step('child', TEXT)), num(2)), call('count', each(all_('b'), ('seq', [num(1), num(2)]))), each(pred(child('b'), num(2)), call('string')), path(each(child('b'), child('b')), step('parent', STAR)),
        pred(step('child', STAR), eq(each(child('b'), call('name')), lit('b'))), each(v(), v('w')), each(('seq', [v('w'), v()]), call('concat', dot(), v('w'))), each(step('child', STAR), num(1)), each(dot(), each(child('a'), step('ancestor', STAR))),
        each(('bin', child('a'), '|', child('b')), call('count', step('preceding-sibling', STAR)))]


@scenario(quick=[dict()], thorough=[dict()], covers=('result',), steps=600000,
          bounds='19 uses of for-each: over nodes, attributes, values and nothing, nested, inside predicates, paths and calls, with variables; the expression written in place or given as a variable')
def foreach(ctx):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    top = doc(c)
    w = World(top)
    e = EACH[ctx.choice('each', len(EACH))]
    item = [w.roots[0], top.xml_children[1], top.xml_children[2]][ctx.choice('item', 3)]
    vars = {'v': top.xml_children[2], 'w': c}
    if e[0] == 'each' and ctx.choice('given', 2):
        vars['e'] = text(e[2])
        want = Eval(w, vars).ev(e, item)
        txt = 'for-each(%s, $e)' % text(e[1])
        st, got = ctx.guard(start(w, item, txt, vars, None)[ctx.choice('entry', 3)])
        ctx.check(st == 'ok' and same(got, want), 'result differs', None, txt, text(e[2]), show(got) if st == 'ok' else got, show(want))
        ctx.cover('result')
        return
    judge(ctx, w, e, item, vars, None, None, False, c)


class Bytes(bytes):
    """Stands for the UTF-8 bytes of a symbolic text."""
    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') in ('utf-8', 'utf8'): return self.text
        return str(self.text).encode('utf-8').decode(encoding, errors)


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('str', 'bytes', 'node'), steps=900000,
          bounds='a document with n arbitrary characters in an attribute and in texts, queried as text, as UTF-8 bytes or as a tree with one of 9 expressions')
def sources(ctx, n):
    c = legal_text(ctx, 'c', n)
    data = ('r', [('x', c)], [('b', [], [c]), 'é', ('b', [('y', '\u20ac')], [c, ('b', [], [])]), c])
    top = make(data)
    exprs = ['r/b', '//text()', 'string(/)', '//@x', 'count(//b)', "//b[@y='\u20ac']/b", '/', '$v', '//b/ancestor::*']
    ast = [path(child('r'), child('b')), ('abs', '//', step('child', TEXT)), call('string', ('abs', '/', None)), ('abs', '//', att('x')), call('count', all_('b')),
           path(pred(all_('b'), eq(att('y'), lit('\u20ac'))), child('b')), ('abs', '/', None), v(), ('path', all_('b'), '/', step('ancestor', STAR))]
    k = ctx.choice('expr', len(exprs))
    how = ['str', 'bytes', 'node'][ctx.choice('how', 3)]
    txt = top.xml_encode()
    if how == 'str': src = txt
    elif how == 'bytes':
        if ctx.real: src = txt.encode('utf-8')
        else:
            src = Bytes()
            src.text = txt
    else: src = top
    x = uxpath.parse(exprs[k]) if ctx.choice('parsed', 2) else exprs[k]
    st, got = ctx.guard(lambda: list(uxpath.qquery(src, x, vars={'v': c})))
    w = World(top)
    want = Eval(w, {'v': c}).ev(ast[k], w.roots[0])
    ctx.check(st == 'ok', 'the query fails', None, how, exprs[k], txt, got)
    def plain(i):
        if isinstance(i, Root): return ('/', shape(i.top))
        if isinstance(i, uxpath.xast.root_node): return ('/', shape(i.xml_children[0]))
        if isinstance(i, (xpref.Attr, uxpath.xast.attribute_node)): return ('@', str(i.name if isinstance(i, xpref.Attr) else i.xml_name), i.value if isinstance(i, xpref.Attr) else i.xml_value)
        return shape(i) if isinstance(i, (tree.element, str)) else i
    g, m = [plain(i) for i in got], [plain(i) for i in want]
    ctx.check(g == m, 'the query gives something else', None, how, exprs[k], txt, g, m)
    ctx.cover(how)
    ctx.obs(g)


BAD = [b'<r>\xe9</r>', b'<r x="\xff"></r>', b'<r>\xc3</r>', b'<r>\xed\xa0\x80</r>', b'<r>\xc0\xbc</r>', b'<r></r>\x80', b'\xff\xfe<\x00r\x00>\x00', b'<\xe9></\xe9>', b'<r>\xf4\x90\x80\x80</r>']


@scenario(quick=[dict(n=1)], thorough=[dict(n=2)], covers=('good', 'bad', 'bytes'), steps=900000,
          bounds='a document with n arbitrary characters put in (at two places) or in place of others, as text or as UTF-8 bytes, and nine byte strings that are not UTF-8, with one of four expressions: an error if it is ill-formed')
def broken(ctx, n):
    k = ctx.choice('expr', 4)
    txt = ['string(/)', '$v', 'count(/)', 'r/b'][k]
    bad = ctx.choice('bad', 3)
    if bad == 2:
        src = ctx.pick('bytes', BAD)
        st, got = ctx.guard(lambda: list(uxpath.qquery(src, txt, vars={'v': 'v'})))
        ctx.check(st == 'err', 'bytes that are not UTF-8 are accepted', None, src, txt, got)
        ctx.cover('bytes')
        return
    s = '<r a="1"><b>t</b>u</r>'
    for i in range(n):
        at = ctx.choice('at%d' % i, len(s))
        s = s[:at] + ctx.text('c%d' % i, 1) + s[at + ctx.choice('over%d' % i, 2):]
    try: evs = refmx.events(s)
    except refmx.Ill: evs = None
    for x in s: ctx.assume(not ('\ud800' <= x <= '\udfff'))
    src = s
    if bad:
        if ctx.real: src = s.encode('utf-8')
        else:
            src = Bytes()
            src.text = s
    st, got = ctx.guard(lambda: list(uxpath.qquery(src, txt, vars={'v': 'v'})))
    if evs is None:
        ctx.check(st == 'err', 'a query over an ill-formed document gives something', None, s, txt, got)
        ctx.cover('bad')
        return
    ctx.check(st == 'ok', 'the query fails', None, s, txt, got)
    ctx.cover('good')
    if k == 0: ctx.check(''.join([str(x) for x in got]) == ''.join([e[1] for e in evs if e[0] == 'T']), 'the query gives something else', None, s, txt, show(got))
    else: ctx.check(len(got) == 1 if k < 3 else True, 'the query gives something else', None, s, txt, show(got))
    ctx.obs(len(got))


def lookup_ref(tables):
    def f(r, item, args):
        t, k = [xpref.tostring(xpref.first(r.ev(a, item))) for a in args]
        return [tables[t][k]] if t in tables and k in tables[t] else []
    return {'lookup': f}


def lk(a, b): return call('lookup', a, b)


LOOKS = [lambda q, c: lk(lit('t'), lit(q)), lambda q, c: lk(lit(q), lit('k')), lambda q, c: each(all_('b'), lk(lit('t'), att('x'))), lambda q, c: pred(step('child', STAR), eq(lk(lit('t'), att('x')), lit(q))),
         lambda q, c: call('concat', lk(v(), lit(q)), lk(lit('u'), v())), lambda q, c: lk(lk(lit('u'), lit('t')), lit(q)), lambda q, c: ('seq', [lk(lit('t'), lit(q)), lk(lit('u'), lit(q)), lit('.')]),
         lambda q, c: pred(all_('b'), ('call', 'boolean', [lk(lit('t'), dot())])), lambda q, c: path(lk(lit('n'), lit(q)), child('b')), lambda q, c: lk(lit('t'), num(1)), lambda q, c: eq(lk(lit('t'), lit(q)), lk(lit('u'), lit(q))),
         lambda q, c: pred(all_('b'), pred(step('ancestor', STAR), lk(lit('t'), att('x')))), lambda q, c: each(pred(step('child', STAR), lk(lit('t'), att('x'))), lk(v(), lit(q))), lambda q, c: lk(child('zz'), child('zz'))]


@scenario(quick=[dict(n=1)], thorough=[dict(n=1), dict(n=2)], covers=('result',), steps=600000,
          bounds='14 uses of lookup() in every kind of place, three tables (and none), two of them with a key of n arbitrary characters, asked for a table or key of n arbitrary characters; values are strings, numbers, nodes, false and the empty string')
def lookups(ctx, n):
    r = ((32, 33), (97, 122), (0x100, 0x17F))
    c, q = ctx.text('c', n, r), ctx.text('q', n, r)
    top = doc(c)
    w = World(top)
    tables = {'t': {c: ctx.pick('value', ['one', '', 2, False, top.xml_children[1]]), '1': c}, 'u': {c: 'two', 't': 't'}, 'n': {c: top.xml_children[2]}, '': {'': 'empty'}}
    if not ctx.choice('tables', 4): tables = {}
    k = ctx.choice('look', len(LOOKS))
    e = LOOKS[k](q, c)
    txt = text(e)
    item = [w.roots[0], top.xml_children[1], top.xml_children[2]][ctx.choice('item', 3)]
    want = Eval(w, {'v': 't'}, lookup_ref(tables)).ev(e, item)
    was = [(t, list(d.items())) for t, d in tables.items()]
    is_top = isinstance(item, Root)
    node = item.top if is_top else item
    st, got = ctx.guard(lambda: list(uxpath.parse(txt).compute(uxpath.context(node, variables={'v': 't'}, lookuptables=tables, force_root=is_top))))
    ctx.check(st == 'ok', 'evaluation failed', None, txt, got)
    ctx.check(same(got, want), 'result differs', None, txt, c, show([item]), show(got), show(want))
    ctx.check([(t, list(d.items())) for t, d in tables.items()] == was, 'the tables are changed', None, txt)
    ctx.cover('result')
    ctx.obs(show(got))


AGAIN = [('$v', v()), ("concat($v, here())", call('concat', v(), call('here'))), ("//b[. = $v]", pred(all_('b'), eq(dot(), v()))), ("lookup('t', $v)", lk(lit('t'), v())),
         ("for-each(//b, 'here()')", each(all_('b'), call('here'))), ("count(//b[here()])", call('count', pred(all_('b'), call('here')))), ("string(/)", call('string', ('abs', '/', None))),
         ("(here(), $v, lookup('t', 'k'))", ('seq', [call('here'), v(), lk(lit('t'), lit('k'))])), ("//b | $v/..", ('bin', all_('b'), '|', path(v(), ('dotdot',)))), ("/r/b[$p]", pred(path(('abs', '/', child('r')), child('b')), v('p')))]


@scenario(quick=[dict(n=2)], thorough=[dict(n=3)], covers=('again', 'copy'), steps=900000,
          bounds='one parsed expression out of 10 evaluated n+1 times; before each time but the first one of seven changes: variables, functions or tables altered in place or other mappings given, the other tree or node, by new contexts or copies of the first '
                 'one; what is given stays in use for all contexts ("extras" is shared)')
def contexts(ctx, n):
    c = ctx.text('c', 1, ((97, 122), (0x100, 0x17F)))
    one, two = doc(c), doc('z')
    w = World(one, two)
    k = ctx.choice('expr', len(AGAIN))
    txt, e = AGAIN[k]
    p = uxpath.parse(txt)
    def f1(ctx, *a): yield 'one'
    def f2(ctx, *a): yield c
    def f3(ctx, *a): yield from ()
    def first_fn(j): return lambda r, item, args: [['one'], [c], []][j]
    vals = [one.xml_children[1], 'k', two.xml_children[1]] if k == 8 else ['k', c, 2]
    if k == 8: vals = [one.xml_children[1], two.xml_children[2], one.xml_children[2]]
    vars, extras = {'v': vals[0], 'p': 1}, {}
    funcs = dict(BUILTIN_FUNCTIONS, here=f1)
    fn = 0
    tables = {'t': {'k': 'uno', c: 'dos'}}
    node = one
    item = w.roots[0]
    base = uxpath.context(one, variables=vars, functions=funcs, lookuptables=tables, extras=extras)
    cur = base
    copies = ctx.choice('copies', 2)
    for i in range(n + 1):
        if i:
            op = ctx.choice('op%d' % i, 7)
            if op == 0:
                vars['v'] = vals[i % 2 + 1]
                vars['p'] = 2
            elif op == 1:
                fn = 1 + i % 2
                funcs['here'] = [f1, f2, f3][fn]
            elif op == 2:
                tables['t'][c] = 'tres'
                tables['t']['k'] = c
                tables['t'][2] = 'no'
            elif op == 3: node, item = two, w.roots[1]
            elif op == 4: vars = {'v': vals[1 + i % 2], 'p': 2}
            elif op == 5:
                fn = 2
                funcs = dict(BUILTIN_FUNCTIONS, here=f3)
            else: tables = {'t': {'k': 'cuatro', c: 'q'}, 'u': {}}
            if copies:
                ctx.cover('copy')
                top = uxpath.context(node).item
                if op in (0, 1, 2): pass
                elif op == 3: cur = cur.copy(item=top)
                elif op == 4: cur = cur.copy(variables=vars)
                elif op == 5: cur = cur.copy(functions=funcs)
                else: cur = cur.copy(lookuptables=tables)
            else: cur = uxpath.context(node, variables=vars, functions=funcs, lookuptables=tables, extras=extras)
        rf = lookup_ref(tables)
        rf['here'] = first_fn(fn)
        if k == 8:
            # nodes of two trees: each tree by itself
            want = Eval(w, vars, rf).ev(('seq', [e[1], e[3]]), item)
            st, got = ctx.guard(lambda: list(p.compute(cur)))
            ctx.check(st == 'ok' and all(any(same([g], [x]) for x in want) for g in got) and all(any(same([g], [x]) for g in got) for x in want), 'result differs', None, txt, i, show(got) if st == 'ok' else got, show(want))
        else:
            want = Eval(w, vars, rf).ev(e, item)
            st, got = ctx.guard(lambda: list(p.compute(cur)))
            ctx.check(st == 'ok' and same(got, want), 'result differs', None, txt, i, show(got) if st == 'ok' else got, show(want))
        if i: ctx.cover('again')
        ctx.obs(show(got))
    # the first context as it was given
    rf = {'here': first_fn(fn)}
    if base is not cur and k == 0:
        st, got = ctx.guard(lambda: list(p.compute(base)))
        ctx.check(st == 'ok' and same(got, [base.variables['v']]), 'the first context changed', None, txt, got)
