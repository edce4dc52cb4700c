from symx.scen import registry
from amara3.uxml import tree, uxpath
from .trees import make
from . import xpref, xpparse
from .xpref import World, Ref, run, same, show
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Where the reading of a text makes a step start from a value that is not a node, or uses an operator or function the library does not implement, only its '
               'acceptance is compared. node and text with arguments are read as if without. The top element is the context of half of the evaluations, the root of the others.']
AL = tuple([(ord(c), ord(c)) for c in 'a/.*@()[]|=<-1,$"'])


class Unsure(Exception):
    pass


class SafeRef(Ref):
    """Gives up where the meaning is not defined."""
    def ev(self, e, item):
        k = e[0]
        if k in ('step', 'dotdot', 'abs') and not xpref.is_node(item): raise Unsure()
        if k == 'bin' and e[2] in ('+', '-', 'div', 'mod'): raise Unsure()
        if k == 'var' and e[1] not in self.vars: raise Unsure()
        if k == 'call':
            if e[1] != 'a': raise Unsure()
            return [x for a in e[2] for x in self.ev(a, item)] + ['call']
        return Ref.ev(self, e, item)

    def below_path(self, items):
        if not all([xpref.is_node(x) for x in items]): raise Unsure()
        return items

    def union(self, items):
        if not all([xpref.is_node(x) for x in items]): raise Unsure()
        return Ref.union(self, items)


def doc(c='a'):
    return make(('a', [('a', '1')], ['1', ('a', [], ['a', ('b', [('a', 'a')], [])]), ('b', [], [('a', [('b', '1')], ['1'])]), ('a', [], [])]))


def fn_a(ctx, *args):
    for x in args:
        yield from x.compute(ctx)
    yield 'call'


def judge(ctx, text, w=None):
    try: e = xpparse.parse(text)
    except xpparse.Bad: e = None
    st, p = ctx.guard(uxpath.parse, text)
    ctx.check(st != 'hang', 'the parser hangs', None, text)
    ctx.check((st == 'ok') == (e is not None), 'accepted' if st == 'ok' else 'rejected', None, text)
    if e is None:
        ctx.cover('bad')
        return None, None
    ctx.check(p is not None and hasattr(p, 'compute'), 'no expression', None, text)
    ctx.cover('good')
    w = w or World(doc())
    vars = {'a': w.roots[0].top.xml_children[2]}
    for item in (w.roots[0], w.roots[0].top):
        try: want = SafeRef(w, vars).ev(e, item)
        except Unsure: return e, p
        def go(): return list(p.compute(uxpath.context(xpref.real_item(w, item), variables=vars, functions={'a': fn_a}, force_root=False)))
        st, got = ctx.guard(go)
        ctx.check(st == 'ok' and same(got, want), 'evaluates differently', None, text, show([item]), show(got) if st == 'ok' else got, show(want))
        ctx.obs(show(got))
        if want: ctx.cover('value')
    return e, p


@scenario(quick=[dict(n=n) for n in range(6)], thorough=[dict(n=n) for n in range(7)], covers=('good', 'bad', 'value'), steps=600000,
          bounds='every text of n characters among a / . * @ ( ) [ ] | = < - 1 , $ "')
def texts(ctx, n):
    judge(ctx, ctx.text('s', n, AL))


WORDS = ['a', 'b', 'or', 'and', '.', '..', '*', '@', '/', '//', '(', ')', '[', ']', '|', '=', '!=', '<=', '>', '-', '1', "'x'", ',', '$', 'self', '::', 'text()', 'parent', 'div', '+']


@scenario(quick=[dict(n=4)], thorough=[dict(n=5)], covers=('good', 'value'), steps=600000,
          bounds='every sequence of n words out of 30 (names, or and div, every operator, axis names, ::, literals, brackets), which starts as an expression can')
def words(ctx, n):
    # the first word decides early; the rest are decided by a prefix that can still be read
    out = []
    for k in range(n):
        out.append(WORDS[ctx.choice('w%d' % k, len(WORDS))])
        if k < n - 1: ctx.assume(viable(out))
    judge(ctx, ' '.join(out))


def viable(ws):
    """Can the words be the beginning of an expression?  (False only if surely not.)"""
    p = xpparse.Parser(' '.join(ws))
    try: p.whole()
    except xpparse.Bad: return p.saw_end
    return True


TEMPLATES = ["a %s b", "a[%s 1]", "//a %s b[1]/a", "-a %s 1", "a %s -1", "(a %s b)/b", "a(a, 1 %s 2)", "@a %s a or 1 = 2", "a and b %s a", "$a/a %s b | a", "'1' %s a[1] = 1"]


@scenario(quick=[dict(k=1), dict(k=2)], thorough=[dict(k=1), dict(k=2), dict(k=3)], covers=('good', 'value'), steps=600000,
          bounds='up to 3 binary operators of every kind between operands of every kind: precedence and grouping without parentheses')
def precedence(ctx, k):
    ops = ['or', 'and', '=', '!=', '<', '<=', '>', '>=', '|', '+']
    opers = ['a', '1', '-1', '@a', 'a[1]', "'1'", '$a/a', '()', '-a[1]', '//a', 'a[1]/b', '/', '(a)', '-@a | b', '..', 'text()', 'a[a][1]', '/a/b[1]', '.']
    first = 19 if k == 1 else 8 if k == 2 else 5
    t = opers[ctx.choice('x0', first)]
    for i in range(k): t = t + ' ' + ops[ctx.choice('o%d' % i, len(ops))] + ' ' + opers[ctx.choice('x%d' % (i + 1), first)]
    judge(ctx, t)


@scenario(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)], covers=('good', 'bad', 'name'), steps=600000,
          bounds='n arbitrary characters (all of Unicode) as a whole expression, as a name after / or @ or $, between a and b, inside quotes, after a number')
def characters(ctx, n):
    s = ctx.text('s', n)
    k = ctx.choice('where', 9)
    t = [lambda: s, lambda: '/' + s, lambda: '@' + s, lambda: '$' + s, lambda: 'a' + s + 'b', lambda: '"' + s + '"', lambda: "'" + s + "'", lambda: '1' + s, lambda: s + '::a'][k]()
    e, p = judge(ctx, t)
    if e is not None and k == 1: ctx.cover('name')


@scenario(quick=[dict()], thorough=[dict()], covers=('good', 'bad'), steps=600000,
          bounds='white space of 0-2 arbitrary characters at every gap of seven expressions; a text that is read after one that is rejected')
def spaces(ctx):
    toks = [['a', '[', '1', ']', '/', 'b'], ['-', 'a', '|', '@', 'a', '=', "'1'"], ['self', '::', 'a', '//', 'text', '(', ')'], ['a', '(', '1', ',', '$', 'a', ')'],
            ['(', ')', '!=', '.5'], ['..', '/', '.', '/', '*'], ['/', 'or', ' or ', 'and']][ctx.choice('e', 7)]
    gap = ctx.choice('gap', len(toks) + 1)
    s = ctx.text('s', 1 + ctx.choice('two', 2))
    if ctx.choice('after', 2):
        for bad in ('a[', '"x', 'a b', '\x00'): ctx.guard(uxpath.parse, bad)
    judge(ctx, ''.join(toks[:gap]) + s + ''.join(toks[gap:]))


@scenario(quick=[dict()], thorough=[dict()], covers=('good', 'bad', 'value'), steps=2000000,
          bounds='tokens and expressions far longer than tests try (10 to 300 repetitions): names, literals, digits before and after the point, parentheses, predicates, steps, minus signs, operands, arguments, blanks; an arbitrary character at the end')
def long(ctx):
    m = [10, 19, 40, 70, 300][ctx.choice('m', 5)]
    k = ctx.choice('kind', 16)
    if k in (5, 6, 7, 8, 9, 10, 11, 12): m = min(m, 40)
    c = ctx.text('c', 1, AL)
    t = ['a' * m + c, "'" + 'a' * m + c + "'", '1' * m + c + '0', '0' * m + '7' + c, '.' + '3' * m + c, '(' * m + c + ')' * m, 'a' + '[a]' * m + c, 'a/' * m + c, '-' * m + '1' + c,
         'a|' * m + c, '1=' * m + c, 'a(' + '1,' * m + c + ')', 'a[' * m + c + ']' * m, ' ' * m + 'a' + ' ' * m + c, '$' + 'a' * m + c, 'a' + ' or a' * min(m, 40) + c][k]
    judge(ctx, t)


PAIRS = [("'a%sb'", "'a%sb'"), ('"%s"', '"%s"'), ('a%s', 'a%s'), ("'a' = '%s'", "'a' = '%s'"), ("'%s'", '"%s"'), ('%s', ' %s'), ('/%s', '//%s'), ('1%s', '01%s'), ('a[%s]', 'a [ %s ]'), ('@%s', '%s')]


@scenario(quick=[dict(n=1)], thorough=[dict(n=1), dict(n=2)], covers=('good', 'value'), steps=600000,
          bounds='two texts read one after the other, alike but for n arbitrary characters or the white space in them (10 shapes), then the first again; each means what it says')
def similar(ctx, n):
    a, b = PAIRS[ctx.choice('pair', len(PAIRS))]
    dom = ((9, 13), (32, 32), (34, 36), (39, 42), (46, 50), (65, 66), (97, 98), (0xA0, 0xA0), (0x3000, 0x3000))
    s, t = ctx.text('s', n, dom), ctx.text('t', n, dom)
    one, two = a % s, b % t
    w = World(doc())
    judge(ctx, one, w)
    judge(ctx, two, w)
    judge(ctx, one, w)
