from symx.scen import registry
from amara3.uxml import parser as P
from amara3.uxml.parser import event
from amara3.uxml import xml
from . import mxdocs
from .trees import shaped
from .xmlev import callbacks
SCENARIOS, scenario = registry()
ASSUMPTIONS = ['Only events of inputs that are accepted, or delivered before an input is rejected, are judged.']


def snap(ev):
    if ev is None or not isinstance(ev, tuple): return ev
    return tuple(list(x.items()) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for x in ev)


def collector(acc, meddle):
    while True:
        ev = yield
        acc.append((ev, snap(ev)))
        if meddle and isinstance(ev, tuple):
            for x in ev:
                if isinstance(x, list):
                    x.append('?')
                    if len(x) > 2: del x[0]
                elif isinstance(x, dict):
                    x.clear()
                    x['?'] = '?'


def run(frags, acc, meddle):
    h = collector(acc, meddle)
    p = P.parser(h)
    for f in frags: p.send((f, False))
    p.send(('', True))
    p.close()
    h.close()


def run_xml(src, acc, meddle):
    xml.parse(src, collector(acc, meddle))


def judge(ctx, frags, meddle, src=None):
    acc = []
    st, _ = ctx.guard(run, frags, acc, meddle) if src is None else ctx.guard(run_xml, src, acc, meddle)
    ctx.check(st != 'hang', 'parsing does not end', None, frags)
    ctx.cover('accepted' if st == 'ok' else 'rejected')
    stack = []
    closed = False
    for ev, s in acc:
        if not meddle: ctx.check(snap(ev) == s, 'an event changed after delivery', None, frags, s, ev)
        ctx.check(isinstance(ev, tuple) and len(ev) > 0, 'not an event', None, frags, s)
        ctx.check(not closed, 'event after the document element', None, frags, s)
        k = s[0]
        if k == event.start_element:
            ctx.check(len(s) == 4 and s[3] == stack, 'start event has the wrong ancestors', None, frags, s, stack)
            ctx.check(isinstance(ev[2], dict), 'no attribute mapping', None, frags, s)
            stack.append(s[1])
        elif k == event.end_element:
            ctx.check(len(stack) > 0 and stack[-1] == s[1], 'end event does not match', None, frags, s, stack)
            stack.pop()
            ctx.check(len(s) == 3 and s[2] == stack, 'end event has the wrong open elements', None, frags, s, stack)
            if not stack: closed = True
            ctx.cover('end')
        elif k == event.characters:
            ctx.check(len(stack) > 0, 'characters outside the document element', None, frags, s)
            ctx.check(len(s) == 2 and isinstance(s[1], str) and len(s[1]) > 0, 'bad character event', None, frags, s)
        else: ctx.fail('unknown event', None, frags, s)
    if st == 'ok': ctx.check(closed and not stack, 'unbalanced events', None, frags, [s for e, s in acc])
    ctx.obs([s for e, s in acc])


@scenario(quick=[dict(n=7)], thorough=[dict(n=8)], covers=('accepted', 'rejected', 'end'), bounds='any text of n characters, whole')
def anytext(ctx, n):
    judge(ctx, [ctx.text('s', n)], False)


@scenario(quick=[dict(t=i) for i in range(len(mxdocs.TEMPLATES))], covers=('accepted', 'rejected', 'end'),
          bounds='each document family of vprops/mxdocs.py TEMPLATES (holes shortened to 2), whole or in fragments, with a passive consumer or one that alters every event it receives')
def templates(ctx, t):
    s = mxdocs.build(ctx, [p if isinstance(p, str) else min(p, 2) for p in mxdocs.TEMPLATES[t][1]])
    m = ctx.choice('mode', 4)
    if m < 2: judge(ctx, [s], m == 1)
    elif m == 2: judge(ctx, [s[i:i + 1] for i in range(len(s))], True)
    else: judge(ctx, [s[i:i + 3] for i in range(0, len(s), 3)], False)


@scenario(quick=[dict(t=i, big=b) for b in (0, 2) for i in range(12)], thorough=[dict(t=i, big=1) for i in range(12)], covers=('accepted', 'rejected', 'end'), steps=3000000,
          bounds='document families of vprops/mxdocs.py LONG')
def long(ctx, t, big):
    s = mxdocs.build(ctx, mxdocs.LONG(big)[t][1])
    k = [50, 50, 5000][big]
    judge(ctx, [s[i:i + k] for i in range(0, len(s), k)] if ctx.choice('frag', 2) else [s], ctx.bool('meddle'))


@scenario(quick=[dict(size=4)], thorough=[dict(size=6)], covers=('accepted', 'end'),
          bounds='every element tree of up to `size` elements with names from {a, b}, with and without attributes and text')
def shapes(ctx, size):
    n = [0]
    def element(budget):
        i = n[0]
        n[0] += 1
        nm = ctx.pick('name%d' % i, ['a', 'b'])
        out = '<' + nm + ctx.pick('at%d' % i, ['', ' x="%d" y="z"' % i]) + '>'
        kids = ctx.choice('kids%d' % i, min(budget, 3) + 1)
        rest = budget - kids
        for c in range(kids):
            sub, rest = element(rest)
            out += sub + ('t' if c == 1 else '')
        return out + '</' + nm + '>', rest
    s, _ = element(size - 1)
    judge(ctx, [s], ctx.bool('meddle'))


@scenario(quick=[dict(size=5)], thorough=[dict(size=6)], covers=('accepted', 'rejected', 'end'),
          bounds='events from the XML parser: every document of up to `size` elements and texts, with and without namespaces, complete or ended or broken at any callback')
def from_xml(ctx, size):
    A, B = 'urn:a', 'urn:b'
    def label(i): return ([None, A, B][i % 3 if i else ctx.choice('ns', 3)], 'ab'[ctx.choice('n%d' % i, 2)] if i else 'a'), [((None, 'x'), '1'), ((B, 'y'), '2')][:i % 3]
    data, n = shaped(ctx, size, label, lambda i: 't%d' % i)
    evs = callbacks(data, {A: 'p', B: None if data[0][0] != A else 'q'}, [])
    how = ctx.choice('how', 3)
    complete = True
    if how:
        starts = [i for i, e in enumerate(evs) if e[0] == 'start']
        ends = [i for i, e in enumerate(evs) if e[0] == 'end']
        cut = starts[0] + 1 + ctx.choice('cut', ends[-1] - starts[0])
        if evs[cut - 1][0] == 'ns': ctx.assume(False)
        evs, complete = evs[:cut] + ([('error',)] if how == 2 else []), False
    judge(ctx, data, ctx.bool('meddle'), ctx.xml(evs, complete))
