"""Reference reader of MicroXPath expression text: text -> expression tuples of xpref, or Bad."""
import re

AXES = ('self', 'attribute', 'ancestor', 'ancestor-or-self', 'child', 'descendant', 'descendant-or-self', 'following', 'following-sibling', 'parent', 'preceding', 'preceding-sibling')
OPS = ('or', 'and', 'div', 'mod')
START = ((65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF),
         (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
REST = START + ((45, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040))
NAMESTART = re.compile('[%s]' % ''.join(['%s-%s' % (re.escape(chr(a)), re.escape(chr(b))) for a, b in START]))
NAMEREST = re.compile('[%s]' % ''.join(['%s-%s' % (re.escape(chr(a)), re.escape(chr(b))) for a, b in REST]))


class Bad(Exception):
    pass


def tokens(s):
    """Lazily: ('name', text), ('lit', text), ('num', text), or (symbol, symbol); ('end', '') at the end."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            i += 1
            continue
        if NAMESTART.match(c) is not None:
            j = i + 1
            while j < n and NAMEREST.match(s[j]) is not None: j += 1
            yield ('name', s[i:j])
            i = j
            continue
        if c in '"\'':
            j = s.find(c, i + 1)
            if j < 0: raise Bad('literal')
            yield ('lit', s[i + 1:j])
            i = j + 1
            continue
        if c in '0123456789' or c == '.' and i + 1 < n and s[i + 1] in '0123456789':
            j = i
            while j < n and s[j] in '0123456789': j += 1
            if j < n and s[j] == '.':
                j += 1
                while j < n and s[j] in '0123456789': j += 1
            yield ('num', s[i:j])
            i = j
            continue
        two = s[i:i + 2]
        hit = None
        for t in ('//', '..', '::', '!=', '<=', '>='):
            if two == t: hit = t
        if hit is None:
            for t in './@()[]|=<>+-,$*':
                if c == t: hit = t
        if hit is None: raise Bad('character')
        yield (hit, hit)
        i += len(hit)
    while True: yield ('end', '')


LEVEL = {'or': 1, 'and': 2, '=': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '+': 5, '-': 5, 'div': 6, 'mod': 6, '|': 8}
UMINUS = 7


class Parser:
    def __init__(self, text):
        self.toks = tokens(text)
        self.ahead = []
        self.saw_end = False         # more text might have changed the reading

    def peek(self, k=0):
        while len(self.ahead) <= k:
            self.ahead.append(next(self.toks))
            if self.ahead[-1][0] == 'end': self.saw_end = True
        return self.ahead[k]

    def take(self, kind=None):
        t = self.peek()
        if kind is not None and t[0] != kind: raise Bad('expected ' + kind)
        self.ahead.pop(0)
        return t

    def operator(self):
        """The binary operator that is next, if any."""
        k, t = self.peek()
        if k == 'name':
            for o in OPS:
                if t == o: return o
            return None
        return k if k in LEVEL and k not in OPS else None

    def expr(self, level=0):
        if self.peek()[0] == '-':
            self.take()
            left = ('neg', self.expr(UMINUS))
        else: left = self.postfix(self.primary())
        while True:
            o = self.operator()
            if o is None or LEVEL[o] <= level: return left
            self.take()
            left = ('bin', left, o, self.expr(LEVEL[o]))

    def postfix(self, e):
        while True:
            k = self.peek()[0]
            if k == '[':
                preds = []
                while self.peek()[0] == '[':
                    self.take()
                    preds.append(self.expr())
                    self.take(']')
                e = ('pred', e, preds)
            elif k in ('/', '//'):
                self.take()
                e = self.relative(e, k)
            else: return e

    def starts_step(self):
        return self.peek()[0] in ('name', '*', '.', '..', '@')

    def relative(self, left, sep):
        if left is not None:
            first = self.step()
            rel = ('path', left, sep, first)
        else: rel = self.step()
        while self.peek()[0] in ('/', '//'):
            k = self.take()[0]
            rel = ('path', rel, k, self.step())
        return rel

    def step(self):
        k, t = self.take()
        if k == '.': return ('dot',)
        if k == '..': return ('dotdot',)
        axis = 'child'
        if k == '@':
            axis = 'attribute'
            k, t = self.take()
        elif k == 'name' and self.peek()[0] == '::' and not any(t == o for o in OPS):
            if not any(t == a for a in AXES): raise Bad('axis')
            axis = t
            self.take()
            k, t = self.take()
        if k == '*': return ('step', axis, ('*',))
        if k != 'name': raise Bad('node test')
        if self.peek()[0] == '(':
            self.args()
            for nt in ('node', 'text'):
                if t == nt: return ('step', axis, (nt,))
            raise Bad('node test')
        return ('step', axis, ('name', t))

    def args(self):
        self.take('(')
        out = []
        if self.peek()[0] != ')':
            out.append(self.expr())
            while self.peek()[0] == ',':
                self.take()
                out.append(self.expr())
        self.take(')')
        return out

    def primary(self):
        k, t = self.peek()
        if k == '(': return ('seq', self.args())
        if k == 'lit':
            self.take()
            return ('lit', t)
        if k == 'num':
            self.take()
            return ('num', float(t) if '.' in t else int(t), t)
        if k == '$':
            self.take()
            return ('var', self.take('name')[1])
        if k in ('/', '//'):
            self.take()
            if k == '//' or self.starts_step(): return ('abs', k, self.relative(None, None))
            return ('abs', k, None)
        if k == 'name' and self.peek(1)[0] == '(':
            self.take()
            a = self.args()
            for nt in ('node', 'text'):
                if t == nt: return ('step', 'child', (nt,))
            return ('call', t, a)
        if self.starts_step(): return self.relative(None, None)
        raise Bad('expression')

    def whole(self):
        e = self.expr()
        self.take('end')
        return e


def parse(text):
    return Parser(text).whole()
