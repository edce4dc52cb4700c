"""Independent reference for the MicroXML subset this library accepts: text -> list of events, or Ill.

Grammar (MicroXML, Community Group draft; no comments, processing instructions, empty-element tags; white space after "<" and
after "</" (and between "<" and "/") is tolerated, which the library's own tests pin).  Events: ('S', name, [(attr, value)...]),
('E', name), ('T', text) with adjacent text joined.
"""
import re

NAMESTART = re.compile('[A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef'
                       '\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff]')
NAMEREST = re.compile('[-.0-9A-Z_a-z\xb7\xc0-\xd6\xd8-\xf6\xf8-\u037d\u037f-\u1fff\u200c\u200d\u203f\u2040\u2070-\u218f\u2c00-\u2fef'
                      '\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff]')
NONCHAR = '[\ufdd0-\ufdef\ufffe\uffff' + ''.join('%c%c' % (p * 0x10000 + 0xfffe, p * 0x10000 + 0xffff) for p in range(1, 17)) + ']'
NONCHAR = re.compile(NONCHAR)
CHAR = re.compile('[\t\n -~\xa0-\ud7ff\ue000-\U0010ffff]')
HEX = '0123456789abcdefABCDEF'
NAMED = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}


class Ill(Exception):
    """Not a well-formed document."""


def legal(c):
    """May c appear in a document (raw or through a reference)?"""
    return CHAR.match(c) is not None and NONCHAR.match(c) is None


def norm(s):
    out = []
    prev = ''
    for c in s:
        if c == '\r': out.append('\n')
        elif c == '\n' and prev == '\r': pass
        else: out.append(c)
        prev = c
    return ''.join(out)


def skip(s, i):
    while i < len(s) and s[i] in ' \t\n': i += 1
    return i


def need(s, i):
    if i >= len(s): raise Ill('end of input')
    return s[i]


def name(s, i, xml=False):
    if not (NAMESTART.match(need(s, i)) or (xml and s[i] == ':')): raise Ill('name')
    j = i + 1
    while j < len(s) and (NAMEREST.match(s[j]) or (xml and s[j] == ':')): j += 1
    return s[i:j], j


def reference(s, i, xml=False):
    """s[i-1] was '&'."""
    if need(s, i) == '#':
        if xml and need(s, i + 1) != 'x':
            v = 0
            i += 1
            if s[i] == ';': raise Ill('reference')
            while need(s, i) != ';':
                if s[i] not in '0123456789': raise Ill('reference')
                v = v * 10 + '0123456789'.index(s[i])
                i += 1
            c = chr(v)
            if c != '\r' and not legal(c): raise Ill('reference')
            return c, i + 1
        if need(s, i + 1) != 'x': raise Ill('reference')
        i += 2
        v = 0
        n = 0
        while need(s, i) in HEX:
            d = HEX.index(s[i])
            v = v * 16 + (d if d < 16 else d - 6)
            n += 1
            i += 1
        if s[i] != ';' or n == 0 or v > 0x10ffff: raise Ill('reference')
        c = chr(v)
        if not legal(c): raise Ill('reference')
        return c, i + 1
    for nm in NAMED:
        if s[i:i + len(nm) + 1] == nm + ';': return NAMED[nm], i + len(nm) + 1
    raise Ill('reference')


def events(s, xml=False):
    """xml: also allow what XML has beyond MicroXML: colons in names, decimal references, empty-element tags."""
    s = norm(s)
    out = []
    stack = []
    i = skip(s, 0)
    if need(s, i) != '<': raise Ill('text before the document element')
    while True:
        # s[i] == '<'
        i = skip(s, i + 1)
        if need(s, i) == '/':
            i = skip(s, i + 1)
            nm, i = name(s, i, xml)
            i = skip(s, i)
            if need(s, i) != '>': raise Ill('end tag')
            i += 1
            if not stack or stack.pop() != nm: raise Ill('mismatch')
            out.append(('E', nm))
            if not stack: break
        else:
            nm, i = name(s, i, xml)
            ats = []
            while True:
                j = skip(s, i)
                if need(s, j) == '>' or (xml and s[j:j + 2] == '/>'): break
                if j == i: raise Ill('space')
                an, i = name(s, j, xml)
                i = skip(s, i)
                if need(s, i) != '=': raise Ill('=')
                i = skip(s, i + 1)
                q = need(s, i)
                if q != '"' and q != "'": raise Ill('quote')
                i += 1
                v = []
                while need(s, i) != q:
                    c = s[i]
                    i += 1
                    if c == '&':
                        c, i = reference(s, i, xml)
                        v.append(c)
                    elif c in '<>' or not legal(c): raise Ill('attribute value')
                    elif c in '\t\n': v.append(' ')
                    else: v.append(c)
                i += 1
                for an0, v0 in ats:
                    if an0 == an: raise Ill('duplicate')
                ats.append((an, ''.join(v)))
            i = j + 1
            out.append(('S', nm, ats))
            if s[j] == '/':
                i += 1
                out.append(('E', nm))
                if not stack: break
            else: stack.append(nm)
        t = []
        while need(s, i) != '<':
            c = s[i]
            i += 1
            if c == '&': c, i = reference(s, i, xml)
            elif c == '>' or not legal(c): raise Ill('text')
            t.append(c)
        if t and out[-1][0] == 'T': out[-1] = ('T', out[-1][1] + ''.join(t))
        elif t: out.append(('T', ''.join(t)))
    if skip(s, i) != len(s): raise Ill('after the document element')
    return out


def tree(evs):
    """Events -> (name, [(attr, value)], [children]), text children as strings."""
    stack = [(None, [], [])]
    for e in evs:
        if e[0] == 'S':
            n = (e[1], e[2], [])
            stack[-1][2].append(n)
            stack.append(n)
        elif e[0] == 'E': stack.pop()
        else: stack[-1][2].append(e[1])
    return stack[0][2][0]
