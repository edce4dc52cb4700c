"""XML documents as lists of XML-parser callbacks (see symx/fakexpat.py), built from plain trees whose names are (namespace, local)."""
from . import refmx

LETTERS = ((65, 90), (95, 95), (97, 122), (0xE0, 0xEF), (0x3B1, 0x3C9))


def local_name(ctx, name, n):
    """n characters of an NCName: letters, then letters, digits, '-' and '.'."""
    s = ctx.text(name + 'h', 1, LETTERS)
    return s + ctx.text(name + 'r', n - 1, ((45, 46), (48, 57)) + LETTERS) if n > 1 else s


def ns_name(ctx, name, n):
    """A namespace name with n arbitrary legal characters, except the space, which the XML parser itself refuses."""
    s = ctx.text(name, n)
    for c in s: ctx.assume(refmx.legal(c) and c != ' ')
    return 'urn:' + s


def callbacks(d, prefixes, out, bound=(), chop=None):
    """Plain tree -> callbacks.  Each namespace is declared on the first element that needs it (with the prefix in `prefixes`)."""
    if isinstance(d, str):
        for p in (chop(d) if chop else [d]): out.append(('text', p))
        return out
    need = []
    for ns in [d[0][0]] + [k[0] for k, v in d[1]]:
        if ns is not None and ns not in bound and ns not in need: need.append(ns)
    for ns in need: out.append(('ns', prefixes[ns], ns))
    out.append(('start', d[0], d[1]))
    for c in d[2]: callbacks(c, prefixes, out, bound + tuple(need), chop)
    out.append(('end', d[0]))
    for ns in need[::-1]: out.append(('endns', prefixes[ns]))
    return out


def stripped(d):
    """The same tree with local names, adjacent text joined."""
    if isinstance(d, str): return d
    kids = []
    for c in d[2]:
        c = stripped(c)
        if isinstance(c, str):
            if len(c) == 0: continue
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1] + c
                continue
        kids.append(c)
    return (d[0][1], [(k[1], v) for k, v in d[1]], kids)
