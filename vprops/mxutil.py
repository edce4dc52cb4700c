"""Helpers around the MicroXML parser for the harnesses."""
from amara3.uxml import parser as P
from amara3.uxml.parser import parse, parsefrags, event


def simple(evs):
    """Parser events -> ('S', name, [(attr, value)]), ('E', name), ('T', text), adjacent text joined."""
    out = []
    for e in evs:
        if e[0] == event.start_element: out.append(('S', e[1], list(e[2].items())))
        elif e[0] == event.end_element: out.append(('E', e[1]))
        elif e[0] == event.characters:
            if out and out[-1][0] == 'T': out[-1] = ('T', out[-1][1] + e[1])
            else: out.append(('T', e[1]))
        else: out.append(('?', e))
    return out


def whole(text): return list(parse(text))
def split(frags): return list(parsefrags(frags))
