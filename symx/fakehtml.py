"""Stand-in for html5lib's tokenizer in symbolic runs.

A harness describes HTML text as a list of pieces with symbolic attribute values and text.  The library is given that text, symbolic characters and all;
when it gets to the tokenizer the stand-in gives html5lib's tree construction the tokens that the tokenizer makes of it.  Text without symbolic characters goes
to the real tokenizer, as does every text in replay on the real code.  Pieces: ('start', name, [(attr, value)], selfclosing), ('end', name), ('text', s),
('comment', s), ('doctype', name, public, system)."""
from . import rt
from .sym import conc, items_of, is_sym, mk

_registry = {}
_texts = []
SPACES = '\t\n\x0c \r'


def source(pieces, encoding=None):
    from .ctx import html_text
    if not any(is_sym(s) for p in pieces for s in ([v for kv in p[2] for v in kv] if p[0] == 'start' else [s for s in p[1:] if isinstance(s, str)])):
        s = html_text(pieces)
        return s.encode(encoding) if encoding else s
    if encoding:
        # bytes of symbolic text do not exist: a name for them
        key = '\x00htmlsrc%d\x00' % len(_registry)
        _registry[key] = (pieces, encoding)
        return key.encode('ascii')
    items = []
    for p in pieces:
        k = p[0]
        if k == 'text':
            for c in p[1]: items += items_of('&lt;' if rt.in_(c, '<') else '&amp;' if rt.in_(c, '&') else c)
        elif k == 'start':
            items += items_of('<' + conc(p[1]))
            # values stand as they are: a quotation mark in one does not end it when the text is found again in _texts
            for n, v in p[2]: items += items_of(' ') + items_of(n) + items_of('="') + items_of(v) + items_of('"')
            items += items_of('/>' if p[3:] and p[3] else '>')
        elif k == 'comment': items += items_of('<!--') + items_of(p[1]) + items_of('-->')
        else: items += items_of(html_text([p]))
    _texts.append((tuple(items), pieces))
    return mk(items)


def reset():
    _registry.clear()
    del _texts[:]


def identical(a, b): return len(a) == len(b) and all(x is y or (type(x) is int and type(y) is int and x == y) for x, y in zip(a, b))


def pieces_of(items):
    """Pieces of text with symbolic characters which is not, as a whole, one that a harness gave."""
    for t, pieces in _texts:
        if identical(t, items): return pieces
    out, text = [], []
    i, n = 0, len(items)
    def at(s): return tuple(items[i:i + len(s)]) == tuple(map(ord, s))
    def upto(s):
        j = i
        while j < n and tuple(items[j:j + len(s)]) != tuple(map(ord, s)): j += 1
        return j
    def flush():
        if text: out.append(('text', mk(text)))
        del text[:]
    while i < n:
        if at('&lt;') or at('&amp;'):
            text.append(ord('<' if at('&lt;') else '&'))
            i = upto(';') + 1
        elif at('<!--'):
            flush()
            j = upto('-->')
            out.append(('comment', mk(items[i + 4:j])))
            i = j + 3
        elif at('<!'): raise AssertionError('changed text with a doctype')
        elif at('</'):
            flush()
            j = upto('>')
            out.append(('end', conc(mk(items[i + 2:j]))))
            i = j + 1
        elif at('<'):
            flush()
            j = i + 1
            while j < n and items[j] not in (32, 47, 62): j += 1
            name, ats = conc(mk(items[i + 1:j])), []
            i = j
            while at(' '):
                i += 1
                j = upto('="')
                k, i = mk(items[i:j]), j + 2
                j = upto('"')
                ats.append((k, mk(items[i:j])))
                i = j + 1
            closed = at('/')
            i = upto('>') + 1
            out.append(('start', name, ats, closed))
        else:
            text.append(items[i])
            i += 1
    flush()
    return out


class Stream:
    charEncoding = (None, 'certain')

    def position(self): return (1, 0)

    def changeEncoding(self, enc): pass


class FakeTokenizer:
    def __init__(self, stream, parser=None, **kwargs):
        self.stream, self.parser = Stream(), parser
        if isinstance(stream, bytes):
            stream = stream.decode('ascii')
            enc = [kwargs.pop(k) for k in ('override_encoding', 'transport_encoding', 'same_origin_parent_encoding', 'likely_encoding', 'default_encoding') if k in kwargs]
            enc = enc[0] if enc else 'windows-1252'
            self.pieces, want = _registry[conc(stream)]
            if want.replace('-', '').lower() != enc.replace('-', '').lower(): raise AssertionError('decoded as %s, not %s' % (enc, want))
        else:
            if any(v is not None for v in kwargs.values()): raise TypeError('Cannot set an encoding with a unicode input')
            self.pieces = pieces_of(items_of(stream))
        self.state = self.dataState = 'data'
        self.rcdataState, self.rawtextState, self.scriptDataState, self.plaintextState = 'rcdata', 'rawtext', 'script', 'plaintext'

    def __iter__(self):
        from html5lib.constants import tokenTypes as T
        raw = None
        for p in self.pieces:
            k = p[0]
            if self.state != 'data' and not (k == 'text' or (k == 'end' and self.state != 'plaintext' and p[1].lower() == raw)):
                raise AssertionError('markup inside of raw text')
            if k == 'text':
                for t in self.text(p[1], T): yield t
            elif k == 'start':
                raw = p[1].lower()
                data = rt.mkdict([(n.lower(), v) for n, v in p[2]])
                yield {'type': T['StartTag'], 'name': raw, 'data': data, 'selfClosing': bool(p[3:] and p[3]), 'selfClosingAcknowledged': False}
            elif k == 'end':
                self.state = 'data'
                yield {'type': T['EndTag'], 'name': p[1].lower(), 'data': [], 'selfClosing': False}
            elif k == 'comment': yield {'type': T['Comment'], 'data': p[1]}
            elif k == 'doctype':
                yield {'type': T['Doctype'], 'name': p[1].lower(), 'publicId': p[2], 'systemId': p[3], 'correct': True}

    def text(self, s, T):
        if self.state in ('rawtext', 'script', 'plaintext'):
            if len(s): yield {'type': T['Characters'], 'data': s}
            return
        i, n = 0, len(s)
        while i < n:
            j = i + 1
            c = s[i]
            if rt.in_(c, SPACES):
                while j < n and rt.in_(s[j], SPACES): j += 1
                kind = 'SpaceCharacters'
            else:
                kind = 'Characters'
                if not rt.in_(c, '<&'):
                    while j < n and not rt.in_(s[j], '<&'): j += 1
            yield {'type': T[kind], 'data': s[i:j]}
            i = j


def tokenizer(stream, parser=None, **kwargs):
    from html5lib import _tokenizer
    if hasattr(stream, 'read'): stream = stream.read()
    if is_sym(stream) or (isinstance(stream, bytes) and stream.startswith(b'\x00htmlsrc')): return FakeTokenizer(stream, parser, **kwargs)
    return _tokenizer.HTMLTokenizer(bytes(stream) if isinstance(stream, bytes) else conc(stream), parser=parser, **kwargs)


def register():
    from html5lib import _tokenizer
    rt.CALLS[_tokenizer.HTMLTokenizer] = tokenizer
