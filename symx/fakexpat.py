"""Stand-in for xml.parsers.expat in symbolic runs.

A harness describes an XML document as a list of parser callbacks with symbolic names and text; the stand-in delivers exactly
these.  In replay on the real code the same description is written out as XML text and goes through the real expat."""
import pyexpat
from . import rt
from .sym import promote, conc


class Source(str):
    """A piece of XML source: a unique placeholder text with the callbacks that expat would make for it."""


_registry = {}


def source(events, final_ok, bytes_=False):
    n = len(_registry)
    text = '\x00xmlsrc%d\x00' % n
    s = Source(text)
    _registry[text] = (events, final_ok)
    return s


def plain(data): return bytes(data) if isinstance(data, (bytes, bytearray)) else conc(data)


def reset():
    _registry.clear()


class FakeParser:
    def __init__(self, encoding=None, namespace_separator=None, intern=None):
        self.sep = namespace_separator
        self.buffer_text = False
        self.ordered_attributes = False
        self.namespace_prefixes = False
        self.specified_attributes = False
        for h in ('StartElementHandler', 'EndElementHandler', 'CharacterDataHandler', 'StartNamespaceDeclHandler',
                  'EndNamespaceDeclHandler', 'CommentHandler', 'ProcessingInstructionHandler', 'DefaultHandler',
                  'StartCdataSectionHandler', 'EndCdataSectionHandler'):
            setattr(self, h, None)
        self.state = 'open'
        self.complete = False
        self.buf = []
        self.inbuf = ''
        self.finished = False
        self.real = None
        self.deferral = None
        self.made_with = (encoding, namespace_separator)

    def _flush(self):
        if self.buf:
            data = promote('').join(self.buf)
            self.buf = []
            if self.CharacterDataHandler: self.CharacterDataHandler(data)

    def _name(self, n):
        ns, local = n
        if self.sep is None: return local
        return ns + self.sep + local if ns is not None else local

    def _deliver(self, ev):
        k = ev[0]
        if k == 'text':
            if self.buffer_text: self.buf.append(ev[1])
            elif self.CharacterDataHandler: self.CharacterDataHandler(ev[1])
            return
        self._flush()
        if k == 'start':
            if self.StartElementHandler:
                pairs = [(self._name(n), v) for n, v in ev[2]]
                if self.ordered_attributes: at = [x for p in pairs for x in p]
                else: at = rt.mkdict(pairs)
                self.StartElementHandler(self._name(ev[1]), at)
        elif k == 'end':
            if self.EndElementHandler: self.EndElementHandler(self._name(ev[1]))
        elif k == 'ns':
            if self.sep is not None and self.StartNamespaceDeclHandler: self.StartNamespaceDeclHandler(ev[1], ev[2])
        elif k == 'endns':
            if self.sep is not None and self.EndNamespaceDeclHandler: self.EndNamespaceDeclHandler(ev[1])
        elif k == 'comment':
            if self.CommentHandler: self.CommentHandler(ev[1])
        elif k == 'error':
            self.state = 'error'
            raise pyexpat.ExpatError('not well-formed')

    def Parse(self, data, isfinal=False):
        if self.finished: raise pyexpat.ExpatError('parsing finished')
        if self.state == 'error': raise pyexpat.ExpatError('not well-formed')
        if self.real is None and len(data) and not self.inbuf and self.state == 'open' and not self.complete and plain(data)[:1] not in ('\x00', b'\x00'):
            self._go_real()
        if self.real is not None:
            if len(data): self.kind = type(plain(data))
            return self.real.Parse(plain(data) if len(data) else self.kind(), isfinal)
        if isinstance(data, bytes): data = data.decode('utf-8')
        if len(data):
            self.state = 'started'
            self.inbuf += conc(data)
            while True:
                # the code may cut or join the pieces as it likes
                a = self.inbuf.find('\x00')
                b = self.inbuf.find('\x00', a + 1) if a >= 0 else -1
                if b < 0: break
                key, self.inbuf = self.inbuf[a:b + 1], self.inbuf[b + 1:]
                events, self.complete = _registry[key]
                for ev in events: self._deliver(ev)
        if isfinal:
            self._flush()
            self.finished = True
            if not self.complete:
                self.state = 'error'
                raise pyexpat.ExpatError('no element found')
        return 1

    def _go_real(self):
        # A text that is no placeholder is read by expat itself
        encoding, sep = self.made_with
        self.real = pyexpat.ParserCreate(encoding, sep)
        for a in ('buffer_text', 'ordered_attributes', 'namespace_prefixes', 'specified_attributes'): setattr(self.real, a, getattr(self, a))
        if self.deferral is not None: self.real.SetReparseDeferralEnabled(self.deferral)
        for h in ('StartElementHandler', 'EndElementHandler', 'CharacterDataHandler', 'StartNamespaceDeclHandler', 'EndNamespaceDeclHandler', 'CommentHandler'):
            if getattr(self, h): setattr(self.real, h, lambda *a, h=h: getattr(self, h)(*a))

    def ParseFile(self, fp):
        while True:
            d = fp.read(65536)
            if isinstance(d, str) and len(d) and plain(d)[:1] != '\x00': raise TypeError('read() did not return a bytes object')
            if not d: break
            self.Parse(d, False)
        return self.Parse('', True)

    def SetReparseDeferralEnabled(self, on):
        self.deferral = bool(on)
        if self.real is not None: self.real.SetReparseDeferralEnabled(self.deferral)

    def GetReparseDeferralEnabled(self): return True if self.deferral is None else self.deferral

    def GetInputContext(self): return None
    def SetParamEntityParsing(self, x): return 1
    def UseForeignDTD(self, x=True): return None
    CurrentLineNumber = CurrentColumnNumber = CurrentByteIndex = 0


def register():
    rt.CALLS[pyexpat.ParserCreate] = FakeParser
