"""The harness interface, in its symbolic form (SymCtx) and its real form (RealCtx)."""


def plain(x):
    """Concrete nested-tuple form of an observed value."""
    from_val = getattr(x, 'val', None)
    if isinstance(x, bool) or x is None: return x
    if isinstance(x, int): return int(x)
    if isinstance(x, float): return repr(float(x))
    if isinstance(x, str): return ''.join(map(chr, map(ord, str.__getitem__(x, slice(None)))))
    if isinstance(x, bytes): return repr(x)
    if isinstance(x, (list, tuple)): return [plain(y) for y in x]
    if isinstance(x, dict): return [[plain(k), plain(v)] for k, v in x.items()]
    if type(x).__name__ == 'T' and from_val is not None: return from_val
    if isinstance(x, BaseException): return 'exc:' + type(x).__name__
    n = getattr(x, 'name', None)
    if n is not None and type(x).__name__ in ('event', 'state', 'token'): return str(n)
    return '<%s>' % type(x).__name__


class BaseCtx:
    def bool(self, name): return bool(self.choice(name, 2))

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def check(self, cond, msg, key=None, *details):
        self.nchecks += 1
        if not cond: self.fail(msg, key, *details)

    def fail(self, msg, key=None, *details):
        raise self.Violation(msg + ''.join(' | %r' % (plain(d),) for d in details), key)

    def assume(self, cond):
        if not cond: raise self.Abort()

    def obs(self, x): self.observed.append(plain(x))
    def cover(self, label): self.labels.add(label)


import signal, os, sys


class RealHang(BaseException):
    pass


class RealViolation(BaseException):
    def __init__(self, msg, key): self.msg, self.key = msg, key


class RealAbort(BaseException):
    pass


class RealCtx(BaseCtx):
    real = True
    Violation, Abort = RealViolation, RealAbort
    FULL = ((0, 0x10FFFF),)

    def __init__(self, asg, timeout=8.0):
        self.asg = asg
        self.observed = []
        self.labels = set()
        self.nchecks = 0
        self.timeout = timeout

    def text(self, name, n, dom=None):
        return ''.join(chr(self.asg['%s.%d' % (name, i)]) for i in range(n))

    def char(self, name, dom=None):
        return chr(self.asg[name])

    def choice(self, name, n):
        return self.asg[name] if n > 1 else 0

    def int(self, name, lo, hi):
        return self.asg[name]

    def guard(self, fn, *a, **k):
        def onalarm(*_): raise RealHang()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            r = fn(*a, **k)
            return ('ok', r)
        except RealHang: return ('hang', None)
        except Exception as e:
            self.last_exc = e
            return ('err', type(e).__name__)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def xml(self, events, complete=True):
        """XML text for a list of callbacks."""
        return xml_text(events)

    def xml_pieces(self, pieces, complete=True):
        """XML texts for lists of callbacks that make one document together."""
        w = _XmlWriter()
        return [xml_text(p, w) for p in pieces]

    def html(self, pieces, encoding=None):
        """HTML text for a list of pieces (see fakehtml.py); with an encoding, as bytes."""
        s = html_text(pieces)
        return s.encode(encoding) if encoding else s


def html_text(pieces):
    out, raw = [], False
    for p in pieces:
        k = p[0]
        if k == 'text': out.append(p[1] if raw else p[1].replace('&', '&amp;').replace('<', '&lt;'))
        elif k == 'start':
            out.append('<' + p[1] + ''.join(' %s="%s"' % (n, v.replace('&', '&amp;').replace('"', '&quot;')) for n, v in p[2]) + ('/' if p[3:] and p[3] else '') + '>')
            # tree construction decides whether text is raw; the harness keeps special characters out of such elements
        elif k == 'end': out.append('</%s>' % p[1])
        elif k == 'comment': out.append('<!--%s-->' % p[1])
        elif k == 'doctype':
            out.append('<!DOCTYPE ' + p[1] + (' PUBLIC "%s"' % p[2] if p[2] is not None else '') + (('' if p[2] is not None else ' SYSTEM') + ' "%s"' % p[3] if p[3] is not None else '') + '>')
    return ''.join(out)


def xml_esc(s, attr=False):
    out = []
    for c in s:
        if c in '<>&"' or (attr and c in '\t\n\r') or c == '\r': out.append('&#%d;' % ord(c))
        else: out.append(c)
    return ''.join(out)


class _XmlWriter:
    """Callback list -> XML text.  Keeps prefix bindings so that several pieces of one document can be written in turn."""
    def __init__(self):
        self.scopes = [{'xml': 'http://www.w3.org/XML/1998/namespace'}]
        self.pending = []
        self.n = 0

    def write(self, events):
        out = []
        for i, ev in enumerate(events):
            k = ev[0]
            if k == 'ns': self.pending.append((ev[1], ev[2]))
            elif k == 'endns': pass
            elif k == 'start':
                sc = dict(self.scopes[-1])
                decls = []
                for p, u in self.pending:
                    sc[p] = u
                    decls.append((p, u))
                self.pending = []
                def qn(n, attr=False):
                    ns, local = n
                    if ns is None:
                        return local
                    for p in sc:
                        if sc[p] == ns and (p is not None or not attr): return p + ':' + local if p else local
                    self.n += 1
                    p = 'g%d' % self.n
                    sc[p] = ns
                    decls.append((p, ns))
                    return p + ':' + local
                name = qn(ev[1])
                if ev[1][0] is None and sc.get(None):
                    sc[None] = ''
                    decls = [d for d in decls if d[0] is not None] + [(None, '')]
                ats = [(qn(n, True), v) for n, v in ev[2]]
                out.append('<' + name)
                for p, u in decls: out.append(' %s="%s"' % ('xmlns:' + p if p else 'xmlns', xml_esc(u or '', True)))
                for n, v in ats: out.append(' %s="%s"' % (n, xml_esc(v, True)))
                out.append('>')
                self.scopes.append((sc, name))
                self.scopes[-1] = sc
                self.names = getattr(self, 'names', [])
                self.names.append(name)
            elif k == 'end':
                self.scopes.pop()
                out.append('</%s>' % self.names.pop())
            elif k == 'text':
                # separate callbacks: an empty comment-like split is not possible without changing events; CDATA splits them
                out.append(xml_esc(ev[1]) if not (len(ev) > 2 and ev[2]) else '<![CDATA[' + ev[1] + ']]>')
            elif k == 'comment': out.append('<!--%s-->' % ev[1])
            elif k == 'error': out.append('<&')
        return ''.join(out)


def xml_text(events, writer=None):
    return (writer or _XmlWriter()).write(events)
