"""Runs the repository's command line program (exec/microx) from its current source, symbolically or for real.

Its files and web pages are the sources given, standard output is recorded; nothing outside is read or written."""
import argparse
import os
import sys
import types
import urllib.request

_code = {}


def path():
    import amara3.uxml
    return os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(amara3.uxml.__file__)))), 'exec', 'microx')


class Out:
    """A text file that only remembers."""
    def __init__(self): self.text, self.closed = '', False

    def write(self, s):
        if self.closed: raise ValueError('I/O operation on closed file.')
        self.text = self.text + s if len(self.text) else s
        return len(s)

    def writelines(self, lines):
        for l in lines: self.write(l)

    def flush(self): pass
    def close(self): self.closed = True


class In:
    """A file with the source given; a list is read in pieces."""
    def __init__(self, data, mode='r'):
        self.pieces = [p for p in (data if isinstance(data, list) else [data]) if len(p)]
        self.mode, self.closed = mode, False

    def read(self, n=-1):
        if self.closed: raise ValueError('I/O operation on closed file.')
        out = ''
        if n is None or n < 0:
            for p in self.pieces: out = out + p
            self.pieces = []
        elif self.pieces:
            out = self.pieces.pop(0)
            if 0 < n < len(out) and 'b' not in self.mode: raise NotImplementedError
        if 'b' in self.mode and type(out) is str: out = out.encode('utf-8')
        if 'b' in self.mode and 0 < (n or 0) < len(out):
            self.pieces.insert(0, out[n:].decode('utf-8'))
            out = out[:n]
        return out

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter([self.read()])


def namespace(ctx, name, opener):
    p = path()
    with open(p, encoding='utf-8') as f: src = f.read()
    g = {'__name__': name, '__file__': p, '__builtins__': __builtins__}
    if ctx.real:
        code = compile(src, p, 'exec')
        str_ = str
    else:
        from . import instr, load
        if (p, src) not in _code:
            code, funcs = instr.instrument(src, p, 'microx')
            load.functions['microx'] = funcs
            _code[p, src] = code
        code = _code[p, src]
        g['_rt_'] = load.RTNS
        from . import rt
        str_ = lambda x: rt.call(str, x)

    def print_(*args, sep=' ', end='\n', file=None, flush=False):
        out = ''
        for i, a in enumerate(args): out = out + ('' if i == 0 else ' ' if sep is None else sep) + str_(a)
        (sys.stdout if file is None else file).write(out + ('\n' if end is None else end))
    g['print'] = print_
    g['open'] = opener
    return g, code


def library(ctx):
    """The functions of the program."""
    g, code = namespace(ctx, 'microx', None)
    exec(code, g)
    return types.SimpleNamespace(**g)


def main(ctx, argv, files, written=None):
    """Runs the command with the arguments; files: name or URL -> source.  Returns what it printed; written: name -> Out, for files opened for writing."""
    opened = []

    def opener(name, mode='r', *a, **k):
        if 'w' in mode:
            if written is None or name in written: raise PermissionError(name)
            written[name] = Out()
            return written[name]
        if name not in files: raise FileNotFoundError(name)
        f = In(files[name], mode)
        opened.append(f)
        return f
    g, code = namespace(ctx, '__main__', opener)
    saved = sys.argv, sys.stdout, sys.stderr, urllib.request.urlopen
    out = Out()
    sys.argv, sys.stdout, sys.stderr = ['microx'] + list(argv), out, Out()
    urllib.request.urlopen = lambda url, *a, **k: opener(url, 'rb')
    argparse.open = opener      # for FileType
    try:
        try: exec(code, g)
        except SystemExit as e: raise RuntimeError('exit %s' % (e.code,))
    finally:
        sys.argv, sys.stdout, sys.stderr, urllib.request.urlopen = saved
        del argparse.open
    return out.text
