"""Import hook: loads selected modules from their current source through the instrumentation, and can reset their state."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import instr, rt, sym
from .yaccpatch import patch_yacc

AMARA_PATH = os.environ.get('VERIF_AMARA', '/opt/amara3-path')      # set only to try changed copies
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

INSTRUMENT = ('amara3.uxml', 'vprops')
EXTRA = {'xml.sax.saxutils', 'ply.lex', 'html5lib.treebuilders.base', 'html5lib.html5parser'}
functions = {}          # module -> list of functions instrumented
modules = {}


def wanted(name):
    return name in EXTRA or any(name == p or name.startswith(p + '.') for p in INSTRUMENT)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, ispkg):
        self.path, self.name, self.ispkg = path, name, ispkg

    def create_module(self, spec): return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f: src = f.read()
        code, funcs = instr.instrument(src, self.path, self.name)
        functions[self.name] = funcs
        modules[self.name] = module
        module.__dict__['_rt_'] = RTNS
        exec(code, module.__dict__)
        if self.name == 'html5lib.html5parser':
            from . import fakehtml
            fakehtml.register()

    def get_source(self, name):
        with open(self.path, encoding='utf-8') as f: return f.read()


class _NS: pass


RTNS = _NS()
for n in ('tick', 'enter', 'key', 'getitem', 'setitem', 'delitem', 'in_', 'eq', 'mkdict', 'mkset', 'call', 'callm'):
    setattr(RTNS, n, getattr(rt, n))
for n in ('fmt', 'fstr', 'mod', 'SymStr'):
    setattr(RTNS, n, getattr(sym, n))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not wanted(name): return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'): return spec
        ispkg = spec.submodule_search_locations is not None
        new = importlib.util.spec_from_file_location(name, spec.origin, loader=Loader(spec.origin, name, ispkg),
                                                     submodule_search_locations=spec.submodule_search_locations)
        return new


def install():
    sys.dont_write_bytecode = True
    for p in (VENV_SITE, AMARA_PATH, ROOT):
        if p in sys.path: sys.path.remove(p)
    sys.path.insert(0, ROOT)
    sys.path.insert(1, AMARA_PATH)
    sys.path.append(VENV_SITE)
    for n in EXTRA: sys.modules.pop(n, None)
    sys.meta_path.insert(0, Finder())
    patch_yacc()
    from . import fakexpat
    fakexpat.register()


# ------------------------------------------------------------ module state
_snap = []


def snapshot():
    """Remember the contents of every mutable container reachable from instrumented library modules."""
    global _snap
    _snap = []
    seen = set()
    mods = {n: m for n, m in modules.items() if n.startswith('amara3.')}
    names = set(mods)
    def owned(cls): return getattr(cls, '__module__', None) in names
    work = [m.__dict__ for m in mods.values()]
    first = set(map(id, work))
    caches = []
    while work:
        o = work.pop()
        if id(o) in seen: continue
        seen.add(id(o))
        t = type(o)
        if t is dict or (isinstance(o, dict) and t.__module__ == 'collections'):
            if len(o) < 3000:
                if id(o) not in first: _snap.append((o, dict(o)))
                else: _snap.append((o, dict(o)))
                for k, v in list(o.items()):
                    if k in ('__builtins__', '_rt_', '__spec__', '__loader__'): continue
                    work.append(v)
        elif t is list:
            if len(o) < 3000:
                _snap.append((o, list(o)))
                work.extend(o)
        elif t is set:
            _snap.append((o, set(o)))
        elif t is tuple:
            if len(o) < 3000: work.extend(o)
        elif t is types.FunctionType:
            if o.__module__ in names:
                if o.__defaults__: work.extend(o.__defaults__)
                if o.__kwdefaults__: work.extend(o.__kwdefaults__.values())
                if o.__closure__:
                    for c in o.__closure__:
                        try: work.append(c.cell_contents)
                        except ValueError: pass
                if o.__dict__: work.append(o.__dict__)
        elif isinstance(o, (staticmethod, classmethod)): work.append(o.__func__)
        elif isinstance(o, property): work.extend(x for x in (o.fget, o.fset, o.fdel) if x)
        elif isinstance(o, type):
            if owned(o):
                _snap.append((o, {k: v for k, v in o.__dict__.items() if not k.startswith('__')}))
                work.extend(o.__dict__.values())
        elif hasattr(o, 'cache_clear') and callable(o.cache_clear):
            caches.append(o)
            if hasattr(o, '__wrapped__'): work.append(o.__wrapped__)
        elif owned(t) and hasattr(o, '__dict__') and not issubclass(t, BaseException):
            import enum
            if not isinstance(o, enum.Enum): work.append(o.__dict__)
    for c in caches: _snap.append((c, None))


def restore():
    for o, s in _snap:
        if s is None: o.cache_clear()
        elif isinstance(o, list):
            if o != s if len(o) != len(s) else any(a is not b for a, b in zip(o, s)): o[:] = s
        elif isinstance(o, set):
            if o != s:
                o.clear()
                o.update(s)
        elif isinstance(o, type):
            cur = {k: v for k, v in o.__dict__.items() if not k.startswith('__')}
            for k in cur:
                if k not in s: delattr(o, k)
            for k, v in s.items():
                if cur.get(k, _none) is not v: setattr(o, k, v)
        else:
            same = len(o) == len(s)
            if same:
                for k, v in o.items():
                    if s.get(k, _none) is not v:
                        same = False
                        break
            if not same:
                o.clear()
                o.update(s)


_none = object()
