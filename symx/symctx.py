from .ctx import BaseCtx
from .engine import E, T, Abort, Hang, Violation
from .sym import mk
from . import iset, fakexpat, fakehtml


class SymCtx(BaseCtx):
    real = False
    Violation, Abort = Violation, Abort
    FULL = iset.FULL

    def __init__(self, guard_steps=60000):
        self.observed = []
        self.labels = set()
        self.nchecks = 0
        self.guard_steps = guard_steps

    def text(self, name, n, dom=iset.FULL):
        return mk([E.var('%s.%d' % (name, i), dom) for i in range(n)])

    def char(self, name, dom=iset.FULL):
        return mk([E.var(name, dom)])

    def choice(self, name, n): return E.choice(name, n)

    def int(self, name, lo, hi): return E.var(name, ((lo, hi),))

    def guard(self, fn, *a, **k):
        save, lim = E.steps, E.step_limit
        E.step_limit = E.steps + self.guard_steps
        try:
            return ('ok', fn(*a, **k))
        except Hang: return ('hang', None)
        except Exception as e:
            self.last_exc = e
            return ('err', type(e).__name__)
        finally:
            E.step_limit = lim
            E.steps = save

    def xml(self, events, complete=True):
        return fakexpat.source(events, complete)

    def xml_pieces(self, pieces, complete=True):
        return [fakexpat.source(p, complete and i == len(pieces) - 1) for i, p in enumerate(pieces)]

    def html(self, pieces, encoding=None):
        return fakehtml.source(pieces, encoding)
