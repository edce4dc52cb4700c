"""Concolic execution engine: one process-wide run state E, path recording, branch flipping with z3.

A run executes a harness with a concrete assignment of the symbolic inputs.  Every decision that depends on a symbolic
input is recorded as (condition, outcome).  After the run, for every recorded decision the engine asks z3 whether the
path prefix with the opposite outcome is satisfiable; each satisfiable one is a new run.  When no unexplored satisfiable
prefix is left, every value of every input within the harness's bounds has been covered by some explored path.
"""
import time
import z3
from . import iset


class Abort(BaseException):
    """The path is outside the harness's assumptions."""


class Hang(BaseException):
    """Step limit reached."""


class Violation(BaseException):
    def __init__(self, msg, key):
        self.msg, self.key = msg, key


class Unsupported(BaseException):
    pass


class T:
    """A symbolic integer (usually a code point): value in this run, structural key, variables."""
    __slots__ = ('val', 'key', 'vars')

    def __init__(self, val, key, vars):
        self.val, self.key, self.vars = val, key, vars

    # arithmetic
    def _bin(self, op, other, rev=False):
        if isinstance(other, (float, complex)):
            c = E.concretize(self)
            x, y = (other, c) if rev else (c, other)
            return x + y if op == '+' else x - y if op == '-' else x * y
        if isinstance(other, T):
            ov, ok, ovs = other.val, other.key, other.vars
        elif isinstance(other, bool) or not isinstance(other, int):
            return NotImplemented
        else:
            ov, ok, ovs = other, ('c', other), frozenset()
        a, b = (ov, self.val) if rev else (self.val, ov)
        ka, kb = (ok, self.key) if rev else (self.key, ok)
        v = a + b if op == '+' else a - b if op == '-' else a * b
        return T(v, (op, ka, kb), self.vars | ovs)

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __neg__(self): return self._bin('-', 0, True)
    def __pos__(self): return self

    def __eq__(self, o):
        if isinstance(o, (int, T)): return E.eq(self, o)
        if isinstance(o, float): return E.eq(self, int(o)) if o == o and abs(o) < 1e300 and o == int(o) else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o): return E.cmp('lt', self, o) if not isinstance(o, float) else E.concretize(self) < o
    def __le__(self, o): return E.cmp('le', self, o) if not isinstance(o, float) else E.concretize(self) <= o
    def __gt__(self, o): return E.cmp('lt', o, self) if not isinstance(o, float) else E.concretize(self) > o
    def __ge__(self, o): return E.cmp('le', o, self) if not isinstance(o, float) else E.concretize(self) >= o
    def __bool__(self): return not E.eq(self, 0)
    def __hash__(self): return hash(self.val)
    def __index__(self): return E.concretize(self)
    def __int__(self): return E.concretize(self)
    def __float__(self): return float(E.concretize(self))
    def _div(self, op, o):
        """By a positive constant: floor division and remainder are those of SMT-LIB."""
        if isinstance(o, int) and not isinstance(o, (bool, T)) and o > 0:
            return T(self.val // o if op == '//' else self.val % o, (op, self.key, ('c', o)), self.vars)
        c = E.concretize(self)
        return c // o if op == '//' else c % o

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0 and not o & (o + 1): return self._div('%', o + 1)
        return E.concretize(self) & conc_int(o)

    __rand__ = __and__
    def __or__(self, o): return E.concretize(self) | conc_int(o)
    __ror__ = __or__
    def __xor__(self, o): return E.concretize(self) ^ conc_int(o)
    __rxor__ = __xor__
    def __invert__(self): return -1 - self
    def __rshift__(self, o): return self._div('//', 1 << conc_int(o))
    def __lshift__(self, o): return self * (1 << conc_int(o))
    def __rrshift__(self, o): return o >> E.concretize(self)
    def __rlshift__(self, o): return o << E.concretize(self)
    def __rpow__(self, o): return o ** E.concretize(self)
    def __floordiv__(self, o): return self._div('//', o)
    def __truediv__(self, o): return E.concretize(self) / o
    def __mod__(self, o): return self._div('%', o)
    def __rfloordiv__(self, o): return o // E.concretize(self)
    def __rtruediv__(self, o): return o / E.concretize(self)
    def __rmod__(self, o): return o % E.concretize(self)
    def __pow__(self, o): return E.concretize(self) ** o
    def __divmod__(self, o): return self // o, self % o
    def __abs__(self): return abs(E.concretize(self))
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __round__(self, n=None): return self
    def __repr__(self): return 'T(%r)' % (self.val,)


def conc_int(x): return E.concretize(x) if isinstance(x, T) else x


def termkey(x):
    return x.key if isinstance(x, T) else ('c', x)


def termval(x):
    return x.val if isinstance(x, T) else x


def termvars(x):
    return x.vars if isinstance(x, T) else frozenset()


# ---------------------------------------------------------------- z3 encoding
_zc = {}


def z_term(key):
    r = _zc.get(key)
    if r is None:
        k = key[0]
        if k == 'v': r = z3.Int(key[1])
        elif k == 'c': r = z3.IntVal(key[1])
        elif k == '+': r = z_term(key[1]) + z_term(key[2])
        elif k == '-': r = z_term(key[1]) - z_term(key[2])
        elif k == '*': r = z_term(key[1]) * z_term(key[2])
        elif k == '//': r = z_term(key[1]) / z_term(key[2])
        elif k == '%': r = z_term(key[1]) % z_term(key[2])
        else: raise ValueError(key)
        _zc[key] = r
    return r


def z_in(t, ivs):
    if not ivs: return z3.BoolVal(False)
    return z3.Or([t == lo if lo == hi else z3.And(t >= lo, t <= hi) for lo, hi in ivs])


def z_cond(cond):
    r = _zc.get(cond)
    if r is None:
        k = cond[0]
        if k == 'in': r = z_in(z_term(cond[1]), cond[2])
        elif k == 'eq': r = z3.And([z_term(a) == z_term(b) for a, b in cond[1]])
        elif k == 'lt': r = z_term(cond[1]) < z_term(cond[2])
        elif k == 'le': r = z_term(cond[1]) <= z_term(cond[2])
        else: raise ValueError(cond)
        _zc[cond] = r
    return r


class Stats:
    FIELDS = ('runs', 'paths', 'aborted', 'branches', 'flips', 'feasible', 'infeasible', 'unknown', 'z3_queries', 'memo_hits',
              'implied', 'checks', 'concretized', 'truncated', 'diverged', 'known')

    def __init__(self):
        for f in self.FIELDS: setattr(self, f, 0)
        self.z3_time = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['z3_time'] = self.z3_time
        return d


class Engine:
    def __init__(self):
        self.stats = Stats()
        self.memo = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 10000)
        self.active = False
        self.steps = 0
        self.step_limit = 200000
        self.covers = set()
        self.entered = set()
        self.reset({}, 0, None)

    def reset(self, assignment, bound, expect):
        self.asg = assignment
        self.bound = bound
        self.expect = expect       # (cond, outcome) expected at index bound-1
        self.trace = []            # (cond, outcome, vars, kind)
        self.facts = {}
        self.dom = {}              # var -> current interval set implied by this path
        self.initdom = {}
        self.vars = {}
        self.steps = 0
        self.obs = []
        self.labels = set()
        self.incomplete = None
        self.scale = 1
        self.nchecks = 0

    # ---- inputs
    def var(self, name, dom, default=None):
        v = self.vars.get(name)
        if v is not None: return v
        dom = iset.norm(dom)
        val = self.asg.get(name)
        if val is None:
            val = default if default is not None and iset.contains(dom, default) else iset.pick(dom)
            self.asg[name] = val
        v = T(val, ('v', name), frozenset((name,)))
        self.vars[name] = v
        self.dom[name] = self.initdom[name] = dom
        return v

    def choice(self, name, n):
        """An integer input 0..n-1, decided at once (all alternatives become runs)."""
        if name in self.vars: raise Unsupported('choice %s asked twice' % name)
        if n <= 1: return 0
        v = self.var(name, ((0, n - 1),), 0)
        val = v.val
        cond = ('in', v.key, ((val, val),))
        self.trace.append((cond, True, v.vars, n))
        self.dom[name] = ((val, val),)
        self.stats.branches += 1
        self._expect_choice(name, val)
        return val

    def _expect_choice(self, name, val):
        if len(self.trace) == self.bound and self.expect is not None:
            c, o = self.expect
            if c != ('in', ('v', name), ((val, val),)) or not o:
                self.stats.diverged += 1
                self.incomplete = 'diverged'

    # ---- decisions
    def branch(self, cond, val, vars):
        f = self.facts.get(cond)
        if f is not None: return f
        self.facts[cond] = val
        self.trace.append((cond, val, vars, 0))
        self.stats.branches += 1
        if len(self.trace) == self.bound and self.expect is not None:
            if self.expect != (cond, val):
                self.stats.diverged += 1
                self.incomplete = 'diverged'
        return val

    def isin(self, t, ivs):
        """Is the symbolic integer t in the interval set?"""
        key = t.key
        if key[0] == 'v':
            name = key[1]
            d = self.dom[name]
            yes = iset.inter(d, ivs)
            if not yes:
                self.stats.implied += 1
                return False
            if yes == d:
                self.stats.implied += 1
                return True
            val = iset.contains(yes, t.val)
            cond = ('in', key, ivs)
            self.branch(cond, val, t.vars)
            self.dom[name] = yes if val else iset.diff(d, ivs)
            return val
        return self.branch(('in', key, ivs), iset.contains(ivs, t.val), t.vars)

    def isin_all(self, ts, ivs):
        """Are all of the given items in the set?  One decision for the conjunction (each open variable separately)."""
        for t in ts:
            if isinstance(t, int):
                if not iset.contains(ivs, t): return False
            elif not self.isin(t, ivs): return False
        return True

    def eq(self, a, b):
        return self.alleq(((a, b),))

    def alleq(self, pairs):
        open_ = []
        for a, b in pairs:
            if a is b: continue
            ta, tb = isinstance(a, T), isinstance(b, T)
            if not ta and not tb:
                if a != b: return False
                continue
            if ta and tb:
                if a.key == b.key: continue
                if a.key[0] == 'v' and b.key[0] == 'v':
                    da, db = self.dom[a.key[1]], self.dom[b.key[1]]
                    i = iset.inter(da, db)
                    if not i:
                        self.stats.implied += 1
                        return False
                    if da == db and len(da) == 1 and da[0][0] == da[0][1]: continue
            else:
                t, c = (a, b) if ta else (b, a)
                if t.key[0] == 'v':
                    d = self.dom[t.key[1]]
                    if not iset.contains(d, c):
                        self.stats.implied += 1
                        return False
                    if len(d) == 1 and d[0] == (c, c): continue
            open_.append((a, b))
        if not open_: return True
        if len(open_) == 1:
            a, b = open_[0]
            if not isinstance(a, T): a, b = b, a
            if not isinstance(b, T): return self.isin(a, ((b, b),))
        keys = []
        vars = frozenset()
        val = True
        for a, b in open_:
            ka, kb = termkey(a), termkey(b)
            if kb < ka: ka, kb = kb, ka
            keys.append((ka, kb))
            vars = vars | termvars(a) | termvars(b)
            if termval(a) != termval(b): val = False
        keys = tuple(sorted(set(keys)))
        known = ('eq', keys) in self.facts
        r = self.branch(('eq', keys), val, vars)
        if r and not known:
            for a, b in open_:
                if isinstance(a, T) and isinstance(b, T) and a.key[0] == 'v' and b.key[0] == 'v':
                    i = iset.inter(self.dom[a.key[1]], self.dom[b.key[1]])
                    self.dom[a.key[1]] = self.dom[b.key[1]] = i
                else:
                    t, c = (a, b) if isinstance(a, T) else (b, a)
                    if t.key[0] == 'v' and not isinstance(c, T):
                        self.dom[t.key[1]] = ((c, c),)
        return r

    def cmp(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, (int, T)): return NotImplemented
        av, bv = termval(a), termval(b)
        val = av < bv if op == 'lt' else av <= bv
        if not isinstance(b, T) and isinstance(a, T) and a.key[0] == 'v':
            hi = bv - 1 if op == 'lt' else bv
            return self.isin(a, ((-(1 << 62), hi),))
        if not isinstance(a, T) and isinstance(b, T) and b.key[0] == 'v':
            lo = av + 1 if op == 'lt' else av
            return self.isin(b, ((lo, 1 << 62),))
        if not isinstance(a, T) and not isinstance(b, T): return val
        return self.branch((op, termkey(a), termkey(b)), val, termvars(a) | termvars(b))

    def concretize(self, t, reps=3):
        """A concrete value for t.  Small domains are split completely; large ones get a few representatives and the run is
        flagged as incomplete."""
        if not isinstance(t, T): return t
        if t.key[0] == 'v':
            d = self.dom[t.key[1]]
            n = iset.size(d)
            if n == 1: return d[0][0]
            if n <= 40:
                for lo, hi in d:
                    for c in range(lo, hi + 1):
                        if self.isin(t, ((c, c),)): return c
            for k in range(reps):
                c = iset.pick(self.dom[t.key[1]], k)
                if self.isin(t, ((c, c),)): return c
        else:
            # a term is determined by its variables: split those if there are few values in all
            size = 1
            for v in t.vars: size *= iset.size(self.dom[v])
            if size <= 2000 and all(iset.size(self.dom[v]) <= 40 for v in t.vars):
                for v in sorted(t.vars): self.concretize(self.vars[v])
                return t.val
        self.stats.concretized += 1
        self.incomplete = self.incomplete or 'concretized'
        return t.val

    # ---- harness services
    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Hang()

    # ---- flipping
    def children(self):
        """Feasible alternatives of the finished run, as (assignment, bound, expected)."""
        out = []
        trace, bound = self.trace, self.bound
        dom = dict(self.initdom)
        comp = {}          # var -> component record {'vars': set, 'cons': list}
        base = self.asg
        for i, (cond, val, vars, kind) in enumerate(trace):
            if i >= bound:
                if kind:
                    name = cond[1][1]
                    for w in range(kind):
                        if w == base[name]: continue
                        self.stats.flips += 1
                        alt = ('in', cond[1], ((w, w),))
                        m = self._solve(alt, True, vars, dom, comp)
                        if m is None or m == 'unknown': raise Unsupported('choice alternative not satisfiable')
                        self.stats.feasible += 1
                        a = dict(base)
                        a[name] = w
                        out.append((a, i + 1, (alt, True)))
                else:
                    self.stats.flips += 1
                    m = self._solve(cond, not val, vars, dom, comp)
                    if m is None:
                        self.stats.infeasible += 1
                    elif m == 'unknown':
                        self.stats.unknown += 1
                    else:
                        self.stats.feasible += 1
                        a = dict(base)
                        a.update(m)
                        out.append((a, i + 1, (cond, not val)))
            # record the decision
            if cond[0] == 'in' and cond[1][0] == 'v':
                name = cond[1][1]
                dom[name] = iset.inter(dom[name], cond[2]) if val else iset.diff(dom[name], cond[2])
            else:
                rec = None
                for v in vars:
                    c = comp.get(v)
                    if c is None or c is rec: continue
                    if rec is None: rec = c
                    else:
                        if len(c['vars']) > len(rec['vars']): rec, c = c, rec
                        rec['vars'] |= c['vars']
                        rec['cons'] += c['cons']
                        for w in c['vars']: comp[w] = rec
                if rec is None: rec = dict(vars=set(), cons=[])
                rec['vars'] |= vars
                rec['cons'].append((cond, val))
                for v in vars: comp[v] = rec
        return out

    def _solve(self, cond, want, vars, dom, comp):
        """z3's verdict on slice(prefix) and (cond == want): a model for the slice's variables, None if unsat, or 'unknown'."""
        if len(vars) == 1 and cond[0] == 'in' and cond[1][0] == 'v':
            name = cond[1][1]
            if name not in comp:
                key = (dom[name], cond[2], want)
                m = self.memo.get(key, 0)
                if m == 0:
                    x = z3.Int('x')
                    c = z_in(x, cond[2])
                    m = self._check([z_in(x, dom[name]), c if want else z3.Not(c)], [('x', x)])
                    if isinstance(m, dict):
                        m = m['x']
                        ok = iset.contains(dom[name], m) and iset.contains(cond[2], m) == want
                        assert ok, 'solver model outside its query'
                        # keep runs readable: prefer a printable member of the same satisfying set
                        p = iset.pick(iset.inter(dom[name], cond[2]) if want else iset.diff(dom[name], cond[2]))
                        m = p
                    self.memo[key] = m
                else:
                    self.stats.memo_hits += 1
                if m is None or m == 'unknown': return m
                return {name: m}
        vs = set(vars)
        cons = []
        seen = set()
        for v in vars:
            c = comp.get(v)
            if c is not None and id(c) not in seen:
                seen.add(id(c))
                vs |= c['vars']
                cons += c['cons']
        # variables of constraints may themselves be in other components: comp is a partition, so done
        key = (cond, want, frozenset((v, dom[v]) for v in vs), frozenset(cons))
        m = self.memo.get(key, 0)
        if m == 0:
            fs = [z_in(z3.Int(v), dom[v]) for v in sorted(vs)]
            for c, val in cons: fs.append(z_cond(c) if val else z3.Not(z_cond(c)))
            z = z_cond(cond)
            fs.append(z if want else z3.Not(z))
            m = self._check(fs, [(v, z3.Int(v)) for v in sorted(vs)])
            self.memo[key] = m
            if len(self.memo) > 400000: self.memo.clear()
        else:
            self.stats.memo_hits += 1
        return m

    def _check(self, fs, outs):
        s = self.solver
        t0 = time.perf_counter()
        s.push()
        try:
            s.add(*fs)
            self.stats.z3_queries += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                return {n: m.eval(x, model_completion=True).as_long() for n, x in outs}
            if r == z3.unsat: return None
            return 'unknown'
        finally:
            s.pop()
            self.stats.z3_time += time.perf_counter() - t0


E = Engine()
