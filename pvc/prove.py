"""Obligation prover: case split + canonical forms + z3 + interval search."""
import time
from fractions import Fraction as Fr
import z3
from . import terms as t
from . import canon
from . import fp

TRUE, FALSE = t.TRUE, t.FALSE

# budgets are CPU seconds, so that a loaded machine changes nothing; the
# second attempt at an obligation multiplies all limits
_now = time.process_time
SCALE = 1.0



class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.canon_calls = 0
        self.canon_time = 0.0
        self.splits = 0
        self.by = {}

    def add(self, k):
        self.by[k] = self.by.get(k, 0) + 1


stats = Stats()

# ------------------------------------------------------------------ z3
PI_LO, PI_HI = Fr('3.14159265358979'), Fr('3.14159265358980')


def _cosgrid():
    import math
    out = []
    for g in (15, 30, 45, 60, 70, 75, 80, 82, 85, 87, 88, 89):
        c = Fr(math.cos(math.radians(g)))
        e = Fr(1, 10 ** 12)
        out.append((g, c - e, c + e))
    return out


COSGRID = _cosgrid()


class Z3:
    """translation of terms with transcendental atoms abstracted"""

    def __init__(self, ctx=None, grid=False):
        self.grid = grid
        self.m = {}
        self.b = {}
        self.lem = []
        self.done = set()
        self.atoms = []
        self.terms = {}

    def real(self, x):
        r = self.m.get(x.id)
        if r is None:
            r = self._real(x)
            self.m[x.id] = r
        return r

    def q(self, f):
        return z3.Q(f.numerator, f.denominator)

    def _real(self, x):
        op = x.op
        if op == 'c':
            return self.q(x.args[0])
        if op == 'pi':
            r = z3.Real('pi')
            self.lem += [r > self.q(PI_LO), r < self.q(PI_HI)]
            return r
        if op == 'v':
            n = x.args[0]
            if n.endswith('!i'):
                return z3.ToReal(z3.Int(n))
            return z3.Real(n)
        if op == '+':
            s = [self.q(x.args[0])] if x.args[0] else []
            for a, c in x.args[1]:
                r = self.real(a)
                s.append(r if c == 1 else self.q(c) * r)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == '*':
            p = None
            for b, e in x.args[0]:
                f = self.power(b, e)
                p = f if p is None else p * f
            return p
        if op == 'ite':
            return z3.If(self.bool(x.args[0]), self.real(x.args[1]),
                         self.real(x.args[2]))
        return self.atom(x)

    def power(self, b, e):
        if e.denominator == 1:
            n = int(e)
            r = self.real(b)
            a = abs(n)
            if a > 12:
                return self.fresh(('pow', b, e))
            out = r
            for _ in range(a - 1):
                out = out * r
            if n > 0:
                return out
            inv = self.fresh(('pow', b, Fr(-1)))
            key = ('inv', b.id)
            if key not in self.done:
                self.done.add(key)
                self.lem.append(z3.Implies(r != 0, inv * r == 1))
                self.lem.append(z3.Implies(r > 0, inv > 0))
                self.lem.append(z3.Implies(r < 0, inv < 0))
                self.lem.append(z3.Implies(r > 1, inv < 1))
                self.lem.append(z3.Implies(z3.And(r > 0, r <= 1), inv >= 1))
            out = inv
            for _ in range(a - 1):
                out = out * inv
            return out
        q = e.denominator
        fl = e.numerator // q
        f = e - fl
        if q > 6 or f.numerator * 1 > 5 or abs(fl) > 4:
            return self.opaque_power(b, e)
        rt = self.fresh(('root', b, Fr(1, q)))
        key = ('root', b.id, q)
        if key not in self.done:
            self.done.add(key)
            r = self.real(b)
            self.lem.append(rt >= 0)
            if q <= 4:
                p = rt
                for _ in range(q - 1):
                    p = p * rt
                self.lem.append(z3.Implies(r >= 0, p == r))
            self.lem.append(z3.Implies(r > 0, rt > 0))
            self.lem.append(z3.Implies(r == 0, rt == 0))
            self.lem.append(z3.Implies(r == 1, rt == 1))
            self.lem.append(z3.Implies(r >= 1, z3.And(rt <= r, rt >= 1)))
            self.lem.append(z3.Implies(z3.And(r > 0, r <= 1),
                                       z3.And(rt >= r, rt <= 1)))
            self.note('root%d' % q, b, rt)
        out = rt
        for _ in range(f.numerator - 1):
            out = out * rt
        if fl:
            out = out * self.power(b, Fr(fl))
        return out

    def opaque_power(self, b, e):
        """b**e, e fractional: only sign, order and monotonicity facts"""
        rt = self.fresh(('opow', b, e))
        key = ('opow', b.id, e)
        if key not in self.done:
            self.done.add(key)
            r = self.real(b)
            L = self.lem
            L.append(z3.Implies(r > 0, rt > 0))
            L.append(z3.Implies(r == 1, rt == 1))
            if e > 0:
                L.append(rt >= 0)
                L.append(z3.Implies(r == 0, rt == 0))
                if e > 1:
                    L.append(z3.Implies(r >= 1, rt >= r))
                    L.append(z3.Implies(z3.And(r >= 0, r <= 1), rt <= r))
                else:
                    L.append(z3.Implies(r >= 1, z3.And(rt <= r, rt >= 1)))
                    L.append(z3.Implies(z3.And(r >= 0, r <= 1),
                                        z3.And(rt >= r, rt <= 1)))
                self.note('opow%s' % e, b, rt, r_nonneg=True)
            else:
                L.append(z3.Implies(r >= 1, rt <= 1))
                L.append(z3.Implies(z3.And(r > 0, r <= 1), rt >= 1))
        return rt

    def fresh(self, key):
        k = ('f',) + tuple(a.id if isinstance(a, t.T) else a for a in key)
        r = self.m.get(k)
        if r is None:
            r = z3.Real('f!%d' % len(self.m))
            self.m[k] = r
        return r

    def note(self, kind, arg, r, r_nonneg=False):
        """monotone functions: pairwise monotonicity lemmas"""
        for k2, a2, r2 in self.atoms:
            if k2 == kind:
                x, y = self.real(arg), self.real(a2)
                if r_nonneg:
                    self.lem.append(z3.Implies(z3.And(0 <= x, x < y), r < r2))
                    self.lem.append(z3.Implies(z3.And(x > y, y >= 0), r > r2))
                    self.lem.append(z3.Implies(x == y, r == r2))
                    continue
                self.lem.append(z3.Implies(x < y, r < r2))
                self.lem.append(z3.Implies(x > y, r > r2))
                self.lem.append(z3.Implies(x == y, r == r2))
        self.atoms.append((kind, arg, r))

    def atom(self, x):
        r = z3.Real('a!%d' % x.id)
        self.m[x.id] = r
        self.terms[x.id] = x
        op = x.op
        L = self.lem
        if op in ('sin', 'cos'):
            o = t.mk('cos' if op == 'sin' else 'sin', x.args[0])
            L += [r >= -1, r <= 1]
            if o.id in self.m:
                L.append(r * r + self.m[o.id] * self.m[o.id] == 1)
            a = self.real(x.args[0])
            p = self.real(t.PI)
            if op == 'sin':
                L += [z3.Implies(z3.And(a > 0, a < p), r > 0),
                      z3.Implies(z3.And(a >= 0, a <= p), r >= 0),
                      z3.Implies(z3.And(a > -p, a < 0), r < 0),
                      z3.Implies(z3.And(a >= -p, a <= 0), r <= 0),
                      z3.Implies(z3.And(a > p, a < 2 * p), r < 0),
                      z3.Implies(z3.And(a >= 0), r <= a),
                      z3.Implies(a == 0, r == 0),
                      z3.Implies(a == p, r == 0)]
                kind = None
            else:
                L += [z3.Implies(z3.And(a > -p / 2, a < p / 2), r > 0),
                      z3.Implies(z3.And(a >= -p / 2, a <= p / 2), r >= 0),
                      z3.Implies(z3.And(a > p / 2, a < 3 * p / 2), r < 0),
                      z3.Implies(z3.And(a >= p / 2, a <= 3 * p / 2), r <= 0),
                      z3.Implies(z3.And(a < -p / 2, a > -3 * p / 2), r < 0),
                      z3.Implies(z3.And(a <= -p / 2, a >= -3 * p / 2),
                                 r <= 0),
                      z3.Implies(a == 0, r == 1),
                      z3.Implies(a == p, r == -1)]
            if self.grid:
                for g, lo, hi in COSGRID:
                    w = p * self.q(Fr(g, 180))
                    if op == 'cos':
                        L += [z3.Implies(z3.And(a >= -w, a <= w),
                                         r >= self.q(lo)),
                              z3.Implies(z3.And(a >= w, a <= 2 * p - w),
                                         r <= self.q(hi)),
                              z3.Implies(z3.And(a <= -w, a >= w - 2 * p),
                                         r <= self.q(hi))]
                    else:
                        h = p / 2
                        L += [z3.Implies(z3.And(a >= h - w, a <= h + w),
                                         r >= self.q(lo)),
                              z3.Implies(z3.And(a >= h + w, a <= 2 * p + h
                                                - w), r <= self.q(hi)),
                              z3.Implies(z3.And(a <= h - w, a >= h + w
                                                - 2 * p), r <= self.q(hi))]
        elif op == 'exp':
            a = self.real(x.args[0])
            L += [r > 0, r >= 1 + a, z3.Implies(a == 0, r == 1),
                  z3.Implies(a < 0, r < 1), z3.Implies(a > 0, r > 1)]
            self.note('exp', x.args[0], r)
        elif op == 'log':
            a = self.real(x.args[0])
            L += [z3.Implies(a > 0, r <= a - 1),
                  z3.Implies(a == 1, r == 0), z3.Implies(a > 1, r > 0),
                  z3.Implies(z3.And(a > 0, a < 1), r < 0)]
            self.note('log', x.args[0], r)
        elif op in ('asin', 'atan'):
            a = self.real(x.args[0])
            p = self.real(t.PI)
            L += [r >= -p / 2, r <= p / 2, z3.Implies(a > 0, r > 0),
                  z3.Implies(a < 0, r < 0), z3.Implies(a == 0, r == 0)]
            if op == 'atan':
                L += [r > -p / 2, r < p / 2]
            self.note(op, x.args[0], r)
        elif op == 'acos':
            a = self.real(x.args[0])
            p = self.real(t.PI)
            L += [r >= 0, r <= p, z3.Implies(a > 0, r < p / 2),
                  z3.Implies(a < 0, r > p / 2),
                  z3.Implies(a == 0, r == p / 2)]
        elif op == 'atan2':
            y, xx = self.real(x.args[0]), self.real(x.args[1])
            p = self.real(t.PI)
            L += [r > -p, r <= p, z3.Implies(y > 0, z3.And(r > 0, r < p)),
                  z3.Implies(y < 0, r < 0),
                  z3.Implies(z3.And(xx > 0), z3.And(r > -p / 2, r < p / 2)),
                  z3.Implies(z3.And(y == 0, xx > 0), r == 0),
                  z3.Implies(z3.And(y == 0, xx < 0), r == p)]
            k, ps = t._parts(x.args[0])
            if ps and ps[0][1] < 0:
                r2 = self.real(t.atan2(t.neg(x.args[0]), x.args[1]))
                L.append(z3.Implies(z3.Or(y != 0, xx > 0), r == -r2))
        elif op == 'floor':
            a = self.real(x.args[0])
            i = z3.Int('i!%d' % x.id)
            L += [r == z3.ToReal(i), r <= a, a < r + 1]
        elif op == 'uf':
            if x.args[0] in t.NONNEG_UF:
                L.append(r >= 0)
            if x.args[0].startswith('table'):       # congruence
                n = len(x.args) - 1
                f = z3.Function(x.args[0], *[z3.RealSort()]*(n + 1))
                L.append(r == f(*[self.real(a) for a in x.args[1:]]))
            ax = UF_AXIOMS.get(x.args[0])
            if ax:
                for b in ax(x):
                    L.append(self.bool(b))
        return r

    def bool(self, b):
        k = ('b', b.id)
        r = self.m.get(k)
        if r is None:
            r = self._bool(b)
            self.m[k] = r
        return r

    def _bool(self, b):
        op = b.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'bv':
            return z3.Bool(b.args[0])
        if op == 'not':
            return z3.Not(self.bool(b.args[0]))
        if op == 'and':
            return z3.And(*[self.bool(a) for a in b.args])
        if op == 'or':
            return z3.Or(*[self.bool(a) for a in b.args])
        if op == 'lt0':
            return self.real(b.args[0]) < 0
        if op == 'eq0':
            return self.real(b.args[0]) == 0
        raise ValueError(op)


def _rng(lo, hi):
    return lambda f: [t.ge(f, t.C(lo)), t.le(f, t.C(hi)),
                      t.eq(f, t.floor(f))]


# calendar fields of a day number
UF_AXIOMS = {'doy': _rng(1, 366), 'month': _rng(1, 12), 'dom': _rng(1, 31)}
_sat_cache = {}


def z3_check(facts, timeout=400, grid=False):
    """'unsat' | 'sat' | 'unknown' for the conjunction of facts"""
    timeout = int(timeout*SCALE)
    key = (frozenset(f.id for f in facts), timeout, grid)
    r = _sat_cache.get(key)
    if r is not None:
        return r
    t0 = _now()
    try:
        z = Z3(grid=grid)
        s = z3.Solver()
        s.set('timeout', timeout)
        fs = [z.bool(f) for f in facts]
        s.add(*fs)
        s.add(*z.lem)
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    stats.z3_calls += 1
    stats.z3_time += _now() - t0
    _sat_cache[key] = r
    return r


class Lin(Z3):
    """products and functions as unknowns: only linear reasoning is left"""

    def power(self, b, e):
        return self.fresh(('pow', b, e))

    def _real(self, x):
        if x.op == '*':
            if len(x.args[0]) == 1 and x.args[0][0][1] == 1:
                return self.real(x.args[0][0][0])
            return z3.Real('m!%d' % x.id)
        return Z3._real(self, x)

    def atom(self, x):
        r = z3.Real('a!%d' % x.id)
        self.m[x.id] = r
        return r


_lin = []
_lin_cache = {}


def linear_ok(facts, timeout=100):
    """False only when the facts contradict each other linearly"""
    key = frozenset(f.id for f in facts)
    r = _lin_cache.get(key)
    if r is not None:
        return r
    t0 = _now()
    if not _lin or len(_lin[0].m) > 200000:
        z = Lin()
        z.pilem = None
        _lin[:] = [z]
    z = _lin[0]
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout*SCALE))
    s.add(*[z.bool(f) for f in facts])
    p = z3.Real('pi')
    s.add(p > z.q(PI_LO), p < z.q(PI_HI))
    r = s.check() != z3.unsat
    stats.z3_calls += 1
    stats.z3_time += _now() - t0
    _lin_cache[key] = r
    return r


def z3_model(facts, vars_, timeout=1500):
    z = Z3()
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        s.add(z.bool(f))
    s.add(*z.lem)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for v in vars_:
        if v.op == 'bv':
            out[v] = z3.is_true(m.eval(z3.Bool(v.args[0]), True))
        else:
            e = m.eval(z.real(v), True)
            try:
                if z3.is_algebraic_value(e):
                    e = e.approx(20)
                out[v] = Fr(e.numerator_as_long(), e.denominator_as_long())
            except Exception:
                out[v] = Fr(0)
    return out


def feasible(ctx, b):
    """path pruning used by ctx.explore"""
    facts = [f for f in ctx.pc] + [a for a in ctx.axioms] + [b]
    if len(facts) > 60:
        facts = facts[-60:]
    return z3_check(facts, 250) != 'unsat'


# ------------------------------------------------------------------ prover
class Fail(Exception):
    def __init__(self, facts, goal, why=''):
        self.facts = facts
        self.goal = goal
        self.why = why


class Budget(Fail):
    pass


def lits(b, v, out):
    """literals implied by b == v"""
    if b.op == 'not':
        lits(b.args[0], not v, out)
    elif b.op == 'and' and v:
        for a in b.args:
            lits(a, True, out)
    elif b.op == 'or' and not v:
        for a in b.args:
            lits(a, False, out)
    else:
        out.append((b, v))


def linsolve(d):
    """eq0(d): a variable that occurs linearly -> (var, term) or None"""
    k, p = t._parts(d)
    best = None
    for a, c in p:
        if a.op == 'v':
            rest = t.sub(d, t.smul(c, a))
            if a not in t.free_atoms(rest):
                if best is None or ('@N' in a.args[0]):
                    best = (a, t.smul(-1 / c, rest))
    return best


class Prover:
    def __init__(self, budget=20.0, z3_ms=700, top=True):
        self.top = top
        self.t_end = _now() + budget
        self.z3_ms = z3_ms
        self.leaves = 0

    def tick(self, facts, goal):
        if _now() > self.t_end:
            raise Budget(facts, goal, 'time budget')

    def prove(self, hyps, goal):
        """raises Fail when the goal is not established"""
        bs = presimplify(list(hyps) + [goal], min(
            self.t_end, _now() + 12))
        hyps, goal = bs[:-1], bs[-1]
        if t.size(goal) > 80 and goal not in (TRUE, FALSE) and self.top:
            goal = sweep(hyps, goal, self)
        self.solve({}, [h for h in hyps if h is not TRUE], goal, 0)

    # facts: dict atom -> TRUE/FALSE already known
    def solve(self, known, hyps, goal, depth):
        self.tick(self.factlist(known, hyps), goal)
        known = dict(known)
        eqs = {}
        new = []
        stack = list(hyps)
        hyps = []
        # unit propagation to a fixed point
        while True:
            units = []
            rest = []
            for h in stack:
                if known:
                    h = t.subst(h, known)
                if h is FALSE:
                    stats.add('contradiction')
                    return
                if h is TRUE:
                    continue
                ls = []
                lits(h, True, ls)
                for a, v in ls:
                    if a.op in ('and', 'or'):
                        rest.append(a if v else t.bnot(a))
                    else:
                        if a in known:
                            if (known[a] is TRUE) != v:
                                return
                        else:
                            units.append((a, v))
            if not units:
                stack = rest
                break
            for a, v in units:
                o = known.get(a)
                if o is not None and (o is TRUE) != v:
                    stats.add('contradiction')
                    return
                known[a] = TRUE if v else FALSE
                if a.op == 'eq0' and v:
                    # x = 0 also settles x < 0
                    for d in (a.args[0], t.neg(a.args[0])):
                        l = t.lt0(d)
                        if l.op == 'lt0':
                            if known.get(l) is TRUE:
                                return
                            known[l] = FALSE
                if a.op == 'lt0' and v:
                    e = t.eq0(a.args[0])
                    if e.op == 'eq0':
                        if known.get(e) is TRUE:
                            return
                        known[e] = FALSE
                    l = t.lt0(t.neg(a.args[0]))
                    if l.op == 'lt0':
                        if known.get(l) is TRUE:
                            return
                        known[l] = FALSE
            stack = rest
        hyps = stack
        goal = t.subst(goal, known)
        if goal is TRUE:
            stats.add('identity')
            return
        # equations solved for a variable
        m = {}
        for a, v in known.items():
            if v is TRUE and a.op == 'eq0':
                s = linsolve(a.args[0])
                if s and s[0] not in m and not any(
                        s[0] in t.free_atoms(x) or k in t.free_atoms(s[1])
                        for k, x in m.items()):
                    m[s[0]] = s[1]
        if m:
            g2 = t.subst(goal, m)
            nh = []
            bad = False
            for a, v in known.items():
                a2 = t.subst(a, m)
                b = a2 if v is TRUE else t.bnot(a2)
                if b is FALSE:
                    stats.add('contradiction')
                    return
                nh.append(b)
            nh += [t.subst(h, m) for h in hyps]
            eqh = [t.eq(k, x) for k, x in m.items()]
            try:
                return self.solve({}, [h for h in nh if h is not TRUE],
                                  g2, depth + 1)
            except Fail as e:
                e.facts = list(e.facts) + eqh
                raise
        if goal.op == 'and':
            for g in goal.args:
                self.solve(known, hyps, g, depth + 1)
            return
        if goal.op == 'or':
            gs = sorted(goal.args, key=lambda g: (g.op == 'eq0',
                                                  t.size(g)))
            main = gs[-1]
            return self.solve(known, hyps + [t.bnot(g) for g in gs[:-1]],
                              main, depth + 1)
        # split on an ite condition inside the goal
        c = self.pick(goal)
        if c is not None:
            if depth < 3 and goal.op == 'eq0' and \
                    self.canon_zero(goal.args[0], 3.0):
                return
            return self.split(known, hyps, goal, c, depth)
        self.leaf(known, hyps, goal, depth)

    def factlist(self, known, hyps):
        return [a if v is TRUE else t.bnot(a) for a, v in known.items()] + \
            list(hyps)

    def pick(self, goal):
        """an ite condition atom without ites inside"""
        if goal.id in self._pk:
            return self._pk[goal.id]
        best = None
        done = set()
        for s in t.atoms_of(goal):
            if s.op == 'ite':
                for a in self.condatoms(s.args[0]):
                    if a.id in done:
                        continue
                    done.add(a.id)
                    if best is None or self.rank(a) < self.rank(best):
                        best = a
        self._pk[goal.id] = best
        return best

    _pk = {}

    def rank(self, a):
        return (self.hasite(a), t.size(a), a.id)

    _hi = {}

    def hasite(self, a):
        r = self._hi.get(a.id)
        if r is None:
            r = a.op == 'ite' or any(self.hasite(x) for x in t.children(a))
            self._hi[a.id] = r
        return r

    def condatoms(self, b):
        r = self._ca.get(b.id)
        if r is None:
            if b.op in ('not', 'and', 'or'):
                d = {}
                for a in b.args:
                    for c in self.condatoms(a):
                        d[c.id] = c
                r = list(d.values())
            else:
                r = [b]
            self._ca[b.id] = r
        return r

    _ca = {}

    def split(self, known, hyps, goal, c, depth):
        stats.splits += 1
        for v in (True, False):
            h = c if v else t.bnot(c)
            fl = self.factlist(known, hyps) + [h]
            if len(fl) > 1 and not self.quick_ok(fl):
                continue
            self.solve(known, hyps + [h], goal, depth + 1)

    def quick_ok(self, fl):
        return linear_ok(fl)

    def canon_zero(self, x, limit):
        if not fp.maybe_zero(x):
            return False
        t0 = _now()
        ok = canon.zero(x, limit)
        stats.canon_calls += 1
        stats.canon_time += _now() - t0
        if ok:
            stats.add('canonical')
        return ok

    def leaf(self, known, hyps, goal, depth):
        self.leaves += 1
        fl = self.factlist(known, hyps)
        self.tick(fl, goal)
        if goal.op == 'eq0' and self.canon_zero(goal.args[0], 6.0):
            return
        # remaining disjunctive hypotheses: try without them first
        ng = t.bnot(goal)
        r = z3_check(fl + [ng], self.z3_ms)
        if r == 'unsat':
            stats.add('z3')
            return
        if any(s.op in ('sin', 'cos') for g in fl + [goal]
               for s in t.atoms_of(g)):
            if z3_check(fl + [ng], self.z3_ms, grid=True) == 'unsat':
                stats.add('z3')
                return
        # facts settled by other facts
        plain = {a: v for a, v in known.items() if not self.hasite(a)}
        ch = {}
        for a, v in known.items():
            if a not in plain:
                a2 = t.subst(a, plain)
                if a2 is not a:
                    ch[a] = a2 if v is TRUE else t.bnot(a2)
        if ch:
            k2 = {a: v for a, v in known.items() if a not in ch}
            return self.solve(k2, [h for h in ch.values() if h is not TRUE] +
                              list(hyps), goal, depth + 1)
        # atoms that are the same up to algebra
        m = self.unify(fl + [goal])
        if m:
            nh = [t.subst(h, m) for h in fl]
            g2 = t.subst(goal, m)
            if g2 is TRUE:
                stats.add('canonical')
                return
            if any(h is FALSE for h in nh):
                stats.add('contradiction')
                return
            return self.solve({}, nh, g2, depth + 1)
        # equalities among non-variable atoms: substitute and retry
        # split remaining disjunctions
        for h in hyps:
            if h.op == 'or' and depth < 60:
                rest = [x for x in hyps if x is not h]
                prev = []
                for d in h.args:
                    self.solve(known, rest + [d] + prev, goal, depth + 1)
                    prev.append(t.bnot(d))
                return
        # split on ites inside hypotheses
        for h in fl:
            c = self.pick(h)
            if c is not None and depth < 60:
                return self.split(known, hyps, goal, c, depth)
        if goal.op == 'eq0':
            why = 'terms differ'
        else:
            why = 'not established'
        raise Fail(fl, goal, f'{why} ({r})')

    def unify(self, bs):
        return unify(bs, self.t_end)


def unify(bs, t_end):
    """map lt0/eq0 atoms to atoms over an algebraically equal term"""
    at = []
    seen = set()
    for b in bs:
        for s in t.atoms_of(b):
            if s.op in ('lt0', 'eq0') and s.id not in seen:
                seen.add(s.id)
                at.append(s)
    if len(at) < 2:
        return {}
    at.sort(key=lambda a: t.size(a))
    groups = {}
    m = {}
    for a in at:
        x = a.args[0]
        try:
            k = fp.key(x)
        except RecursionError:
            continue
        if k is None:
            continue
        g = groups.setdefault(k, [])
        for r in g:
            if r is x:
                break
            if _now() > t_end:
                return m
            t0 = _now()
            q = canon.ratio(x, r, 2.5)
            stats.canon_calls += 1
            stats.canon_time += _now() - t0
            if q is None:
                continue
            if a.op == 'eq0':
                n = t.eq0(r)
            else:
                n = t.lt0(r if q > 0 else t.neg(r))
            if n is not a:
                m[a] = n
            break
        else:
            g.append(x)
    return m


def presimplify(bs, t_end):
    """unify algebraically equal comparison atoms, innermost first"""
    for _ in range(8):
        m = unify(bs, t_end)
        if not m:
            return bs
        # innermost only: outer atoms change anyway
        small = {}
        for a, n in m.items():
            if not any(s is not a and s in m for s in t.atoms_of(a)):
                small[a] = n
        c = {}
        bs = [t.subst(b, small, c) for b in bs]
        if _now() > t_end:
            return bs
    return bs


# ------------------------------------------------------------------ sweeping
def _bounds(hyps):
    """single-variable bounds among the hypotheses"""
    lo, hi = {}, {}

    def one(d, strict):
        k, p = t._parts(d)                      # d < 0 (or d <= 0)
        if len(p) == 1 and p[0][0].op == 'v':
            v, c = p[0]
            b = float(-k / c)
            if c > 0:
                hi[v] = min(hi.get(v, b), b)
            else:
                lo[v] = max(lo.get(v, b), b)

    for h in hyps:
        ls = []
        lits(h, True, ls)
        for a, v in ls:
            if a.op == 'or' and v:
                # nan flag or range
                for d in a.args:
                    l2 = []
                    lits(d, True, l2)
                    for b, w in l2:
                        if b.op == 'lt0':
                            one(b.args[0] if w else t.neg(b.args[0]), w)
            if a.op == 'lt0':
                one(a.args[0] if v else t.neg(a.args[0]), v)
    return lo, hi


def samples(hyps, n=400, seed=3):
    import numpy as np
    lo, hi = _bounds(hyps)
    rng = np.random.RandomState(seed)
    cache = {}

    def var(x):
        r = cache.get(x.id)
        if r is not None:
            return r
        if x.op == 'bv':
            r = rng.uniform(size=n) < 0.08
        else:
            a, b = lo.get(x), hi.get(x)
            if a is None and b is None:
                a, b = -400., 400.
            elif a is None:
                a = b - 400
            elif b is None:
                b = a + 400
            r = rng.uniform(a, b, n)
            k = rng.randint(0, 12, n)
            r = np.where(k == 0, a, np.where(k == 1, b, r))
            r = np.where(k == 2, a + (r - a) * 1e-3, r)
            if x.args[0].endswith('!i'):
                r = np.round(r)
        cache[x.id] = r
        return r
    S = fp.Samples(n, var)
    ok = np.ones(n, bool)
    for h in hyps:
        ok &= S.val(h)
    return S, ok


def sweep(hyps, goal, prover):
    """replace subterms of goal that are equal under hyps by one another"""
    import numpy as np
    t_stop = min(_now() + 25, prover.t_end - 1)
    try:
        S, ok = samples(hyps)
    except (RecursionError, ValueError):
        return goal
    if ok.sum() < 20:
        return goal
    new = {}
    reps = {}
    fails = 0
    for x in t.atoms_of(goal):
        y = new.get(x.id)
        ch = t.children(x)
        if ch:
            y = t.rebuild(x, [new[c.id] for c in ch])
        else:
            y = x
        if y.op in ('lt0', 'eq0'):
            d = strip_pos(hyps, y.args[0])
            if d is not y.args[0]:
                y = t.lt0(d) if y.op == 'lt0' else t.eq0(d)
        new[x.id] = y
        if not ch or y.op in ('c', 'pi', 'v', 'bv', 'true', 'false'):
            continue
        try:
            v = S.val(x)[ok]
        except ValueError:
            continue
        isb = v.dtype == bool
        if isb:
            k = v.tobytes()
            if v.all() or not v.any():
                r = TRUE if v.all() else FALSE
            else:
                r = reps.get(k)
        else:
            if not np.all(np.isfinite(v)):
                continue
            if np.ptp(v) == 0:
                r = t.C(Fr(float(v[0])).limit_denominator(10**6))
                k = ('c', float(v[0]))
            else:
                with np.errstate(all='ignore'):
                    k = tuple(float('%.7g' % q) for q in v[:24])
                r = reps.get(k)
        if r is None:
            reps[k] = y
            continue
        if r is y:
            continue
        if _now() > t_stop or fails > 40:
            continue
        if not isb and r.op == 'c' and not prover.hasite(y) and \
                t.size(y) < 12:
            continue
        t0 = _now()
        if _same(hyps, y, r, isb, prover):
            new[x.id] = r
        elif _now() - t0 > 0.1:
            fails += 1
    return new[goal.id]


def strip_pos(hyps, d):
    """d without the factors that the hypotheses make positive"""
    k, p = t._parts(d)
    if k != 0 or len(p) != 1 or p[0][0].op != '*':
        return d
    a, c = p[0]
    keep = []
    for b, e in a.args[0]:
        if linear_ok(hyps + [t.bnot(t.lt0(t.neg(b)))]):
            keep.append((b, e))
    if len(keep) == len(a.args[0]):
        return d
    r = t.C(c)
    for b, e in keep:
        r = t.mul(r, t.pw(b, e))
    return r


_swcache = {}


def _same(hyps, y, r, isb, prover):
    key = (frozenset(h.id for h in hyps), y.id, r.id)
    c = _swcache.get(key)
    if c is not None:
        return c
    if isb:
        if r is TRUE:
            neg_ = t.bnot(y)
        elif r is FALSE:
            neg_ = y
        else:
            neg_ = t.bor(t.band(y, t.bnot(r)), t.band(r, t.bnot(y)))
        res = neg_ is FALSE or not linear_ok(hyps + [neg_])
        if not res and t.size(y, r) < 150:
            res = z3_check(hyps + [neg_], 250) == 'unsat'
    else:
        d = t.sub(y, r)
        e = t.eq0(d)
        if e is TRUE:
            res = True
        elif e is FALSE:
            res = False
        else:
            res = not linear_ok(hyps + [t.bnot(e)])
            if not res:
                try:
                    p = Prover(2.5, 250, top=False)
                    p.t_end = min(p.t_end, prover.t_end)
                    p.prove(hyps, e)
                    res = True
                except (Fail, RecursionError):
                    res = False
    _swcache[key] = res
    if res:
        stats.add('sweep')
    return res


def strengthen(g, memo=None):
    """a*x = a*y  ->  x = y (at positive positions)"""
    memo = {} if memo is None else memo
    r = memo.get(g.id)
    if r is None:
        r = memo[g.id] = _strengthen(g, memo)
    return r


def _strengthen(g, memo):
    if g.op == 'and':
        return t.band(*[strengthen(q, memo) for q in g.args])
    if g.op == 'or':
        return t.bor(*[strengthen(q, memo) for q in g.args])
    if g.op == 'eq0':
        k, p = t._parts(g.args[0])
        if k == 0 and len(p) > 1:
            fs = [dict(a.args[0]) if a.op == '*' else {a: Fr(1)}
                  for a, _ in p]
            com = [b for b in fs[0] if all(
                b in f and f[b] > 0 for f in fs)]
            for b in com:
                e = min(f[b] for f in fs)
                for f in fs:
                    f[b] -= e
            if com:
                return t.eq0(t.add(*[t.mul(t.C(c), *[
                    t.pw(b, e) for b, e in f.items() if e])
                    for f, (_, c) in zip(fs, p)]))
    return g


def generalise(hyps, goal):
    """large terms that are only compared become variables (goals about
    large tables)"""
    if goal in (TRUE, FALSE) or t.size(goal) < 150 or not any(
            q.op == 'uf' and q.args[0].startswith('table')
            for q in t.atoms_of(goal)):
        return None
    names, memo = {}, {}

    def ab(y):
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = ab1(y)
        return r

    def ab1(y):
        if y.op in ('lt0', 'eq0'):
            k, p = t._parts(y.args[0])
            if p and not all(a.op == 'v' for a, _ in p) and (
                    y.op == 'lt0' or len(p) == 1 and p[0][0].op != '*'):
                c = abs(p[0][1])
                base = t.smul(1 / c, t.sub(y.args[0], t.C(k)))
                flip = p[0][1] < 0
                if flip:
                    base = t.neg(base)
                v = names.get(base)
                if v is None:
                    v = names[base] = t.var(f'gen!{len(names)}')
                e = t.add(t.smul(-c if flip else c, v), t.C(k))
                return t.lt0(e) if y.op == 'lt0' else t.eq0(e)
        ch = t.children(y)
        if not ch:
            return y
        nc = [ab(q) for q in ch]
        if all(a is b for a, b in zip(ch, nc)):
            return y
        return t.rebuild(y, nc)
    g = strengthen(ab(goal))
    have = t.free_atoms(g)
    hs = []
    for h in hyps:
        q = ab(h)
        if q is not TRUE and t.free_atoms(q) & have:
            hs.append(q)
    return hs, g


def try_prove(hyps, goal, budget=20.0):
    budget *= SCALE
    """-> (ok, Fail or None)"""
    g = generalise(hyps, goal)
    if g is not None:
        if z3_check(g[0] + [t.bnot(g[1])], 3000) == 'unsat':
            stats.add('generalised')
            return True, None
        if t.size(g[1]) < t.size(goal)*.9:
            try:
                Prover(min(budget/2, 12.)).prove(*g)
                stats.add('generalised')
                return True, None
            except (Fail, RecursionError):
                pass
    try:
        Prover(budget).prove(list(hyps), goal)
        return True, None
    except Fail as e:
        return False, e
    except RecursionError:
        return False, Fail(list(hyps), goal, 'recursion limit')
