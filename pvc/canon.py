"""Canonical forms: rational functions over generators.

A term is rewritten into  num / prod(den_i ** k_i)  with num a polynomial
(dict: monomial -> Fraction) over generators.  Generators are pi, variables,
sin/cos/exp of canonical base angles, roots, and the remaining function
applications keyed by a canonical argument.  Relations used:
  cos(x)**2 = 1 - sin(x)**2, angle addition, exp(a+b) = exp(a) exp(b),
  root(p, q)**q = p.
zero(t) is True only if t is identically zero wherever it is defined.
"""
from fractions import Fraction as Fr
from math import gcd, lcm
import time
from . import terms as t


class TooBig(Exception):
    pass


MAXTERMS = 40000


class Canon:
    """one canonicalisation session (generators are shared within it)"""

    def __init__(self, facts=None, limit=8.0, expand=True):
        self.gens = []            # id -> descriptor
        self.gid = {}
        self.cosof = {}           # cos gen -> sin gen
        self.rootof = {}          # root gen -> (q, poly, )
        self.cache = {}
        self.fn = {}              # op -> [(args rat tuple, gen)]
        self.expbase = {}
        self.trigbase = {}
        self.t_end = time.time() + limit
        self.dens = {}
        self.expand = expand
        self.lins = []

    # ------------------------------------------------------ generators
    def gen(self, key):
        g = self.gid.get(key)
        if g is None:
            g = len(self.gens)
            self.gid[key] = g
            self.gens.append(key)
        return g

    # ------------------------------------------------------ polynomials
    @staticmethod
    def pconst(c):
        return {(): c} if c else {}

    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for g, e in b:
            d[g] = d.get(g, 0) + e
        return tuple(sorted(d.items()))

    def reducible(self, m):
        for g, e in m:
            if e >= 2 and g in self.cosof:
                return True
            r = self.rootof.get(g)
            if r is not None and e >= r[0]:
                return True
        return False

    def preduce(self, p):
        """apply cos^2 and root relations until none applies"""
        if not self.cosof and not self.rootof:
            return p
        work = p
        out = {}
        n = 0
        while work:
            nxt = {}
            for m, c in work.items():
                hit = None
                for g, e in m:
                    if e >= 2 and g in self.cosof:
                        hit = (g, e, 'c')
                        break
                    r = self.rootof.get(g)
                    if r is not None and e >= r[0]:
                        hit = (g, e, 'r')
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                g, e, kind = hit
                rest = tuple(x for x in m if x[0] != g)
                if kind == 'c':
                    s = self.cosof[g]
                    if e - 2:
                        rest = self.mmul(rest, ((g, e - 2),))
                    rep = {(): Fr(1), ((s, 2),): Fr(-1)}
                else:
                    q, pp = self.rootof[g]
                    if e - q:
                        rest = self.mmul(rest, ((g, e - q),))
                    rep = pp
                for m2, c2 in rep.items():
                    mm = self.mmul(rest, m2)
                    v = nxt.get(mm, 0) + c * c2
                    if v:
                        nxt[mm] = v
                    else:
                        nxt.pop(mm, None)
            work = nxt
            n += 1
            if len(work) + len(out) > MAXTERMS or n > 400:
                raise TooBig
            self.tick()
        return out

    def tick(self):
        if time.time() > self.t_end:
            raise TooBig

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 4 * MAXTERMS * 10:
            raise TooBig
        r = {}
        red = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            self.tick()
        if len(r) > MAXTERMS:
            raise TooBig
        return self.preduce(r)

    def ppow(self, p, n):
        r = {(): Fr(1)}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # ------------------------------------------------------ denominators
    @staticmethod
    def pkey(p):
        return frozenset(p.items())

    def pnorm(self, p):
        """scale to leading coefficient 1 -> (scale, p')"""
        m = min(p)
        c = p[m]
        if c == 1:
            return Fr(1), p
        return c, {k: v / c for k, v in p.items()}

    # a rational function: (num poly, {denkey: (poly, exp)})
    def rconst(self, c):
        return (self.pconst(c), {})

    def rmul(self, a, b):
        n = self.pmul(a[0], b[0])
        if not n:
            return ({}, {})
        d = dict(a[1])
        for k, (p, e) in b[1].items():
            if k in d:
                d[k] = (p, d[k][1] + e)
            else:
                d[k] = (p, e)
        return self.rcancel(n, d)

    def rcancel(self, n, d):
        """cancel numerator against single-monomial / equal denominators"""
        if not d:
            return (n, d)
        out = {}
        for k, (p, e) in d.items():
            if len(p) == 1:
                (m, c), = p.items()
                # monomial denominator: split by generator
                for g, ge in m:
                    kk = self.pkey({((g, 1),): Fr(1)})
                    pe = out.get(kk, (None, 0))[1]
                    out[kk] = ({((g, 1),): Fr(1)}, pe + ge * e)
                if c != 1:
                    n = {q: v / c ** e for q, v in n.items()}
            else:
                pe = out.get(k, (None, 0))[1]
                out[k] = (p, pe + e)
        res = {}
        for k, (p, e) in out.items():
            if len(p) == 1:
                (m, c), = p.items()
                g = m[0][0]
                lo = min((dict(q).get(g, 0) for q in n), default=0)
                s = min(lo, e)
                if s:
                    n = {self._mdiv(q, g, s): v for q, v in n.items()}
                    e -= s
            else:
                # equal polynomial factor
                while e and len(n) >= len(p):
                    q = self._pdiv_exact(n, p)
                    if q is None:
                        break
                    n = q
                    e -= 1
            if e:
                res[k] = (p, e)
        return (n, res)

    def _mdiv(self, m, g, s):
        return tuple((h, e - s) if h == g else (h, e) for h, e in m
                     if not (h == g and e == s))

    def _pdiv_exact(self, n, p):
        """n / p if n is a constant or monomial multiple of p, else None"""
        if len(n) != len(p):
            return None
        # candidate quotient from the extreme monomials
        try:
            mn, mp_ = min(n), min(p)
        except ValueError:
            return None
        for a in (mn,):
            d = dict(a)
            ok = True
            for g, e in mp_:
                if d.get(g, 0) < e:
                    ok = False
                    break
                d[g] -= e
                if not d[g]:
                    del d[g]
            if not ok:
                return None
            qm = tuple(sorted(d.items()))
            qc = n[mn] / p[mp_]
            for m, c in p.items():
                if n.get(self.mmul(m, qm)) != c * qc:
                    return None
            return {qm: qc}
        return None

    def dpoly(self, d):
        r = {(): Fr(1)}
        for p, e in d.values():
            r = self.pmul(r, self.ppow(p, e))
        return r

    def radd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            n = self.padd(a[0], b[0])
            return self.rcancel(n, a[1]) if n else ({}, {})
        l = dict(a[1])
        for k, (p, e) in b[1].items():
            if k not in l or l[k][1] < e:
                l[k] = (p, e)
        na, nb = a[0], b[0]
        for k, (p, e) in l.items():
            ea = e - (a[1][k][1] if k in a[1] else 0)
            eb = e - (b[1][k][1] if k in b[1] else 0)
            if ea:
                na = self.pmul(na, self.ppow(p, ea))
            if eb:
                nb = self.pmul(nb, self.ppow(p, eb))
        n = self.padd(na, nb)
        if not n:
            return ({}, {})
        return self.rcancel(n, l)

    def rinv(self, a):
        if not a[0]:
            return ({}, {})
        c, p = self.pnorm(a[0])
        n = self.dpoly(a[1])
        n = {k: v / c for k, v in n.items()}
        if len(p) == 1 and () in p:
            return (n, {})
        return self.rcancel(n, {self.pkey(p): (p, 1)})

    def rscale(self, a, c):
        if c == 0:
            return ({}, {})
        if c == 1:
            return a
        return ({m: v * c for m, v in a[0].items()}, a[1])

    def req(self, a, b):
        if a == b:
            return True
        try:
            d = self.radd(a, self.rscale(b, Fr(-1)))
        except TooBig:
            return False
        return not self.preduce(d[0])

    def rpow(self, a, n):
        if n == 0:
            return self.rconst(Fr(1))
        if n < 0:
            return self.rpow(self.rinv(a), -n)
        num = self.ppow(a[0], n)
        return self.rcancel(num, {k: (p, e * n)
                                  for k, (p, e) in a[1].items()})

    # ------------------------------------------------------ terms
    def canon(self, x):
        r = self.cache.get(x.id)
        if r is None:
            r = self._canon(x)
            self.cache[x.id] = r
        return r

    def atom(self, key):
        return ({((self.gen(key), 1),): Fr(1)}, {})

    def _canon(self, x):
        op = x.op
        if op == 'c':
            return self.rconst(x.args[0])
        if op in ('pi', 'v'):
            return self.atom(x)
        if op == '+':
            r = self.rconst(x.args[0])
            # add same-denominator parts first
            for a, c in x.args[1]:
                r = self.radd(r, self.rscale(self.canon(a), c))
            return r
        if op == '*':
            r = self.rconst(Fr(1))
            for b, e in x.args[0]:
                if e.denominator == 1:
                    r = self.rmul(r, self.rpow(self.canon(b), int(e)))
                else:
                    r = self.rmul(r, self.root(b, e))
            return r
        if op in ('sin', 'cos') and self.expand:
            return self.trig(op, x.args[0])
        if op == 'exp':
            return self.expo(x.args[0])
        if op == 'ite':
            c = x.args[0]
            return self.func('ite', (x.args[1], x.args[2]), extra=c)
        if op == 'uf':
            return self.func('uf:' + x.args[0], x.args[1:])
        if op in ('log', 'asin', 'acos', 'atan', 'atan2', 'floor', 'sin',
                  'cos'):
            return self.func(op, x.args)
        # boolean used as an argument of a uf
        return self.atom(x)

    def func(self, op, args, extra=None):
        cs = []
        for a in args:
            cs.append(self.canon(a))
        lst = self.fn.setdefault((op, extra), [])
        for cs2, g in lst:
            if all(self.req(p, q) for p, q in zip(cs, cs2)):
                return ({((g, 1),): Fr(1)}, {})
        if op in ('asin', 'atan') and len(cs) == 1:
            for cs2, g in lst:
                if self.req(cs[0], self.rscale(cs2[0], Fr(-1))):
                    return ({((g, 1),): Fr(-1)}, {})
        if op == 'acos':
            for cs2, g in lst:
                if self.req(cs[0], self.rscale(cs2[0], Fr(-1))):
                    return ({((g, 1),): Fr(-1),
                             ((self.gen(t.PI), 1),): Fr(1)}, {})
        g = self.gen((op, extra, len(lst)))
        lst.append((cs, g))
        return ({((g, 1),): Fr(1)}, {})

    def root(self, b, e):
        """b ** e, fractional e; b term"""
        q = e.denominator
        fl = e.numerator // q
        f = e - fl                      # 0 < f < 1
        cb = self.canon(b)
        # root of num/den: use t**(1/q) with t = canonical (num,den);
        # clear denominators: (n/d)^(1/q) = (n d^(q-1))^(1/q) / d   (d > 0 is
        # not known for odd powers, so keep the quotient as one base)
        lst = self.fn.setdefault(('root', None), [])
        g = None
        for cs2, q2, g2 in lst:
            if q2 == q and self.req(cb, cs2):
                g = g2
                break
        if g is None:
            g = self.gen(('root', q, len(lst)))
            lst.append((cb, q, g))
            if not cb[1]:
                self.rootof[g] = (q, cb[0])
            else:
                # g**q * den = num : register den as a unit generator
                di = self.atom(('inv', len(lst)))
                dk = list(di[0])[0][0][0]
                self.inv = getattr(self, 'inv', {})
                self.inv[dk] = cb[1]
                self.rootof[g] = (q, self.pmul(cb[0], di[0]))
                self.hasinv = True
        r = ({((g, int(f.numerator)),): Fr(1)}, {})
        r = (self.preduce(r[0]), {})
        if fl:
            r = self.rmul(r, self.rpow(cb, fl))
        return r

    # angle handling: the polynomial of the angle is split in monomials;
    # every monomial m has a base angle u_m = m / D_m
    def lin(self, r):
        """rational function as a linear combination of (monomial,den)"""
        dk = tuple(sorted((hash(k), e) for k, (p, e) in r[1].items()))
        return {(m, dk): c for m, c in r[0].items()}, r[1]

    def expo(self, a):
        ca = self.canon(a)
        out = self.rconst(Fr(1))
        if ('uf:lambertw', None) in self.fn:
            ca, out = self.unlambert(ca, out)
        ln, den = self.lin(ca)
        for key, c in ln.items():
            D = self.expbase.get(key, 1)
            if (c * D).denominator != 1:
                raise NeedBase('exp', key, lcm(D, c.denominator))
            n = int(c * D)
            g = self.gen(('exp', key, D))
            if n > 0:
                out = self.rmul(out, ({((g, n),): Fr(1)}, {}))
            else:
                p = {((g, 1),): Fr(1)}
                out = self.rmul(out, ({(): Fr(1)},
                                      {self.pkey(p): (p, -n)}))
        return out

    def unlambert(self, ca, out):
        """exp(k*W(z) + r) = (z/W(z))**k * exp(r), integer k, z != 0"""
        for cs, g in self.fn[('uf:lambertw', None)]:
            n1, n0 = {}, {}
            for m, c in ca[0].items():
                e = dict(m).get(g, 0)
                if e == 1:
                    n1[self._mdiv(m, g, 1)] = c
                elif e == 0:
                    n0[m] = c
                else:
                    return ca, out
            if not n1:
                continue
            d = self.dpoly(ca[1])
            m, c = next(iter(n1.items()))
            if m not in d:
                continue
            k = c / d[m]
            if k.denominator != 1 or self.padd(n1, d, -k):
                continue
            q = self.rmul(cs[0], self.rinv(({((g, 1),): Fr(1)}, {})))
            out = self.rmul(out, self.rpow(q, int(k)))
            ca = self.rcancel(n0, ca[1]) if n0 else ({}, {})
        return ca, out

    def halfturns(self, m):
        """monomial is pi times a product of integers"""
        pi = False
        for g, e in m:
            d = self.gens[g]
            if d is t.PI and e == 1:
                pi = True
            elif isinstance(d, t.T) and d.op == 'v' and \
                    d.args[0].endswith('!i'):
                continue
            elif isinstance(d, tuple) and d[0] == 'floor':
                continue
            else:
                return False
        return pi

    def trig(self, op, a):
        ca = self.canon(a)
        ln, den = self.lin(ca)
        s, c = {}, {(): Fr(1)}
        pim = (((self.gen(t.PI), 1),), ())
        for key, k in sorted(ln.items(), key=lambda p: p[0]):
            if not key[1] and self.halfturns(key[0]):
                # k * pi * (integers): whole turns vanish
                k = k - 2 * round(k / 2)
                if not k:
                    continue
                if key[0] == pim[0] and k.denominator <= 2:
                    # quarter turns of a plain constant
                    n = int(2 * k) % 4
                    for _ in range(n):
                        s, c = c, {m: -v for m, v in s.items()}
                    continue
            D = self.trigbase.get(key, 1)
            if (k * D).denominator != 1:
                raise NeedBase('trig', key, lcm(D, k.denominator))
            n = int(k * D)
            if abs(n) > 12:
                # large multiple: opaque
                return self.func(op, (a,))
            gs = self.gen(('sin', key, D))
            gc = self.gen(('cos', key, D))
            self.cosof[gc] = gs
            s1, c1 = {((gs, 1),): Fr(1)}, {((gc, 1),): Fr(1)}
            sn, cn = {}, {(): Fr(1)}
            for _ in range(abs(n)):
                sn, cn = (self.padd(self.pmul(sn, c1), self.pmul(cn, s1)),
                          self.padd(self.pmul(cn, c1), self.pmul(sn, s1),
                                    -1))
            if n < 0:
                sn = {m: -v for m, v in sn.items()}
            s, c = (self.padd(self.pmul(s, cn), self.pmul(c, sn)),
                    self.padd(self.pmul(c, cn), self.pmul(s, sn), -1))
        return (s if op == 'sin' else c, {})


class NeedBase(Exception):
    pass


def _run(fn, limit, expand=True):
    """run fn(canon), refining base angles as needed"""
    eb, tb = {}, {}
    t_end = time.time() + limit
    # monomial keys use generator numbers, which are assigned in the same
    # order on every restart up to the first refinement
    for _ in range(60):
        c = Canon(limit=max(0.1, t_end - time.time()), expand=expand)
        c.expbase, c.trigbase = eb, tb
        try:
            return fn(c)
        except NeedBase as e:
            kind, key, D = e.args
            (eb if kind == 'exp' else tb)[key] = D
        except RecursionError:
            return None
        except TooBig:
            return None
        if time.time() > t_end:
            return None
    return None


def _final(c, r):
    p = c.preduce(r[0])
    if not p:
        return True
    if getattr(c, 'hasinv', False):
        # multiply the unit generators back: sum terms c_m * inv^k
        inv = c.inv
        acc = ({}, {})
        for m, v in p.items():
            den = {}
            mm = []
            for g, e in m:
                if g in inv:
                    for k, (q, e2) in inv[g].items():
                        den[k] = (q, den.get(k, (q, 0))[1] + e2 * e)
                else:
                    mm.append((g, e))
            acc = c.radd(acc, ({tuple(mm): v}, den))
        return not c.preduce(acc[0])
    return False


def zero(x, limit=8.0):
    """is the term identically zero (where defined)?"""
    if x is t.ZERO:
        return True
    if x.op == 'c':
        return False

    def f(c):
        return _final(c, c.canon(x))
    return bool(_run(f, limit))


def same(a, b, limit=8.0):
    if a is b:
        return True

    def f(c):
        return _final(c, c.radd(c.canon(a), c.rscale(c.canon(b), Fr(-1))))
    return bool(_run(f, limit))


def ratio(a, b, limit=3.0):
    """constant c with a = c*b identically, or None"""
    def f(c):
        x, y = c.canon(a), c.canon(b)
        # x.num * y.den = k * y.num * x.den
        l = c.pmul(x[0], c.dpoly(y[1]))
        r = c.pmul(y[0], c.dpoly(x[1]))
        if len(l) != len(r) or not l:
            return None
        m = next(iter(l))
        if m not in r:
            return None
        k = l[m] / r[m]
        for q, v in l.items():
            if r.get(q, 0) * k != v:
                return None
        return k
    return _run(f, limit)
