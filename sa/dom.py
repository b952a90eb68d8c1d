"""Abstract domain: linear terms over value numbers, intervals, inequalities; floating relations and ranges."""
from math import gcd, inf, isnan, floor, ceil
import itertools


# ----------------------------------------------------------------------------------------------
# atoms and linear terms

class AtomTable:
    def __init__(self):
        self.by_key = {}
        self.lo, self.hi, self.key = [], [], []
        self.n = itertools.count()

    def get(self, key, lo, hi):
        a = self.by_key.get(key)
        if a is None:
            a = len(self.key)
            self.by_key[key] = a
            self.key.append(key)
            self.lo.append(lo)
            self.hi.append(hi)
        return a

    def fresh(self, tag, lo, hi):
        return self.get(('fresh', tag, next(self.n)), lo, hi)


AT = AtomTable()


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c, self.t = c, t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return ZERO
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show_atom(a))
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s).replace('+ -', '- ')


ZERO = Lin(0)


def L(n):
    return Lin(n)


def LA(a):
    return Lin(0, ((a, 1),))


def show_atom(a):
    k = AT.key[a]
    if k[0] == 'fresh':
        return '%s#%d' % (k[1], k[2])
    if k[0] == 'init':
        return '%s[%s]' % (k[1], k[2])
    if k[0] == 'name':
        return k[1]
    return '<%s>' % (' '.join(str(x) for x in k))[:80]


# ----------------------------------------------------------------------------------------------
# floating expressions (hash-consed)

class FE:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show_fe(self)


_fe = {}


def fe(op, *a):
    k = (op,) + a
    if op == 'fc':
        # distinguish -0.0 and NaN
        import struct
        k = ('fc', struct.pack('>d', a[0]))
    r = _fe.get(k)
    if r is None:
        r = FE()
        r.op, r.a, r.id = op, a, len(_fe)
        _fe[k] = r
    return r


def fc(x):
    return fe('fc', float(x))


def show_fe(e):
    if e.op == 'fc':
        return '%g' % e.a[0]
    if e.op == 'fa':
        return str(e.a[0]) if len(e.a) == 1 else str(e.a)
    if e.op == 'i2f':
        return 'real(%r)' % e.a[0]
    if e.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return '(%r %s %r)' % (e.a[0], {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[e.op], e.a[1])
    return '%s(%s)' % (e.op, ', '.join(map(repr, e.a)))


LT, EQ, GT, UN = 1, 2, 4, 8
FPRED = {'oeq': 2, 'ogt': 4, 'oge': 6, 'olt': 1, 'ole': 3, 'one': 5, 'ord': 7, 'uno': 8, 'ueq': 10, 'ugt': 12, 'uge': 14,
         'ult': 9, 'ule': 11, 'une': 13, 'true': 15, 'false': 0}


def flip(m):
    return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)


class Infeasible(Exception):
    pass


class Split(Exception):
    """the current step needs to know `cond`: the driver splits the partition on it and retries"""

    def __init__(self, cond):
        self.cond = cond


# floating range: (lo, lo_open, hi, hi_open, maybe_nan, integral)
FTOP = (-inf, False, inf, False, True, False)
FNAN = (inf, False, -inf, False, True, False)


class Facts:
    """what is known about value numbers on one trace partition"""
    __slots__ = ('sub', 'iv', 'ge', 'ne', 'fr', 'frel', 'bools', 'link', 'chlink')

    def __init__(self):
        self.sub, self.iv, self.ge, self.ne, self.fr, self.frel, self.bools, self.link = {}, {}, (), (), {}, {}, {}, {}
        self.chlink = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub, f.iv, f.ge, f.ne = dict(self.sub), dict(self.iv), self.ge, self.ne
        f.fr, f.frel, f.bools, f.link = dict(self.fr), dict(self.frel), dict(self.bools), dict(self.link)
        f.chlink = dict(self.chlink)
        return f

    # -- integers -----------------------------------------------------------------------------
    def norm(self, l):
        sub = self.sub
        if not sub or not l.t:
            return l
        for a, _ in l.t:
            if a in sub:
                break
        else:
            return l
        r = Lin(l.c)
        for a, k in l.t:
            s = sub.get(a)
            r = r + (self.norm(s).scale(k) if s is not None else Lin(0, ((a, k),)))
        return r

    def abounds(self, a):
        r = self.iv.get(a)
        lo, hi = r if r is not None else (AT.lo[a], AT.hi[a])
        k = AT.key[a]
        if k[0] == 'mul':
            l1, h1 = self.bounds(k[1])
            l2, h2 = self.bounds(k[2])
            if None not in (l1, h1, l2, h2):
                ps = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
                lo = max(lo, min(ps)) if lo is not None else min(ps)
                hi = min(hi, max(ps)) if hi is not None else max(ps)
            elif l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                lo = max(lo, l1 * l2) if lo is not None else l1 * l2
        return lo, hi

    def bounds(self, l):
        l = self.norm(l)
        lo = hi = l.c
        for a, k in l.t:
            al, ah = self.abounds(a)
            if k < 0:
                al, ah = ah, al
            lo = None if lo is None or al is None else lo + k * al
            hi = None if hi is None or ah is None else hi + k * ah
        return lo, hi

    def prove_ge(self, l, depth=5):
        """l >= 0 ?"""
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        return self._pge(l, depth, set())

    def _pge(self, l, depth, seen):
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if depth == 0 or l in seen:
            return False
        seen.add(l)
        facts = self.ge
        # y*x1 - y*x2 >= 0 when y >= 0 and x1 >= x2
        muls = [(a, k) for a, k in l.t if AT.key[a][0] == 'mul']
        if len(muls) > 1:
            for a, k in muls:
                for b, m in muls:
                    if k > 0 > m:
                        ka, kb = AT.key[a], AT.key[b]
                        for x1, y1 in ((ka[1], ka[2]), (ka[2], ka[1])):
                            for x2, y2 in ((kb[1], kb[2]), (kb[2], kb[1])):
                                if self.norm(y1) == self.norm(y2) and self.prove_ge(y1, 1) and self.prove_ge(x1 - x2, 2):
                                    n = min(k, -m)
                                    r = self.norm(l - Lin(0, tuple(sorted(((a, n), (b, -n))))))
                                    if (not r.t and r.c >= 0) or (r.t and self._pge(r, depth - 1, seen)):
                                        return True
        # a product lies within the planes through the corners of its factors' ranges
        for a, k in muls:
            ka = AT.key[a]
            x, y = self.norm(ka[1]), self.norm(ka[2])
            (xl, xh), (yl, yh) = self.bounds(x), self.bounds(y)
            planes = ((xl, yl), (xh, yh)) if k > 0 else ((xh, yl), (xl, yh))
            for p, q in planes:
                if p is None or q is None:
                    continue
                r = self.norm(l - Lin(0, ((a, k),)) + (y.scale(p) + x.scale(q) - p * q).scale(k))
                if (not r.t and r.c >= 0) or (r.t and self._pge(r, depth - 1, seen)):
                    return True
        # eliminate one atom whose bound hurts, using a fact with the same sign on that atom
        for a, k in sorted(l.t, key=lambda x: -abs(x[1])):
            for f in facts:
                for fa, fk in f.t:
                    if fa == a and (fk > 0) == (k > 0):
                        if k % fk == 0:
                            n = self.norm(l - f.scale(k // fk))
                            if (not n.t and n.c >= 0) or (n.t and self._pge(n, depth - 1, seen)):
                                return True
                        elif fk % k == 0:
                            n = self.norm(l.scale(fk // k) - f)
                            if (not n.t and n.c >= 0) or (n.t and self._pge(n, depth - 1, seen)):
                                return True
        return False

    def prove_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.prove_ge(l) and self.prove_ge(-l)

    def prove_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        if g > 1 and self.ne:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        for n in self.ne:
            n = self.norm(n)
            if n == l or n == -l:
                return True
        return self.prove_ge(l - 1) or self.prove_ge(-l - 1)

    def assume_ge(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                raise Infeasible
            return
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            raise Infeasible
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))   # floor division tightens
        if self.prove_ge(-l - 1):
            raise Infeasible
        if len(l.t) == 1:
            self._tighten(l)
        else:
            if l not in self.ge:
                self.ge = self.ge + (l,)
                if self.prove_ge(-l, 3):
                    self.assume_eq(l)
                    return
            self._tighten(l)
        # x >= 0 with x != 0  =>  x >= 1
        for n in self.ne:
            n = self.norm(n)
            if not n.t:
                if n.c == 0:
                    raise Infeasible
                continue
            if n == l or n == -l:
                self.ne = tuple(x for x in self.ne if self.norm(x) != n)
                self.assume_ge(l - 1)
                return
        self._tighten_ne()

    def _tighten_ne(self):
        """x != c at the end of x's interval moves the end"""
        for n in self.ne:
            n = self.norm(n)
            if len(n.t) == 1 and abs(n.t[0][1]) == 1:
                a, k = n.t[0]
                v = -n.c * k
                lo, hi = self.abounds(a)
                if lo == v:
                    lo += 1
                elif hi == v:
                    hi -= 1
                else:
                    continue
                if lo is not None and hi is not None and lo > hi:
                    raise Infeasible
                self.iv[a] = (lo, hi)
                if lo == hi:
                    self._fix(a, lo)
                    return

    def _fix(self, a, v):
        if a not in self.sub:
            self.sub[a] = Lin(v)
            self.iv.pop(a, None)
            self._renorm()

    def _tighten(self, l):
        for a, k in l.t:
            # k*a >= -(rest) ; need upper bound of rest
            rest = Lin(l.c, tuple(x for x in l.t if x[0] != a))
            rlo, rhi = self.bounds(rest)
            if rhi is None:
                continue
            lo, hi = self.abounds(a)
            if k > 0:
                b = -(rhi // k)          # a >= ceil(-rhi/k)
                if lo is None or b > lo:
                    lo = b
                else:
                    continue
            else:
                b = rhi // (-k)
                if hi is None or b < hi:
                    hi = b
                else:
                    continue
            if lo is not None and hi is not None and lo > hi:
                raise Infeasible
            self.iv[a] = (lo, hi)
            if lo is not None and lo == hi:
                self._fix(a, lo)
                return

    def assume_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                raise Infeasible
            return
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            raise Infeasible
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        if self.prove_ge(l - 1) or self.prove_ge(-l - 1) or self.prove_ne(l):
            raise Infeasible
        # choose newest atom with unit coefficient that is not inside a product
        for a, k in sorted(l.t, key=lambda x: -x[0]):
            if abs(k) == 1 and AT.key[a][0] != 'mul':
                rest = Lin(l.c, tuple(x for x in l.t if x[0] != a))
                if self.inside(a, rest):
                    continue
                s = -rest if k == 1 else rest
                lo, hi = self.abounds(a)
                self.sub[a] = s
                if lo is not None:
                    self.assume_ge(s - lo)
                if hi is not None:
                    self.assume_ge((-s) + hi)
                self._renorm()
                return
        self.ge = self.ge + (l, -l)
        self._tighten(l)
        self._tighten(-l)

    def inside(self, a, l, depth=6):
        """does atom a occur within a product in l?"""
        for b, _ in self.norm(l).t:
            if b == a:
                return True
            k = AT.key[b]
            if k[0] == 'mul' and depth and (self.inside(a, k[1], depth - 1) or self.inside(a, k[2], depth - 1)):
                return True
        return False

    def _renorm(self):
        ge = self.ge
        self.ge = ()
        new = []
        again = []
        for f in ge:
            n = self.norm(f)
            if n is f:
                new.append(f)
            else:
                again.append(n)
        self.ge = tuple(new)
        for n in again:
            if n.t:
                self.assume_ge(n)
            elif n.c < 0:
                raise Infeasible
        for n in self.ne:
            n = self.norm(n)
            if not n.t and n.c == 0:
                raise Infeasible
        if self.link:
            for a, rem in list(self.link.items()):
                if a in self.sub:
                    n = self.norm(LA(a))
                    if not n.t:
                        del self.link[a]
                        self.char_known(rem, n.c)

    def char_known(self, rem, c):
        """a character read `rem` positions before the terminating NUL (rem >= 0) equals c"""
        if c == 0:
            self.assume_eq(rem)
        else:
            self.assume_ge(rem - 1)

    def assume_ne(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                raise Infeasible
            return
        if self.prove_eq(l):
            raise Infeasible
        if self.prove_ge(l):
            return self.assume_ge(l - 1)
        if self.prove_ge(-l):
            return self.assume_ge(-l - 1)
        if l not in self.ne and -l not in self.ne:
            self.ne = self.ne + (l,)
        if len(l.t) == 1 and l.c == 0:
            rem = self.link.pop(l.t[0][0], None)
            if rem is not None:
                self.assume_ge(rem - 1)
        self._tighten_ne()

    # -- floating ------------------------------------------------------------------------------
    def frange(self, e):
        r = self._frange0(e)
        s = self.fr.get(e)
        if s:
            r = meet(r, s)
        return r

    def _frange0(self, e):
        op = e.op
        if op == 'fc':
            x = e.a[0]
            if isnan(x):
                return (inf, False, -inf, False, True, False)
            return (x, False, x, False, False, x in (inf, -inf) or x == floor(x))
        if op == 'i2f':
            lo, hi = self.bounds(e.a[0])
            return (-inf if lo is None else float(lo), False, inf if hi is None else float(hi), False, False, True)
        if op == 'floor':
            lo, lo_o, hi, hi_o, nan, it = self.frange(e.a[0])
            return (floor(lo) if abs(lo) != inf else lo, False, floor(hi) if abs(hi) != inf else hi, False, nan, True)
        if op in ('trunc', 'rint', 'round', 'nearbyint', 'ceil'):
            lo, lo_o, hi, hi_o, nan, it = self.frange(e.a[0])
            up, dn = (lambda v: v if abs(v) == inf else float(ceil(v))), (lambda v: v if abs(v) == inf else float(floor(v)))
            return (dn(lo) if op != 'ceil' else up(lo), False, up(hi), False, nan, True)
        if op == 'fabs':
            lo, _, hi, _, nan, it = self.frange(e.a[0])
            m = max(abs(lo), abs(hi)) if lo <= hi else 0
            return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), False, m, False, nan, it)
        if op == 'fneg':
            lo, lo_o, hi, hi_o, nan, it = self.frange(e.a[0])
            return (-hi, hi_o, -lo, lo_o, nan, it)
        if op == 'fdiv' and e.a[1].op == 'fc' and e.a[1].a[0] > 0 and e.a[1].a[0] != inf:
            k = e.a[1].a[0]
            lo, lo_o, hi, hi_o, nan, it = self.frange(e.a[0])
            return (lo / k, False, hi / k, False, nan, False)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and any(x[0] > x[2] for x in map(self.frange, e.a)):
            return FNAN
        if op in ('fadd', 'fsub'):
            a, b = self.frange(e.a[0]), self.frange(e.a[1])
            if not (a[4] or b[4]) and all(abs(v) != inf for v in (a[0], a[2], b[0], b[2])):
                if op == 'fadd':
                    return (a[0] + b[0], False, a[2] + b[2], False, False, a[5] and b[5])
                return (a[0] - b[2], False, a[2] - b[0], False, False, a[5] and b[5])
        return FTOP

    def frel_mask(self, a, b):
        """possible relations of a to b"""
        m = 15
        if a is b:
            r = self.frange(a)
            return UN if r[0] > r[2] else (EQ | UN) & (15 if r[4] else ~UN)
        if a.op == 'i2f' and b.op == 'i2f':
            d = a.a[0] - b.a[0]
            m = 0
            if not self.prove_ge(-d):
                m |= GT
            if not self.prove_ge(d):
                m |= LT
            if not self.prove_ne(d):
                m |= EQ
            return m or EQ
        if a.id > b.id:
            return flip(self.frel_mask(b, a))
        m = self.frel.get((a, b), 15)
        ra, rb = self.frange(a), self.frange(b)
        if not ra[4] and not rb[4]:
            m &= ~UN
        if ra[0] > ra[2] or rb[0] > rb[2]:
            return UN
        # a < b possible?
        if ra[0] > rb[2] or (ra[0] == rb[2]):
            m &= ~LT
        if ra[2] < rb[0] or (ra[2] == rb[0]):
            m &= ~GT
        if ra[0] > rb[2] or ra[2] < rb[0]:
            m &= ~EQ
        if ra[0] == rb[2] and (ra[1] or rb[3]):
            m &= ~EQ
        if ra[2] == rb[0] and (ra[3] or rb[1]):
            m &= ~EQ
        # e versus floor(e): never less
        if b.op == 'floor' and b.a[0] is a:
            m &= ~LT
        if a.op == 'floor' and a.a[0] is b:
            m &= ~GT
        return m

    def assume_frel(self, a, b, mask):
        if a.id > b.id and not (a.op == 'i2f' and b.op == 'i2f'):
            a, b, mask = b, a, flip(mask)
        m = self.frel_mask(a, b) & mask
        if m == 0:
            raise Infeasible
        if a.op == 'i2f' and b.op == 'i2f':
            d = a.a[0] - b.a[0]
            if m == EQ:
                self.assume_eq(d)
            elif m == LT:
                self.assume_ge(-d - 1)
            elif m == GT:
                self.assume_ge(d - 1)
            elif m == LT | EQ:
                self.assume_ge(-d)
            elif m == GT | EQ:
                self.assume_ge(d)
            elif m == LT | GT:
                self.assume_ne(d)
            return
        if a is not b:
            self.frel[(a, b)] = m
        if m == UN:
            # one of them is not a number
            if a is b or not self.frange(b)[4]:
                self.set_frange(a, FNAN)
            elif not self.frange(a)[4]:
                self.set_frange(b, FNAN)
            return
        for x, y, mm in ((a, b, m), (b, a, flip(m))):
            if mm & UN:
                continue
            ry = self.frange(y)
            nr = [-inf, False, inf, False, False, False]
            if not mm & GT:
                nr[2], nr[3] = ry[2], ry[3] or not (mm & EQ)
            if not mm & LT:
                nr[0], nr[1] = ry[0], ry[1] or not (mm & EQ)
            if mm == EQ and (ry[5]):
                nr[5] = True
            self.set_frange(x, tuple(nr))

    def set_frange(self, x, nr):
        if x.op == 'fc':
            if nr[4] is False and isnan(x.a[0]):
                raise Infeasible
            return
        r = meet(self.frange(x), nr)
        if (r[0] > r[2] or (r[0] == r[2] and (r[1] or r[3]))) and not r[4]:
            raise Infeasible
        had_nan = self.frange(x)[4]
        self.fr[x] = r
        if had_nan and not r[4]:
            # x is a number: relations recorded while it could be NaN now bound it
            for (a, b), m in list(self.frel.items()):
                if (a is x or b is x) and m & UN:
                    m2 = self.frel_mask(a, b)
                    if not m2 & UN:
                        self.assume_frel(a, b, m2)
            r = self.fr[x]
        if x.op == 'i2f':
            if r[0] > -inf:
                v = int(floor(r[0]))
                if r[0] != v or r[1]:
                    v += 1
                self.assume_ge(x.a[0] - v)
            if r[2] < inf:
                v = int(floor(r[2]))
                if r[3] and v == r[2]:
                    v -= 1
                self.assume_ge(-x.a[0] + v)
        if x.op == 'fneg':
            self.set_frange(x.a[0], (-r[2], r[3], -r[0], r[1], r[4], r[5]))


def meet(a, b):
    lo, lo_o = (a[0], a[1]) if a[0] > b[0] else (b[0], b[1]) if b[0] > a[0] else (a[0], a[1] or b[1])
    hi, hi_o = (a[2], a[3]) if a[2] < b[2] else (b[2], b[3]) if b[2] < a[2] else (a[2], a[3] or b[3])
    it = a[5] or b[5]
    if it and abs(lo) != inf:
        if lo != floor(lo):
            lo, lo_o = float(floor(lo) + 1), False
        elif lo_o:
            lo, lo_o = lo + 1, False
    if it and abs(hi) != inf:
        if hi != floor(hi):
            hi, hi_o = float(floor(hi)), False
        elif hi_o:
            hi, hi_o = hi - 1, False
    return (lo, lo_o, hi, hi_o, a[4] and b[4], it)
