"""Concretisation of abstract states.

An abstract state (path facts over value numbers) is *inhabited* when some assignment of the free value numbers
satisfies every fact. A disagreement between a state and a specification is reported only when the state is inhabited
by an assignment under which the two differ (so that imprecision of the domain never raises an alarm); agreement is
established in the domain itself. States that are neither are counted as undecided.
"""
import math, random, re
from .dom import *
from . import ai as A


class Unknown(Exception):
    """the value has no interpretation (imprecise value number)"""


FREE = {'name', 'init', 'len', 'gets', 'rand', 'time', 'printf', 'setjmp', 'oldsize', 'param'}
PRECISE_FRESH = {'rand', 'time', 'printf', 'getc', 'name', 'free', 'order sign'}


class Env:
    def __init__(self, f):
        self.f = f
        self.i = {}          # atom -> int
        self.x = {}          # FE leaf -> float
        self.s = {}          # string base (region id / ('gets',k)) -> bytes
        self.imprecise = set()
        self.depth = 0
        self.mag = 1

    # ---- integers
    def lin(self, l):
        v = l.c
        for a, k in l.t:
            v += k * self.atom(a)
        return v

    def atom(self, a):
        v = self.i.get(a)
        if v is not None:
            return v
        self.depth += 1
        if self.depth > 60:
            raise Unknown('depth')
        try:
            v = self._atom(a)
        finally:
            self.depth -= 1
        self.i[a] = v
        return v

    def _atom(self, a):
        s = self.f.sub.get(a)
        if s is not None:
            return self.lin(s)
        return self.compute(a)

    def compute(self, a):
        k = AT.key[a]
        t = k[0]
        if t == 'mul':
            return self.lin(k[1]) * self.lin(k[2])
        if t in ('div',):
            y = k[2] if isinstance(k[2], int) else self.lin(k[2])
            if y == 0:
                raise Unknown('div0')
            return self.lin(k[1]) // y
        if t in ('rem',):
            y = k[2] if isinstance(k[2], int) else self.lin(k[2])
            if y == 0:
                raise Unknown('div0')
            return self.lin(k[1]) % y
        if t in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.lin(k[1]), self.lin(k[2])
            if y == 0:
                raise Unknown('div0')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if t.endswith('div') else x - q * y
        if t == 'wrap' or t == 'trunc' or t == 'uv':
            return self.lin(k[2]) % (1 << k[1])
        if t == 'sv':
            v = self.lin(k[2]) % (1 << k[1])
            return v - (1 << k[1]) if v >= 1 << (k[1] - 1) else v
        if t == 'f2i':
            v = self.fe(k[1])
            if math.isnan(v) or math.isinf(v):
                raise Unknown('f2i')
            v = int(v)
            if len(k) > 2 and not (AT.lo[a] <= v <= AT.hi[a]):
                raise Unknown('f2i range')
            return v
        if t == 'and' and isinstance(k[2], int):
            return self.lin(k[1]) & k[2]
        if t in ('and', 'or', 'xor') and len(k) == 4:
            x, y = self.lin(k[2]), self.lin(k[3])
            v = x & y if t == 'and' else x | y if t == 'or' else x ^ y
            w = k[1]
            if not (AT.lo[a] <= v <= AT.hi[a]):
                v %= 1 << w
                if v > AT.hi[a]:
                    v -= 1 << w
            return v
        if t == 'strcmp':
            x, y = self.term(k[1]), self.term(k[2])
            return ((x > y) - (x < y)) * self.mag       # only the sign is specified
        if t in ('strcasecmp', '_stricmp') and len(k) == 3:
            x, y = self.term(k[1]), self.term(k[2])
            x, y = x.lower(), y.lower()
            return (x > y) - (x < y)
        if t == 'len':
            b = self.s.get(k[2])
            if b is not None:
                return len(b)
        if t == 'gets':
            b = self.s.get(k)
            if b is not None:
                return len(b)
        if t == 'chr' and len(k) == 3:
            b = self.term(k[1])
            n = self.lin(k[2])
            if n == len(b):
                return 0
            if not 0 <= n < len(b):
                raise Unknown('chr')
            c = b[n]
            return c - 256 if c > 127 else c
        if t in ('toupper', 'tolower'):
            c = self.lin(k[1])
            if t == 'toupper' and 97 <= c <= 122:
                return c - 32
            if t == 'tolower' and 65 <= c <= 90:
                return c + 32
            return c
        if t == 'fmtlen':
            return len(self.fmt(k[1], k[2]))
        if t == 'pos' and k[1] in ('strchr', 'strrchr') and isinstance(k[2], tuple):
            b = self.term(k[2])
            c = int(k[3]) & 255
            p = b.find(bytes([c])) if k[1] == 'strchr' else b.rfind(bytes([c]))
            if p < 0:
                raise Unknown('pos')
            return p
        if t == 'pos' and k[1] in ('strspn', 'strcspn', 'strpbrk') and isinstance(k[2], tuple) and isinstance(k[3], tuple):
            b, cs = self.term(k[2]), self.term(k[3])
            n = 0
            while n < len(b) and (b[n] in cs) == (k[1] == 'strspn'):
                n += 1
            return n
        if t == 'used' and k[1] == 'strtod' and isinstance(k[2], tuple):
            return strtod(self.term(k[2]))[1]
        raise Unknown(k)

    # ---- reals
    def fe(self, e):
        v = self.x.get(e)
        if v is not None:
            return v
        self.depth += 1
        if self.depth > 60:
            raise Unknown('depth')
        try:
            v = self._fe(e)
        finally:
            self.depth -= 1
        self.x[e] = v
        return v

    def _fe(self, e):
        op = e.op
        if op == 'fc':
            return e.a[0]
        if op == 'i2f':
            return float(self.lin(e.a[0]))
        if op == 'fa':
            if e.a[0] == 'strtod' and isinstance(e.a[1], tuple):
                return strtod(self.term(e.a[1]))[0]
            raise Unknown(e.a)
        xs = [self.fe(x) for x in e.a]
        try:
            return FOPS[op](*xs)
        except KeyError:
            raise Unknown(op)
        except OverflowError:
            return math.inf
        except (ValueError, ZeroDivisionError):
            return math.nan

    # ---- strings
    def term(self, t):
        if t is None:
            raise Unknown('term')
        k = t[0]
        if k == 'lit':
            return t[1]
        if k == 'str':
            b = self.s.get(t[1].id)
            if b is None:
                raise Unknown(t)
            return b
        if k == 'cat':
            return b''.join(self.term(x) for x in t[1])
        if k == 'sub':
            b = self.term(t[1])
            s, n = self.lin(t[2]), self.lin(t[3])
            if s < 0 or n < 0 or s + n > len(b):
                raise Unknown('sub')
            return b[s:s + n]
        if k == 'chr':
            v = t[1]
            l = v.l if hasattr(v, 'l') else v
            return bytes([self.lin(l) & 255])
        if k == 'fmt':
            return self.fmt(t[1], t[2])
        if k == 'gets':
            b = self.s.get(t)
            if b is None:
                raise Unknown(t)
            return b
        raise Unknown(t)

    def fmt(self, f, args):
        out = []
        k = pos = 0
        for m in re.finditer(rb'%([-+ #0]*)(\d+)?(?:\.(\d+))?(l|ll|h|z)?([a-zA-Z%])', f):
            out.append(f[pos:m.start()])
            pos = m.end()
            c = m.group(5)
            if c == b'%':
                out.append(b'%')
                continue
            a = args[k]
            k += 1
            spec = m.group(0).replace(m.group(4) or b'\0', b'') if m.group(4) else m.group(0)
            if isinstance(a, FE):
                v = self.fe(a)
                s = ('%' + spec.decode()[1:]) % v
                out.append(s.encode())
            elif isinstance(a, Lin):
                out.append(((spec.decode().replace('u', 'd')) % self.lin(a)).encode())
            else:
                raise Unknown('fmt')
        out.append(f[pos:])
        return b''.join(out)


def _pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf
    except ValueError:
        return math.inf if x == 0 else math.nan


def _div(x, y):
    if y == 0:
        if x == 0 or math.isnan(x):
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y


def _fl(g):
    def h(x):
        return x if math.isinf(x) or math.isnan(x) else float(g(x))
    return h


def _log(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def _f32(x):
    import struct
    try:
        return struct.unpack('>f', struct.pack('>f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


FOPS = {
    'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': _div,
    'fneg': lambda x: -x, 'fabs': abs, 'floor': _fl(math.floor), 'ceil': _fl(math.ceil), 'trunc': _fl(math.trunc),
    'round': _fl(lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)), 'rint': _fl(round), 'nearbyint': _fl(round),
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'sin': lambda x: math.sin(x) if math.isfinite(x) else math.nan,
    'cos': lambda x: math.cos(x) if math.isfinite(x) else math.nan,
    'tan': lambda x: math.tan(x) if math.isfinite(x) else math.nan, 'atan': math.atan, 'exp': math.exp, 'log': _log,
    'log10': lambda x: math.log10(x) if x > 0 else math.nan, 'pow': _pow, 'fmod': math.fmod, 'atan2': math.atan2,
    'f32': _f32, 'sinh': math.sinh, 'cosh': math.cosh, 'fmin': min, 'fmax': max, 'frem': math.fmod,
}

_num = re.compile(rb'[ \t\n\v\f\r]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf(inity)?|nan))', re.I)


def strtod(b):
    m = _num.match(b)
    if not m:
        return 0.0, 0
    return float(m.group(1)), m.end()


# ---------------------------------------------------------------------------------------------- witnesses

def atoms_of(x, out, fes, strs, depth=0):
    """collect free leaves below a value"""
    if depth > 40 or x is None:
        return
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a in out:
                continue
            out.add(a)
            for y in AT.key[a]:
                if isinstance(y, (Lin, FE, tuple)):
                    atoms_of(y, out, fes, strs, depth + 1)
            k = AT.key[a]
            if k[0] == 'len':
                strs.add(k[2])
            if k[0] == 'gets':
                strs.add(k)
    elif isinstance(x, FE):
        if x in fes:
            return
        fes.add(x)
        for y in x.a:
            if isinstance(y, (Lin, FE, tuple)):
                atoms_of(y, out, fes, strs, depth + 1)
    elif isinstance(x, tuple) and x:
        if x[0] == 'str' and len(x) == 2 and hasattr(x[1], 'id'):
            strs.add(x[1].id)
            return
        if x[0] == 'gets' and len(x) == 2:
            strs.add(x)
            return
        for y in x:
            if isinstance(y, (Lin, FE, tuple)):
                atoms_of(y, out, fes, strs, depth + 1)
            elif isinstance(y, A.IV):
                atoms_of(y.l, out, fes, strs, depth + 1)


def imprecise_atom(a):
    k = AT.key[a]
    t = k[0]
    if t in ('phi', 'cell', 'opq', 'past', 'len?', 'ctype', 'ctypebits', 'ptrbase', 'used'):
        return t != 'used' or not isinstance(k[2], tuple)
    if t == 'fresh':
        return k[1] not in PRECISE_FRESH
    if t == 'init':
        # plain initial content: (region, off, id, width); anything longer carries an imprecision tag
        return len(k) > 5 and not (len(k) == 6 and k[4] == 'uninit')      # indeterminate: any value
    if t == 'chr':
        return len(k) != 3
    return False


def imprecise_fe(e):
    if e.op != 'fa':
        return False
    a = e.a
    if a[0] == 'opq' or a[0] == 'undef':
        return True
    if a[0] == 'strtod':
        return not isinstance(a[1], tuple)
    if a[0] in ('phi', 'cell'):
        return True
    return len(a) > 3


SVALS = [b'', b'A', b'a', b'AB', b'ABC', b'hello world', b'12', b' 3.5', b'-1', b'Zebra', b'\xe9\xff', b'1,2', b'x y',
         b'ab\ncd', b'B', b'3x', b'0']


class Witness:
    def __init__(self, st, extra=(), seed=1, tries=3000):
        self.st = st
        f = self.f = st.f
        self.rnd = random.Random(seed)
        ats, fes, strs = set(), set(), set()
        self.ge = [f.norm(l) for l in f.ge]
        self.ne = [f.norm(l) for l in f.ne]
        for l in self.ge + self.ne:
            atoms_of(l, ats, fes, strs)
        for a, l in f.sub.items():
            atoms_of(l, ats, fes, strs)
            atoms_of(LA(a), ats, fes, strs)
        for a in f.iv:
            atoms_of(LA(a), ats, fes, strs)
        for e in f.fr:
            atoms_of(e, ats, fes, strs)
        for a, b in f.frel:
            atoms_of(a, ats, fes, strs)
            atoms_of(b, ats, fes, strs)
        for b in f.bools:
            atoms_of(b, ats, fes, strs)
        for x in extra:
            atoms_of(x, ats, fes, strs)
        self.ats, self.fes, self.strs = ats, fes, strs
        self.free = [a for a in ats if a not in f.sub and self.is_free(a)]
        # a derived value on which its own operand depends (through the facts) is guessed, then checked
        self.guessed = {a for a in ats if a not in f.sub and not self.is_free(a) and AT.key[a][0] in ('div', 'rem', 'udiv', 'urem', 'and')
                        and self.circular(a)}
        self.free += list(self.guessed)
        self.ffree = [e for e in fes if e.op == 'fa' and e.a[0] != 'strtod']
        self.imprecise = [a for a in ats if imprecise_atom(a)]
        self.imprecise_f = [e for e in fes if imprecise_fe(e)]
        self.unknown_bools = [b for b in f.bools if not (isinstance(b, tuple) and b and b[0] in ('set', 'found', 'line exists'))]
        self.precise = not self.imprecise and not self.imprecise_f and not self.unknown_bools and \
            not any(r.imprecise for r in st.null)
        self.tries = tries
        pool = {0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 2.5, 3.0, 255.0, 256.0, 1e10, -1e10, 10.0, 7.0, -3.0, 4294967295.0, 4294967296.0,
                2147483647.0, -2147483648.0, 2147483648.0, -2147483649.0, 65536.0, 1e-300, -7.25, 100.0, 5.0, 4.0, 1e300, -1e300}
        for e in fes:
            if e.op == 'fc' and math.isfinite(e.a[0]):
                for d in (0, .5, -.5, 1, -1):
                    pool.add(e.a[0] + d)
        for e, r in f.fr.items():
            for v in (r[0], r[2]):
                if math.isfinite(v):
                    for d in (0, .5, -.5, 1, -1):
                        pool.add(v + d)
        self.fpool = sorted(pool)
        ip = {0, 1, 2, 3, 5, 8, 10, 16, 100, 255, 256, 65535}
        for l in self.ge + self.ne:
            for d in (-1, 0, 1):
                ip.add(abs(l.c) + d)
        self.ipool = sorted(ip)

    def is_free(self, a):
        t = AT.key[a][0]
        if t in ('mul', 'div', 'rem', 'udiv', 'urem', 'sdiv', 'srem', 'wrap', 'trunc', 'uv', 'sv', 'and', 'or', 'xor', 'strcmp', 'toupper', 'tolower', 'fmtlen',
                 'pos', 'f2i'):
            return False
        if t == 'chr':
            return imprecise_atom(a)
        if t == 'used':
            return imprecise_atom(a)
        if t == 'len' or t == 'gets':
            return False
        return True

    def circular(self, d):
        seen, todo = set(), [d]
        while todo:
            x = todo.pop()
            for y in ([self.f.sub[x]] if x in self.f.sub else []) + [y for y in AT.key[x] if isinstance(y, Lin)]:
                for a in y.atoms():
                    if a == d:
                        return True
                    if a not in seen:
                        seen.add(a)
                        todo.append(a)
        return False

    def pick_int(self, a):
        lo, hi = self.f.abounds(a)
        r = self.rnd
        lo2 = lo if lo is not None else -1000
        hi2 = hi if hi is not None else max(lo2, 0) + 100000
        for _ in range(6):
            m = r.random()
            if m < .3:
                v = lo2 + r.choice((0, 0, 1, 2, 3))
            elif m < .45:
                v = hi2 - r.choice((0, 0, 1, 2))
            elif m < .8:
                v = r.choice(self.ipool) * r.choice((1, 1, 1, -1))
            else:
                v = r.randint(lo2, min(hi2, lo2 + 300))
            if lo2 <= v <= hi2:
                return v
        return lo2

    def pick_f(self, e):
        r = self.f.fr.get(e)
        rnd = self.rnd
        if r is not None and r[0] > r[2] and r[4]:
            return math.nan
        for _ in range(30):
            m = rnd.random()
            if m < .7:
                v = rnd.choice(self.fpool)
            elif m < .9:
                v = float(rnd.randint(-20, 300))
            else:
                v = rnd.uniform(-50, 300)
            if r is None or okrange(v, r):
                return v
        if r is not None:
            if okrange(r[0], r):
                return r[0]
            if okrange(r[2], r):
                return r[2]
        return rnd.choice(self.fpool)

    def pick_s(self, k):
        r = self.rnd
        hi = lo = None
        if isinstance(k, tuple):
            n = r.choice((1, 2, 3, 5, 12, 80, 127))
            s = r.choice(SVALS) * r.choice((1, 1, 2, 10)) + r.choice((b'\n', b'\n', b''))
            return (s or b'\n')[:126]
        m = r.random()
        if m < .7:
            s = r.choice(SVALS)
        elif m < .85:
            s = bytes(r.randint(32, 126) for _ in range(r.randint(0, 20)))
        else:
            s = bytes(r.randint(32, 126) for _ in range(r.choice((100, 127, 128, 200, 254, 255, 256, 257, 300))))
        return s

    def resized(self, b, n):
        n = max(0, n)
        if len(b) >= n:
            return b[:n]
        return b + bytes(self.rnd.randint(32, 126) for _ in range(n - len(b)))

    def violated(self, env):
        """first violated integer fact, as [(expression, change of its value that would help)]; None if all hold.
        Unknown facts raise (their atoms are imprecise)"""
        f = self.f
        for l in self.ge:
            v = env.lin(l)
            if v < 0:
                return [(l, -v)]
        for l in self.ne:
            if env.lin(l) == 0:
                return [(l, 1), (l, -1)]
        for a in self.ats:
            v = env.atom(a)
            lo, hi = f.iv.get(a, (AT.lo[a], AT.hi[a]))
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return [(f.sub[a] if a in f.sub else LA(a), (lo if lo is not None and v < lo else hi) - v)]
            if a in self.guessed:
                c = env.compute(a)
                if c != v:
                    return [(LA(a), c - v)]
            if a in f.sub and not self.is_free(a):
                # the value fixed by the facts is the value it is defined to have
                try:
                    c = env.compute(a)
                except Unknown:
                    if AT.key[a][0] in ('pos', 'chr', 'f2i', 'div', 'rem', 'udiv', 'urem', 'sdiv', 'srem'):
                        raise
                    continue
                if c != v:
                    if AT.key[a][0] == 'len' and not f.sub[a].t:
                        self.resize = (AT.key[a][2], v)
                    return [(f.sub[a], c - v), (LA(a), v - c)]
        return None

    def moves(self, l, d, free, out, depth=0):
        """ways to change the value of l by about d: (free atom, change)"""
        for a, k in l.t:
            n = -(-d // k) if k * d > 0 else -(d // -k)
            if not n:
                n = 1 if (d > 0) == (k > 0) else -1
            if a in free:
                out.append((a, n))
                continue
            if depth > 5:
                continue
            if a in self.f.sub:
                self.moves(self.f.sub[a], n, free, out, depth + 1)
            key = AT.key[a]
            t = key[0]
            if t in ('rem', 'urem', 'srem') and isinstance(key[1], Lin):
                self.moves(key[1], n, free, out, depth + 1)
            elif t in ('div', 'udiv', 'sdiv') and isinstance(key[1], Lin):
                y = key[2] if isinstance(key[2], int) else key[2].c if not key[2].t else 1
                self.moves(key[1], n * (y or 1), free, out, depth + 1)
            elif t in ('wrap', 'trunc', 'uv', 'sv') and isinstance(key[2], Lin):
                self.moves(key[2], n, free, out, depth + 1)
            elif t == 'and' and isinstance(key[1], Lin):
                self.moves(key[1], n, free, out, depth + 1)
            elif t == 'mul':
                for x, y in ((key[1], key[2]), (key[2], key[1])):
                    m = y.c if not y.t else 1
                    self.moves(x, -(-n // m) if m else n, free, out, depth + 1)

    def others(self, env):
        f = self.f
        for e, r in f.fr.items():
            if not okrange(env.fe(e), r):
                return False
        for (a, b), m in f.frel.items():
            x, y = env.fe(a), env.fe(b)
            rel = UN if math.isnan(x) or math.isnan(y) else LT if x < y else GT if x > y else EQ
            if not rel & m:
                return False
        for b, v in f.bools.items():
            if not isinstance(b, tuple) or not b:
                continue
            if b[0] == 'set':
                if (env.lin(b[1]) in b[2]) != v:
                    return False
            elif b[0] == 'found' and isinstance(b[2], tuple):
                s = env.term(b[2])
                if (bytes([int(b[3]) & 255]) in s) != v:
                    return False
        return True

    def find(self, ok=lambda env: True):
        """an assignment satisfying every fact and `ok`; None if none was found"""
        f = self.f
        rnd = self.rnd
        for t in range(self.tries):
            base_i = {}
            env = Env(f)
            mag = 1 if t < 20 else rnd.choice((1, 1, 7, 32))
            for a in self.free:
                base_i[a] = self.pick_int(a)
            fx = {e: self.pick_f(e) for e in self.ffree}
            if self.ffree and rnd.random() < .4 and len(self.ffree) > 1:
                a, b = rnd.sample(self.ffree, 2)
                fx[a] = fx[b]
            ss = {k: self.pick_s(k) for k in self.strs}
            if len(ss) > 1 and rnd.random() < .3:
                a, b = rnd.sample(list(ss), 2)
                ss[a] = ss[b]
            good = False
            for rep in range(14):
                env = Env(f)
                env.mag = mag
                env.i.update(base_i)
                env.x.update(fx)
                env.s.update(ss)
                try:
                    self.resize = None
                    bad = self.violated(env)
                except Unknown:
                    break
                if bad is None:
                    good = True
                    break
                if self.resize:
                    k, n = self.resize
                    ss[k] = self.resized(ss.get(k, b''), n)
                    continue
                # move one free atom of the violated fact to make it hold
                c = []
                for l, d in bad:
                    self.moves(l, d, base_i, c)
                bad = bad[0][0]
                cf = [(a, k) for a, k in bad.t if AT.key[a][0] == 'f2i' and AT.key[a][1] in fx and abs(k) == 1]
                if cf and (not c or rnd.random() < .5):
                    a, k = rnd.choice(cf)
                    try:
                        v = env.atom(a) - env.lin(bad) // k + rnd.choice((0, 0, 0, 1, -1))
                    except Unknown:
                        break
                    fx[AT.key[a][1]] = float(v)
                    continue
                if not c:
                    # lengths of strings
                    c2 = [a for a, k in bad.t if AT.key[a][0] in ('len', 'gets')]
                    if c2:
                        a = rnd.choice(c2)
                        key = AT.key[a][2] if AT.key[a][0] == 'len' else AT.key[a]
                        k = dict(bad.t)[a]
                        v = env.lin(bad)
                        n = env.atom(a) + (-v // k if k > 0 else -(v // k)) + rnd.choice((0, 0, 0, 1, -1))
                        ss[key] = self.resized(ss.get(key, b''), n) if key in ss and 0 <= n < 5000 and rnd.random() < .8 else self.pick_s(key)
                        continue
                    break
                a, d = rnd.choice(c)
                lo, hi = f.abounds(a)
                base_i[a] += d + rnd.choice((0, 0, 0, 1, -1))
                if lo is not None and base_i[a] < lo:
                    base_i[a] = lo
                if hi is not None and base_i[a] > hi:
                    base_i[a] = hi
            if not good:
                continue
            try:
                if self.others(env) and ok(env):
                    return env
            except Unknown:
                continue
            except (OverflowError, ValueError):
                continue
        return None


def okrange(v, r):
    if math.isnan(v):
        return r[4]
    if v < r[0] or (v == r[0] and r[1]) or v > r[2] or (v == r[2] and r[3]):
        return False
    if r[5] and math.isfinite(v) and v != math.floor(v):
        return False
    return True


def feq(x, y):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= 1e-12 * max(abs(x), abs(y))


def show_env(w, env):
    out = []
    for a in sorted(w.free):
        if a in env.i and AT.key[a][0] != 'fresh':
            out.append('%s=%d' % (show_atom(a), env.i[a]))
    for e in w.ffree:
        if e in env.x:
            out.append('%r=%g' % (e, env.x[e]))
    for k, v in env.s.items():
        out.append('string=%r' % (v[:40],))
    return ', '.join(out)[:300]
