"""Abstract interpreter over the IR: trace-partitioned, callees analysed in context, loops solved by fixpoint.

A partition carries: SSA environment, log-structured abstract memory, facts about value numbers and the list of
observable effects. Loops whose iteration is not decided within a small unrolling are generalised: everything
they modify is forgotten except candidate invariants that survive a greatest-fixpoint pruning.
"""
import itertools
import struct
from .dom import *
from .dom import _fe
from . import ir
from .ir import at, Anchor

INF = None


class IV:
    """integer of width w; `lin` is congruent to it modulo 2^w and lies in [-2^(w-1), 2^w-1]"""
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w, self.l = w, l if isinstance(l, Lin) else Lin(l)

    def __repr__(self):
        return 'i%d(%r)' % (self.w, self.l)


class BV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'bool%r' % (self.c,)


class PV:
    __slots__ = ('r', 'off', 'ext', 'chk')

    def __init__(self, r, off=ZERO, ext=None, chk=()):
        self.r, self.off, self.ext, self.chk = r, off if isinstance(off, Lin) else Lin(off), ext, chk

    def __repr__(self):
        return '&%s+%r' % (self.r.name if self.r else 'NULL', self.off)


class FP:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'fn:%s' % (self.f,)


class UN_:
    def __repr__(self):
        return 'undef'


UNDEF = UN_()


def flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'reg':
                yield x
            else:
                yield from flat(x)


class Agg:
    """an aggregate value: the contents of a stretch of memory at the time it was loaded"""
    __slots__ = ('r', 'log', 'off', 'size')

    def __init__(self, r, log, off, size):
        self.r, self.log, self.off, self.size = r, log, off, size

    def __repr__(self):
        return 'aggregate(%s, %d)' % (self.r.name, self.size)


NULLP = PV(None)
TRUE, FALSE = BV(('c', True)), BV(('c', False))


class Region:
    __slots__ = ('kind', 'key', 'size', 'init', 'di', 'data', 'name', 'maybe_null', 'string', 'site', 'id', 'elem',
                 'imprecise')
    n = itertools.count()

    def __init__(self, kind, key, size=None, init='lazy', di=None, name=None, maybe_null=False, string=False):
        self.kind, self.key, self.size, self.init, self.di = kind, key, size, init, di
        self.name = name or str(key)
        self.maybe_null, self.string = maybe_null, string
        self.data = None
        self.site = None
        self.elem = None
        self.imprecise = False
        self.id = next(Region.n)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Node:
    """one entry of a region's memory log"""
    __slots__ = ('prev', 'k', 'off', 'size', 'val', 'ext', 'x', 'depth')

    def __init__(self, prev, k, off, size, val=None, ext=None, x=None):
        self.prev, self.k, self.off, self.size, self.val, self.ext, self.x = prev, k, off, size, val, ext, x
        self.depth = prev.depth + 1 if prev else 1


# node kinds: 'w' write, 'r' remembered read of unknown content, 'h' forgotten range (ext or None = everything),
#             'c' copied range (x = (src region, src log, src off)), 's' C string of length size(Lin), term val,
#             'raw' size(Lin) non-NUL chars with term val, 'z' zero fill


class State:
    __slots__ = ('mem', 'f', 'null', 'freed', 'ev', 'nsplit', 'ghost', 'choice')

    def __init__(self):
        self.mem, self.f, self.null, self.freed, self.ev, self.nsplit = {}, Facts(), {}, {}, None, 0
        self.ghost = {}
        self.choice = {}

    def copy(self):
        s = State.__new__(State)
        s.mem, s.f, s.null, s.freed, s.ev, s.nsplit = dict(self.mem), self.f.copy(), dict(self.null), dict(self.freed), \
            self.ev, self.nsplit
        s.ghost = dict(self.ghost)
        s.choice = dict(self.choice)
        return s

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def emit(self, *e):
        self.ev = (self.ev, e)


def neg(c):
    k = c[0]
    if k == 'c':
        return ('c', not c[1])
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'f':
        return ('f', 15 & ~c[1], c[2], c[3])
    if k == 'null':
        return ('nonnull', c[1])
    if k == 'nonnull':
        return ('null', c[1])
    if k == 'opq':
        return ('nopq', c[1])
    if k == 'nopq':
        return ('opq', c[1])
    if k == 'set':
        return ('nset',) + c[1:]
    if k == 'nset':
        return ('set',) + c[1:]
    raise AssertionError(k)


class Budget(Exception):
    pass


class Undecided(Exception):
    pass


class Outcome:
    __slots__ = ('k', 'st', 'val', 'ins', 'x', 'res')

    def __init__(self, k, st, val=None, ins=None, x=None):
        self.k, self.st, self.val, self.ins, self.x = k, st, val, ins, x

    def __repr__(self):
        return '<%s %r>' % (self.k, self.val)


class Frame:
    __slots__ = ('f', 'stack', 'jmp', 'args')

    def __init__(self, f, stack):
        self.f, self.stack, self.jmp = f, stack, None


MAXLEN = 1 << 31


class AI:
    def __init__(self, prog, max_steps=400000, max_parts=3000, unroll=4):
        self.p = prog
        self.max_steps, self.max_parts, self.unroll = max_steps, max_parts, unroll
        self.max_rec = 12
        self.blurred = False
        self.unroll_steps = 6000
        self.steps = 0
        self.icpt = {}              # function name -> handler(ai, st, frame, ins, args) -> [Outcome]
        self.regs = {}
        self.obl = {}               # (loc, kind, fn) -> [ok, bad, unk, details]
        self.quiet = 0
        self.visited = set()
        self.called = {}
        self.nloops = 0
        self.loop_notes = []
        self.hooks = {}
        self.check_calls = None
        self.lazy_ptr = None        # hook(ai, st, region, off, field) -> PV or None
        self.ranges = {}            # (struct, path) -> (lo, hi): assumed representation invariants
        self.nonnull = set()        # (struct name, member path) pointers never null
        self.store_hook = None
        self.load_hook = None
        self.undecided = []
        self.trace = False
        self.suspects = None        # list of (ins, kind, state, violation predicate, text): not proved obligations

    # ---------------------------------------------------------------------------------- regions
    def region(self, kind, key, **kw):
        k = (kind, key)
        r = self.regs.get(k)
        if r is None:
            r = Region(kind, key, **kw)
            self.regs[k] = r
        return r

    def global_region(self, mod, name):
        g = mod.globals.get(name)
        defm = mod
        if g is None or g[4]:
            m2 = self.p.gdef.get(name)
            if m2 is not None:
                defm, g = m2, m2.globals[name]
        if g is None:
            r = self.region('ext', name, name='@' + name)
            return r
        key = (defm.path if g[3] else '', name)
        r = self.regs.get(('global', key))
        if r is None:
            r = self.region('global', key, name='@' + name)
            r.size = Lin(g[0].size)
            if g[1] is not None and (g[2] or self.p.table(g, name)):
                r.init = 'const'
                r.data = (defm, g[0], g[1])
                if g[1][0] == 'str':
                    r.string = True
            r.elem = g[0]
        return r

    def lazy_region(self, key, di=None, name=None, maybe_null=True):
        k = ('lazy', key)
        r = self.regs.get(k)
        if r is None:
            r = Region('lazy', key, di=di, name=name or 'obj%r' % (key,), maybe_null=maybe_null)
            if di is not None:
                mod, ref = di
                v = mod.meta.get(mod.di_strip(ref), '')
                if 'DW_ATE_signed_char' in v or 'DW_ATE_unsigned_char' in v:
                    r.string = True
            self.regs[k] = r
        return r

    # ---------------------------------------------------------------------------------- obligations
    def oblige(self, ins, kind, ok, detail='', fr=None):
        if self.quiet:
            return
        k = (ins, kind)
        r = self.obl.setdefault(k, [0, 0, 0, []])
        if ok is True:
            r[0] += 1
        elif ok is False:
            r[1] += 1
            if len(r[3]) < 5:
                r[3].append(detail)
        else:
            r[2] += 1
            if len(r[3]) < 5:
                r[3].append(detail)

    def suspect(self, ins, kind, st, pred, text, extra=()):
        if self.suspects is not None and not self.quiet:
            self.suspects.append((ins, kind, st.copy(), pred, text, extra))

    # ---------------------------------------------------------------------------------- integers
    def sview(self, st, v):
        w, l = v.w, st.f.norm(v.l)
        lo, hi = st.f.bounds(l)
        half, full = 1 << (w - 1), 1 << w
        if lo is not None and hi is not None:
            if lo >= -half and hi < half:
                return l
            if lo >= half and hi < full:
                return l - full
        if (lo is None or lo < half) and st.f.prove_ge(-l + (half - 1)):
            return l
        return self.split_or(st, ('ge', -l + (half - 1)), lambda: LA(AT.get(('sv', w, l), -half, half - 1)))

    def uview(self, st, v):
        w, l = v.w, st.f.norm(v.l)
        lo, hi = st.f.bounds(l)
        full = 1 << w
        if lo is not None and lo >= 0:
            return l
        if hi is not None and hi < 0:
            return l + full
        if st.f.prove_ge(l):
            return l
        return self.split_or(st, ('ge', l), lambda: LA(AT.get(('uv', w, l), 0, full - 1)))

    def split_or(self, st, cond, alt):
        if st.nsplit < 24:
            raise Split(cond)
        return alt()

    def mk(self, st, w, l, signed_flag):
        """integer of width w from mathematical l"""
        l = st.f.norm(l)
        lo, hi = st.f.bounds(l)
        half, full = 1 << (w - 1), 1 << w
        mn, mx = -half, full - 1
        if lo is not None and hi is not None and lo >= mn and hi <= mx:
            return IV(w, l)
        if signed_flag:
            # signed overflow is undefined: the value is assumed in range
            return IV(w, l)
        oklo = lo is not None and lo >= mn or st.f.prove_ge(l - mn)
        okhi = hi is not None and hi <= mx or st.f.prove_ge(-l + mx)
        if oklo and okhi:
            return IV(w, l)
        if w == 64:
            # 64-bit quantities: only go round if that is possible by the facts
            pass
        if oklo and not okhi and (hi is None or hi < mx + full):
            if hi is None:
                return IV(w, LA(AT.get(('wrap', w, l), 0, mx)))
            return self.split_wrap(st, w, l, ('ge', -l + mx), l - full)
        if okhi and not oklo and (lo is None or lo >= mn - full):
            if st.nsplit < 24:
                if st.f.prove_ge(-l - 1):        # always below zero: unsigned wrap
                    if lo is not None and lo >= -full:
                        return IV(w, l + full)
                raise Split(('ge', l))
        return IV(w, LA(AT.get(('wrap', w, l), 0, mx)))

    def split_wrap(self, st, w, l, cond, alt):
        c = self.evalc(st, cond)
        if c is True:
            return IV(w, l)
        if c is False:
            return IV(w, alt)
        if st.nsplit < 24:
            raise Split(cond)
        return IV(w, LA(AT.get(('wrap', w, l), 0, (1 << w) - 1)))

    # ---------------------------------------------------------------------------------- conditions
    def evalc(self, st, c):
        k = c[0]
        f = st.f
        if k == 'c':
            return c[1]
        if k == 'ge':
            if f.prove_ge(c[1]):
                return True
            if f.prove_ge(-c[1] - 1):
                return False
            return None
        if k == 'eq':
            if f.prove_ne(c[1]):
                return False
            if f.prove_eq(c[1]):
                return True
            return None
        if k == 'ne':
            r = self.evalc(st, ('eq', c[1]))
            return None if r is None else not r
        if k == 'f':
            m = f.frel_mask(c[2], c[3])
            if not m & c[1]:
                return False
            if not m & ~c[1]:
                return True
            return None
        if k == 'null':
            if c[1] is None:
                return True
            r = st.null.get(c[1])
            if r is None:
                return None if c[1].maybe_null else False
            return r
        if k == 'nonnull':
            r = self.evalc(st, ('null', c[1]))
            return None if r is None else not r
        if k == 'opq':
            return f.bools.get(c[1])
        if k == 'nopq':
            r = f.bools.get(c[1])
            return None if r is None else not r
        if k in ('set', 'nset'):
            # c = (k, Lin, frozenset): value in set
            l, s = f.norm(c[1]), c[2]
            lo, hi = f.bounds(l)
            r = None
            if lo is not None and hi is not None and hi - lo <= 600:
                vals = [v for v in range(lo, hi + 1)]
                if len(vals) <= 400:
                    vals = [v for v in vals if not f.prove_ne(l - v)] if len(vals) <= 3 else vals
                ins = [v in s for v in vals]
                if any(ins) and not all(ins) and len(s) <= 12:
                    # few members: some may be excluded by disequalities
                    left = [v for v in vals if v in s and not f.prove_ne(l - v)]
                    if not left:
                        ins = [False]
                if all(ins):
                    r = True
                elif not any(ins):
                    r = False
            if r is None:
                r = f.bools.get(('set', c[1], c[2]))
            return r if k == 'set' or r is None else not r
        raise AssertionError(k)

    def assume(self, st, c):
        k = c[0]
        f = st.f
        if k == 'c':
            if not c[1]:
                raise Infeasible
        elif k == 'ge':
            f.assume_ge(c[1])
        elif k == 'eq':
            f.assume_eq(c[1])
            self._boolatom(st, c[1], False)
        elif k == 'ne':
            f.assume_ne(c[1])
            self._boolatom(st, c[1], True)
        elif k == 'f':
            f.assume_frel(c[2], c[3], c[1])
        elif k == 'null':
            if self.evalc(st, c) is False:
                raise Infeasible
            if c[1] is not None:
                st.null[c[1]] = True
        elif k == 'nonnull':
            if c[1] is None or self.evalc(st, c) is False:
                raise Infeasible
            st.null[c[1]] = False
        elif k == 'opq':
            if f.bools.get(c[1]) is False:
                raise Infeasible
            f.bools[c[1]] = True
        elif k == 'nopq':
            if f.bools.get(c[1]) is True:
                raise Infeasible
            f.bools[c[1]] = False
        elif k in ('set', 'nset'):
            if self.evalc(st, c) is False:
                raise Infeasible
            f.bools[('set', c[1], c[2])] = k == 'set'
            s = c[2]
            if k == 'set':
                f.assume_ge(c[1] - min(s))
                f.assume_ge(-c[1] + max(s))
                if 0 not in s:
                    f.assume_ne(c[1])
        else:
            raise AssertionError(k)

    def _boolatom(self, st, l, val):
        pass

    def decide(self, st, c):
        r = self.evalc(st, c)
        if r is None:
            raise Split(c)
        return r

    # ---------------------------------------------------------------------------------- typing of memory
    def field(self, r, off, size, want_ptr=None):
        """DI field covering (region, offset) or None"""
        if r.di is None:
            return None
        mod, ref = r.di
        ref = mod.di_strip(ref)
        fs = self._flat(mod, ref)
        if fs is None:
            return None
        fields, total = fs
        c = off.c
        g = 0
        for _, k in off.t:
            g = gcd(g, k)
        best = None
        for f in fields:
            s = f[2]        # leaf size
            stride = f[3]   # tuple of strides of enclosing arrays
            if s != size:
                continue
            ok = False
            if g == 0:
                d = (c - f[1]) if not total else (c - f[1]) % total if (c - f[1]) % total == 0 or stride else c - f[1]
                if total and (c - f[1]) % total == 0:
                    ok = True
                elif stride:
                    for sd, cnt in stride:
                        x = (c - f[1]) % total if total else c - f[1]
                        if x % sd == 0 and 0 <= x // sd < cnt:
                            ok = True
            else:
                mods = [sd for sd, _ in stride] + ([total] if total else [])
                for sd in mods:
                    if g % sd == 0 and (c - f[1]) % sd == 0:
                        ok = True
            if ok:
                if want_ptr is None or f[4] == want_ptr or best is None:
                    if best is None or (want_ptr is not None and f[4] == want_ptr and best[4] != want_ptr):
                        best = f
        return best

    def _flat(self, mod, ref):
        """leaf fields [(path, off, size, strides, isptr, di, mod)], total size of the composite"""
        cache = getattr(mod, '_flatc', None)
        if cache is None:
            cache = mod._flatc = {}
        if ref in cache:
            return cache[ref]
        v = mod.meta.get(ref, '')
        res = None
        if 'DICompositeType' in v and ('structure_type' in v or 'union_type' in v):
            if 'elements:' not in v:
                # declared here, defined elsewhere
                import re
                m = re.search(r'name: "([^"]*)"', v)
                if m:
                    for m2 in self.p.mods.values():
                        r2 = m2.struct_meta(m.group(1)) if m2 is not mod else None
                        if r2:
                            res = self._flat(m2, r2)
                            break
                cache[ref] = res
                return res
            import re
            m = re.search(r'size: (\d+)', v)
            total = int(m.group(1)) // 8
            arrs = []
            out = []
            for path, off, sz, bt, cnt in mod.fields(ref):
                st = mod.di_strip(bt)
                sv = mod.meta.get(st, '')
                if cnt == 0 or (cnt is not None and sz == 0):
                    # flexible array member
                    import re as _re
                    eb = mod.di_strip(_re.search(r'baseType: (!\d+)', sv).group(1))
                    ev = mod.meta.get(eb, '')
                    m2 = _re.search(r'size: (\d+)', ev)
                    es = int(m2.group(1)) // 8 if m2 else 8
                    out.append((path, off, es, ((es, 1 << 30),), 'pointer_type' in ev, eb, mod))
                    continue
                if cnt is not None:
                    arrs.append((path + '[]', sz // cnt, cnt))
                    eb = mod.di_strip(re.search(r'baseType: (!\d+)', sv).group(1))
                    ev = mod.meta.get(eb, '')
                    if 'DICompositeType' not in ev:
                        strides = [(s, c) for a, s, c in arrs if path.startswith(a)] + [(sz // cnt, cnt)]
                        out.append((path, off, sz // cnt, tuple(strides), 'pointer_type' in ev, eb, mod))
                    continue
                if 'DICompositeType' in sv and ('structure_type' in sv or 'union_type' in sv):
                    continue
                strides = tuple((s, c) for a, s, c in arrs if path.startswith(a))
                out.append((path, off, sz, strides, 'pointer_type' in sv, st, mod))
            res = (out, total)
        elif 'pointer_type' in v:
            res = ([('*', 0, 8, (), True, ref, mod)], 8)
        elif 'DIBasicType' in v or 'enumeration_type' in v:
            import re
            m = re.search(r'size: (\d+)', v)
            s = int(m.group(1)) // 8
            res = ([('*', 0, s, (), False, ref, mod)], s)
        cache[ref] = res
        return res

    def struct_name(self, r):
        if r.di is None:
            return None
        import re
        mod, ref = r.di
        v = mod.meta.get(mod.di_strip(ref), '')
        m = re.search(r'name: "([^"]*)"', v)
        return m.group(1) if m else None

    # ---------------------------------------------------------------------------------- memory
    def unknown(self, st, r, off, ty, tag, key):
        """value of unknown content at (r, off), value-numbered by key"""
        size = ty.size
        fld = self.field(r, off, size, ty.k == 'ptr') if r.di else None
        if ty.k == 'ptr':
            if self.lazy_ptr:
                v = self.lazy_ptr(self, st, r, off, fld, key)
                if v is not None:
                    return v
            di = None
            if fld is not None and fld[4]:
                mod = fld[6]
                import re
                m = re.search(r'baseType: (!\d+)', mod.meta.get(fld[5], ''))
                if m:
                    di = (mod, m.group(1))
            nm = '%s.%s' % (r.name, fld[0] if fld else repr(off))
            if off.t:
                nm = '%s{%r}' % (nm, off)
            q = self.lazy_region(('ptr',) + key, di=di, name=nm)
            if fld is not None and (self.struct_name(r), fld[0]) in self.nonnull or \
                    r.name in ('@stdin', '@stdout', '@stderr'):
                q.maybe_null = False
            if tag:
                q.imprecise = True
            return PV(q)
        if ty.k == 'double':
            return fe('fa', *key)
        if ty.k == 'int':
            w = ty.a
            signed = None
            lo, hi = 0, (1 << w) - 1
            if fld is not None and not fld[4]:
                signed = fld[6].di_signed(fld[5])
                if 'DW_ATE_boolean' in fld[6].meta.get(fld[5], ''):
                    hi = 1
                rg = self.ranges.get((self.struct_name(r), fld[0]))
            else:
                rg = None
                if r.string and w == 8:
                    signed = True
            if signed:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if w == 64 and r.name.startswith('@') and not signed:
                hi = 1 << 63        # 64-bit counters do not wrap
            if rg:
                lo, hi = rg
            return IV(w, LA(AT.get(('init',) + tuple(key) + (w,), lo, hi)))
        return UNDEF

    def base_load(self, st, r, off, ty):
        if r.init == 'const':
            v = self.const_load(r, st.f.norm(off), ty)
            if v is not None:
                return v
            if r.string and ty.k == 'int' and ty.a == 8:
                return self.str_char(st, r, ZERO, Lin(len(r.data[2][1].split(b'\0')[0])), off, self.base_term(r))
            return self.unknown(st, r, off, ty, '', (r.name, repr(st.f.norm(off)), r.id))
        if r.init == 'zero':
            return self.zero(ty)
        if r.init == 'uninit':
            return self.unknown(st, r, off, ty, 'u', (r.name, repr(st.f.norm(off)), r.id, 'uninit'))
        if r.string and ty.k == 'int' and ty.a == 8:
            return self.str_char(st, r, ZERO, self.strlen_base(r), off, self.base_term(r))
        return self.unknown(st, r, off, ty, 'i' if r.imprecise else '',
                            (r.name, repr(st.f.norm(off)), r.id) + (('of imprecise',) if r.imprecise else ()))

    def zero(self, ty):
        if ty.k == 'int':
            return IV(ty.a, 0) if ty.a > 1 else FALSE
        if ty.k == 'ptr':
            return NULLP
        if ty.k == 'double':
            return fc(0.0)
        return UNDEF

    def const_load(self, r, off, ty):
        if off.t:
            return None
        defm, t, init = r.data
        o = off.c
        v = init
        while True:
            if v[0] == 'zero':
                return self.zero(ty)
            if v[0] == 'str':
                if ty.k == 'int' and ty.a == 8 and 0 <= o < len(v[1]):
                    b = v[1][o]
                    return IV(8, b - 256 if b > 127 else b)
                return None
            if v[0] == 'agg':
                pos = None
                tt = t.resolve()
                for k, (et, ev) in enumerate(v[1]):
                    eo = k * tt.b.size if tt.k == 'arr' else tt.field_off(k)
                    if eo <= o < eo + et.size:
                        pos = (et, ev, eo)
                if pos is None:
                    return None
                t, v = pos[0], pos[1]
                o -= pos[2]
                continue
            if o != 0:
                return None
            return self.const(defm, v, t)

    def strlen_base(self, r):
        if r.init == 'const' and r.data[2][0] == 'str':
            return Lin(len(r.data[2][1].split(b'\0')[0]))
        return LA(AT.get(('len', r.name, r.id), 0, MAXLEN))

    def str_char(self, st, r, base, ln, off, term=None):
        """character of a C string [base, base+ln]"""
        f = st.f
        rem = f.norm(base + ln - off)
        if not rem.t and rem.c == 0:
            return IV(8, 0)
        if f.prove_ge(rem):
            nz = f.prove_ge(rem - 1)
            if not nz and f.prove_eq(rem):
                return IV(8, 0)
            if term is not None:
                x = resolve_chr(f, term, f.norm(off - base))
                if isinstance(x, IV):
                    if nz:
                        f.assume_ne(x.l)
                    return x
                a = AT.get(('chr',) + x, -128, 127)
            else:
                a = AT.get(('chr', r.name, r.id, base, f.norm(off), ln, term), -128, 127)
            if nz:
                f.assume_ne(LA(a))
            elif a not in f.sub:
                f.link[a] = rem
            return IV(8, LA(a))
        return IV(8, LA(AT.get(('past', r.name, r.id, repr(f.norm(off)), repr(ln)), -128, 127)))

    def disjoint(self, st, o1, s1, e1, o2, s2, e2):
        """can [o1,o1+s1) and [o2,o2+s2) overlap?  returns 'no', 'same', 'part' or None"""
        f = st.f
        d = f.norm(o1 - o2)
        if not d.t:
            if d.c == 0:
                return 'same' if s1 == s2 else 'part'
            if d.c >= s2 or -d.c >= s1:
                return 'no'
            return 'part'
        g = 0
        for _, k in d.t:
            g = gcd(g, k)
        if g > 1:
            r = d.c % g
            if r >= s2 and r + s1 <= g:
                return 'no'
            if r == 0 and s1 <= g and s2 <= g and f.ne and f.prove_ne(d):
                return 'no'
        for (oa, sa, ea), (ob, sb, eb) in (((o1, s1, e1), (o2, s2, e2)), ((o2, s2, e2), (o1, s1, e1))):
            if ea is not None:
                lo, hi = ea
                x = f.norm(ob - hi)
                y = f.norm(lo - ob - sb)
                if (not x.t and x.c >= 0) or (not y.t and y.c >= 0):
                    return 'no'
        if f.prove_ge(d - s2) or f.prove_ge(-d - s1):
            return 'no'
        if f.prove_eq(d):
            return 'same' if s1 == s2 else 'part'
        return None

    def load(self, st, pv, ty, ins=None):
        r = pv.r
        if r is None:
            return self.unknown_val(ty, ('nullload', id(ins)))
        off, size = st.f.norm(pv.off), ty.size
        if ty.k in ('struct', 'named', 'arr'):
            return Agg(r, st.mem.get(r), off, size)
        if r.kind == 'ctype' and size == 2:
            # the C library's character class table: the class bits of a character
            if all(k % 2 == 0 for _, k in off.t) and off.c % 2 == 0:
                ch = Lin(off.c // 2, tuple((a, k // 2) for a, k in off.t))
                return IV(16, LA(AT.get(('ctype', ch), 0, 65535)))
        v = self._load(st, r, st.mem.get(r), off, size, ty, pv.ext, True)
        return v

    def unknown_val(self, ty, key):
        if ty.k == 'int':
            if ty.a == 1:
                return BV(('opq', key))
            return IV(ty.a, LA(AT.get(('opq',) + key, 0, (1 << ty.a) - 1)))
        if ty.k == 'double':
            return fe('fa', 'opq', *key)
        if ty.k == 'ptr':
            q = self.lazy_region(('opq',) + key)
            q.imprecise = True
            return PV(q)
        return UNDEF

    def fresh_val(self, ty, tag, signed=None):
        n = next(AT.n)
        if ty.k == 'int' and ty.a > 1 and signed:
            return IV(ty.a, LA(AT.get(('fresh', tag, n), -(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1)))
        if ty.k == 'int' and ty.a > 1:
            return IV(ty.a, LA(AT.get(('fresh', tag, n), 0, (1 << ty.a) - 1)))
        return self.unknown_val(ty, (tag, n))

    def _load(self, st, r, node, off, size, ty, ext, remember):
        n = node
        f = st.f
        while n is not None:
            k = n.k
            if k == 'w' or k == 'r' or k == 'z':
                rel = self.disjoint(st, off, size, ext, n.off, n.size, n.ext)
                if rel == 'no':
                    n = n.prev
                    continue
                if rel == 'same' and k != 'z':
                    return self.retype(st, n.val, ty, r, off)
                if k == 'z' and rel in ('same', 'part'):
                    return self.zero(ty)
                if rel is None and k == 'r':
                    n = n.prev
                    continue
                if rel is None and n.size == size and k == 'w' and st.nsplit < 24:
                    raise Split(('eq', f.norm(off - n.off)))
                return self.unknown(st, r, off, ty, 'a', (r.name, repr(off), r.id, 'alias', id(n)))
            elif k == 'h':
                if n.ext is not None:
                    lo, hi = n.ext
                    rel = None
                    a, b = f.norm(off - hi), f.norm(lo - off - size)
                    if f.prove_ge(a) or f.prove_ge(b):
                        n = n.prev
                        continue
                    if ext is not None:
                        a, b = f.norm(ext[0] - hi), f.norm(lo - ext[1])
                        if f.prove_ge(a) or f.prove_ge(b):
                            n = n.prev
                            continue
                v = self.unknown(st, r, off, ty, 'h', (r.name, repr(off), r.id, 'h', id(n)))
                if remember and r in st.mem:
                    st.mem[r] = Node(st.mem[r], 'r', off, size, v, ext)
                return v
            elif k == 'c':
                a, b = f.norm(off - n.off - n.size), f.norm(n.off - off - size)
                if f.prove_ge(a) or f.prove_ge(b):
                    n = n.prev
                    continue
                if n.ext is not None and ext is not None and \
                        (f.prove_ge(ext[0] - n.ext[1]) or f.prove_ge(n.ext[0] - ext[1])):
                    n = n.prev
                    continue
                d = f.norm(off - n.off)
                sr, slog, soff = n.x
                if f.prove_ge(d) and f.prove_ge(Lin(n.size - size if isinstance(n.size, int) else 0) - d
                                                if isinstance(n.size, int) else n.size - size - d):
                    return self._load(st, sr, slog, f.norm(soff + d), size, ty, None, False)
                # same array, unknown distance: decide whether it is the copied element
                if isinstance(n.size, int) and d.t:
                    g = 0
                    for _, kk in d.t:
                        g = gcd(g, kk)
                    if g >= n.size and st.nsplit < 24:
                        raise Split(('eq', Lin(d.c - d.c % g, d.t)))
                return self.unknown(st, r, off, ty, 'a', (r.name, repr(off), r.id, 'alias', id(n)))
            elif k == 's':
                # string at n.off, length n.size
                a = f.norm(n.off - off - size)
                if f.prove_ge(a) or (n.ext is not None and f.prove_ge(f.norm(off - n.ext[1]))):
                    n = n.prev
                    continue
                if ty.k == 'int' and ty.a == 8:
                    if f.prove_ge(off - n.off):
                        return self.str_char(st, r, n.off, n.size, off, n.val)
                return self.unknown(st, r, off, ty, 'a', (r.name, repr(off), r.id, 'str', id(n)))
            elif k == 'raw':
                a, b = f.norm(n.off - off - size), f.norm(off - n.off - n.size)
                if f.prove_ge(a) or f.prove_ge(b):
                    n = n.prev
                    continue
                if ty.k == 'int' and ty.a == 8 and f.prove_ge(off - n.off) and not f.prove_ge(-b - 1) and st.nsplit < 24:
                    raise Split(('ge', b))
                v = self.unknown(st, r, off, ty, 'a', (r.name, repr(off), r.id, 'raw', id(n)))
                if isinstance(v, IV) and f.prove_ge(off - n.off) and f.prove_ge(-b - 1):
                    f.assume_ne(v.l)
                return v
            n = n.prev
        v = self.base_load(st, r, off, ty)
        if remember and r.init in ('lazy', 'uninit') and not (r.string and ty.k == 'int' and ty.a == 8):
            st.mem[r] = Node(st.mem.get(r), 'r', off, size, v, ext)
        return v

    def retype(self, st, v, ty, r, off):
        if ty.k == 'ptr':
            if isinstance(v, (PV, FP)):
                return v
        elif ty.k == 'double':
            if isinstance(v, FE):
                return v
        elif ty.k == 'int':
            if isinstance(v, IV) and v.w == ty.a:
                return v
        if v is UNDEF:
            return UNDEF
        return self.unknown(st, r, off, ty, 't', (r.name, repr(off), r.id, 'as', ty.k, repr(v)))

    def store(self, st, pv, ty, v, ins=None):
        r = pv.r
        if r is None:
            return
        if isinstance(v, IV):
            v = IV(v.w, st.f.norm(v.l))
        if self.store_hook:
            self.store_hook(self, st, pv, ty, v, ins)
        if isinstance(v, Agg):
            st.mem[r] = Node(st.mem.get(r), 'c', st.f.norm(pv.off), v.size, None, pv.ext, (v.r, v.log, v.off))
            return
        st.mem[r] = Node(st.mem.get(r), 'w', st.f.norm(pv.off), ty.size, v, pv.ext)

    def access(self, st, pv, size, ins, kind, fr):
        """bounds obligation of a memory access; size int or Lin"""
        r = pv.r
        if isinstance(size, int):
            size = Lin(size)
        if r is None:
            self.oblige(ins, 'null', False, 'null pointer dereferenced', fr)
            self.suspect(ins, 'null', st, None, 'null pointer dereferenced')
            raise Infeasible
        if r.maybe_null and st.null.get(r) is None:
            st.null[r] = False
        elif st.null.get(r):
            self.oblige(ins, 'null', False, 'null pointer dereferenced (%s)' % r.name, fr)
            self.suspect(ins, 'null', st, None, 'null pointer dereferenced (%s)' % r.name)
            raise Infeasible
        if r in st.freed:
            self.oblige(ins, 'freed', False, 'use of released memory (%s)' % r.name, fr)
            self.suspect(ins, 'freed', st, None, 'use of released memory (%s)' % r.name)
        if self.quiet:
            return
        f = st.f
        off = f.norm(pv.off)
        for lo, hi, what in self.limits(st, pv, kind):
            a, b = f.norm(off - lo), f.norm(hi - off - size)
            ok1, ok2 = f.prove_ge(a), f.prove_ge(b)
            if ok1 and ok2:
                self.oblige(ins, 'bounds', True)
            else:
                bad = f.prove_ge(-a - 1) or f.prove_ge(-b - 1)
                self.suspect(ins, 'bounds', st, (lambda env, a=a, b=b: env.lin(a) < 0 or env.lin(b) < 0),
                             '%s of %s at offset %r, size %r, outside %r..%r' % (kind, r.name, off, size, lo, hi), (a, b))
                self.oblige(ins, 'bounds', False if bad else None,
                            '%s of %s at offset %r size %r outside %r..%r (%s)%s' %
                            (kind, r.name, off, size, lo, hi, what, self.context(st, a if not ok1 else b)), fr)
        for o, lo, hi in pv.chk:
            a, b = f.norm(o - lo), f.norm(hi - o - 1)
            ok = f.prove_ge(a) and f.prove_ge(b)
            self.oblige(ins, 'bounds', True if ok else None, '%s: index of outer array not in range (%r)' % (r.name, o), fr)

    def limits(self, st, pv, kind):
        r = pv.r
        out = []
        if pv.ext is not None:
            out.append((pv.ext[0], pv.ext[1], 'array'))
        elif r.size is not None:
            out.append((ZERO, r.size, r.kind))
        elif r.string and r.kind == 'lazy':
            out.append((ZERO, self.cur_strlen(st, r) + 1, 'string'))
        if pv.ext is not None and r.size is not None and r.kind in ('heap',):
            out.append((ZERO, r.size, r.kind))
        return out

    def cur_strlen(self, st, r):
        return self.strlen_base(r)

    def context(self, st, l):
        f = st.f
        s = [repr(x) for x in f.ge if set(x.atoms()) & set(l.atoms())][:4]
        s += ['%s in %s' % (show_atom(a), f.abounds(a)) for a in l.atoms()[:3]]
        return ' given ' + '; '.join(s) if s else ''

    # ---------------------------------------------------------------------------------- strings
    def strlen(self, st, pv, ins=None):
        """(length Lin, term) of the C string at pv, or (fresh, None)"""
        r = pv.r
        f = st.f
        off = f.norm(pv.off)
        pend = []
        n = st.mem.get(r)
        base = None
        while n is not None:
            if n.k == 'w' and n.size == 1:
                pend.append(n)
            elif n.k == 'w' or n.k == 'r':
                rel = self.disjoint(st, off, 1, pv.ext, n.off, n.size, n.ext)
                if n.k == 'w' and n.ext is None and pv.ext is not None and rel is None:
                    pass
            elif n.k in ('s', 'raw'):
                base = n
                break
            elif n.k in ('h', 'c', 'z'):
                lo_hi = n.ext if n.k == 'h' else (n.off, n.off + n.size)
                if lo_hi is not None and pv.ext is not None and \
                        (f.prove_ge(lo_hi[0] - pv.ext[1]) or f.prove_ge(pv.ext[0] - lo_hi[1])):
                    n = n.prev
                    continue
                if lo_hi is not None and f.prove_ge(off - lo_hi[1]):
                    n = n.prev
                    continue
                base = n
                break
            n = n.prev
        pend.reverse()
        cur = None      # (base off, len Lin or None, term)
        raw = None
        if base is None:
            if r.string and (r.kind != 'heap'):
                cur = (ZERO, self.strlen_base(r), self.base_term(r))
        elif base.k == 's':
            cur = (base.off, base.size, base.val)
            m = base.prev
            while m is not None and cur[2] is not None and not f.prove_ge(off - cur[0]):
                # text placed right before this string earlier
                if m.k in ('raw', 's') and m.val is not None and f.prove_eq(m.off + m.size - cur[0]):
                    cur = (m.off, f.norm(m.size + cur[1]), cat(m.val, cur[2]))
                elif m.k == 'w' and m.size == 1 and isinstance(m.val, IV) and f.prove_eq(m.off + 1 - cur[0]) and f.prove_ne(m.val.l):
                    cur = (m.off, f.norm(cur[1] + 1), cat(('chr', m.val), cur[2]))
                elif not (m.k == 'w' and m.size == 1 and f.prove_ge(m.off - cur[0])):
                    break
                m = m.prev
        elif base.k == 'raw':
            raw = [base]
            # contiguous earlier pieces
            cur = None
        if base is not None and base.k == 'raw':
            start, tot, term = base.off, base.size, base.val
            for w in pend:
                d = f.norm(w.off - start - tot)
                if isinstance(w.val, IV):
                    v = f.norm(w.val.l)
                    if f.prove_eq(d) and not v.t and v.c == 0:
                        cur = (start, tot, term)
                    elif f.prove_eq(d) and cur is None and f.prove_ne(v):
                        tot = tot + 1
                        term = cat(term, ('chr', st_chr(w.val)))
                    elif cur is not None:
                        cur = self._strwrite(st, cur, w)
        elif base is None or base.k in ('s',):
            if cur is None:
                # built char by char: the newest write at each position counts
                tot, term = ZERO, ('lit', b'')
                for _ in range(300):
                    pos = f.norm(off + tot)
                    hit = None
                    for w in reversed(pend):
                        d = f.norm(w.off - pos)
                        if not d.t:
                            if d.c:
                                continue
                            hit = w
                            break
                        if f.prove_ne(d):
                            continue
                        if f.prove_eq(d):
                            hit = w
                            break
                        if st.nsplit < 24:
                            raise Split(('eq', d))
                        break
                    if hit is None or not isinstance(hit.val, IV):
                        break
                    v = f.norm(hit.val.l)
                    if (not v.t and v.c == 0) or f.prove_eq(v):
                        cur = (off, tot, term)
                        break
                    if not f.prove_ne(v):
                        if st.nsplit < 24:
                            raise Split(('eq', v))
                        break
                    tot = tot + 1
                    term = cat(term, ('chr', hit.val))
            else:
                for w in pend:
                    cur = self._strwrite(st, cur, w)
                    if cur is None:
                        break
        if cur is not None:
            b, ln, term = cur
            d = f.norm(off - b)
            if f.prove_ge(d) and f.prove_ge(ln - d):
                res = f.norm(ln - d)
                if not d.t and d.c == 0:
                    return res, term
                return res, sub(term, d, res)
        if self.trace:
            print('strlen unknown', pv, base and base.k, ins and at(ins))
        self.oblige(ins, 'terminated', None, 'no terminator known for the string at %r' % pv)
        a = AT.get(('len?', r.name, r.id, repr(off), id(st.mem.get(r))), 0, MAXLEN)
        if pv.ext is not None or r.size is not None:
            hi = pv.ext[1] if pv.ext is not None else r.size
            f.assume_ge(hi - off - 1 - LA(a)) if f.prove_ge(hi - off - 1) else None
        return LA(a), None

    def _strwrite(self, st, cur, w):
        if cur is None:
            return None
        b, ln, term = cur
        f = st.f
        d = f.norm(w.off - b)
        if not isinstance(w.val, IV):
            return cur
        if f.prove_ge(d - ln - 1) or f.prove_ge(-d - 1):
            return cur
        if not f.prove_ge(d):
            return None
        v = f.norm(w.val.l)
        if not v.t and v.c == 0:
            if f.prove_ge(ln - d):
                if f.prove_eq(ln - d):
                    return cur
                return (b, d, sub(term, ZERO, d))
            if st.nsplit < 24:
                raise Split(('ge', ln - d))
            return None
        if not f.prove_ne(v):
            if st.nsplit < 24:
                raise Split(('eq', v))
            return None
        if f.prove_ge(ln - d - 1):
            if term is None:
                return (b, ln, None)
            return (b, ln, cat(cat(sub(term, ZERO, d), ('chr', w.val)), sub(term, f.norm(d + 1), f.norm(ln - d - 1))))
        return None

    def base_term(self, r):
        if r.init == 'const' and r.data[2][0] == 'str':
            return ('lit', r.data[2][1].split(b'\0')[0])
        return ('str', r)

    def set_str(self, st, pv, ln, term):
        st.mem[pv.r] = Node(st.mem.get(pv.r), 's', st.f.norm(pv.off), ln, term, pv.ext)

    # ---------------------------------------------------------------------------------- constants
    def const(self, mod, o, ty):
        k = o[0]
        if k == 'int':
            if ty.k == 'int':
                if ty.a == 1:
                    return TRUE if o[1] else FALSE
                return IV(ty.a, o[1])
            return IV(64, o[1])
        if k == 'fp':
            return fc(o[1])
        if k == 'null':
            return NULLP
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return UNDEF
        if k == 'global':
            f = self.p.resolve(mod, o[1])
            if f is not None:
                return FP(f)
            if o[1] in mod.decls:
                return FP(o[1])
            r = self.global_region(mod, o[1])
            return PV(r)
        if k == 'gep':
            b = self.const(mod, o[2], PTR_)
            return self.gep(None, b, o[1], [(t, self.const(mod, x, t)) for t, x in o[3]], None)
        if k == 'inttoptr':
            x = o[2]
            return PV(self.region('ext', ('inttoptr', x[1]), name='(ptr)%s' % (x[1],)))
        return UNDEF

    def gep(self, st, base, bt, idx, ins):
        if not isinstance(base, PV) or base.r is None:
            return base if isinstance(base, PV) else self.unknown_val(PTR_, ('gep', id(ins)))
        off, ext, chk = base.off, base.ext, base.chk
        t = bt
        for n, (it, v) in enumerate(idx):
            if isinstance(v, IV):
                l = v.l if st is None else (self.sview(st, v) if not isinstance(v.l, int) else v.l)
            else:
                l = LA(AT.fresh('idx', None, None))
            if n == 0:
                off = off + l.scale(t.size)
                continue
            tt = t.resolve()
            if tt.k == 'struct':
                off = off + tt.field_off(l.c)
                t = tt.a[l.c]
            elif tt.k == 'arr':
                if ext is not None and st is not None and ext[0] != off:
                    d = off - ext[0]
                    if d.t:
                        chk = chk + ((off, ext[0], ext[1]),)
                if tt.a > 0:
                    ext = (off, off + tt.size)
                t = tt.b
                off = off + l.scale(t.size)
        return PV(base.r, off if st is None else st.f.norm(off), ext, chk)

    # ---------------------------------------------------------------------------------- running
    def val(self, fr, env, st, o, ty):
        k = o[0]
        if k == 'reg':
            return env[o[1]]
        return self.const(fr.f.mod, o, ty)

    def call(self, f, args, st, stack=(), ins=None):
        """analyse f in context; returns list of Outcome ('ret', 'longjmp', 'exit', 'assert', ...)"""
        if len(stack) > 120 or f in stack and stack.count(f) >= self.max_rec:
            self.note('recursive call of %s not followed' % f.name)
            self.blur(st, 'recursion')
            return [Outcome('ret', st, self.fresh_val(f.ret, 'rec_' + f.name) if f.ret.k != 'void' else None)]
        self.visited.add(f)
        self.called[f] = self.called.get(f, 0) + 1
        fr = Frame(f, stack + (f,))
        env = {}
        for (t, nme), a in zip(f.params, args):
            env[nme] = a
        f.loops()
        res = []
        for o in self.exec(fr, f.entry, None, env, st, None, None):
            if o.k == 'edge':
                raise AssertionError
            res.append(o)
        return res

    def blur(self, st, why):
        """the state may have changed in ways that are not tracked: nothing is refuted in it"""
        st.f.bools[('blurred', why)] = True
        self.blurred = True

    def note(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def exec(self, fr, start, prev, env, st, allowed, header):
        """run blocks from `start`; edges out of `allowed` or back to `header` are returned as Outcome('edge')"""
        out = []
        self.drain(fr, [(start, -1, prev, env, st)], out, allowed, header)
        return out

    def drain(self, fr, work, out, allowed, header):
        f = fr.f
        loops = f.loops()
        blocks = f.blocks
        nparts = 0
        while work:
            bn, idx, prev, env, st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget exhausted in %s' % f.name)
            nparts += 1
            if nparts > self.max_parts:
                raise Budget('partition budget exhausted in %s' % f.name)
            blk = blocks[bn]
            if idx < 0:
                if (allowed is not None and bn not in allowed) or (bn == header and prev is not None):
                    out.append(Outcome('edge', st, (bn, prev, env)))
                    continue
                if bn in loops and bn != header:
                    for o in self.loop(fr, bn, prev, env, st):
                        if o.k == 'edge':
                            b2, p2, e2 = o.val
                            work.append((b2, -1, p2, e2, o.st))
                        else:
                            self.finish(fr, o, out, work)
                    continue
                env = self.enter(fr, blk, prev, env, st)
                idx = len(blk.phis)
            self.run_block(fr, blk, idx, prev, env, st, work, out)

    def enter(self, fr, blk, prev, env, st):
        env = dict(env)
        if prev is not None and blk.phis:
            new = []
            for ph in blk.phis:
                for v, pb in ph.a[0]:
                    if pb == prev:
                        new.append((ph.res, self.val(fr, env, st, v, ph.ty)))
                        break
            for k, v in new:
                env[k] = v
        return env

    def finish(self, fr, o, out, work):
        """outcome of a call or loop: longjmp may land in this activation"""
        if o.k == 'longjmp' and fr.jmp is not None and o.x == fr.jmp[0]:
            key, bn, idx, prev, env, ins = fr.jmp
            e = dict(env)
            e[ins.res] = IV(32, LA(AT.get(('setjmp', ins.fn.qname), 1, (1 << 31) - 1)))
            work.append((bn, idx, prev, e, o.st))
        else:
            out.append(o)

    def run_block(self, fr, blk, idx, prev, env, st, work, out):
        ins_list = blk.ins
        n = len(ins_list)
        while idx < n:
            ins = ins_list[idx]
            snap = (st.ev, dict(st.mem), dict(st.freed), dict(st.ghost)) if ins.op == 'call' else None
            try:
                r = self.step(fr, ins, env, st)
            except Split as s:
                if snap:
                    # the step is retried: drop what it did before it asked
                    st.ev, st.mem, st.freed, st.ghost = snap
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget')
                for c in (s.cond, neg(s.cond)):
                    s2 = st.copy()
                    s2.nsplit += 1
                    try:
                        self.assume(s2, c)
                    except Infeasible:
                        continue
                    work.append((blk.name, idx, prev, dict(env), s2))
                return
            except Infeasible:
                return
            if r is None:
                idx += 1
                continue
            kind = r[0]
            if kind == 'val':
                env[ins.res] = r[1]
                idx += 1
            elif kind == 'br':
                work.append((r[1], -1, blk.name, env, st))
                return
            elif kind == 'fork':
                for k, (c, tgt) in enumerate(r[1]):
                    s2 = st.copy()
                    try:
                        for cc in c:
                            self.assume(s2, cc)
                    except Infeasible:
                        continue
                    work.append((tgt, -1, blk.name, dict(env), s2))
                return
            elif kind == 'ret':
                out.append(Outcome('ret', st, r[1], ins))
                return
            elif kind == 'outs':
                outs = r[1]
                for o in outs:
                    if o.k == 'ret':
                        e2 = env if len(outs) == 1 else dict(env)
                        if ins.res is not None:
                            v = o.val
                            e2[ins.res] = v if v is not None else self.fresh_val(ins.ty, 'void')
                        if len(outs) == 1:
                            env, st = e2, o.st
                            idx += 1
                            break
                        work.append((blk.name, idx + 1, prev, e2, o.st))
                    else:
                        self.finish(fr, o, out, work)
                else:
                    return
                continue
            elif kind == 'setjmp':
                key = r[1]
                fr.jmp = (key, blk.name, idx + 1, prev, dict(env), ins)
                env[ins.res] = IV(32, 0)
                idx += 1
            elif kind == 'stop':
                return
            else:
                raise AssertionError(kind)

    # ---------------------------------------------------------------------------------- one instruction
    def step(self, fr, ins, env, st):
        op = ins.op
        m = getattr(self, 'op_' + op, None)
        if m is not None:
            return m(fr, ins, env, st)
        if op in ir.BIN:
            return self.binop(fr, ins, env, st)
        if op in ir.CAST:
            return self.cast(fr, ins, env, st)
        raise Undecided('instruction %s at %s' % (op, at(ins)))

    def op_phi(self, fr, ins, env, st):
        return None

    def op_alloca(self, fr, ins, env, st):
        r = self.region('alloca', (tuple(x.qname for x in fr.stack), ins.res), name='%s.%s' % (fr.f.name, self.varname(ins)))
        n = self.val(fr, env, st, ins.a[0], ir.I64)
        r.size = Lin(ins.ty.size) if not n.l.t and n.l.c == 1 else n.l.scale(ins.ty.size)
        r.init = 'uninit'
        r.elem = ins.ty
        st.mem.pop(r, None)
        st.freed.pop(r, None)
        ext = None
        return ('val', PV(r, ZERO, ext))

    def varname(self, ins):
        d = getattr(ins.fn, 'dbgvals', {}).get(ins.res)
        if d:
            import re
            m = re.search(r'name: "([^"]*)"', ins.fn.mod.meta.get(d, ''))
            if m:
                return m.group(1)
        return ins.res

    def op_load(self, fr, ins, env, st):
        p = self.val(fr, env, st, ins.a[0], PTR_)
        if not isinstance(p, PV):
            return ('val', self.fresh_val(ins.ty, 'ld'))
        self.access(st, p, ins.ty.size, ins, 'read', fr)
        if self.load_hook:
            v = self.load_hook(self, st, p, ins.ty, ins)
            if v is not None:
                return ('val', v)
        return ('val', self.load(st, p, ins.ty, ins))

    def op_store(self, fr, ins, env, st):
        v = self.val(fr, env, st, ins.a[0], ins.ty)
        p = self.val(fr, env, st, ins.a[1], PTR_)
        if not isinstance(p, PV):
            return None
        self.access(st, p, ins.ty.size, ins, 'write', fr)
        if isinstance(v, BV):
            v = IV(8, 1 if self.decide(st, v.c) else 0)
        self.store(st, p, ins.ty, v, ins)
        return None

    def op_getelementptr(self, fr, ins, env, st):
        bt, base, idx = ins.a
        b = self.val(fr, env, st, base, PTR_)
        ix = [(t, self.val(fr, env, st, o, t)) for t, o in idx]
        if isinstance(b, PV) and b.r is not None and b.r.kind == 'ctype':
            l = self.sview(st, ix[0][1])
            return ('val', PV(b.r, l.scale(2)))
        return ('val', self.gep(st, b, bt, ix, ins))

    def op_br(self, fr, ins, env, st):
        if len(ins.a) == 1:
            return ('br', ins.a[0])
        c = self.tobool(st, self.val(fr, env, st, ins.a[0], ir.I1))
        r = self.evalc(st, c)
        if r is True:
            return ('br', ins.a[1])
        if r is False:
            return ('br', ins.a[2])
        return ('fork', [((c,), ins.a[1]), ((neg(c),), ins.a[2])])

    def tobool(self, st, v):
        if isinstance(v, BV):
            return v.c
        if isinstance(v, IV):
            return ('ne', v.l)
        return ('opq', ('undef', next(AT.n)))

    def op_switch(self, fr, ins, env, st):
        v = self.val(fr, env, st, ins.a[0], ins.ty)
        if not isinstance(v, IV):
            v = self.fresh_val(ins.ty, 'sw')
        l = st.f.norm(v.l)
        cases = ins.a[2]
        w = v.w
        def canon(c):
            # representation of case constant comparable with l
            lo, hi = st.f.bounds(l)
            for x in (c, c + (1 << w), c - (1 << w)):
                if (lo is None or x >= lo) and (hi is None or x <= hi):
                    return x
            return None
        if not l.t:
            for c, tgt in cases:
                if (c - l.c) % (1 << w) == 0:
                    return ('br', tgt)
            return ('br', ins.a[1])
        forks = []
        dflt = []
        by = {}
        for c, tgt in cases:
            x = canon(c)
            if x is None:
                continue
            dflt.append(('ne', l - x))
            forks.append(((('eq', l - x),), tgt))
        forks.append((tuple(dflt), ins.a[1]))
        return ('fork', forks)

    def op_ret(self, fr, ins, env, st):
        return ('ret', self.val(fr, env, st, ins.a[0], ins.ty) if ins.a else None)

    def op_unreachable(self, fr, ins, env, st):
        return ('stop',)

    def op_freeze(self, fr, ins, env, st):
        return ('val', self.val(fr, env, st, ins.a[0], ins.ty))

    def op_select(self, fr, ins, env, st):
        c = self.tobool(st, self.val(fr, env, st, ins.a[0], ir.I1))
        return ('val', self.val(fr, env, st, ins.a[1] if self.decide(st, c) else ins.a[2], ins.ty))

    def op_fneg(self, fr, ins, env, st):
        return ('val', self.mkf('fneg', self.val(fr, env, st, ins.a[0], ins.ty)))

    def op_extractvalue(self, fr, ins, env, st):
        t, o, idx = ins.a
        v = self.val(fr, env, st, o, t)
        if not isinstance(v, Agg):
            return ('val', self.fresh_val(ins.ty, 'ev'))
        off = v.off
        for i in idx:
            t = t.resolve()
            off = off + (t.field_off(i) if t.k == 'struct' else i * t.b.size)
            t = t.a[i] if t.k == 'struct' else t.b
        if self.only_stored(ins):
            return ('val', Agg(v.r, v.log, off, ins.ty.size))
        return ('val', self._load(st, v.r, v.log, st.f.norm(off), ins.ty.size, ins.ty, None, False))

    def only_stored(self, ins):
        for b in ins.fn.blocks.values():
            for i in b.ins:
                if i is not ins and ('reg', ins.res) in flat(i.a) and not (i.op == 'store' and i.a[0] == ('reg', ins.res)):
                    return False
        return True

    def op_unsupported(self, fr, ins, env, st):
        return ('val', self.fresh_val(ins.ty or ir.I32, 'uns')) if ins.res else None

    def mkf(self, op, *a):
        if all(isinstance(x, FE) for x in a):
            if all(x.op == 'fc' for x in a):
                try:
                    xs = [x.a[0] for x in a]
                    if op == 'fneg':
                        return fc(-xs[0])
                    if op == 'fadd':
                        return fc(xs[0] + xs[1])
                    if op == 'fsub':
                        return fc(xs[0] - xs[1])
                    if op == 'fmul':
                        return fc(xs[0] * xs[1])
                    if op == 'fdiv' and xs[1] != 0:
                        return fc(xs[0] / xs[1])
                    if op == 'floor':
                        return fc(floor(xs[0]))
                    if op == 'fabs':
                        return fc(abs(xs[0]))
                except (OverflowError, ValueError):
                    pass
            if op in ('fadd', 'fmul') and a[0].id > a[1].id:
                a = (a[1], a[0])
            if op in ROUNDING and a[0].op in INTEGRAL_OPS:
                return a[0]
            # -(0) - style negation
            if op == 'fsub' and a[0].op == 'fc' and a[0].a[0] == 0 and str(a[0].a[0]) == '-0.0':
                return fe('fneg', a[1])
            if op == 'fneg' and a[0].op == 'fneg':
                return a[0].a[0]
            return fe(op, *a)
        return fe('fa', 'undef', next(AT.n))

    def binop(self, fr, ins, env, st):
        op = ins.op
        a = self.val(fr, env, st, ins.a[0], ins.ty)
        b = self.val(fr, env, st, ins.a[1], ins.ty)
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return ('val', self.mkf(op, a, b))
        if ins.ty.a == 1:
            ca, cb = self.tobool(st, a), self.tobool(st, b)
            if op == 'xor':
                rb = self.decide(st, cb)
                return ('val', BV(neg(ca) if rb else ca))
            if op == 'and':
                return ('val', b if self.decide(st, ca) else FALSE)
            if op == 'or':
                return ('val', TRUE if self.decide(st, ca) else b)
        if not isinstance(a, IV) or not isinstance(b, IV):
            return ('val', self.fresh_val(ins.ty, op))
        w = ins.ty.a
        flags = ins.a[2]
        f = st.f
        if op in ('add', 'sub'):
            nsw = 'nsw' in flags
            if nsw:
                x, y = self.sview(st, a), self.sview(st, b)
                l = x + y if op == 'add' else x - y
                return ('val', self.mk(st, w, l, True))
            # unsigned: constants such as -1 are read as signed steps
            x = self.near(st, a)
            y = self.near(st, b)
            l = x + y if op == 'add' else x - y
            return ('val', self.mk(st, w, l, False))
        if op == 'mul':
            nsw = 'nsw' in flags
            v = self.sview if nsw else self.uview
            x, y = f.norm(v(st, a)), f.norm(v(st, b))
            return ('val', self.mk(st, w, self.prod(st, x, y), nsw))
        if op == 'shl' and not f.norm(b.l).t:
            x = self.uview(st, a)
            return ('val', self.mk(st, w, x.scale(1 << f.norm(b.l).c), 'nsw' in flags))
        if op in ('udiv', 'urem', 'sdiv', 'srem') or (op in ('lshr', 'and') and not f.norm(b.l).t):
            if op == 'lshr':
                x, y, op2 = self.uview(st, a), Lin(1 << f.norm(b.l).c), 'udiv'
            elif op == 'and':
                k = f.norm(b.l).c % (1 << w)
                if k and (k & (k + 1)) == 0:
                    x, y, op2 = self.uview(st, a), Lin(k + 1), 'urem'
                else:
                    al = f.norm(a.l)
                    if len(al.t) == 1 and al.c == 0 and AT.key[al.t[0][0]][0] == 'ctype':
                        return ('val', IV(w, LA(AT.get(('ctypebits', al.t[0][0], k), 0, 65535))))
                    x = al
                    if not x.t:
                        return ('val', IV(w, (x.c % (1 << w)) & k))
                    xl, xh = f.bounds(x)
                    if xl is not None and xl >= 0 and xh is not None and xh < (k & -k):
                        return ('val', IV(w, 0))
                    return ('val', IV(w, LA(AT.get(('and', x, k), 0, k))))
            else:
                v = self.sview if op[0] == 's' else self.uview
                x, y = f.norm(v(st, a)), f.norm(v(st, b))
                op2 = op
            return ('val', IV(w, self.divrem(st, op2, x, y, w)))
        x, y = f.norm(a.l), f.norm(b.l)
        if not x.t and not y.t:
            M = 1 << w
            xu, yu = x.c % M, y.c % M
            r = {'and': lambda: xu & yu, 'or': lambda: xu | yu, 'xor': lambda: xu ^ yu,
                 'shl': lambda: (xu << yu) % M if yu < w else 0, 'lshr': lambda: xu >> yu if yu < w else 0,
                 'ashr': lambda: ((xu - M if xu >= M // 2 else xu) >> min(yu, w - 1)) % M}[op]()
            if op in ('and', 'or', 'xor') and (x.c < 0 or y.c < 0) and r >= M // 2:
                r -= M
            return ('val', IV(w, r))
        if op == 'xor' and not y.t and (y.c == -1 or y.c == (1 << w) - 1):
            x = self.sview(st, a)
            return ('val', IV(w, -x - 1))
        if op in ('and', 'or', 'xor'):
            k = tuple(sorted((x, y), key=repr))
            # bitwise of signed operands stays in the signed range
            (xl, xh), (yl, yh) = f.bounds(x), f.bounds(y)
            if None not in (xl, xh, yl, yh) and xl >= 0 and yl >= 0:
                hi = (1 << max(xh.bit_length(), yh.bit_length())) - 1
                if op == 'and':
                    hi = min(xh, yh)
                return ('val', IV(w, LA(AT.get((op, w) + k, 0, hi))))
            return ('val', IV(w, LA(AT.get((op, w) + k, -(1 << (w - 1)), (1 << (w - 1)) - 1))))
        return ('val', self.unknown_val(ins.ty, (op, x, y)))

    def near(self, st, a):
        """representation used for additive arithmetic: constants near 2^w are negative steps"""
        l = st.f.norm(a.l)
        if not l.t and l.c >= (1 << (a.w - 1)):
            return l - (1 << a.w)
        return l

    def prod(self, st, x, y):
        if not x.t:
            return y.scale(x.c)
        if not y.t:
            return x.scale(y.c)
        r = Lin(x.c * y.c) + Lin(0, x.t).scale(y.c) + Lin(0, y.t).scale(x.c)
        for a, k in x.t:
            for b, m in y.t:
                p, q = (a, b) if a <= b else (b, a)
                la, lb = LA(p), LA(q)
                r = r + LA(AT.get(('mul', la, lb), None, None)).scale(k * m)
        return r

    def divrem(self, st, op, x, y, w):
        f = st.f
        if not x.t and not y.t and y.c:
            q = abs(x.c) // abs(y.c)
            if (x.c < 0) != (y.c < 0):
                q = -q
            return Lin(q if op.endswith('div') else x.c - q * y.c)
        xlo, xhi = f.bounds(x)
        if not y.t and y.c > 0 and xlo is not None and xlo >= 0:
            if xhi is not None and xhi < y.c:
                return Lin(0) if op.endswith('div') else x
            if x.t:
                # multiple of the divisor plus a rest within it
                c = y.c
                mult = Lin(x.c - x.c % c)
                for a_, k_ in x.t:
                    if k_ % c == 0:
                        mult = mult + LA(a_).scale(k_)
                rest = x - mult
                if mult.t:
                    rlo, rhi = f.bounds(rest)
                    if rlo is not None and rlo >= 0 and rhi is not None and rhi < c:
                        if not op.endswith('div'):
                            return rest
                        out = Lin(mult.c // c)
                        for a_, k_ in mult.t:
                            out = out + LA(a_).scale(k_ // c)
                        return out
            q = AT.get(('div', x, y.c), 0, None if xhi is None else xhi // y.c)
            # 0 <= x - y*q < y
            f.assume_ge(x - LA(q).scale(y.c))
            f.assume_ge(LA(q).scale(y.c) - x + (y.c - 1))
            return LA(q) if op.endswith('div') else f.norm(x - LA(q).scale(y.c))
        ylo, yhi = f.bounds(y)
        if xlo is not None and xlo >= 0 and ylo is not None and ylo >= 1:
            if op.endswith('div'):
                a = AT.get(('div', x, y), 0, xhi)
                q = LA(a)
                pq = self.prod(st, q, y)
                if yhi is not None and xlo // yhi:
                    f.assume_ge(q - xlo // yhi)
                if xhi is not None and ylo > 1:
                    f.assume_ge(-q + xhi // ylo)
                f.assume_ge(x - pq)
                f.assume_ge(pq + y - x - 1)
                return q
            a = AT.get(('rem', x, y), 0, None if yhi is None else yhi - 1)
            f.assume_ge(y - 1 - LA(a))
            f.assume_ge(x - LA(a))
            return LA(a)
        return LA(AT.get((op, x, y), -(1 << (w - 1)) if op[0] == 's' else 0,
                         (1 << (w - 1)) - 1 if op[0] == 's' else (1 << w) - 1))

    def op_icmp(self, fr, ins, env, st):
        pred, oa, ob = ins.a
        a = self.val(fr, env, st, oa, ins.ty)
        b = self.val(fr, env, st, ob, ins.ty)
        if ins.ty.k == 'ptr':
            return ('val', BV(self.pcmp(st, pred, a, b, ins)))
        if ins.ty.a == 1:
            ca, cb = self.tobool(st, a), self.tobool(st, b)
            rb = self.decide(st, cb)
            c = ca if rb else neg(ca)
            return ('val', BV(c if pred == 'eq' else neg(c)))
        if not isinstance(a, IV) or not isinstance(b, IV):
            return ('val', BV(('opq', ('icmp', ins.fn.qname, ins.idx, next(AT.n)))))
        f = st.f
        if pred in ('eq', 'ne'):
            x, y = f.norm(a.l), f.norm(b.l)
            d = f.norm(x - y)
            lo, hi = f.bounds(d)
            full = 1 << a.w
            if lo is None or hi is None or hi >= full or lo <= -full or (
                    # both representations possible: bring to one view
                    (f.bounds(x)[0] or 0) < 0 and (f.bounds(y)[1] or full) >= full // 2) or (
                    (f.bounds(y)[0] or 0) < 0 and (f.bounds(x)[1] or full) >= full // 2):
                x, y = self.sview(st, a), self.sview(st, b)
                d = f.norm(x - y)
            # ctype test
            if not y.t and y.c == 0 and len(x.t) == 1 and x.c == 0:
                k = AT.key[x.t[0][0]]
                if k[0] == 'ctypebits':
                    s = ctype_set(k[2])
                    ch = AT.key[k[1]][1]
                    return ('val', BV((('nset' if pred == 'eq' else 'set'), f.norm(ch), s)))
            return ('val', BV((pred, d)))
        v = self.sview if pred[0] == 's' else self.uview
        x, y = v(st, a), v(st, b)
        r = pred[1:]
        c = {'lt': lambda: ('ge', y - x - 1), 'le': lambda: ('ge', y - x), 'gt': lambda: ('ge', x - y - 1),
             'ge': lambda: ('ge', x - y)}[r]()
        return ('val', BV((c[0], f.norm(c[1]))))

    def pcmp(self, st, pred, a, b, ins):
        if isinstance(a, FP) or isinstance(b, FP):
            if isinstance(a, FP) and isinstance(b, FP):
                return ('c', (a.f is b.f) == (pred == 'eq'))
            return ('c', pred != 'eq')
        if not isinstance(a, PV) or not isinstance(b, PV):
            return ('opq', ('pcmp', next(AT.n)))
        if pred in ('eq', 'ne'):
            c = None
            if a.r is b.r:
                d = st.f.norm(a.off - b.off)
                c = ('eq', d) if a.r is not None else ('c', True)
            elif a.r is None or b.r is None:
                r = (a if b.r is None else b)
                if r.r.maybe_null:
                    c = ('null', r.r)
                else:
                    c = ('c', False)
            else:
                za, zb = self.evalc(st, ('null', a.r)), self.evalc(st, ('null', b.r))
                if za is None:
                    raise Split(('null', a.r))
                if zb is None:
                    raise Split(('null', b.r))
                if za and zb:
                    c = ('c', True)
                elif za or zb:
                    c = ('c', False)
                elif a.r.kind in ('lazy', 'opq') and b.r.kind in ('lazy', 'opq'):
                    c = ('opq', ('peq', min(a.r.id, b.r.id), max(a.r.id, b.r.id), repr(a.off), repr(b.off)))
                else:
                    c = ('c', False)
            return c if pred == 'eq' else neg(c)
        if a.r is b.r:
            x, y = st.f.norm(a.off), st.f.norm(b.off)
            r = pred[1:]
            return {'lt': lambda: ('ge', y - x - 1), 'le': lambda: ('ge', y - x), 'gt': lambda: ('ge', x - y - 1),
                    'ge': lambda: ('ge', x - y)}[r]()
        return ('opq', ('pcmp', next(AT.n)))

    def op_fcmp(self, fr, ins, env, st):
        pred, oa, ob = ins.a
        a = self.val(fr, env, st, oa, ins.ty)
        b = self.val(fr, env, st, ob, ins.ty)
        if not isinstance(a, FE) or not isinstance(b, FE):
            return ('val', BV(('opq', ('fcmp', next(AT.n)))))
        return ('val', BV(('f', FPRED[pred], a, b)))

    def cast(self, fr, ins, env, st):
        op = ins.op
        v = self.val(fr, env, st, ins.a[1], ins.a[0])
        t = ins.ty
        if v is UNDEF:
            return ('val', self.fresh_val(t, 'undef'))
        if op == 'zext':
            if isinstance(v, BV):
                return ('val', IV(t.a, 1 if self.decide(st, v.c) else 0))
            return ('val', IV(t.a, self.uview(st, v)))
        if op == 'sext':
            if isinstance(v, BV):
                return ('val', IV(t.a, -1 if self.decide(st, v.c) else 0))
            return ('val', IV(t.a, self.sview(st, v)))
        if op == 'trunc':
            if t.a == 1:
                l = st.f.norm(v.l)
                lo, hi = st.f.bounds(l)
                if lo is not None and lo >= 0 and hi == 1:
                    return ('val', BV(('ne', l)))
                if not l.t:
                    return ('val', TRUE if l.c & 1 else FALSE)
                if len(l.t) == 1 and AT.key[l.t[0][0]][0] == 'init':
                    st.f.assume_ge(l)
                    st.f.assume_ge(-l + 1)
                    return ('val', BV(('ne', l)))
                return ('val', BV(('opq', ('bit', l))))
            l = st.f.norm(v.l)
            lo, hi = st.f.bounds(l)
            half, full = 1 << (t.a - 1), 1 << t.a
            if lo is not None and hi is not None and lo >= -half and hi < full:
                return ('val', IV(t.a, l))
            if st.f.prove_ge(l + half) and st.f.prove_ge(-l + full - 1):
                return ('val', IV(t.a, l))
            if not l.t:
                return ('val', IV(t.a, l.c % full))
            if self.hooks.get('trunc'):
                self.hooks['trunc'](self, st, ins, v, t)
            return ('val', IV(t.a, LA(AT.get(('trunc', t.a, l), 0, full - 1))))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, BV):
                return ('val', fc((1.0 if op[0] == 'u' else -1.0) if self.decide(st, v.c) else 0.0))
            l = st.f.norm(self.sview(st, v) if op[0] == 's' else self.uview(st, v))
            if not l.t:
                return ('val', fc(float(l.c)))
            if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
                k = AT.key[l.t[0][0]]
                if k[0] == 'f2i' and len(k) == 2:
                    return ('val', k[1] if st.f.frange(k[1])[5] else self.mkf('trunc', k[1]))
            return ('val', fe('i2f', l))
        if op in ('fptosi', 'fptoui'):
            w = t.a
            if not isinstance(v, FE):
                return ('val', self.fresh_val(t, 'f2i'))
            lo, lo_o, hi, hi_o, nan, it = st.f.frange(v)
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            okr = (not nan) and (lo > mn - 1) and (hi < mx + 1 or (hi == mx + 1 and hi_o))
            if op == 'fptosi' and not okr and (not nan) and lo >= mn and (hi < mx + 1):
                okr = True
            self.oblige(ins, 'f2i', True if okr else None, 'conversion of %r (range %g..%g%s) to %s' %
                        (v, lo, hi, ', may be NaN' if nan else '', 'i%d' % w), fr)
            if not okr:
                self.suspect(ins, 'f2i', st, (lambda env, v=v, mn=mn, mx=mx: not (mn - 1 < env.fe(v) < mx + 1)),
                             'conversion of %r to a %d-bit integer' % (v, w), (v,))
            self.oblige(ins, 'f2i-integral', True if it else None, 'conversion of possibly fractional %r' % (v,), fr)
            if v.op == 'fc':
                return ('val', IV(w, int(v.a[0]) if abs(v.a[0]) < 2 ** 63 else 0))
            if v.op == 'i2f':
                return ('val', IV(w, v.a[0]))
            if okr:
                a = AT.get(('f2i', v), -(1 << 63), (1 << 64) - 1)
                if it and lo == hi and hi == floor(hi):
                    return ('val', IV(w, int(hi)))
            else:
                a = AT.get(('f2i', v, w, op), mn, mx)
            import math
            lo, hi = min(max(lo, -1e19), 1e19), max(min(hi, 1e19), -1e19)
            l2 = max(mn, int(math.ceil(lo)) + (1 if lo_o and lo == math.ceil(lo) and it else 0)) if lo > -1e18 else mn
            h2 = min(mx, int(math.floor(hi)) - (1 if hi_o and hi == math.floor(hi) and it else 0)) if hi < 1e18 else mx
            if not it:
                l2, h2 = (max(mn, int(lo)) if lo > -1e18 else mn), (min(mx, int(hi)) if hi < 1e18 else mx)
            if l2 <= h2 and a not in st.f.sub:
                st.f.assume_ge(LA(a) - l2)
                st.f.assume_ge(-LA(a) + h2)
            return ('val', IV(w, LA(a)))
        if op == 'ptrtoint':
            if isinstance(v, PV):
                return ('val', IV(64, LA(AT.get(('ptrbase', v.r.id if v.r else 0), 0, 1 << 62)) + v.off if v.r else ZERO))
            return ('val', self.fresh_val(t, 'p2i'))
        if op == 'fptrunc' and isinstance(v, FE):
            return ('val', fc(struct.unpack('>f', struct.pack('>f', v.a[0]))[0]) if v.op == 'fc' and abs(v.a[0]) < 3e38 else fe('f32', v))
        if op in ('fpext', 'bitcast'):
            return ('val', v)
        return ('val', self.fresh_val(t, op))

    # ---------------------------------------------------------------------------------- calls
    def op_call(self, fr, ins, env, st):
        callee, args = ins.a
        vals = [self.val(fr, env, st, o, t) for t, o in args]
        if callee[0] == 'global':
            name = callee[1]
            f = self.p.resolve(fr.f.mod, name)
        else:
            c = self.val(fr, env, st, callee, PTR_)
            if isinstance(c, FP):
                f, name = (c.f, c.f.name) if not isinstance(c.f, str) else (None, c.f)
            else:
                h = self.hooks.get('indirect')
                if h:
                    return ('outs', h(self, st, fr, ins, c, vals))
                self.note('indirect call at %s' % at(ins))
                self.blur(st, 'indirect call')
                return ('outs', [Outcome('ret', st, self.fresh_val(ins.ty, 'ind') if ins.ty.k != 'void' else None)])
        h = self.icpt.get(name)
        if h is not None:
            r = h(self, st, fr, ins, vals)
            if r is not None:
                return r if isinstance(r, tuple) else ('outs', r)
        if f is not None:
            return ('outs', self.call(f, vals, st, fr.stack, ins))
        from . import libc
        m = libc.MODELS.get(name)
        if m is None:
            return ('outs', [self.extern(st, fr, ins, name, vals)])
        r = m(self, st, fr, ins, vals)
        if isinstance(r, tuple):
            return r
        if isinstance(r, list):
            return ('outs', r)
        return ('outs', [Outcome('ret', st, r)])

    def extern(self, st, fr, ins, name, vals):
        st.emit('call', name, tuple(vals), ins)
        if name.startswith('llvm.'):
            return Outcome('ret', st, None)
        self.note('unmodelled external %s at %s' % (name, at(ins)))
        self.blur(st, 'external')
        for v in vals:
            if isinstance(v, PV) and v.r is not None and v.r.init != 'const' and v.r.kind != 'ext':
                st.mem[v.r] = Node(st.mem.get(v.r), 'h', None, None)
        return Outcome('ret', st, self.fresh_val(ins.ty, name) if ins.ty.k != 'void' else None)

    # ---------------------------------------------------------------------------------- loops
    def loop(self, fr, header, prev, env, st):
        f = fr.f
        body = f.loops()[header]
        self.nloops += 1
        # 1. try plain unrolling
        r = self.try_unroll(fr, header, body, prev, env, st)
        if r is not None:
            return r
        return self.loop_fix(fr, header, body, prev, env, st)

    def try_unroll(self, fr, header, body, prev, env, st):
        outs = []
        cur = [(prev, env, st)]
        saved = (self.obl, self.steps)
        import copy
        backup = {k: [v[0], v[1], v[2], list(v[3])] for k, v in self.obl.items()} if not self.quiet else None
        limit = self.steps + self.unroll_steps
        for it in range(self.unroll + 1):
            nxt = []
            for p, e, s in cur:
                if it == self.unroll:
                    if backup is not None:
                        self.obl = backup
                    return None
                for o in self.exec_from_header(fr, header, p, e, s.copy() if it == 0 else s, body):
                    if o.k == 'edge' and o.val[0] == header:
                        nxt.append((o.val[1], o.val[2], o.st))
                    else:
                        outs.append(o)
            if not nxt:
                return outs
            if len(nxt) > 24 or self.steps > limit:
                if backup is not None:
                    self.obl = backup
                return None
            cur = nxt
        return None

    def exec_from_header(self, fr, header, prev, env, st, body):
        """execute the loop body once, starting at the header with phis taken from prev"""
        return self.exec_body(fr, header, self.enter(fr, fr.f.blocks[header], prev, env, st), st, body)

    def exec_body(self, fr, header, env, st, body):
        out, work = [], []
        blk = fr.f.blocks[header]
        self.run_block(fr, blk, len(blk.phis), '?', env, st, work, out)
        self.drain(fr, work, out, body, header)
        return out

    def phi_signed(self, fr, ph):
        d = fr.f.dbgvals.get(ph.res)
        if d:
            import re
            m = re.search(r'type: (!\d+)', fr.f.mod.meta.get(d, ''))
            if m:
                s = fr.f.mod.di_signed(m.group(1))
                if s is not None:
                    return s
        for i in fr.f.instrs():
            if i.op == 'icmp' and (('reg', ph.res) in i.a):
                if i.a[0][0] == 's':
                    return True
                if i.a[0][0] == 'u':
                    return False
            if i.op == 'sext' and i.a[1] == ('reg', ph.res):
                return True
            if i.op in ('zext', 'uitofp') and i.a[1] == ('reg', ph.res):
                return False
        return True

    def mods(self, st0, st1):
        """cells changed between st0 and st1: {region: [(off, size, ext, val)] or None (=anything)}"""
        out = {}
        for r, n in st1.mem.items():
            n0 = st0.mem.get(r)
            x = n
            lst = []
            while x is not n0 and x is not None:
                if x.k in ('w',):
                    lst.append((x.off, x.size, x.ext, x.val))
                elif x.k == 'h':
                    lst.append((None, None, x.ext, None))
                elif x.k in ('c', 'z'):
                    lst.append((x.off, x.size, x.ext, None))
                elif x.k in ('s', 'raw'):
                    lst.append((None, None, x.ext, None) if x.ext is not None else (None, None, None, None))
                x = x.prev
            if x is None and n0 is not None:
                lst = [(None, None, None, None)]       # log replaced (fresh alloca)
            if lst:
                out[r] = lst
        return out

    def loop_fix(self, fr, header, body, prev, env, st):
        f = fr.f
        blk = f.blocks[header]
        self.quiet += 1
        ent_phi = {}
        for ph in blk.phis:
            for v, pb in ph.a[0]:
                if pb == prev:
                    ent_phi[ph.res] = self.val(fr, env, st, v, ph.ty)
        pre_atoms = len(AT.key)
        st = st.copy()
        cells = {}          # (region, off Lin, size) -> entry value
        ranges = {}         # region -> list of ext or [None]
        degraded = set()    # phi names / cells whose shape is lost
        phis = {ph.res: ph for ph in blk.phis}
        hid = next(AT.n)
        cands = None
        tried = set()
        try:
            for rnd in range(40):
                # ---- header state
                hs = st.copy()
                henv = dict(env)
                var = {}        # atom -> (kind, name/cell)
                shape = {}
                for nme, ph in phis.items():
                    v0 = ent_phi[nme]
                    henv[nme] = self.generalise(fr, hs, v0, ph.ty, ('phi', hid, nme), degraded, var, self.phi_signed(fr, ph) if ph.ty.k == 'int' and ph.ty.a > 1 else None)
                for r, exts in ranges.items():
                    for e in exts:
                        hs.mem[r] = Node(hs.mem.get(r), 'h', None, None, None, e)
                for (r, off, size), (v0, ty, ext) in cells.items():
                    g = self.generalise(fr, hs, v0, ty, ('cell', hid, r.id, repr(off)), degraded, var,
                                        self.cell_signed(r, off, ty))
                    hs.mem[r] = Node(hs.mem.get(r), 'w', off, size, g, ext)
                # ---- candidates
                if cands is None:
                    cands = set()
                    tried = set()
                for a, (v0, _) in var.items():
                    for c in (LA(a) - v0, v0 - LA(a)):
                        if c not in tried:
                            tried.add(c)
                            cands.add(c)
                live = [c for c in cands if self.cand_ok_vars(c, var, pre_atoms)]
                ok = True
                try:
                    for c in sorted(live, key=repr):
                        hs.f.assume_ge(c)
                except Infeasible:
                    ok = False
                    # candidates contradictory: should not happen, fall back to none
                    cands = set()
                    continue
                base = hs.copy()
                outs = self.exec_body(fr, header, dict(henv), hs, body)
                backs = [o for o in outs if o.k == 'edge' and o.val[0] == header]
                changed = False
                # ---- newly modified memory
                for o in outs:
                    if o.k != 'edge':
                        continue
                    if o.val[0] != header:
                        continue
                    for r, lst in self.mods(base, o.st).items():
                        if r.kind == 'alloca' and r not in st.mem and self.local_to(r, fr):
                            continue
                        for off, size, ext, val in lst:
                            if off is None:
                                rg = ranges.setdefault(r, [])
                                if None in rg or ext in rg:
                                    continue
                                if ext is None:
                                    rg[:] = [None]
                                else:
                                    rg.append(ext)
                                changed = True
                                continue
                            inv = not any(a >= pre_atoms and AT.key[a][0] != 'mul' for a in base.f.norm(off).atoms()) and \
                                not any(a in var for a in base.f.norm(off).atoms())
                            if inv and val is not None and isinstance(size, int):
                                k = (r, base.f.norm(off), size)
                                if k not in cells and not self.covered(ranges.get(r), ext):
                                    ty = self.val_ty(val, size)
                                    v0 = self.try_load(st, PV(r, k[1], ext), ty)
                                    cells[k] = (v0, ty, ext)
                                    changed = True
                            else:
                                e2 = ext
                                if e2 is not None and any(a >= pre_atoms for x in e2 for a in x.atoms()):
                                    e2 = None
                                rg = ranges.setdefault(r, [])
                                if None in rg or e2 in rg:
                                    continue
                                if e2 is None:
                                    rg[:] = [None]
                                else:
                                    rg.append(e2)
                                # cells inside the range are subsumed
                                changed = True
                if changed:
                    # new candidates must be recomputed for new variables
                    continue
                # ---- check candidates on back edges
                newc = set()
                drop = set()
                for o in backs:
                    bn, pv, e = o.val
                    m = {}
                    bad = set()
                    for a, (v0, ref) in var.items():
                        v1 = self.back_value(fr, blk, ref, pv, e, o.st, phis, cells)
                        w = self.as_lin(fr, o.st, v1, ref, var[a], degraded)
                        if w is None:
                            bad.add(a)
                        else:
                            m[a] = w
                    for ref in self.shape_refs(phis, cells):
                        v1 = self.back_value(fr, blk, ref, pv, e, o.st, phis, cells)
                        h = henv[ref[1]] if ref[0] == 'phi' else self.cellval(base, ref[1])
                        if not self.same_shape(o.st, h, v1) and ref not in degraded:
                            degraded.add(ref)
                            changed = True
                    for c in live:
                        if c in drop:
                            continue
                        if any(a in bad for a in c.atoms()):
                            drop.add(c)
                            continue
                        if not o.st.f.prove_ge(subst(c, m)):
                            drop.add(c)
                    # harvest candidate facts
                    if rnd < 12:
                        newc |= self.harvest(st, base, o, var, m, pre_atoms, backs)
                cands -= drop
                if drop or changed:
                    changed = True
                fresh = []
                for c in newc:
                    if c in tried:
                        continue
                    tried.add(c)
                    # must hold on entry
                    m0 = {a: v0 for a, (v0, _) in var.items()}
                    if any(v0 is None for v0 in m0.values()):
                        continue
                    if st.f.prove_ge(subst(c, m0)):
                        cands.add(c)
                        fresh.append(c)
                if fresh:
                    changed = True
                if not changed:
                    break
            else:
                self.note('loop at %s did not stabilise' % at(blk.ins[-1]))
                cands = set()
        finally:
            self.quiet -= 1
        # ---- final pass with reporting on
        hs = st.copy()
        henv = dict(env)
        var = {}
        for nme, ph in phis.items():
            henv[nme] = self.generalise(fr, hs, ent_phi[nme], ph.ty, ('phi', hid, nme), degraded, var, self.phi_signed(fr, ph) if ph.ty.k == 'int' and ph.ty.a > 1 else None)
        for r, exts in ranges.items():
            for e in exts:
                hs.mem[r] = Node(hs.mem.get(r), 'h', None, None, None, e)
        for (r, off, size), (v0, ty, ext) in cells.items():
            g = self.generalise(fr, hs, v0, ty, ('cell', hid, r.id, repr(off)), degraded, var, self.cell_signed(r, off, ty))
            hs.mem[r] = Node(hs.mem.get(r), 'w', off, size, g, ext)
        for c in sorted((c for c in cands if self.cand_ok_vars(c, var, pre_atoms)), key=repr):
            hs.f.assume_ge(c)
        hook = self.hooks.get('loop')
        if hook and not self.quiet:
            hook(self, fr, header, cands, var)
        ev0 = hs.ev
        mark = ('loop-enter', f.qname, header)
        hs.ev = (hs.ev, mark)
        outs = self.exec_body(fr, header, dict(henv), hs, body)
        res = []
        bodies = []
        for o in outs:
            if o.k == 'edge' and o.val[0] == header:
                bodies.append(self.ev_since(o.st.ev, mark))
        bodies = tuple(bodies)
        for o in outs:
            if o.k == 'edge' and o.val[0] == header:
                continue
            tail = self.ev_since(o.st.ev, mark)
            ev = ev0
            if any(bodies):
                ev = (ev, ('loop', bodies, f.qname, header))
            for t in tail:
                ev = (ev, t)
            o.st.ev = ev
            res.append(o)
        return res

    def local_to(self, r, fr):
        return True

    def covered(self, rg, ext):
        return rg is not None and (None in rg or ext in rg)

    def try_load(self, st, pv, ty):
        try:
            return self.load(st, pv, ty)
        except Split:
            return None

    def val_ty(self, val, size):
        if isinstance(val, FE):
            return ir.DOUBLE
        if isinstance(val, (PV, FP)):
            return ir.PTR
        return ir.INTS.get(size * 8, ir.I64)

    def cell_signed(self, r, off, ty):
        if ty.k != 'int':
            return None
        if r.kind == 'ghost':
            return 'wide'
        fld = self.field(r, off, ty.size)
        if fld is not None:
            s = fld[6].di_signed(fld[5])
            if s is not None:
                return s
        return None

    def generalise(self, fr, st, v0, ty, key, degraded, var, signed):
        ref = ('phi', key[2]) if key[0] == 'phi' else ('cell', (key[2], key[3]))
        if isinstance(v0, IV) and ty.k == 'int' and ty.a > 1:
            w = ty.a
            l0 = st.f.norm(v0.l)
            lo0, hi0 = st.f.bounds(l0)
            half, full = 1 << (w - 1), 1 << w
            if signed == 'wide':
                a = AT.get(key + (ref in degraded,), None, None)
                var[a] = (l0, ref)
                return IV(w, LA(a))
            if signed is None:
                signed = not (lo0 is not None and lo0 >= 0)
            if signed:
                lo, hi = -half, half - 1
            else:
                lo, hi = 0, full - 1
            a = AT.get(key + (bool(signed), w, ref in degraded), lo, hi)
            if lo0 is not None and hi0 is not None and lo0 >= lo and hi0 <= hi:
                var[a] = (l0, ref)
            elif st.f.prove_ge(l0 - lo) and st.f.prove_ge(-l0 + hi):
                var[a] = (l0, ref)
            return IV(w, LA(a))
        if isinstance(v0, PV) and ref not in degraded and v0.r is not None:
            a = AT.get(key + ('off',), None, None)
            var[a] = (st.f.norm(v0.off), ref)
            return PV(v0.r, LA(a), v0.ext, v0.chk)
        if ty.k == 'ptr':
            di = v0.r.di if isinstance(v0, PV) and v0.r is not None else None
            if di is None and key[0] == 'phi':
                d = fr.f.dbgvals.get(key[2])
                if d:
                    import re
                    m = re.search(r'type: (!\d+)', fr.f.mod.meta.get(d, ''))
                    if m:
                        b = fr.f.mod.di_strip(m.group(1))
                        m = re.search(r'baseType: (!\d+)', fr.f.mod.meta.get(b, ''))
                        if m:
                            di = (fr.f.mod, m.group(1))
            q = self.lazy_region(('loop',) + key, di=di, name='it_%s' % (key[2],))
            q.maybe_null = True
            q.imprecise = True
            return PV(q)
        return self.unknown_val(ty, key)

    def shape_refs(self, phis, cells):
        for n, ph in phis.items():
            if ph.ty.k == 'ptr':
                yield ('phi', n)
        for (r, off, size), (v0, ty, ext) in cells.items():
            if ty.k == 'ptr':
                yield ('cell', (r.id, repr(off)))

    def cellval(self, st, key):
        for r in st.mem:
            if r.id == key[0]:
                n = st.mem[r]
                while n is not None:
                    if n.k == 'w' and repr(n.off) == key[1]:
                        return n.val
                    n = n.prev
        return None

    def same_shape(self, st, h, v):
        if isinstance(h, PV) and isinstance(v, PV):
            if h.r is v.r:
                return True
            if h.r is not None and h.r.kind == 'lazy' and h.r.key[0] == 'loop':
                return True
            return False
        return not isinstance(h, PV)

    def back_value(self, fr, blk, ref, prev, env, st, phis, cells):
        if ref[0] == 'phi':
            ph = phis[ref[1]]
            for v, pb in ph.a[0]:
                if pb == prev:
                    return self.val(fr, env, st, v, ph.ty)
            return None
        for (r, off, size), (v0, ty, ext) in cells.items():
            if (r.id, repr(off)) == ref[1]:
                return self.try_load(st, PV(r, off, ext), ty)
        return None

    def as_lin(self, fr, st, v, ref, var, degraded):
        if isinstance(v, IV):
            l = st.f.norm(v.l)
            return l
        if isinstance(v, PV) and v.r is not None:
            return st.f.norm(v.off)
        return None

    def cand_ok_vars(self, c, var, pre):
        for a in c.atoms():
            if a >= pre and a not in var:
                k = AT.key[a]
                if k[0] == 'mul' and all(x < pre or x in var for x in k[1].atoms() + k[2].atoms()):
                    continue
                return False
        return True

    def harvest(self, st, base, o, var, m, pre, backs):
        out = set()
        f = o.st.f
        known = set(base.f.ge)
        vs = list(var)
        facts = [x for x in f.ge if x not in known]
        for a in vs:
            lo, hi = f.abounds(a) if a not in f.sub else (None, None)
            blo, bhi = AT.lo[a], AT.hi[a]
            if lo is not None and lo != blo:
                facts.append(LA(a) - lo)
            if hi is not None and hi != bhi:
                facts.append(-LA(a) + hi)
        for x in facts:
            if any(a in var for a in x.atoms()) and self.cand_ok_vars(x, var, pre):
                out.add(x)
                out.add(x + 1)
        # equal-step pairs
        deltas = {}
        for a in vs:
            if a in m and var[a][0] is not None:
                d = f.norm(m[a] - LA(a))
                if not d.t:
                    deltas[a] = d.c
        if len(vs) <= 12:
            for i, a in enumerate(vs):
                for b in vs[i + 1:]:
                    if a in deltas and b in deltas and (deltas[a] or deltas[b]):
                        da, db = deltas[a], deltas[b]
                        if abs(da) > 64 or abs(db) > 64:
                            continue
                        x = (LA(a) - var[a][0]).scale(db) - (LA(b) - var[b][0]).scale(da)
                        out.add(x)
                        out.add(-x)
                    elif a in m and b in m:
                        da, db = f.norm(m[a] - LA(a)), f.norm(m[b] - LA(b))
                        for s in (1, -1):
                            if f.norm(da - db.scale(s)).is_const() and f.norm(da - db.scale(s)).c == 0 and (da.t or da.c):
                                x = (LA(a) - var[a][0]) - (LA(b) - var[b][0]).scale(s)
                                out.add(x)
                                out.add(-x)
        # pointer into a string: stays at or before the terminator
        for a in vs:
            ref = var[a][1]
            v = None
            if ref[0] == 'phi':
                pass
        for n, x in list(self.strbases(o.st)):
            pass
        return out

    def strbases(self, st):
        return ()

    def ev_since(self, ev, mark):
        out = []
        while ev is not None and ev[1] is not mark:
            out.append(ev[1])
            ev = ev[0]
        return tuple(out[::-1])


PTR_ = ir.PTR
ROUNDING = ('floor', 'ceil', 'trunc', 'rint', 'round', 'nearbyint')
INTEGRAL_OPS = ROUNDING + ('i2f',)


def subst(l, m):
    r = Lin(l.c)
    for a, k in l.t:
        v = m.get(a)
        if v is not None:
            r = r + v.scale(k)
        else:
            key = AT.key[a]
            if key[0] == 'mul' and any(x in m for x in key[1].atoms() + key[2].atoms()):
                x, y = subst(key[1], m), subst(key[2], m)
                r = r + _prod(x, y).scale(k)
            else:
                r = r + Lin(0, ((a, k),))
    return r


def _prod(x, y):
    r = Lin(x.c * y.c) + Lin(0, x.t).scale(y.c) + Lin(0, y.t).scale(x.c)
    for a, k in x.t:
        for b, m in y.t:
            p, q = (a, b) if a <= b else (b, a)
            r = r + LA(AT.get(('mul', LA(p), LA(q)), None, None)).scale(k * m)
    return r


def st_chr(v):
    return v


def cat(a, b):
    if a is None or b is None:
        return None
    xs = (a[1] if a[0] == 'cat' else (a,)) + (b[1] if b[0] == 'cat' else (b,))
    out = []
    for x in xs:
        if x == ('lit', b''):
            continue
        if x[0] == 'chr' and isinstance(x[1], IV) and not x[1].l.t:
            x = ('lit', bytes([x[1].l.c & 255]))
        if out and out[-1][0] == 'lit' and x[0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
        else:
            out.append(x)
    if not out:
        return ('lit', b'')
    return out[0] if len(out) == 1 else ('cat', tuple(out))


def sub(t, start, ln):
    if t is None:
        return None
    if not ln.t and ln.c == 0:
        return ('lit', b'')
    if t[0] == 'lit' and not start.t and not ln.t:
        return ('lit', t[1][start.c:start.c + ln.c])
    if t[0] == 'sub':
        return ('sub', t[1], t[2] + start, ln)
    return ('sub', t, start, ln)


_ct = {}


def piece_len(t):
    if t[0] == 'lit':
        return Lin(len(t[1]))
    if t[0] == 'chr':
        return Lin(1)
    if t[0] == 'str':
        r = t[1]
        if r.init == 'const' and r.data[2][0] == 'str':
            return Lin(len(r.data[2][1].split(b'\0')[0]))
        return LA(AT.get(('len', r.name, r.id), 0, MAXLEN))
    if t[0] == 'sub':
        return t[3]
    return None


def resolve_chr(f, term, i):
    """the character at index i of a term: an IV, or (term, index) with the smallest term containing it"""
    while True:
        k = term[0]
        if k == 'lit' and not i.t and 0 <= i.c < len(term[1]):
            b = term[1][i.c]
            return IV(8, b - 256 if b > 127 else b)
        if k == 'chr' and not i.t and i.c == 0 and isinstance(term[1], IV):
            return term[1]
        if k == 'sub':
            term, i = term[1], f.norm(term[2] + i)
            continue
        if k == 'cat':
            pos = i
            for x in term[1]:
                l = piece_len(x)
                if l is None:
                    break
                if f.prove_ge(l - pos - 1):
                    term, i = x, f.norm(pos)
                    break
                if not f.prove_ge(pos - l):
                    x = None
                    break
                pos = pos - l
            else:
                x = None
            if x is not None and term is x:
                continue
        return (term, i)


def ctype_set(mask):
    """characters (as signed char values, C locale) with any of glibc's ctype bits in mask"""
    s = _ct.get(mask)
    if s is None:
        out = set()
        for c in range(128):
            b = 0
            ch = chr(c)
            up, low, dig = 'A' <= ch <= 'Z', 'a' <= ch <= 'z', '0' <= ch <= '9'
            if up: b |= 256
            if low: b |= 512
            if up or low: b |= 1024
            if dig: b |= 2048
            if dig or ch in 'abcdefABCDEF': b |= 4096
            if ch in ' \t\n\r\v\f': b |= 8192
            if 32 <= c < 127: b |= 16384
            if 33 <= c < 127: b |= 32768
            if ch in ' \t': b |= 1
            if c < 32 or c == 127: b |= 2
            if 33 <= c < 127 and not (up or low or dig): b |= 4
            if up or low or dig: b |= 8
            if b & mask:
                out.add(c)
        s = _ct[mask] = frozenset(out)
    return s
