"""Models of the C library functions the program uses (trusted base)."""
from .dom import *
from .ai import *
from .ai import _prod, ROUNDING
from . import ir
from .ir import at

MODELS = {}
IO_OUT = set()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, v=None):
    return [Outcome('ret', st, v)]


# ---- memory -----------------------------------------------------------------------------------
def new_heap(ai, st, fr, ins, size, init):
    n = next(AT.n)
    r = Region('heap', ('heap', at(ins), n), size=size, init=init, name='heap@%s:%d' % (fr.f.name, ins.fn.mod.loc(ins.loc)[1]))
    r.site = ins
    r.maybe_null = False
    ai.regs[('heap', r.key)] = r
    # destination type from the debug type of the variable that receives it is not needed
    h = ai.hooks.get('alloc')
    if h:
        h(ai, st, fr, ins, r)
    return r


@model('malloc')
def _malloc(ai, st, fr, ins, a):
    size = ai.uview(st, a[0])
    return alloc(ai, st, fr, ins, size, 'uninit')


@model('calloc')
def _calloc(ai, st, fr, ins, a):
    n, m = ai.uview(st, a[0]), ai.uview(st, a[1])
    return alloc(ai, st, fr, ins, ai.prod(st, n, m), 'zero')


def alloc(ai, st, fr, ins, size, init):
    s2 = st.copy()
    r = new_heap(ai, st, fr, ins, st.f.norm(size), init)
    st.emit('alloc', r, ins)
    out = [Outcome('ret', st, PV(r))]
    if not ai.hooks.get('alloc_never_fails'):
        out.append(Outcome('ret', s2, NULLP))
    return out


@model('realloc')
def _realloc(ai, st, fr, ins, a):
    size = ai.uview(st, a[1])
    s2 = st.copy()
    r = new_heap(ai, st, fr, ins, st.f.norm(size), 'uninit')
    old = a[0]
    if isinstance(old, PV) and old.r is not None:
        isnull = ai.evalc(st, ('null', old.r))
        if isnull is None:
            raise Split(('null', old.r))
        if not isnull:
            do_free(ai, st, fr, ins, old)
            r.di = old.r.di
            r.string = old.r.string
            osz = old.r.size
            if osz is not None:
                st.mem[r] = Node(None, 'c', ZERO, osz, None, None, (old.r, st.mem.get(old.r), ZERO))
            else:
                st.mem[r] = Node(None, 'c', ZERO, LA(AT.get(('oldsize', old.r.id), 0, None)), None, None,
                                 (old.r, st.mem.get(old.r), ZERO))
    st.emit('alloc', r, ins)
    out = [Outcome('ret', st, PV(r))]
    if not ai.hooks.get('alloc_never_fails'):
        out.append(Outcome('ret', s2, NULLP))
    return out


def do_free(ai, st, fr, ins, p):
    r = p.r
    off = st.f.norm(p.off)
    ok = True
    if r in st.freed:
        ai.oblige(ins, 'free', False, 'released twice: %s' % r.name, fr)
        ai.suspect(ins, 'free', st, None, 'released twice: %s' % r.name)
        ok = False
    elif r.kind in ('alloca', 'global', 'ghost'):
        ai.oblige(ins, 'free', False, 'release of non-heap object %s' % r.name, fr)
        ai.suspect(ins, 'free', st, None, 'release of non-heap object %s' % r.name)
        ok = False
    elif off.t or off.c:
        ai.oblige(ins, 'free', None if off.t else False, 'release of interior pointer %r' % p, fr)
    else:
        ai.oblige(ins, 'free', True)
    if r.kind in ('lazy', 'heap', 'opq'):
        st.freed[r] = ins
    st.emit('free', p, ins)


@model('free')
def _free(ai, st, fr, ins, a):
    p = a[0]
    if not isinstance(p, PV):
        return ret(st)
    if p.r is None:
        return ret(st)
    n = ai.evalc(st, ('null', p.r))
    if n is None:
        raise Split(('null', p.r))
    if not n:
        do_free(ai, st, fr, ins, p)
    return ret(st)


@model('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def _memcpy(ai, st, fr, ins, a):
    d, s, n = a[0], a[1], ai.uview(st, a[2])
    f = st.f
    n = f.norm(n)
    if isinstance(d, PV) and isinstance(s, PV) and not (not n.t and n.c == 0):
        ai.access(st, s, n, ins, 'read', fr)
        ai.access(st, d, n, ins, 'write', fr)
        copy_bytes(ai, st, d, s, n, ins)
    return ret(st, d)


def is_charmem(ai, st, p):
    """pointer to character data?"""
    if p.r.string:
        return True
    n = st.mem.get(p.r)
    while n is not None:
        if n.k in ('s', 'raw') and (p.ext is None or n.ext is None or n.ext == p.ext):
            return True
        n = n.prev
    return False


def copy_bytes(ai, st, d, s, n, ins):
    f = st.f
    if is_charmem(ai, st, s):
        ai.quiet += 1
        try:
            ln, term = ai.strlen(st, s, ins)
        finally:
            ai.quiet -= 1
        if term is not None:
            if f.prove_ge(n - ln - 1):
                ai.set_str(st, d, ln, term)
                return
            if f.prove_ge(ln - n):
                put_raw(ai, st, d, n, sub(term, ZERO, n) if not f.prove_eq(ln - n) else term)
                return
            if st.nsplit < 24:
                raise Split(('ge', ln - n))
    size = n.c if not n.t else n
    st.mem[d.r] = Node(st.mem.get(d.r), 'c', f.norm(d.off), size, None, d.ext, (s.r, st.mem.get(s.r), f.norm(s.off)))


def put_raw(ai, st, d, n, term):
    """n non-NUL characters at d; joined with a directly preceding piece"""
    f = st.f
    off = f.norm(d.off)
    x = st.mem.get(d.r)
    while x is not None and x.k in ('r',):
        x = x.prev
    if x is not None and x.k == 'raw' and f.prove_eq(off - x.off - x.size):
        st.mem[d.r] = Node(st.mem.get(d.r), 'raw', x.off, f.norm(x.size + n), cat(x.val, term), d.ext)
        return
    if x is not None and x.k == 's' and f.prove_eq(off - x.off - x.size):
        st.mem[d.r] = Node(st.mem.get(d.r), 'raw', x.off, f.norm(x.size + n), cat(x.val, term), d.ext)
        return
    st.mem[d.r] = Node(st.mem.get(d.r), 'raw', off, n, term, d.ext)


@model('llvm.memset.p0.i64', 'memset')
def _memset(ai, st, fr, ins, a):
    d, v, n = a[0], a[1], st.f.norm(ai.uview(st, a[2]))
    if isinstance(d, PV):
        if not (not n.t and n.c == 0):
            ai.access(st, d, n, ins, 'write', fr)
        z = isinstance(v, IV) and not st.f.norm(v.l).t and st.f.norm(v.l).c == 0
        if z and not n.t:
            st.mem[d.r] = Node(st.mem.get(d.r), 'z', st.f.norm(d.off), n.c, None, d.ext)
        else:
            st.mem[d.r] = Node(st.mem.get(d.r), 'h', None, None, None, (st.f.norm(d.off), st.f.norm(d.off + n)))
    return ret(st, d)


# ---- strings ----------------------------------------------------------------------------------
def need(ai, st, p, ins, fr):
    if not isinstance(p, PV):
        raise Infeasible
    if p.r is None or st.null.get(p.r):
        ai.oblige(ins, 'null', False, 'null string', fr)
        ai.suspect(ins, 'null', st, None, 'null string')
        raise Infeasible
    if p.r.maybe_null and st.null.get(p.r) is None:
        st.null[p.r] = False
    if p.r in st.freed:
        ai.oblige(ins, 'freed', False, 'use of released string %s' % p.r.name, fr)
        ai.suspect(ins, 'freed', st, None, 'use of released string %s' % p.r.name)


@model('strlen')
def _strlen(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    ln, term = ai.strlen(st, a[0], ins)
    return ret(st, IV(64, ln))


@model('strcpy')
def _strcpy(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    ln, term = ai.strlen(st, a[1], ins)
    ai.access(st, a[0], ln + 1, ins, 'write', fr)
    ai.set_str(st, a[0], ln, term)
    return ret(st, a[0])


@model('strcat')
def _strcat(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    l1, t1 = ai.strlen(st, a[0], ins)
    l2, t2 = ai.strlen(st, a[1], ins)
    ai.access(st, a[0], l1 + l2 + 1, ins, 'write', fr)
    ai.set_str(st, a[0], st.f.norm(l1 + l2), cat(t1, t2))
    return ret(st, a[0])


@model('strncpy')
def _strncpy(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    n = st.f.norm(ai.uview(st, a[2]))
    ln, term = ai.strlen(st, a[1], ins)
    f = st.f
    if not f.prove_ge(ln - n) and not f.prove_ge(n - ln - 1):
        raise Split(('ge', ln - n))
    if not (not n.t and n.c == 0):
        ai.access(st, a[0], n, ins, 'write', fr)
    if f.prove_ge(ln - n):
        put_raw(ai, st, a[0], n, term if f.prove_eq(ln - n) else sub(term, ZERO, n))
    else:
        ai.set_str(st, a[0], ln, term)
    return ret(st, a[0])


@model('strncat')
def _strncat(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    n = st.f.norm(ai.uview(st, a[2]))
    l1, t1 = ai.strlen(st, a[0], ins)
    l2, t2 = ai.strlen(st, a[1], ins)
    f = st.f
    if not f.prove_ge(l2 - n) and not f.prove_ge(n - l2):
        raise Split(('ge', l2 - n))
    if f.prove_ge(l2 - n):
        t2 = t2 if f.prove_eq(l2 - n) else sub(t2, ZERO, n)
        l2 = n
    ai.access(st, a[0], l1 + l2 + 1, ins, 'write', fr)
    ai.set_str(st, a[0], f.norm(l1 + l2), cat(t1, t2))
    return ret(st, a[0])


def known_chars(st, term, n):
    """the first n characters of a text, with the terminator if it is reached; None if not known one by one"""
    out = []
    for p in term[1] if term[0] == 'cat' else (term,):
        if len(out) >= n:
            break
        if p[0] == 'lit':
            out += [Lin(b if b < 128 else b - 256) for b in p[1]]
        elif p[0] == 'chr' and (isinstance(p[1], Lin) or hasattr(p[1], 'l')):
            out.append(st.f.norm(p[1] if isinstance(p[1], Lin) else p[1].l))
        else:
            return None
    return (out + [ZERO])[:n]


def compare_known(ai, st, name, t1, t2, a):
    """comparison of texts whose characters are known one by one"""
    n = 1 << 20
    if 'n' in name.replace('strcase', '').replace('stricmp', '')[3:] and len(a) > 2:
        k = st.f.norm(ai.uview(st, a[2]))
        if k.t:
            return None
        n = k.c
    x, y = known_chars(st, t1, n), known_chars(st, t2, n)
    if x is None or y is None:
        return None
    fold = 'case' in name or 'icmp' in name
    for c, d in zip(x, y):
        sign = 1
        if d.t and not c.t:
            c, d, sign = d, c, -1
        if d.t:
            if not st.f.prove_eq(c - d):
                return None
            continue
        if c.t:
            s = {d.c}
            if fold and 0 <= d.c < 128:
                s |= {ord(chr(d.c).lower()), ord(chr(d.c).upper())}
            cond = ('set', c, frozenset(s)) if len(s) > 1 else ('eq', c - d)
            r = ai.evalc(st, cond)
            if r is None:
                raise Split(cond)
        else:
            u, v = c.c, d.c
            if fold:
                u, v = (ord(chr(z).lower()) if 0 <= z < 128 else z for z in (u, v))
            r = u == v
        if not r:
            if not c.t:
                # the first difference decides the sign (characters compare as unsigned char)
                u, v = u & 255, v & 255
                return IV(32, LA(AT.fresh('order sign', 1, 255) if u > v else AT.fresh('order sign', -255, -1)))
            if d.c >= 0 and st.f.prove_ge(c) and st.f.prove_ge(c.scale(-1) + (min(s) - 1)):
                sign = -sign
            elif not (d.c >= 0 and st.f.prove_ge(c - (max(s) + 1))):
                sign = 0
            if sign:
                return IV(32, LA(AT.fresh('order sign', 1, 255) if sign > 0 else AT.fresh('order sign', -255, -1)))
            v = LA(AT.fresh('order', -255, 255))
            st.f.assume_ne(v)
            return IV(32, v)
        if not c.t and c.c == 0:
            break
    return IV(32, 0)


@model('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', '_stricmp')
def _strcmp(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    l1, t1 = ai.strlen(st, a[0], ins)
    l2, t2 = ai.strlen(st, a[1], ins)
    name = ins.a[0][1]
    if t1 is not None and t2 is not None and t1[0] == 'lit' and t2[0] == 'lit':
        x, y = t1[1], t2[1]
        if 'n' in name and len(a) > 2:
            n = st.f.norm(ai.uview(st, a[2]))
            x, y = (x[:n.c], y[:n.c]) if not n.t else (None, None)
        if x is not None:
            if 'case' in name or 'icmp' in name:
                x, y = x.lower(), y.lower()
            return ret(st, IV(32, (x > y) - (x < y)))
    if t1 is not None and t2 is not None and name != 'strcmp':
        v = compare_known(ai, st, name, t1, t2, a)
        if v is not None:
            return ret(st, v)
    if name == 'strcmp' and t1 is not None and t2 is not None:
        if t1 == t2 and st.f.prove_eq(l1 - l2):
            return ret(st, IV(32, 0))
        if t1[0] == 'lit' and t2[0] == 'lit':
            return ret(st, IV(32, (t1[1] > t2[1]) - (t1[1] < t2[1])))
        k1, k2 = repr(t1), repr(t2)
        if k1 > k2:
            v = LA(AT.get(('strcmp', t2, t1), -(1 << 31) + 1, (1 << 31) - 1))
            r = IV(32, -v)
        else:
            v = LA(AT.get(('strcmp', t1, t2), -(1 << 31) + 1, (1 << 31) - 1))
            r = IV(32, v)
        return ret(st, r)
    h = ai.hooks.get('strcmp')
    if h:
        v = h(ai, st, fr, ins, name, (l1, t1), (l2, t2), a)
        if v is not None:
            return ret(st, v)
    key = (name, t1, t2) + ((repr(st.f.norm(a[2].l)),) if len(a) > 2 else ())
    if t1 is None or t2 is None:
        key = key + (next(AT.n),)
    return ret(st, IV(32, LA(AT.get(key, -(1 << 31) + 1, (1 << 31) - 1))))


def all_chars(st, term, ln):
    """every character of a text (without the terminator) if they are known one by one, else None"""
    if term is None:
        return None
    n = st.f.norm(ln)
    if n.t or n.c > 512:
        return None
    out = known_chars(st, term, n.c)
    return out if out is not None and len(out) == n.c else None


def decide_char(ai, st, c, s):
    """is the character in the set of byte values? splits the state when that is open"""
    if not c.t:
        return (c.c & 255) in s
    s = frozenset(x if x < 128 else x - 256 for x in s)
    cond = ('set', c, s) if len(s) != 1 else ('eq', c - next(iter(s)))
    r = ai.evalc(st, cond)
    if r is None:
        raise Split(cond)
    return r


@model('strspn', 'strcspn', 'strpbrk')
def _strspn(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    need(ai, st, a[1], ins, fr)
    name, p = ins.a[0][1], a[0]
    ln, term = ai.strlen(st, p, ins)
    l2, t2 = ai.strlen(st, a[1], ins)
    if t2 is not None and t2[0] == 'lit':
        s = frozenset(t2[1].split(b'\0')[0])
        cs = all_chars(st, term, ln)
        if cs is not None:
            n = 0
            while n < len(cs) and decide_char(ai, st, cs[n], s) == (name == 'strspn'):
                n += 1
            if name == 'strpbrk':
                return ret(st, PV(p.r, st.f.norm(p.off + n), p.ext, p.chk) if n < len(cs) else NULLP)
            return ret(st, IV(64, n))
    i = AT.get(('pos', name, term if term is not None else next(AT.n), t2 if t2 is not None else next(AT.n)), 0, MAXLEN)
    s2 = st.copy()
    st.f.assume_ge(ln - LA(i) - (1 if name == 'strpbrk' else 0))
    if name == 'strpbrk':
        return [Outcome('ret', st, PV(p.r, st.f.norm(p.off + LA(i)), p.ext, p.chk)), Outcome('ret', s2, NULLP)]
    return ret(st, IV(64, LA(i)))


@model('strchr', 'strrchr')
def _strchr(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    ln, term = ai.strlen(st, a[0], ins)
    cs = all_chars(st, term, ln)
    k = st.f.norm(a[1].l)
    if cs is not None and not k.t and k.c:
        p = a[0]
        for n in range(len(cs)) if ins.a[0][1] == 'strchr' else reversed(range(len(cs))):
            if decide_char(ai, st, cs[n], frozenset((k.c & 255,))):
                return ret(st, PV(p.r, st.f.norm(p.off + n), p.ext, p.chk))
        return ret(st, NULLP)
    c = st.f.norm(a[1].l)
    p = a[0]
    if not c.t and c.c == 0:
        return ret(st, PV(p.r, p.off + ln, p.ext, p.chk))
    s2 = st.copy()
    key = (ins.a[0][1], term if term is not None else next(AT.n), repr(c))
    b = ('opq', ('found',) + key)
    out = []
    try:
        ai.assume(st, b)
        i = AT.get(('pos',) + key, 0, MAXLEN)
        st.f.assume_ge(ln - LA(i) - 1)
        out.append(Outcome('ret', st, PV(p.r, st.f.norm(p.off + LA(i)), p.ext, p.chk)))
        st.emit('strchr', term, c, LA(i))
    except Infeasible:
        pass
    try:
        ai.assume(s2, neg(b))
        out.append(Outcome('ret', s2, NULLP))
    except Infeasible:
        pass
    return out


@model('toupper', 'tolower')
def _case(ai, st, fr, ins, a):
    l = st.f.norm(a[0].l)
    if not l.t:
        c = l.c
        if ins.a[0][1] == 'toupper' and 97 <= c <= 122:
            c -= 32
        if ins.a[0][1] == 'tolower' and 65 <= c <= 90:
            c += 32
        return ret(st, IV(32, c))
    lo, hi = st.f.bounds(l)
    if lo is not None and hi is not None and lo >= 0:
        a0, a1, d = (97, 122, -32) if ins.a[0][1] == 'toupper' else (65, 90, 32)
        if hi < a0 or lo > a1:
            return ret(st, IV(32, l))
        if a0 <= lo and hi <= a1:
            return ret(st, IV(32, l + d))
    x = AT.get((ins.a[0][1], l), -128, 255)
    ai.oblige(ins, 'ctype', True if lo is not None and lo >= -128 and hi is not None and hi <= 255 else None,
              'character argument in %s..%s' % (lo, hi), fr)
    if st.f.prove_ne(l):
        st.f.assume_ne(LA(x))
    return ret(st, IV(32, LA(x)))


@model('__ctype_b_loc')
def _ctb(ai, st, fr, ins, a):
    r = ai.region('ctypepp', 'ctypepp', name='ctype')
    tab = ai.region('ctype', 'ctype', name='ctype table')
    r.maybe_null = tab.maybe_null = False
    if st.mem.get(r) is None:
        st.mem[r] = Node(None, 'w', ZERO, 8, PV(tab))
    return ret(st, PV(r))


@model('__ctype_toupper_loc', '__ctype_tolower_loc')
def _ctt(ai, st, fr, ins, a):
    r = ai.region('ctypepp', ins.a[0][1], name=ins.a[0][1])
    return ret(st, PV(r))


# ---- stdio ------------------------------------------------------------------------------------
STREAMS = ('stdin', 'stdout', 'stderr')


def stream_of(ai, st, p):
    if isinstance(p, PV) and p.r is not None:
        for s in STREAMS:
            if ('@' + s) in p.r.name:
                return s
        return p.r
    return None


def fmt_of(ai, st, p):
    if isinstance(p, PV) and p.r is not None and p.r.init == 'const' and p.r.data[2][0] == 'str' and not p.off.t:
        return p.r.data[2][1].split(b'\0')[0][p.off.c:]
    return None


def str_arg(ai, st, p, ins):
    ai.quiet += 1
    try:
        return ai.strlen(st, p, ins)
    finally:
        ai.quiet -= 1


def check_fmt(ai, st, fr, ins, fmt, args):
    """%s arguments must be live strings"""
    if fmt is None:
        return
    import re
    k = 0
    for m in re.finditer(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(l|ll|h|z)?([a-zA-Z%])', fmt):
        c = m.group(5)
        if c == b'%':
            continue
        if m.group(2) == b'*' or m.group(3) == b'*':
            k += 1
        if k < len(args) and c == b's' and isinstance(args[k], PV):
            p = args[k]
            if p.r is None:
                ai.oblige(ins, 'null', None, '%s with null', fr)
            elif p.r in st.freed:
                ai.oblige(ins, 'freed', False, 'released string printed', fr)
        k += 1


@model('printf')
def _printf(ai, st, fr, ins, a):
    fmt = fmt_of(ai, st, a[0])
    check_fmt(ai, st, fr, ins, fmt, a[1:])
    v = ai.fresh_val(ir.I32, 'printf', True)
    # number of characters written; an output error is not modelled
    st.f.assume_ge(v.l)
    st.f.assume_ge(-v.l + (1 << 20))
    st.emit('out', 'stdout', 'fmt', fmt, tuple(a[1:]), v.l, ins)
    h = ai.hooks.get('printf')
    if h:
        h(ai, st, fr, ins, fmt, a[1:], v)
    return ret(st, v)


@model('fprintf')
def _fprintf(ai, st, fr, ins, a):
    fmt = fmt_of(ai, st, a[1])
    check_fmt(ai, st, fr, ins, fmt, a[2:])
    v = ai.fresh_val(ir.I32, 'fprintf', True)
    st.emit('out', stream_of(ai, st, a[0]), 'fmt', fmt, tuple(a[2:]), v.l, ins)
    return ret(st, v)


@model('vfprintf', 'vprintf')
def _vfprintf(ai, st, fr, ins, a):
    fmt = a[1] if ins.a[0][1] == 'vfprintf' else a[0]
    s = stream_of(ai, st, a[0]) if ins.a[0][1] == 'vfprintf' else 'stdout'
    st.emit('out', s, 'vfmt', fmt, (), None, ins)
    return ret(st, ai.fresh_val(ir.I32, 'vfprintf', True))


@model('sprintf', 'snprintf')
def _sprintf(ai, st, fr, ins, a):
    sn = ins.a[0][1] == 'snprintf'
    d = a[0]
    fa = a[2] if sn else a[1]
    args = a[3:] if sn else a[2:]
    fmt = fmt_of(ai, st, fa)
    need(ai, st, d, ins, fr)
    check_fmt(ai, st, fr, ins, fmt, args)
    lo, hi = fmt_len(ai, st, fmt, args, ins)
    key = ('fmt', fmt, tuple(fkey(st, x) for x in args))
    n = AT.get(('fmtlen',) + key[1:], lo, hi)
    ln = LA(n)
    if sn:
        size = st.f.norm(ai.uview(st, a[1]))
        c = ai.evalc(st, ('ge', size - ln - 1))
        ai.access(st, d, size, ins, 'write', fr) if not c else ai.access(st, d, ln + 1, ins, 'write', fr)
        if c is None:
            raise Split(('ge', size - ln - 1))
        if not c:
            ai.set_str(st, d, size - 1, None)
            return ret(st, IV(32, ln))
    else:
        ai.access(st, d, ln + 1, ins, 'write', fr)
    if fmt == b'%s' and isinstance(args[0], PV):
        l2, t2 = str_arg(ai, st, args[0], ins)
        ai.set_str(st, d, l2, t2)
        return ret(st, IV(32, l2))
    ai.set_str(st, d, ln, key)
    return ret(st, IV(32, ln))


def fkey(st, x):
    if isinstance(x, IV):
        return st.f.norm(x.l)
    if isinstance(x, PV):
        return (x.r, st.f.norm(x.off))
    return x


def fmt_len(ai, st, fmt, args, ins):
    if fmt is None:
        return 0, MAXLEN
    import re
    lo = hi = 0
    pos = 0
    k = 0
    for m in re.finditer(rb'%([-+ #0]*)(\d+)?(?:\.(\d+))?(l|ll|h|z)?([a-zA-Z%])', fmt):
        lo += m.start() - pos
        hi += m.start() - pos
        pos = m.end()
        c = m.group(5)
        w = int(m.group(2) or 0)
        pr = int(m.group(3)) if m.group(3) else None
        if c == b'%':
            l, h = 1, 1
        else:
            if c in b'di':
                l, h = 1, 20 if m.group(4) else 11
                if k < len(args) and isinstance(args[k], IV):
                    a, b = st.f.bounds(args[k].l)
                    if a is not None and b is not None and -(1 << 31) <= a and b < 1 << 31:
                        h = max(len(str(a)), len(str(b)))
                        l = len(str(a)) if a >= 0 else 1
            elif c in b'u':
                l, h = 1, 20 if m.group(4) else 10
                if k < len(args) and isinstance(args[k], IV):
                    a, b = st.f.bounds(args[k].l)
                    if a is not None and a >= 0 and b is not None:
                        l, h = len(str(a)), len(str(b))
            elif c in b'xX':
                l, h = 1, 16 if m.group(4) else 8
            elif c == b'c':
                l, h = 1, 1
            elif c in b'gG':
                # sign, digits, point, exponent e+ddd;  inf/nan are shorter
                p = 6 if pr is None else max(pr, 1)
                l, h = 1, 1 + p + 1 + 5
                h = max(h, 5 + p + 1)
            elif c in b'eE':
                l, h = 3, 1 + 1 + 1 + (6 if pr is None else pr) + 5
            elif c in b'fF':
                l, h = 3, 1 + 309 + 1 + (6 if pr is None else pr)
            elif c == b's':
                if k < len(args) and isinstance(args[k], PV) and args[k].r is not None:
                    ln, _ = str_arg(ai, st, args[k], ins)
                    a, b = st.f.bounds(ln)
                    l, h = a or 0, b if b is not None else MAXLEN
                else:
                    l, h = 0, MAXLEN
                if pr is not None:
                    h = min(h, pr)
                    l = min(l, h)
            else:
                l, h = 0, MAXLEN
            if b'+' in m.group(1) or b' ' in m.group(1):
                h += 1 if c not in b'dieEfFgG' else 0
            k += 1
        lo += max(l, w)
        hi += max(h, w)
    lo += len(fmt) - pos
    hi += len(fmt) - pos
    return lo, hi


def out_string(ai, st, fr, ins, p, stream, nl):
    need(ai, st, p, ins, fr)
    ln, term = ai.strlen(st, p, ins)
    st.emit('out', stream, 'str', term, (p,), ln, ins, nl)
    h = ai.hooks.get('outstr')
    if h and stream == 'stdout':
        h(ai, st, fr, ins, p, ln, term, nl)


@model('puts')
def _puts(ai, st, fr, ins, a):
    out_string(ai, st, fr, ins, a[0], 'stdout', True)
    return ret(st, ai.fresh_val(ir.I32, 'puts', True))


@model('fputs')
def _fputs(ai, st, fr, ins, a):
    out_string(ai, st, fr, ins, a[0], stream_of(ai, st, a[1]), False)
    return ret(st, ai.fresh_val(ir.I32, 'fputs', True))


def out_char(ai, st, fr, ins, c, stream):
    st.emit('out', stream, 'chr', c, (), ONE, ins)
    h = ai.hooks.get('outchr')
    if h and stream == 'stdout':
        h(ai, st, fr, ins, c)


ONE = Lin(1)


@model('putchar', 'putchar_unlocked')
def _putchar(ai, st, fr, ins, a):
    out_char(ai, st, fr, ins, a[0], 'stdout')
    return ret(st, ai.fresh_val(ir.I32, 'putchar', True))


@model('putc', 'fputc', '_IO_putc')
def _putc(ai, st, fr, ins, a):
    out_char(ai, st, fr, ins, a[0], stream_of(ai, st, a[1]))
    return ret(st, ai.fresh_val(ir.I32, 'putc', True))


@model('fflush', 'ferror', 'feof', 'fclose', 'clearerr', 'setvbuf', 'setbuf')
def _fflush(ai, st, fr, ins, a):
    name = ins.a[0][1]
    st.emit('io', name, stream_of(ai, st, a[0]), ins)
    return ret(st, IV(32, LA(AT.fresh(name, -(1 << 31), (1 << 31) - 1))))


@model('fopen')
def _fopen(ai, st, fr, ins, a):
    mode = fmt_of(ai, st, a[1])
    r = Region('file', ('file', next(AT.n)), name='FILE@%s' % at(ins))
    r.maybe_null = True
    r.site = ins
    st.emit('open', r, mode, a[0], ins)
    return ret(st, PV(r))


@model('fgets')
def _fgets(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    n = st.f.norm(ai.sview(st, a[1]))
    ai.access(st, a[0], n, ins, 'write', fr)
    s2 = st.copy()
    k = next(AT.n)
    ln = AT.get(('gets', k), 0, MAXLEN)
    st.f.assume_ge(n - 1 - LA(ln))
    # a line read has at least one character
    st.f.assume_ge(LA(ln) - 1)
    ai.set_str(st, a[0], LA(ln), ('gets', k))
    st.emit('gets', stream_of(ai, st, a[2]), True, k, ins)
    s2.emit('gets', stream_of(ai, s2, a[2]), False, k, ins)
    return [Outcome('ret', st, a[0]), Outcome('ret', s2, NULLP)]


@model('getchar', 'getc', 'fgetc')
def _getchar(ai, st, fr, ins, a):
    st.emit('io', 'getc', None, ins)
    return ret(st, IV(32, LA(AT.fresh('getc', -1, 255))))


# ---- numbers ----------------------------------------------------------------------------------
def fmath(name):
    def m(ai, st, fr, ins, a):
        if name in ROUNDING and isinstance(a[0], FE) and st.f.frange(a[0])[5]:
            return ret(st, a[0])
        return ret(st, ai.mkf(name, *a))
    return m


for _n in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'tan', 'atan', 'exp', 'log', 'sqrt', 'pow', 'fmod', 'atan2',
           'log10', 'sinh', 'cosh', 'rint', 'nearbyint', 'fmin', 'fmax'):
    MODELS[_n] = fmath(_n)
    MODELS['llvm.%s.f64' % _n] = fmath(_n)


@model('strtod')
def _strtod(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    ln, term = ai.strlen(st, a[0], ins)
    key = ('strtod', term if term is not None else next(AT.n), repr(st.f.norm(a[0].off)))
    used = AT.get(('used',) + key, 0, MAXLEN)
    st.f.assume_ge(ln - LA(used))
    if isinstance(a[1], PV) and a[1].r is not None:
        ai.store(st, a[1], ir.PTR, PV(a[0].r, st.f.norm(a[0].off + LA(used)), a[0].ext, a[0].chk), ins)
    st.emit('strtod', term, LA(used), ins)
    return ret(st, fe('fa', *key))


@model('atof')
def _atof(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    ln, term = ai.strlen(st, a[0], ins)
    return ret(st, fe('fa', 'strtod', term, repr(st.f.norm(a[0].off))))


@model('strtol', 'strtoul')
def _strtol(ai, st, fr, ins, a):
    need(ai, st, a[0], ins, fr)
    ln, term = ai.strlen(st, a[0], ins)
    used = AT.fresh('used', 0, MAXLEN)
    st.f.assume_ge(ln - LA(used))
    if isinstance(a[1], PV) and a[1].r is not None:
        ai.store(st, a[1], ir.PTR, PV(a[0].r, st.f.norm(a[0].off + LA(used)), a[0].ext, a[0].chk), ins)
    return ret(st, ai.fresh_val(ir.I64, 'strtol', ins.a[0][1] == 'strtol'))


@model('atoi')
def _atoi(ai, st, fr, ins, a):
    return ret(st, ai.fresh_val(ir.I32, 'atoi', True))


@model('rand')
def _rand(ai, st, fr, ins, a):
    st.emit('rand', ins)
    return ret(st, IV(32, LA(AT.fresh('rand', 0, 2147483647))))


@model('srand')
def _srand(ai, st, fr, ins, a):
    st.emit('srand', a[0], ins)
    return ret(st)


@model('time')
def _time(ai, st, fr, ins, a):
    st.emit('time', ins)
    return ret(st, IV(64, LA(AT.fresh('time', 0, 1 << 40))))


@model('localtime', 'gmtime')
def _localtime(ai, st, fr, ins, a):
    r = ai.region('lazy', ('tm', 'static'), name='tm')
    for m in ai.p.mods.values():
        ref = m.struct_meta('tm')
        if ref:
            r.di = (m, ref)
            break
    st.mem.pop(r, None)
    # C11 7.27.1 ranges
    for nme, lo, hi in (('tm_sec', 0, 60), ('tm_min', 0, 59), ('tm_hour', 0, 23), ('tm_mday', 1, 31), ('tm_mon', 0, 11),
                        ('tm_wday', 0, 6), ('tm_yday', 0, 365)):
        ai.ranges[('tm', nme)] = (lo, hi)
    r.maybe_null = False
    return ret(st, PV(r))


@model('strftime')
def _strftime(ai, st, fr, ins, a):
    n = st.f.norm(ai.uview(st, a[1]))
    ai.access(st, a[0], n, ins, 'write', fr)
    ln = AT.fresh('strftime', 0, MAXLEN)
    st.f.assume_ge(n - 1 - LA(ln))
    ai.set_str(st, a[0], LA(ln), ('time', fmt_of(ai, st, a[2])))
    return ret(st, IV(64, LA(ln)))


@model('clock')
def _clock(ai, st, fr, ins, a):
    return ret(st, ai.fresh_val(ir.I64, 'clock', True))


# ---- control ----------------------------------------------------------------------------------
@model('exit', '_exit', 'abort')
def _exit(ai, st, fr, ins, a):
    return [Outcome('exit', st, a[0] if a else None, ins)]


@model('__assert_fail')
def _assert(ai, st, fr, ins, a):
    st.emit('assert', ins)
    return [Outcome('assert', st, fmt_of(ai, st, a[0]), ins)]


@model('longjmp')
def _longjmp(ai, st, fr, ins, a):
    return [Outcome('longjmp', st, None, ins, jkey(st, a[0]))]


def jkey(st, p):
    return (p.r.id if isinstance(p, PV) and p.r else None, repr(st.f.norm(p.off)) if isinstance(p, PV) else None)


@model('_setjmp', 'setjmp', '__sigsetjmp')
def _setjmp(ai, st, fr, ins, a):
    st.emit('setjmp', ins)
    return ('setjmp', jkey(st, a[0]))


@model('signal')
def _signal(ai, st, fr, ins, a):
    st.emit('signal', tuple(a), ins)
    return ret(st, PV(ai.region('ext', 'sighandler', name='handler')))


@model('system')
def _system(ai, st, fr, ins, a):
    st.emit('system', a[0], ins)
    return ret(st, ai.fresh_val(ir.I32, 'system', True))


@model('llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0',
       'llvm.dbg.label', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.stacksave.p0', 'llvm.stackrestore.p0',
       'llvm.dbg.assign')
def _nop(ai, st, fr, ins, a):
    return ret(st)


@model('llvm.fmuladd.f64', 'fma', 'llvm.fma.f64')
def _fma(ai, st, fr, ins, a):
    return ret(st, ai.mkf('fadd', ai.mkf('fmul', a[0], a[1]), a[2]))


@model('llvm.abs.i32', 'abs')
def _abs(ai, st, fr, ins, a):
    x = ai.sview(st, a[0])
    c = ai.evalc(st, ('ge', x))
    if c is None:
        raise Split(('ge', x))
    return ret(st, IV(32, x if c else -x))


@model('isalpha', 'isdigit', 'isspace', 'isalnum', 'isupper', 'islower', 'isprint', 'ispunct', 'isblank', 'iscntrl', 'isgraph',
       'isxdigit')
def _isx(ai, st, fr, ins, a):
    bits = {'isalpha': 1024, 'isdigit': 2048, 'isspace': 8192, 'isalnum': 8, 'isupper': 256, 'islower': 512, 'isprint': 16384,
            'ispunct': 4, 'isblank': 1, 'iscntrl': 2, 'isgraph': 32768, 'isxdigit': 4096}[ins.a[0][1]]
    ch = st.f.norm(a[0].l)
    c = ('set', ch, ctype_set(bits))
    r = ai.evalc(st, c)
    if r is None:
        raise Split(c)
    return ret(st, IV(32, 1 if r else 0))
