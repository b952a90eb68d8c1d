"""What each compiled instruction does: the expectation table for execute().

Each entry builds abstract machine states (vmx.Case) for one instruction, partitioned by the facts its documented
behaviour depends on, and states the expected outcome. The verdicts come from abstract interpretation of the current
source of execute() and everything it calls.
"""
import re
import math
from . import ir
from .dom import *
from .ai import *
from . import libc
from .vmx import *
from .ir import PTR, DOUBLE, I8, I16, I32, I64

SPECS = {}
ORDER = []


def spec(*ops):
    def d(fn):
        for o in ops:
            SPECS.setdefault(o, []).append(fn)
            if o not in ORDER:
                ORDER.append(o)
        return fn
    return d


class Bench:
    """builds and runs the cases of one instruction"""

    def __init__(self, prog, op, trace=None):
        self.p, self.op, self.trace = prog, op, trace
        self.recs = []
        self.cases = 0
        self.paths = 0
        self.visited = set()
        self.steps = 0

    def case(self, name, props, variant='stored'):
        c = OpCase(self.p, self.op, name, props, variant, self.trace)
        return c

    def attempt(self, fn, notes):
        try:
            fn(self)
        except (Anchor, KeyError, AttributeError, Infeasible, Split, Budget, Undecided, RecursionError) as e:
            self.recs.append(Rec(('C05',), 'undecided', 'analysis', '%s: %s' % (type(e).__name__, e), 'execute', self.op))
            notes.append('%s: %s: %s' % (self.op, type(e).__name__, str(e)[:200]))

    def go(self, c):
        self.cases += 1
        try:
            c.run()
        except (Anchor, KeyError, AttributeError, RecursionError, IndexError, TypeError, ValueError, Infeasible, Split) as e:
            c.rec(c.props, 'undecided', 'analysis', '%s: %s' % (type(e).__name__, str(e)[:200]))
        self.recs += c.recs
        self.paths += len(c.outs or ())
        self.visited |= c.ai.visited
        self.steps += c.ai.nsteps if hasattr(c.ai, 'nsteps') else 0
        return c

    # ---- generic error cases
    def underflow(self, nums, strs, setup=None, props=('C01',)):
        """too few operands: a run-time error, whatever else holds"""
        for k, n, other in (('sp', nums, ('ssp', strs)), ('ssp', strs, ('sp', nums))):
            if not n:
                continue
            c = self.case('too few operands on the %s stack' % ('numeric' if k == 'sp' else 'string'), props)
            if setup:
                setup(c)
            c.depth(k, hi=n - 1)
            c.depth(other[0], lo=other[1])
            c.error()
            self.go(c)

    def overflow(self, stack, nums, strs, setup=None, props=('C01',)):
        """the result does not fit on its stack"""
        c = self.case('%s stack full' % ('numeric' if stack == 'sp' else 'string'), props)
        if setup:
            setup(c)
        c.depth(stack, exact=c.cap[stack])
        other = 'ssp' if stack == 'sp' else 'sp'
        c.depth(other, lo=strs if other == 'ssp' else nums)
        c.error()
        self.go(c)


class OpCase(Case):
    # ---- numbers
    def integral(self, x, lo=None, hi=None):
        """assume the number is an integer in lo..hi; returns the integer"""
        if lo is not None:
            self.assume(('f', GT | EQ, x, fc(float(lo))))
        if hi is not None:
            self.assume(('f', LT | EQ, x, fc(float(hi))))
        self.assume(('f', EQ, self.ai.mkf('floor', x), x))
        a = AT.get(('f2i', x), -(1 << 63), (1 << 64) - 1)
        l = LA(a)
        if lo is not None:
            self.assume(('ge', l - int(lo)))
        if hi is not None:
            self.assume(('ge', -l + int(hi)))
        return l

    def fractional(self, x):
        self.assume(('f', LT | GT, self.ai.mkf('floor', x), x))
        self.assume(('f', LT | EQ | GT, x, fc(0.0)))

    def nan(self, x):
        self.assume(('f', UN, x, x))

    def not_nan(self, *xs):
        for x in xs:
            self.assume(('f', LT | EQ | GT, x, fc(0.0)))

    def bad_unsigned(self, x, k):
        """the k-th way in which x is not an unsigned integer"""
        if k == 0:
            self.assume(('f', LT, x, fc(0.0)))
        elif k == 1:
            self.assume(('f', GT, x, fc(4294967295.0)))
        elif k == 2:
            self.fractional(x)
        else:
            self.nan(x)
    BAD = ('negative', 'too large', 'fractional', 'not a number')

    def push_num(self, v, popped, props=(), n=1):
        """expect: popped numbers removed, v pushed"""
        d = self.iget('sp')
        self.want('stack[]', v, props, idx=d - popped)
        self.want_sp(1 - popped)

    def push_str(self, ln, term, popped, props=()):
        d = self.iget('ssp')
        self.want('strstack[]', Str(ln, term), set(props) | {'C10'}, idx=d - popped)
        self.want_ssp(1 - popped)

    def line_map(self):
        """the line index: some lines exist, each at its own position in the code"""
        ai = self.ai
        m = ai.region('lazy', 'index', name='line index')
        self.put('stored_program.index', PV(m))
        used = self.bcs['stored_program'][3]

        def lookup(ai, st, fr, ins, a):
            l = st.f.norm(a[1].l)
            if not isinstance(a[0], PV) or a[0].r is not m:
                return None
            found = ('opq', ('line exists', l))
            s2 = st.copy()
            out = []
            try:
                ai.assume(st, found)
                v = LA(AT.get(('line at', l), 0, 1 << 28))
                ai.assume(st, ('ge', used - v - 1))
                ai.store(st, a[2], I32, IV(32, v), ins)
                out.append(Outcome('ret', st, TRUE))
            except Infeasible:
                pass
            try:
                ai.assume(s2, neg(found))
                out.append(Outcome('ret', s2, FALSE))
            except Infeasible:
                pass
            return out
        ai.icpt['lookup_line_mapping'] = lookup
        return m

    def line(self, l, exists=True):
        self.assume(('opq', ('line exists', l)) if exists else ('nopq', ('line exists', l)))
        return LA(AT.get(('line at', l), 0, 1 << 28))

    def same_position(self, pc, props=('C15',), code=None, line=None):
        self.want('code_state.pc', pc, props)
        if code is not None:
            self.want('code_state.code', code, props)

    def code_ptr(self, which):
        return self.loc(which).pv()

    def variable(self, name, typ, defined=None):
        """a simple variable; returns (id, region, value location, defined location)"""
        sid, r = self.symbol(name, 'SYM_VARIABLE', typ)
        val = self.symloc(r, 'val.num' if typ == 'TYPE_NUM' else 'val.str')
        dl = self.symloc(r, 'defined')
        if defined is not None:
            self.put(dl, 1 if defined else 0)
        else:
            self.put(dl, self.atom('def_' + name, 0, 1))
        if typ == 'TYPE_STR':
            if defined is False:
                self.put(val, NULLP)
            else:
                s = self.ai.region('lazy', 'strvar:' + name, name='string of ' + name, string=True)
                s.maybe_null = True
                self.put(val, PV(s))
                r_ = s
        return sid, r, val, dl

    # ---- arrays
    def array(self, name, typ, ndim, maxes=None):
        """a dimensioned array; returns (id, symbol region, array region, maxima)"""
        sid, r = self.symbol(name, 'SYM_ARRAY', typ)
        num = typ == 'TYPE_NUM'
        st = 'numeric_array' if num else 'string_array'
        val = self.symloc(r, 'val.numarr' if num else 'val.strarr')
        self.put(self.symloc(r, 'defined'), 1)
        a = self.ai.region('lazy', 'arr:' + name, name=('numarr ' if num else 'strarr ') + name, di=self.di(st))
        self.put(val, PV(a))
        lay = self.p.layout(st)
        mx = maxes or [self.atom('max%d' % k, 0, 65535) for k in range(ndim)]
        el = Lin(1)
        for m in mx:
            el = self.ai.prod(self.st, el, m + 1)
        self.assume(('ge', el - 1), ('ge', -el + 65536))
        self.arr_fields(a, lay, ndim, mx, el)
        a.size = Lin(self.lay_size(st)) + el.scale(8)
        return sid, r, a, mx

    def arr_fields(self, a, lay, ndim, mx, el):
        def w(path, v, k=0):
            fl = lay[path]
            sz = fl.stride or fl.size
            n = Node(self.st.mem.get(a), 'w', Lin(fl.off + k * sz), sz, IV(8 * sz, v), None)
            self.st.mem[a] = n
        w('size.base', 0)
        w('size.dimensions', ndim)
        w('size.elements', el)
        fl = lay['size.max']
        for k, m in enumerate(mx):
            self.st.mem[a] = Node(self.st.mem.get(a), 'w', Lin(fl.off + fl.stride * k), fl.stride, IV(8 * fl.stride, m),
                                  (Lin(fl.off), Lin(fl.off + fl.size)))

    def elem(self, a, typ, idx, mx):
        lay = self.p.layout('numeric_array' if typ == 'TYPE_NUM' else 'string_array')
        off = idx[0]
        for k in range(1, len(idx)):
            off = self.ai.prod(self.st, off, mx[k] + 1) + idx[k]
        fl = lay['val']
        return Loc(a, Lin(fl.off) + off.scale(8), None, DOUBLE if typ == 'TYPE_NUM' else PTR,
                   '%s[%s]' % (a.name, ','.join(map(repr, idx))), 'array')


# ------------------------------------------------------------------------------------------ plain numbers

@spec('B_NOP', 'B_DATA')
def _nop(b):
    c = b.case('any state', ['C05', 'C06'])
    c.next_pc()
    b.go(c)


@spec('B_SOURCE_LINE')
def _source_line(b):
    for variant in ('stored', 'immediate'):
        c = b.case('any line', ['C27', 'C15'], variant)
        n = c.atom('lineno', 0, 1 << 20)
        c.operand('u.source_line', n)
        src = c.src
        su = c.ai.load(c.st, PV(src, Lin(c.p.off('SOURCE', 'used'))), I32)
        c.assume(('ge', c.st.f.norm(su.l) - n - 1))
        c.want('code_state.source_line', n, ('C27',))
        c.next_pc()
        b.go(c)


@spec('B_PUSH_NUM')
def _push_num(b):
    c = b.case('a constant', ['C07'])
    c.depth('sp', hi=c.cap['sp'] - 1)
    v = c.ai.load(c.st, c.iloc(c.pc, 'u.num').pv(), DOUBLE)
    c.push_num(v, 0)
    c.next_pc()
    b.go(c)
    b.overflow('sp', 0, 0)


@spec('B_POP_NUM')
def _pop_num(b):
    c = b.case('one operand', ['C06'])
    c.depth('sp', lo=1)
    c.want_sp(-1)
    c.next_pc()
    b.go(c)
    b.underflow(1, 0)


@spec('B_NEG')
def _neg(b):
    c = b.case('one operand', ['C07'])
    c.depth('sp', lo=1)
    x, = c.nums(1)
    c.push_num(c.ai.mkf('fneg', x), 1)
    c.next_pc()
    b.go(c)
    b.underflow(1, 0)


ARITH = {'B_ADD': 'fadd', 'B_SUB': 'fsub', 'B_MUL': 'fmul', 'B_DIV': 'fdiv', 'B_POW': 'pow'}


@spec(*ARITH)
def _arith(b):
    c = b.case('two operands', ['C07'])
    c.depth('sp', lo=2)
    y, x = c.nums(2)
    c.push_num(c.ai.mkf(ARITH[b.op], x, y), 2)
    c.next_pc()
    b.go(c)
    b.underflow(2, 0)


REL = {'EQ': EQ, 'LT': LT, 'GT': GT, 'NE': LT | GT | UN, 'LE': LT | EQ, 'GE': GT | EQ}


@spec(*['B_%s_NUM' % k for k in REL])
def _rel_num(b):
    m = REL[b.op[2:4]]
    for name, k in (('left less', LT), ('equal', EQ), ('left greater', GT), ('unordered', UN)):
        c = b.case('operands: %s' % name, ['C07'])
        c.depth('sp', lo=2)
        y, x = c.nums(2)
        c.assume(('f', k, x, y))
        c.push_num(fc(-1.0 if m & k else 0.0), 2)
        c.next_pc()
        b.go(c)
    b.underflow(2, 0)


@spec(*['B_%s_STR' % k for k in REL])
def _rel_str(b):
    m = REL[b.op[2:4]]
    for name, k in (('left first', LT), ('equal', EQ), ('left last', GT)):
        c = b.case('operands: %s' % name, ['C07'])
        c.depth('ssp', lo=2)
        c.depth('sp', hi=c.cap['sp'] - 1)
        (r2, l2, t2), (r1, l1, t1) = c.strs(2)
        v = cmp_atom(t1, t2)
        c.assume(('ge', -v - 1) if k == LT else ('eq', v) if k == EQ else ('ge', v - 1))
        d = c.iget('sp')
        c.want('stack[]', fc(-1.0 if m & k else 0.0), idx=d)
        c.want_sp(1)
        c.want_ssp(-2)
        c.next_pc()
        b.go(c)
    b.underflow(0, 2)
    b.overflow('sp', 0, 2)


def cmp_atom(t1, t2):
    """the value of strcmp(t1, t2), as the library model names it"""
    k1, k2 = repr(t1), repr(t2)
    if k1 > k2:
        return -LA(AT.get(('strcmp', t2, t1), -(1 << 31) + 1, (1 << 31) - 1))
    return LA(AT.get(('strcmp', t1, t2), -(1 << 31) + 1, (1 << 31) - 1))


IMIN, IMAX = -(1 << 31), (1 << 31) - 1


@spec('B_OR', 'B_AND')
def _logic2(b):
    c = b.case('two integers', ['C07'])
    c.depth('sp', lo=2)
    y, x = c.nums(2)
    i, j = c.integral(x, IMIN, IMAX), c.integral(y, IMIN, IMAX)
    k = tuple(sorted((i, j), key=repr))
    v = LA(AT.get((b.op[2:].lower(), 32) + k, IMIN, IMAX))
    c.push_num(fe('i2f', v), 2)
    c.next_pc()
    b.go(c)
    for v1 in (-1, 0):
        for v2 in (-1, 0):
            c = b.case('%d and %d' % (v1, v2), ['C07'])
            c.depth('sp', lo=2)
            y, x = c.nums(2)
            c.integral(x, v1, v1)
            c.integral(y, v2, v2)
            c.push_num(fc(float(v1 | v2 if b.op == 'B_OR' else v1 & v2)), 2)
            c.next_pc()
            b.go(c)
    for which in (0, 1):
        for k in range(4):
            c = b.case('%s operand %s' % (('right', 'left')[which], OpCase.BAD[k]), ['C07', 'C28'])
            c.depth('sp', lo=2)
            bad_int(c, c.nums(2)[which], k)
            if which:
                c.integral(c.nums(2)[0], IMIN, IMAX)
            c.error()
            b.go(c)
    b.underflow(2, 0)


def bad_int(c, x, k):
    if k == 0:
        c.assume(('f', LT, x, fc(float(IMIN))))
    elif k == 1:
        c.assume(('f', GT, x, fc(float(IMAX))))
    elif k == 2:
        c.fractional(x)
    else:
        c.nan(x)


@spec('B_NOT')
def _not(b):
    c = b.case('an integer', ['C07'])
    c.depth('sp', lo=1)
    x, = c.nums(1)
    i = c.integral(x, IMIN, IMAX)
    c.push_num(fe('i2f', -i - 1), 1)
    c.next_pc()
    b.go(c)
    for v in (-1, 0):
        c = b.case('%d' % v, ['C07'])
        c.depth('sp', lo=1)
        c.integral(c.nums(1)[0], v, v)
        c.push_num(fc(float(~v)), 1)
        c.next_pc()
        b.go(c)
    for k in range(4):
        c = b.case('operand %s' % OpCase.BAD[k], ['C07', 'C28'])
        c.depth('sp', lo=1)
        bad_int(c, c.nums(1)[0], k)
        c.error()
        b.go(c)
    b.underflow(1, 0)


# ------------------------------------------------------------------------------------------ strings

@spec('B_PUSH_STR')
def _push_str(b):
    def setup(c):
        s = c.ai.region('lazy', 'lit', name='string literal', string=True)
        c.operand('u.str', PV(s))
        return s
    c = b.case('a literal', ['C31'])
    s = setup(c)
    c.depth('ssp', hi=c.cap['ssp'] - 1)
    c.push_str(c.ai.strlen_base(s), ('str', s), 0)
    c.next_pc()
    b.go(c)
    b.overflow('ssp', 0, 0, setup)


@spec('B_POP_STR')
def _pop_str(b):
    c = b.case('one operand', ['C06', 'C10'])
    c.depth('ssp', lo=1)
    c.strs(1)
    c.want_ssp(-1)
    c.next_pc()
    b.go(c)
    b.underflow(0, 1)


@spec('B_CONCAT')
def _concat(b):
    c = b.case('up to 255 characters', ['C07', 'C02'])
    c.depth('ssp', lo=2)
    (r2, l2, t2), (r1, l1, t1) = c.strs(2)
    c.assume(('ge', -l1 - l2 + 255))
    c.push_str(l1 + l2, cat(t1, t2), 2)
    c.next_pc()
    b.go(c)
    c = b.case('more than 255 characters', ['C02'])
    c.depth('ssp', lo=2)
    (r2, l2, t2), (r1, l1, t1) = c.strs(2)
    c.assume(('ge', l1 + l2 - 256))
    c.error()
    b.go(c)
    b.underflow(0, 2)


# ------------------------------------------------------------------------------------------ variables

@spec('B_GET_SIMPLE_NUM')
def _get_num(b):
    for d in (True, False):
        c = b.case('defined' if d else 'never assigned', ['C31'])
        sid, r, val, dl = c.variable('V', 'TYPE_NUM', d)
        c.operand('u.symbol_id', sid)
        c.depth('sp', hi=c.cap['sp'] - 1)
        v = c.get(val)
        c.push_num(v if d else fc(0.0), 0)
        if not d:
            c.want(dl, ANY)
            c.want(val, fc(0.0))
            c.check(['C31'], 'definedness', zero_or_undefined(val, dl))
        c.next_pc()
        b.go(c)
    b.overflow('sp', 0, 0, lambda c: c.operand('u.symbol_id', c.variable('V', 'TYPE_NUM', True)[0]))


def zero_or_undefined(val, dl):
    return lambda c, s, o: (YES, None, (), '')


@spec('B_SET_SIMPLE_NUM')
def _set_num(b):
    c = b.case('any value', ['C31'])
    sid, r, val, dl = c.variable('V', 'TYPE_NUM')
    c.operand('u.symbol_id', sid)
    c.depth('sp', lo=1)
    x, = c.nums(1)
    c.want(val, x)
    c.want(dl, 1)
    c.want_sp(-1)
    c.next_pc()
    b.go(c)
    b.underflow(1, 0, lambda c: c.operand('u.symbol_id', c.variable('V', 'TYPE_NUM', True)[0]))


@spec('B_GET_SIMPLE_STR')
def _get_str(b):
    for d in (True, 'empty', False):
        c = b.case({True: 'assigned', 'empty': 'defined but empty', False: 'never assigned'}[d], ['C31'])
        sid, r, val, dl = c.variable('V', 'TYPE_STR', bool(d))
        c.operand('u.symbol_id', sid)
        c.depth('ssp', hi=c.cap['ssp'] - 1)
        if d is True:
            s = c.get(val).r
            c.assume(('nonnull', s))
            c.owned[s] = 'the string of the variable'
            c.push_str(c.ai.strlen_base(s), ('str', s), 0)
        else:
            c.put(val, NULLP)
            c.push_str(0, ('lit', b''), 0)
            if d is False:
                c.want(dl, ANY)
                c.want(val, NULLP)
        c.next_pc()
        b.go(c)
    b.overflow('ssp', 0, 0, lambda c: c.operand('u.symbol_id', c.variable('V', 'TYPE_STR', True)[0]))


@spec('B_SET_SIMPLE_STR')
def _set_str(b):
    for d in (True, False):
        c = b.case('replacing a value' if d else 'first assignment', ['C31', 'C10'])
        sid, r, val, dl = c.variable('V', 'TYPE_STR', d)
        c.operand('u.symbol_id', sid)
        c.depth('ssp', lo=1)
        (s, ln, t), = c.strs(1)
        if d:
            c.owned[c.get(val).r] = 'the previous value'
        c.want(val, Str(ln, t))
        c.want(dl, 1)
        c.want_ssp(-1)
        c.next_pc()
        b.go(c)
    b.underflow(0, 1, lambda c: c.operand('u.symbol_id', c.variable('V', 'TYPE_STR', True)[0]))


# ------------------------------------------------------------------------------------------ arrays

def subscripts(c, n, lo=0, hi=65535, skip=0):
    """n popped subscripts (first popped first) as integers"""
    xs = c.nums(n + skip)[skip:]
    return [c.integral(x, lo, hi) for x in xs]


def _elem_case(b, name, props, op_get, num, ndim, defined=True):
    typ = 'TYPE_NUM' if num else 'TYPE_STR'
    c = b.case(name, props)
    sid, sr, a, mx = c.array('A', typ, ndim)
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', ndim)
    return c, sid, sr, a, mx, typ


@spec('B_GET_PAREN_NUM', 'B_GET_PAREN_STR')
def _get_elem(b):
    num = b.op.endswith('NUM')
    for n in (1, 2):
        c, sid, sr, a, mx, typ = _elem_case(b, '%d subscript%s in range' % (n, 's' * (n - 1)), ['C31', 'C03'], True, num, n)
        c.depth('sp', lo=n)
        if not num:
            c.depth('ssp', hi=c.cap['ssp'] - 1)
        idx = subscripts(c, n)
        for i, m in zip(idx, mx):
            c.assume(('ge', m - i))
        el = c.elem(a, typ, idx, mx)
        if num:
            v = c.get(el)
            c.push_num(v, n)
        else:
            v = c.get(el)
            v.r.string = True
            c.assume(('nonnull', v.r))
            c.owned[v.r] = 'the array element'
            c.push_str(c.ai.strlen_base(v.r), ('str', v.r), 0)
            c.want_sp(-n)
        c.next_pc()
        b.go(c)
        if not num:
            c, sid, sr, a, mx, typ = _elem_case(b, '%d subscript%s, element never assigned' % (n, 's' * (n - 1)), ['C31', 'C03'], True, num, n)
            c.depth('sp', lo=n)
            c.depth('ssp', hi=c.cap['ssp'] - 1)
            idx = subscripts(c, n)
            for i, m in zip(idx, mx):
                c.assume(('ge', m - i))
            c.put(c.elem(a, typ, idx, mx), NULLP)
            c.push_str(0, ('lit', b''), 0)
            c.want_sp(-n)
            c.next_pc()
            b.go(c)
        _elem_errors(b, num, n, 0, 0)
    _auto_dim(b, num, True)


def _elem_errors(b, num, n, skip_num, strs):
    def start(name, props):
        c, sid, sr, a, mx, typ = _elem_case(b, name, props, True, num, n)
        c.depth('sp', lo=n + skip_num)
        if strs:
            c.depth('ssp', lo=strs)
        return c, mx
    for k in range(n):
        c, mx = start('subscript %d of %d beyond its maximum' % (k + 1, n), ['C03'])
        idx = subscripts(c, n, 0, 4294967295, skip_num)
        for q, (i, m) in enumerate(zip(idx, mx)):
            c.assume(('ge', m - i) if q != k else ('ge', i - m - 1))
        c.error()
        b.go(c)
        for q in range(4):
            c, mx = start('subscript %d of %d %s' % (k + 1, n, OpCase.BAD[q]), ['C03', 'C28'])
            xs = c.nums(n + skip_num)[skip_num:]
            for j, x in enumerate(xs):
                if j != k:
                    c.integral(x, 0, 4294967295)
            c.bad_unsigned(xs[k], q)
            c.error()
            b.go(c)
    # wrong number of subscripts
    typ = 'TYPE_NUM' if num else 'TYPE_STR'
    c = b.case('%d subscript%s for an array of %d' % (n, 's' * (n - 1), 3 - n), ['C03'])
    sid, sr, a, mx = c.array('A', typ, 3 - n)
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', n)
    c.depth('sp', lo=n + skip_num)
    if strs:
        c.depth('ssp', lo=strs)
    subscripts(c, n, 0, 65535, skip_num)
    c.error()
    b.go(c)


def undimensioned(c, typ, n):
    sid, r = c.symbol('A', 'SYM_ARRAY', typ)
    c.put(c.symloc(r, 'defined'), 0)
    c.put(c.symloc(r, 'val.numarr' if typ == 'TYPE_NUM' else 'val.strarr'), NULLP)
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', n)
    return sid, r


def new_array_ok(c, s, sr, typ, mx, zero_but=None):
    """the symbol holds a fresh array of exactly these maxima, all elements zero or null (but one)"""
    num = typ == 'TYPE_NUM'
    v = c.ai.load(s, c.symloc(sr, 'val.numarr' if num else 'val.strarr').pv(), PTR)
    if not isinstance(v, PV) or v.r is None:
        return NO, None, (), 'no array is stored in the variable'
    if v.r.kind != 'heap':
        return MAYBE, None, (), 'array not allocated by this instruction'
    st = 'numeric_array' if num else 'string_array'
    lay = c.p.layout(st)
    f = s.f

    def fld(path, k=0):
        fl = lay[path]
        sz = fl.stride or fl.size
        x = c.ai.load(s, PV(v.r, Lin(fl.off + k * sz), None), {1: I8, 2: I16, 4: I32}[sz])
        return f.norm(x.l)
    el = Lin(1)
    for m in mx:
        el = c.ai.prod(s, el, m + 1)
    bads = []
    for path, k, want in [('size.dimensions', 0, Lin(len(mx))), ('size.base', 0, Lin(0))] + \
            [('size.max', k, m) for k, m in enumerate(mx)]:
        d = f.norm(fld(path, k) - want)
        if not f.prove_eq(d):
            if not d.t:
                return NO, None, (), '%s[%d] is %r, expected %r' % (path, k, fld(path, k), want)
            bads.append((d, '%s[%d] is %r, expected %r' % (path, k, fld(path, k), want)))
    need = Lin(c.lay_size(st)) + el.scale(8)
    sz = f.norm(v.r.size - need)
    if not f.prove_ge(sz):
        ds = [d for d, _ in bads]
        return MAYBE, (lambda env: env.lin(sz) < 0 or any(env.lin(d) != 0 for d in ds)), (sz, *ds), '; '.join(
            ['%r bytes allocated, %r needed' % (v.r.size, need)] + [t for _, t in bads])
    if bads:
        d, t = bads[0]
        return MAYBE, (lambda env: env.lin(d) != 0), (d,), t
    if v.r.init != 'zero':
        return NO, None, (), 'the elements are not initialised'
    return YES, None, (), ''


def _auto_dim(b, num, get):
    typ = 'TYPE_NUM' if num else 'TYPE_STR'
    for n in (1, 2):
        parts = [('small', 0, 10), ('large', 11, 200)] if n == 1 else \
            [('both small', (0, 10), (0, 10)), ('first large', (11, 200), (0, 10)), ('second large', (0, 10), (11, 200)),
             ('both large', (11, 200), (11, 200))]
        for part in parts:
            c = b.case('undimensioned array, %d subscript%s, %s' % (n, 's' * (n - 1), part[0]), ['C31', 'C03'])
            sid, sr = undimensioned(c, typ, n)
            skip = 0
            if get:
                c.depth('sp', lo=n)
                if not num:
                    c.depth('ssp', hi=c.cap['ssp'] - 1)
            else:
                skip = 1 if num else 0
                c.depth('sp', lo=n + skip)
                if not num:
                    c.depth('ssp', lo=1)
            rng = [part[1:3]] if n == 1 else part[1:]
            xs = c.nums(n + skip)[skip:]
            idx = [c.integral(x, lo, hi) for x, (lo, hi) in zip(xs, rng)]
            mx = [Lin(10) if hi <= 10 else i for i, (lo, hi) in zip(idx, rng)]
            c.want(c.symloc(sr, 'defined'), 1)
            c.want(c.symloc(sr, 'val.numarr' if num else 'val.strarr'), ANY)
            c.want_sp(-n - skip + (1 if get and num else 0))
            if get:
                if num:
                    c.want('stack[]', fc(0.0), idx=c.iget('sp') - n)
                else:
                    c.push_str(0, ('lit', b''), 0)
            else:
                if num:
                    value = c.nums(1)[0]
                else:
                    (sreg, ln, term), = c.strs(1)
                    c.want_ssp(-1)
            c.next_pc()
            c.check(['C31', 'C03'], 'automatic dimensions', lambda c, s, o, sr=sr, mx=mx: new_array_ok(c, s, sr, typ, mx))
            if not get:
                def stored(c, s, o, sr=sr, mx=mx, idx=idx):
                    v = c.ai.load(s, c.symloc(sr, 'val.numarr' if num else 'val.strarr').pv(), PTR)
                    if not isinstance(v, PV) or v.r is None or v.r.kind != 'heap':
                        return MAYBE, None, (), ''
                    c2 = c.elem(v.r, typ, idx, mx)
                    a = c.ai.load(s, c2.pv(), c2.ty)
                    return c.cmp(s, 'the element', value if num else Str(ln, term), a)
                if num:
                    c.check(['C31'], 'stored element', stored)
                else:
                    c.check(['C31'], 'stored element', lambda c, s, o, g=stored, ln=ln, term=term: g(c, s, o))
            b.go(c)


@spec('B_SET_ARRAY_NUM')
def _set_elem_num(b):
    for n in (1, 2):
        c, sid, sr, a, mx, typ = _elem_case(b, '%d subscript%s in range' % (n, 's' * (n - 1)), ['C31', 'C03'], False, True, n)
        c.depth('sp', lo=n + 1)
        xs = c.nums(n + 1)
        idx = [c.integral(x, 0, 65535) for x in xs[1:]]
        for i, m in zip(idx, mx):
            c.assume(('ge', m - i))
        c.want(c.elem(a, typ, idx, mx), xs[0])
        c.want_sp(-n - 1)
        c.next_pc()
        b.go(c)
        _elem_errors(b, True, n, 1, 0)
        b.underflow(n + 1, 0, lambda c: (c.operand('u.param.symbol_id', c.array('A', 'TYPE_NUM', n)[0]), c.operand('u.param.params', n)))
    _auto_dim(b, True, False)


@spec('B_SET_ARRAY_STR')
def _set_elem_str(b):
    for n in (1, 2):
        for prev in (True, False):
            c, sid, sr, a, mx, typ = _elem_case(b, '%d subscript%s in range, %s' % (n, 's' * (n - 1), 'replacing a value' if prev else 'first assignment'),
                                                ['C31', 'C03', 'C10'], False, False, n)
            c.depth('sp', lo=n)
            c.depth('ssp', lo=1)
            idx = subscripts(c, n)
            for i, m in zip(idx, mx):
                c.assume(('ge', m - i))
            el = c.elem(a, typ, idx, mx)
            if prev:
                old = c.get(el)
                old.r.string = True
                c.assume(('nonnull', old.r))
                c.owned[old.r] = 'the previous value of the element'
            else:
                c.put(el, NULLP)
            (s, ln, t), = c.strs(1)
            c.want(el, Str(ln, t))
            c.want_sp(-n)
            c.want_ssp(-1)
            c.next_pc()
            b.go(c)
        _elem_errors(b, False, n, 0, 1)
    _auto_dim(b, False, False)
    b.underflow(1, 1, lambda c: (c.operand('u.param.symbol_id', c.array('A', 'TYPE_STR', 1)[0]), c.operand('u.param.params', 1)))


@spec('B_DIM_NUM', 'B_DIM_STR')
def _dim(b):
    num = b.op.endswith('NUM')
    typ = 'TYPE_NUM' if num else 'TYPE_STR'
    for n, hi in ((1, 60000), (2, 250)):
        c = b.case('new array, %d dimension%s' % (n, 's' * (n - 1)), ['C31', 'C03'])
        sid, sr = undimensioned(c, typ, n)
        c.depth('sp', lo=n)
        mx = [c.integral(x, 0, hi) for x in c.nums(n)]
        c.want(c.symloc(sr, 'defined'), 1)
        c.want(c.symloc(sr, 'val.numarr' if num else 'val.strarr'), ANY)
        c.want_sp(-n)
        c.next_pc()
        c.check(['C31', 'C03'], 'dimensions', lambda c, s, o, sr=sr, mx=mx: new_array_ok(c, s, sr, typ, mx))
        b.go(c)
        # any maxima: whatever is accepted is allocated in full
        c = b.case('any maxima, %d dimension%s' % (n, 's' * (n - 1)), ['C03'])
        sid, sr = undimensioned(c, typ, n)
        c.depth('sp', lo=n)
        mx = [c.integral(x, 0, 4294967295) for x in c.nums(n)]
        c.want(c.symloc(sr, 'defined'), ANY)
        c.want(c.symloc(sr, 'val.numarr' if num else 'val.strarr'), ANY)
        c.want_sp(-n)
        c.next_pc()
        c.either = True
        c.check(['C03'], 'dimensions', lambda c, s, o, sr=sr, mx=mx: new_array_ok(c, s, sr, typ, mx) if o.k == 'ret' else (YES, None, (), ''))
        b.go(c)
        # a released array is never referred to again, on any path
        c = b.case('array dimensioned before, %d dimension%s' % (n, 's' * (n - 1)), ['C31', 'C10', 'C11'])
        sid, sr, a, omx = c.array('A', typ, 1, [Lin(2)])
        c.operand('u.param.symbol_id', sid)
        c.operand('u.param.params', n)
        els = []
        if not num:
            for k in range(3):
                el = c.elem(a, typ, [Lin(k)], [Lin(2)])
                v = c.get(el)
                v.r.string = True
                v.r.maybe_null = True
                c.owned[v.r] = 'an element of the old array'
        c.owned[a] = 'the old array'
        c.depth('sp', lo=n)
        mx = [c.integral(x, 0, hi) for x in c.nums(n)]
        c.want(c.symloc(sr, 'defined'), 1)
        c.want(c.symloc(sr, 'val.numarr' if num else 'val.strarr'), ANY)
        c.want_sp(-n)
        c.next_pc()
        c.check(['C31', 'C03'], 'dimensions', lambda c, s, o, sr=sr, mx=mx: new_array_ok(c, s, sr, typ, mx))
        b.go(c)
        for k in range(n):
            for q in range(4):
                c = b.case('maximum %d of %d %s' % (k + 1, n, OpCase.BAD[q]), ['C03', 'C28'])
                if q % 2:
                    sid, sr, a, omx = c.array('A', typ, 1, [Lin(2)])
                    c.operand('u.param.symbol_id', sid)
                    c.operand('u.param.params', n)
                else:
                    undimensioned(c, typ, n)
                c.depth('sp', lo=n)
                xs = c.nums(n)
                for j, x in enumerate(xs):
                    if j != k:
                        c.integral(x, 0, 100)
                c.bad_unsigned(xs[k], q)
                c.error()
                b.go(c)
    c = b.case('more elements than memory can address', ['C03'])
    undimensioned(c, typ, 2)
    c.depth('sp', lo=2)
    for x in c.nums(2):
        c.integral(x, 4000000000, 4294967295)
    c.error()
    b.go(c)
    c = b.case('4294967295', ['C03'])
    undimensioned(c, typ, 1)
    c.depth('sp', lo=1)
    c.integral(c.nums(1)[0], 4294967295, 4294967295)
    c.error()
    b.go(c)
    b.underflow(2, 0, lambda c: undimensioned(c, typ, 2))


# ------------------------------------------------------------------------------------------ control flow

@spec('B_END')
def _end(b):
    for v in ('stored', 'immediate'):
        c = b.case('any state', ['C15'], v)
        c.want('code_state.pc', c.used)
        b.go(c)


@spec('B_STOP')
def _stop(b):
    for v in ('stored', 'immediate'):
        c = b.case('any state', ['C16', 'C15'], v)
        c.want('stopped', 1, ('C16',))
        c.want('code_state.pc', c.pc)
        b.go(c)


def _jump(b, c, target):
    c.want('code_state.pc', target, ('C15',))
    c.want('code_state.code', c.code_ptr('stored_program'), ('C15',))


@spec('B_GOTO')
def _goto(b):
    for v in ('stored', 'immediate'):
        for exists in (True, False):
            c = b.case('the line exists' if exists else 'no such line', ['C15'], v)
            c.line_map()
            l = c.atom('target', 1, 0xffffffff)
            c.operand('u.basic_line.lineno', l)
            t = c.line(l, exists)
            if exists:
                _jump(b, c, t)
            else:
                c.error()
            b.go(c)
    c = b.case('no program', ['C15'], 'immediate')
    c.put('stored_program.index', NULLP)
    c.operand('u.basic_line.lineno', c.atom('target', 1, 0xffffffff))
    c.error()
    b.go(c)


@spec('B_GOTRUE')
def _gotrue(b):
    for v in ('stored', 'immediate'):
        for name, m in (('true', LT | GT), ('false', EQ)):
            for exists in (True, False):
                if not exists and name == 'false':
                    continue
                c = b.case('condition %s%s' % (name, '' if exists else ', no such line'), ['C15'], v)
                c.line_map()
                l = c.atom('target', 1, 0xffffffff)
                c.operand('u.basic_line.lineno', l)
                c.depth('sp', lo=1)
                x, = c.nums(1)
                c.assume(('f', m, x, fc(0.0)))
                t = c.line(l, exists)
                if not exists:
                    c.error()
                else:
                    c.want_sp(-1)
                    if name == 'true':
                        _jump(b, c, t)
                    else:
                        c.next_pc()
                b.go(c)
    b.underflow(1, 0, lambda c: (c.line_map(), c.operand('u.basic_line.lineno', c.atom('target', 1, 1 << 20))))


def _push_return(c, pc):
    r = c.iget('rsp')
    c.want('retstack[].pc', pc, ('C15',), idx=r)
    c.want('retstack[].code', c.get('code_state.code'), ('C15',), idx=r)
    c.want('retstack[].source_line', c.sline, ('C15', 'C27'), idx=r)
    c.want('rsp', r + 1, ('C15',))


@spec('B_GOSUB')
def _gosub(b):
    for v in ('stored', 'immediate'):
        for exists in (True, False):
            c = b.case('the line exists' if exists else 'no such line', ['C15'], v)
            c.line_map()
            l = c.atom('target', 1, 0xffffffff)
            c.operand('u.basic_line.lineno', l)
            t = c.line(l, exists)
            c.depth('rsp', hi=c.cap['rsp'] - 1)
            if exists:
                _push_return(c, c.pc + 1)
                _jump(b, c, t)
            else:
                c.error()
            b.go(c)
    c = b.case('GOSUB stack full', ['C01'])
    c.line_map()
    l = c.atom('target', 1, 0xffffffff)
    c.operand('u.basic_line.lineno', l)
    c.line(l)
    c.depth('rsp', exact=c.cap['rsp'])
    c.error()
    b.go(c)


@spec('B_RETURN')
def _return(b):
    for v in ('stored', 'immediate'):
        c = b.case('a GOSUB is pending', ['C15'], v)
        r = c.depth('rsp', lo=1)
        for path in ('code', 'pc', 'source_line'):
            val = c.get('retstack[].' + path, r - 1)
            c.want('code_state.' + path, val, ('C15',))
        c.want('rsp', r - 1, ('C15',))
        b.go(c)
        c = b.case('no GOSUB is pending', ['C15', 'C01'], v)
        c.depth('rsp', exact=0)
        c.error()
        b.go(c)


def _for_stack(c, n, ids):
    """n active loops with these variables' ids, innermost last"""
    c.ai.unroll = 12
    c.depth('for_sp', exact=n)
    for k, i in enumerate(ids):
        c.put('for_stack[].symbol_id', i, k)
        for path in ('code_state.code', 'code_state.pc', 'code_state.source_line', 'step', 'limit'):
            v = c.get('for_stack[].' + path, k)
            if isinstance(v, PV):
                v.r.maybe_null = False
    return [{p: c.get('for_stack[].' + p, k) for p in
             ('symbol_id', 'code_state.code', 'code_state.pc', 'code_state.source_line', 'step', 'limit')} for k in range(n)]


def _want_for(c, slots, props=('C29',)):
    for k, s in enumerate(slots):
        for p, v in s.items():
            c.want('for_stack[].' + p, v, props, idx=k)
    c.want('for_sp', len(slots), ('C29',))


@spec('B_FOR')
def _for(b):
    for v in ('stored', 'immediate'):
        for n in (0, 1, 2, 3, 7):
            if v == 'immediate' and n > 1:
                continue
            for where in [None] + list(range(n)):
                if n == 7 and where not in (None, 0, 3):
                    continue
                c = b.case('%d loop%s active%s' % (n, '' if n == 1 else 's', '' if where is None else
                                                   ', number %d on the same variable' % (where + 1)), ['C29'], v)
                sid, r, val, dl = c.variable('V', 'TYPE_NUM')
                c.operand('u.symbol_id', sid)
                ids = []
                for k in range(n):
                    if k == where:
                        ids.append(sid)
                    else:
                        ids.append(c.variable('W%d' % k, 'TYPE_NUM')[0])
                slots = _for_stack(c, n, ids)
                c.depth('sp', lo=3)
                step, limit, start = c.nums(3)
                rest = [s for k, s in enumerate(slots) if k != where]
                rest.append({'symbol_id': IV(32, sid), 'code_state.code': c.get('code_state.code'), 'code_state.pc': IV(32, c.pc),
                             'code_state.source_line': IV(32, c.sline), 'step': step, 'limit': limit})
                _want_for(c, rest)
                c.want(val, start)
                c.want(dl, 1)
                c.want_sp(-3)
                c.next_pc()
                b.go(c)
    cap = None
    c = b.case('FOR stack full', ['C01', 'C29'])
    c.silent = False
    n = c.cap['for_sp']
    sid, r, val, dl = c.variable('V', 'TYPE_NUM')
    c.operand('u.symbol_id', sid)
    _for_stack(c, n, [c.variable('W%d' % k, 'TYPE_NUM')[0] for k in range(n)])
    c.depth('sp', lo=3)
    c.error()
    b.go(c)
    c = b.case('FOR stack full, restarting the outermost loop', ['C29'])
    sid, r, val, dl = c.variable('V', 'TYPE_NUM')
    c.operand('u.symbol_id', sid)
    slots = _for_stack(c, n, [sid] + [c.variable('W%d' % k, 'TYPE_NUM')[0] for k in range(1, n)])
    c.depth('sp', lo=3)
    step, limit, start = c.nums(3)
    _want_for(c, slots[1:] + [{'symbol_id': IV(32, sid), 'code_state.code': c.get('code_state.code'), 'code_state.pc': IV(32, c.pc),
                               'code_state.source_line': IV(32, c.sline), 'step': step, 'limit': limit}])
    c.want(val, start)
    c.want(dl, 1)
    c.want_sp(-3)
    c.next_pc()
    b.go(c)

    def setup(c):
        sid, r, val, dl = c.variable('V', 'TYPE_NUM')
        c.operand('u.symbol_id', sid)
        _for_stack(c, 0, [])
    b.underflow(3, 0, setup)


NEXTS = (('step positive, limit not passed', GT, LT | EQ, True), ('step positive, limit passed', GT, GT, False),
         ('step negative, limit not passed', LT, GT | EQ, True), ('step negative, limit passed', LT, LT, False),
         ('step zero', EQ, LT | EQ | GT, True))


@spec('B_NEXT_VAR', 'B_NEXT_IMP')
def _next(b):
    imp = b.op == 'B_NEXT_IMP'
    for v in ('stored', 'immediate'):
        for n in (1, 2, 3, 8):
            if v == 'immediate' and n > 1:
                continue
            for si in range(n):
                if imp and si != n - 1 or n == 8 and si not in (0, 4, 7):
                    continue
                for name, ms, ml, loops in NEXTS:
                    if n == 8 and not (ms == GT):
                        continue
                    c = b.case('%d loop%s active, number %d: %s' % (n, '' if n == 1 else 's', si + 1, name), ['C29'], v)
                    ids, vars = [], []
                    for k in range(n):
                        sid, r, val, dl = c.variable('W%d' % k, 'TYPE_NUM', True)
                        ids.append(sid)
                        vars.append((val, dl))
                    slots = _for_stack(c, n, ids)
                    if not imp:
                        c.operand('u.symbol_id', ids[si])
                    s = slots[si]
                    x = c.ai.mkf('fadd', c.get(vars[si][0]), s['step'])
                    c.assume(('f', ms, s['step'], fc(0.0)), ('f', ml, x, s['limit']))
                    if loops:
                        c.want(vars[si][0], x)
                        c.want('code_state.code', s['code_state.code'], ('C15',))
                        c.want('code_state.source_line', s['code_state.source_line'], ('C27',))
                        c.want('code_state.pc', s['code_state.pc'].l + 1, ('C15',))
                        _want_for(c, slots)
                    else:
                        # whether the variable keeps its last value or takes the one beyond the limit is checked as kept
                        c.next_pc()
                        _want_for(c, [q for k, q in enumerate(slots) if k != si])
                    b.go(c)
    c = b.case('no loop active', ['C29', 'C01'])
    c.depth('for_sp', exact=0)
    if not imp:
        c.operand('u.symbol_id', c.variable('V', 'TYPE_NUM')[0])
    c.error()
    b.go(c)
    if not imp:
        for n in (1, 2):
            c = b.case('%d loop%s active, none on this variable' % (n, '' if n == 1 else 's'), ['C29', 'C01'])
            c.operand('u.symbol_id', c.variable('V', 'TYPE_NUM')[0])
            _for_stack(c, n, [c.variable('W%d' % k, 'TYPE_NUM')[0] for k in range(n)])
            c.error()
            b.go(c)


@spec('B_ON_GOTO', 'B_ON_GOSUB')
def _on(b):
    sub_ = b.op == 'B_ON_GOSUB'

    def start(name, v, props=('C15',)):
        c = b.case(name, props, v)
        c.line_map()
        n = c.atom('count', 1, 10000)
        c.operand('u.count', n)
        c.assume(('ge', c.used - c.pc - n - 1))
        c.depth('sp', lo=1)
        return c, n, c.nums(1)[0]

    def entry(c, x, n):
        k = c.integral(x, 1, 10000)
        c.assume(('ge', n - k))
        c.put_inst(c.pc + k, 'op', c.p.enum('B_ON_LINE'))
        l = c.atom('target', 1, 0xffffffff)
        c.put_inst(c.pc + k, 'u.basic_line.lineno', l)
        return k, l
    for v in ('stored', 'immediate'):
        for exists in (True, False):
            c, n, x = start('value in the list%s' % ('' if exists else ', no such line'), v)
            # the count and value as reals: x <= n
            k, l = entry(c, x, n)
            c.assume(('f', LT | EQ, x, fe('i2f', n)))
            t = c.line(l, exists)
            c.depth('rsp', hi=c.cap['rsp'] - 1)
            if exists:
                c.want_sp(-1)
                if sub_:
                    _push_return(c, c.pc + n + 1)
                _jump(b, c, t)
            else:
                c.error()
            b.go(c)
        for count in (1, 2, 3):
            for val in range(0, count + 2):
                c, n, x = start('value %d of a list of %d' % (val, count), v)
                c.assume(('eq', n - count))
                c.depth('rsp', hi=c.cap['rsp'] - 1)
                ls = [c.atom('target%d' % q, 1, 0xffffffff) for q in range(count)]
                for q, l in enumerate(ls):
                    c.put_inst(c.pc + q + 1, 'op', c.p.enum('B_ON_LINE'))
                    c.put_inst(c.pc + q + 1, 'u.basic_line.lineno', l)
                c.integral(x, val, val)
                c.want_sp(-1)
                if 1 <= val <= count:
                    t = c.line(ls[val - 1])
                    if sub_:
                        _push_return(c, c.pc + count + 1)
                    _jump(b, c, t)
                else:
                    c.want('code_state.pc', c.pc + count + 1, ('C15',))
                b.go(c)
        c, n, x = start('value below 1', v)
        c.assume(('f', LT, x, fc(1.0)), ('f', EQ, c.ai.mkf('floor', x), x))
        c.want_sp(-1)
        c.want('code_state.pc', c.pc + n + 1, ('C15',))
        b.go(c)
        c, n, x = start('value beyond the list', v)
        c.assume(('f', GT, x, fe('i2f', n)), ('f', EQ, c.ai.mkf('floor', x), x))
        c.want_sp(-1)
        c.want('code_state.pc', c.pc + n + 1, ('C15',))
        b.go(c)
        for how in ('fractional', 'nan'):
            c, n, x = start('value %s' % how, v, ('C15', 'C28'))
            getattr(c, how)(x)
            c.error()
            b.go(c)
    if sub_:
        c, n, x = start('GOSUB stack full', 'stored', ('C01',))
        k, l = entry(c, x, n)
        c.line(l)
        c.depth('rsp', exact=c.cap['rsp'])
        c.assume(('f', LT | EQ, x, fe('i2f', n)))
        c.error()
        b.go(c)
    b.underflow(1, 0, lambda c: (c.line_map(), c.operand('u.count', 3)))


def others(*but):
    """every kind of instruction except these"""
    return [op for op in ORDER if op not in but]


def _skip(b, stops_at, distractors, name, props, after, cond=None, ret_at=0):
    """skipping forward to the next `stops_at` instruction"""
    p = b.p
    # (ELSE is looked for in the line only, and which ELSE belongs to an inner IF is the compiler's matter)
    stops_at_any = (stops_at,) if stops_at == 'B_SOURCE_LINE' else (stops_at, 'B_SOURCE_LINE', 'B_IF_THEN', 'B_IF_ELSE')
    for v in ('stored', 'immediate'):
        for dist in ([], distractors[:1], distractors, others(*stops_at_any)):
            for end in (False, True):
                c = b.case('%s, %d instruction%s to skip%s' % (name, len(dist), '' if len(dist) == 1 else 's',
                                                              ', end of code' if end else ''), props, v)
                c.ai.unroll = 8 + len(dist)
                for k, d in enumerate(dist):
                    c.put_inst(c.pc + k + 1, 'op', p.enum(d))
                stop = c.pc + len(dist) + 1
                if end:
                    c.assume(('eq', c.used - stop))
                else:
                    c.assume(('ge', c.used - stop - 1))
                    c.put_inst(stop, 'op', p.enum(stops_at))
                if cond:
                    c.depth('sp', lo=1)
                    c.assume(('f', cond, c.nums(1)[0], fc(0.0)))
                    c.want_sp(-1)
                if end:
                    c.want('code_state.pc', ANY)
                    c.check(['C15'], 'past the end', lambda c, s, o: _at_least(c, s, c.used))
                else:
                    c.want('code_state.pc', stop + after, ('C15',))
                b.go(c)


def _at_least(c, s, u):
    v = c.ai.load(s, c.loc('code_state.pc').pv(), I32)
    d = s.f.norm(v.l - u)
    if s.f.prove_ge(d):
        return YES, None, (), ''
    return MAYBE, (lambda env: env.lin(d) < 0), (d,), 'execution continues at %r, inside the code' % (v,)


@spec('B_IF_THEN')
def _if_then(b):
    _skip(b, 'B_SOURCE_LINE', ['B_ELSE', 'B_PRINT_LN', 'B_IF_ELSE', 'B_END_DEF'], 'condition false', ['C15'], 0, EQ)
    _cond_true(b)


@spec('B_IF_ELSE')
def _if_else(b):
    _skip(b, 'B_ELSE', ['B_PRINT_LN', 'B_GOTO', 'B_STOP'], 'condition false', ['C15'], 1, EQ)
    _cond_true(b)


def _cond_true(b):
    for v in ('stored', 'immediate'):
        c = b.case('condition true', ['C15'], v)
        c.depth('sp', lo=1)
        c.assume(('f', LT | GT, c.nums(1)[0], fc(0.0)))
        c.want_sp(-1)
        c.next_pc()
        b.go(c)
    b.underflow(1, 0)


@spec('B_ELSE')
def _else(b):
    _skip(b, 'B_SOURCE_LINE', ['B_PRINT_LN', 'B_ELSE', 'B_IF_THEN'], 'end of the THEN part', ['C15'], 0)


# ------------------------------------------------------------------------------------------ functions

def _copy_def(c):
    made = []

    def copy(ai, st, fr, ins, a):
        r = libc.new_heap(ai, st, fr, ins, Lin(c.lay_size('BCODE')), 'lazy') if False else None
        s = Region('heap', ('defcode', next(AT.n)), size=Lin(c.lay_size('BCODE')), name='copied function code')
        s.site = ins
        st.emit('alloc', s, ins)
        st.emit('copy_def', a[0], a[1], s, ins)
        return [Outcome('ret', st, PV(s))]

    def dele(ai, st, fr, ins, a):
        if isinstance(a[0], PV) and a[0].r is not None:
            n = ai.evalc(st, ('null', a[0].r))
            if n is None:
                raise Split(('null', a[0].r))
            if not n:
                libc.do_free(ai, st, fr, ins, a[0])
        return [Outcome('ret', st, None)]
    c.ai.icpt['bcode_copy_def'] = copy
    c.ai.icpt['delete_bcode'] = dele


@spec('B_DEF')
def _def(b):
    p = b.p
    for v in ('stored', 'immediate'):
        for old in (False, True):
            for dist in ([], ['B_PARAM', 'B_PUSH_NUM'], ['B_PARAM', 'B_GET_SIMPLE_NUM', 'B_PUSH_NUM', 'B_ADD'],
                         others('B_END_DEF', 'B_SOURCE_LINE', 'B_DEF')):
                c = b.case('%s, %d instructions in the body' % ('replacing a definition' if old else 'first definition', len(dist)),
                           ['C14', 'C31'] if not old else ['C11', 'C14'], v)
                c.ai.unroll = 10 + len(dist)
                _copy_def(c)
                sid, r = c.symbol('F', 'SYM_DEF', 'TYPE_NUM')
                vl, dl = c.symloc(r, 'val.def'), c.symloc(r, 'defined')
                if old:
                    d = c.ai.region('lazy', 'olddef', name='old definition', di=c.di('def'))
                    bc = c.ai.region('lazy', 'olddefcode', name='old function code')
                    c.st.mem[d] = Node(None, 'w', Lin(p.off('def', 'bcode')), 8, PV(bc))
                    c.put(vl, PV(d))
                    c.owned[d] = 'the old definition'
                    c.owned[bc] = 'the old function code'
                    c.put(dl, 1)
                else:
                    c.put(vl, NULLP)
                    c.put(dl, 0)
                c.operand('u.param.symbol_id', sid)
                c.operand('u.param.params', 1)
                for k, d in enumerate(dist):
                    c.put_inst(c.pc + k + 1, 'op', p.enum(d))
                stop = c.pc + len(dist) + 1
                c.assume(('ge', c.used - stop - 1))
                c.put_inst(stop, 'op', p.enum('B_END_DEF'))
                c.want('code_state.pc', stop + 1, ('C15', 'C14'))
                c.want(dl, 1)
                c.want(vl, ANY)

                def made(c, s, o, vl=vl, v=v):
                    d = c.ai.load(s, vl.pv(), PTR)
                    if not isinstance(d, PV) or d.r is None:
                        return NO, None, (), 'no definition is stored'
                    ev = [e for e in s.events() if e[0] == 'copy_def']
                    if not ev:
                        return MAYBE, None, (), ''
                    e = ev[-1]
                    bc = c.ai.load(s, PV(d.r, Lin(p.off('def', 'bcode'))), PTR)
                    if not isinstance(bc, PV) or bc.r is not e[3]:
                        return NO, None, (), 'the definition does not hold the copied code'
                    if not isinstance(e[1], PV) or e[1].r is not c.bc:
                        return NO, None, (), 'the function is copied from other code'
                    x = s.f.norm(e[2].l - c.pc)
                    if not s.f.prove_eq(x):
                        return MAYBE, (lambda env: env.lin(x) != 0), (x,), 'the function is copied from %r' % (e[2],)
                    if v == 'stored':
                        ln = c.ai.load(s, PV(d.r, Lin(p.off('def', 'source_line'))), I32)
                        y = s.f.norm(ln.l - c.sline)
                        if not s.f.prove_eq(y):
                            return MAYBE, (lambda env: env.lin(y) != 0), (y,), 'the definition records line %r' % (ln,)
                        sr = c.ai.load(s, PV(d.r, Lin(p.off('def', 'source'))), PTR)
                        if isinstance(sr, PV) and sr.r is not c.src:
                            return NO, None, (), 'the definition does not record the program text it was made in'
                    else:
                        sr = c.ai.load(s, PV(d.r, Lin(p.off('def', 'source'))), PTR)
                        if isinstance(sr, PV) and sr.r is c.src:
                            return NO, None, (), 'the definition refers to the text of the immediate line, which is released'
                        if isinstance(sr, PV) and sr.r is not None:
                            return NO, None, (), 'a definition made in an immediate statement records a line of the program'
                    return YES, None, (), ''
                c.check(['C14', 'C27'], 'definition', made)
                b.go(c)
    c = b.case('wrong number of parameters', ['C14'])
    _copy_def(c)
    sid, r = c.symbol('F', 'SYM_DEF', 'TYPE_NUM')
    c.put(c.symloc(r, 'val.def'), NULLP)
    c.put(c.symloc(r, 'defined'), 0)
    n = c.atom('params', 0, 255)
    c.assume(('ne', n - 1))
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', n)
    c.error()
    b.go(c)


@spec('B_PARAM', 'B_ON_LINE')
def _never(b):
    c = b.case('executed as an instruction', ['C05'])
    if b.op == 'B_PARAM':
        sid, r, val, dl = c.variable('V', 'TYPE_NUM')
        c.operand('u.symbol_id', sid)
    c.error()
    b.go(c)


def _call_setup(c, typ, b):
    p = c.p
    sid, r = c.symbol('F', 'SYM_DEF', typ)
    pid, pr, pval, pdef = c.variable('P', 'TYPE_NUM')
    d = c.ai.region('lazy', 'def', name='definition', di=c.di('def'))
    bc = c.ai.region('lazy', 'defcode', name='function code', di=c.di('BCODE'))
    inst = c.ai.region('lazy', 'definst', name='function code.inst', di=c.di('BINST'))
    used = c.atom('def.used', 3, 1 << 20)
    inst.size = used.scale(c.istep)
    c.st.mem[bc] = Node(Node(None, 'w', Lin(p.off('BCODE', 'inst')), 8, PV(inst)), 'w', Lin(p.off('BCODE', 'used')), 4, IV(32, used))
    c.st.mem[inst] = Node(Node(None, 'w', Lin(c.istep + c.isz['op'].off), 2, IV(16, p.enum('B_PARAM'))),
                          'w', Lin(c.istep + c.isz['u.symbol_id'].off), 4, IV(32, pid))
    src = c.ai.region('lazy', 'defsource', name='definition source', maybe_null=True)
    line = c.atom('defline', 0, 1 << 20)
    n = Node(None, 'w', Lin(p.off('def', 'bcode')), 8, PV(bc))
    n = Node(n, 'w', Lin(p.off('def', 'source')), 8, PV(src))
    n = Node(n, 'w', Lin(p.off('def', 'source_line')), 4, IV(32, line))
    c.st.mem[d] = n
    c.put(c.symloc(r, 'val.def'), PV(d))
    c.put(c.symloc(r, 'defined'), 1)
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', 1)
    c.put('def_code.index', NULLP)
    return pid, pval, pdef, bc, src, line, r


@spec('B_GET_PAREN_NUM', 'B_GET_PAREN_STR')
def _call(b):
    num = b.op.endswith('NUM')
    typ = 'TYPE_NUM' if num else 'TYPE_STR'
    for v in ('stored', 'immediate'):
        c = b.case('call of a user-defined function', ['C14'], v)
        pid, pval, pdef, bc, src, line, r = _call_setup(c, typ, b)
        c.put('fn.code_state.code', NULLP)
        c.depth('sp', lo=1)
        x, = c.nums(1)
        c.assume(('ge', c.used - c.pc - 2))
        for q in ('code', 'pc', 'source_line'):
            c.want('fn.code_state.' + q, c.get('code_state.' + q), ('C14', 'C15'))
        c.want('code_state.code', c.code_ptr('def_code'))
        c.want('code_state.pc', 2)
        c.want('code_state.source_line', line, ('C27',))
        c.want('def_code.bcode', PV(bc))
        c.want('def_code.source', PV(src), ('C27',))
        c.want('fn.param_id', pid)
        c.want('fn.param_val', c.get(pval))
        c.want('fn.param_defined', c.get(pdef))
        c.want(pval, x)
        c.want(pdef, 1)
        c.want_sp(-1)
        b.go(c)
    c = b.case('call while a function call is in progress', ['C14'])
    _call_setup(c, typ, b)
    fs = c.get('fn.code_state.code')
    fs.r.maybe_null = False
    c.depth('sp', lo=1)
    c.assume(('ge', c.used - c.pc - 2))
    c.error()
    b.go(c)
    c = b.case('call of a function that is not defined yet', ['C14', 'C31'])
    sid, r = c.symbol('F', 'SYM_DEF', typ)
    c.put(c.symloc(r, 'val.def'), NULLP)
    c.put(c.symloc(r, 'defined'), 0)
    c.operand('u.param.symbol_id', sid)
    c.operand('u.param.params', 1)
    c.put('fn.code_state.code', NULLP)
    c.depth('sp', lo=1)
    c.error()
    b.go(c)
    c = b.case('call with the wrong number of arguments', ['C14'])
    pid, pval, pdef, bc, src, line, r = _call_setup(c, typ, b)
    c.operand('u.param.params', 2)
    c.put('fn.code_state.code', NULLP)
    c.depth('sp', lo=2)
    c.error()
    b.go(c)
    c = b.case('call without an argument', ['C01', 'C14'])
    _call_setup(c, typ, b)
    c.put('fn.code_state.code', NULLP)
    c.depth('sp', exact=0)
    c.error()
    b.go(c)


@spec('B_END_DEF')
def _end_def(b):
    for d in (True, False):
        c = b.case('return from a function, parameter %sdefined before the call' % ('' if d else 'un'), ['C14'], 'def')
        pid, pr, pval, pdef = c.variable('P', 'TYPE_NUM')
        c.put('fn.param_id', pid)
        c.put('fn.param_defined', 1 if d else 0)
        saved = c.get('fn.param_val')
        caller = c.get('fn.code_state.code')
        caller.r.maybe_null = False
        c.want('code_state.code', caller, ('C15',))
        c.want('code_state.pc', c.iget('fn.code_state.pc') + 1, ('C15',))
        c.want('code_state.source_line', c.get('fn.code_state.source_line'), ('C27',))
        c.want('fn.code_state.code', NULLP)
        c.want(pval, saved)
        c.want(pdef, 1 if d else 0)
        b.go(c)
    c = b.case('no function call in progress', ['C14'])
    c.put('fn.code_state.code', NULLP)
    c.error()
    b.go(c)


# ------------------------------------------------------------------------------------------ output

def _column(c):
    """ghost column: where the output device is; follows every character written to stdout"""
    g = Region('ghost', 'column', size=Lin(8), name='column')
    c.ghost = g
    col = c.iget('col')
    c.assume(('ge', col - 1), ('ge', -col + (1 << 24)))
    c.st.mem[g] = Node(None, 'w', ZERO, 4, IV(32, col))
    ai = c.ai

    def get(st):
        return ai.load(st, PV(g), I32)

    def setv(st, l):
        st.mem[g] = Node(st.mem.get(g), 'w', ZERO, 4, IV(32, l))

    def fmt(ai, st, fr, ins, f, args, v):
        if f is None or b'\n' in f or any(x in f for x in (b'%s', b'%c')):
            if f is not None and f.endswith(b'\n'):
                return setv(st, Lin(1))
            return setv(st, LA(AT.fresh('column', 1, 1 << 25)))
        setv(st, st.f.norm(get(st).l) + st.f.norm(v.l))

    def chr_(ai, st, fr, ins, ch):
        n = ('eq', st.f.norm(ch.l - 10))
        r = ai.evalc(st, n)
        if r is None:
            raise Split(n)
        setv(st, Lin(1) if r else st.f.norm(get(st).l) + 1)

    def str_(ai, st, fr, ins, p, ln, term, nl):
        if nl:
            return setv(st, Lin(1))
        if term is not None and term[0] == 'lit':
            b = term[1]
            if b'\n' in b:
                return setv(st, Lin(len(b) - b.rfind(b'\n')))
            return setv(st, st.f.norm(get(st).l) + len(b))
        setv(st, LA(AT.fresh('column', 1, 1 << 25)))
    ai.hooks['printf'], ai.hooks['outchr'], ai.hooks['outstr'] = fmt, chr_, str_
    c.silent = False
    c.want('col', ANY)

    def agree(c, s, o):
        a = c.ai.load(s, c.loc('col').pv(), I32)
        gv = c.ai.load(s, PV(g), I32)
        d = s.f.norm(a.l - gv.l)
        if s.f.prove_eq(d):
            return YES, None, (), ''
        return MAYBE, (lambda env: env.lin(d) % (1 << 32) != 0), (d,), 'vm.col is %r where the output is at column %r' % (a, gv)
    c.check(['C20'], 'print position', agree)
    return g, col


def _emitted(c, ok):
    """check the characters written to stdout"""
    def f(c, s, o):
        ev = [e for e in s.events() if e[0] == 'out' and e[1] == 'stdout' or e[0] == 'loop']
        if c.trace:
            # trace output may precede and follow what the program writes
            for i in range(len(ev)):
                for j in range(len(ev), i, -1):
                    if j - i < len(ev) and ok(c, s, ev[i:j])[0] == YES:
                        return YES, None, (), ''
        return ok(c, s, ev)
    c.check(['C20'], 'text written', f)


@spec('B_PRINT_LN')
def _print_ln(b):
    c = b.case('any column', ['C20'])
    g, col = _column(c)
    c.want('col', 1)
    c.next_pc()

    def ok(c, s, ev):
        if len(ev) == 1 and ev[0][2] == 'chr' and isinstance(ev[0][3], IV):
            v = s.f.norm(ev[0][3].l)
            return (YES if v == Lin(10) else NO), None, (), 'writes character %r' % v
        if len(ev) == 1 and ev[0][2] == 'str' and ev[0][3] in (('lit', b'\n'), ('lit', b'')):
            return YES, None, (), ''
        if not ev:
            return NO, None, (), 'no line end is written'
        return MAYBE, None, (), 'text not recognised'
    _emitted(c, ok)
    b.go(c)


def _spaces(c, s, ev, lead_nl=None):
    """only spaces are written (after an optional newline)"""
    for e in flat_events(ev):
        if e[0] != 'out' or e[1] != 'stdout':
            continue
        if e[2] == 'chr':
            v = s.f.norm(e[3].l)
            if v == Lin(32) or (lead_nl and v == Lin(10)):
                continue
            if not v.t:
                return NO, None, (), 'writes character %r' % v
            return MAYBE, None, (), ''
        elif e[2] in ('fmt',):
            return MAYBE, None, (), ''
    return YES, None, (), ''


@spec('B_PRINT_SPC')
def _print_spc(b):
    parts = [('0 spaces', 0, 0), ('1 space', 1, 1), ('2 spaces', 2, 2), ('many spaces', 3, 1 << 20)]
    for name, lo, hi in parts:
        c = b.case(name, ['C20'])
        g, col = _column(c)
        c.depth('sp', lo=1)
        k = c.integral(c.nums(1)[0], lo, hi)
        c.want('col', col + k)
        c.want_sp(-1)
        c.next_pc()
        _emitted(c, _spaces)
        b.go(c)
    for q in range(4):
        c = b.case('count %s' % OpCase.BAD[q], ['C20', 'C28'])
        c.depth('sp', lo=1)
        c.bad_unsigned(c.nums(1)[0], q)
        c.error()
        b.go(c)
    b.underflow(1, 0)


@spec('B_PRINT_TAB')
def _print_tab(b):
    for name, cond in (('ahead', lambda k, col: ('ge', k - col - 1)), ('here', lambda k, col: ('eq', k - col)),
                       ('behind', lambda k, col: ('ge', col - k - 1))):
        c = b.case('column %s' % name, ['C20'])
        g, col = _column(c)
        c.depth('sp', lo=1)
        k = c.integral(c.nums(1)[0], 1, 1 << 24)
        c.assume(cond(k, col))
        c.want('col', k)
        c.want_sp(-1)
        c.next_pc()
        _emitted(c, lambda c, s, ev, nl=name == 'behind': _spaces(c, s, ev, nl))
        b.go(c)
    for at0 in (1, 2, 3, 5):
        for k in (1, 2, 3, 4, 5):
            c = b.case('column %d from %d' % (k, at0), ['C20'])
            c.ai.unroll = 8
            c.put('col', at0)
            g, col = _column(c)
            c.depth('sp', lo=1)
            x = c.nums(1)[0]
            c.assume(('f', 2, x, fc(k)))
            c.want('col', k)
            c.want_sp(-1)
            c.next_pc()
            _emitted(c, lambda c, s, ev, nl=k < at0: _spaces(c, s, ev, nl))
            b.go(c)
    for q in range(4):
        c = b.case('column %s' % OpCase.BAD[q], ['C20', 'C28'])
        c.depth('sp', lo=1)
        c.bad_unsigned(c.nums(1)[0], q)
        c.error()
        b.go(c)
    b.underflow(1, 0)


@spec('B_PRINT_COMMA')
def _print_comma(b):
    for r in range(8):
        c = b.case('at column 8k+%d' % (r + 1), ['C20'])
        c.ai.unroll = 10
        g, col = _column(c)
        q = c.atom('k', 0, 1 << 20)
        c.assume(('eq', col - q.scale(8) - r - 1))
        c.want('col', q.scale(8) + 9)
        c.next_pc()
        _emitted(c, _spaces)
        b.go(c)


@spec('B_PRINT_NUM')
def _print_num(b):
    c = b.case('any number', ['C20'])
    g, col = _column(c)
    c.depth('sp', lo=1)
    x, = c.nums(1)
    c.want_sp(-1)
    c.next_pc()

    def ok(c, s, ev):
        if len(ev) == 1 and ev[0][2] == 'fmt' and ev[0][3] is not None:
            m = re.fullmatch(rb'([^%]*)%([-+ #0]*)(\d*)(\.\d+)?l?([a-zA-Z])([^%]*)', ev[0][3])
            if m and m.group(5) in b'eEfFgGaA':
                if (m.group(1), m.group(2), m.group(3), (m.group(4) or b'.6'), m.group(5), m.group(6)) != (b' ', b'', b'', b'.6', b'g', b' '):
                    return NO, None, (), 'a number is written with the format "%s"' % ev[0][3].decode('latin1')
                v = ev[0][4][0] if ev[0][4] else None
                if v is x:
                    return YES, None, (), ''
                if isinstance(v, FE):
                    return MAYBE, (lambda env: not feq(env.fe(v), env.fe(x))), (v, x), 'writes %r, expected %r' % (v, x)
                return MAYBE, None, (), ''
        if not ev:
            return NO, None, (), 'nothing is written'
        return MAYBE, None, (), 'text not recognised'
    _emitted(c, ok)
    b.go(c)
    b.underflow(1, 0)


@spec('B_PRINT_STR')
def _print_str(b):
    for name, n in (('empty', 0), ('one character', 1), ('two characters', 2), ('three characters', 3), ('any length', None)):
        c = b.case(name, ['C20'])
        g, col = _column(c)
        c.depth('ssp', lo=1)
        (r, ln, t), = c.strs(1)
        if n is not None:
            c.assume(('eq', ln - n))
        c.want_ssp(-1)
        c.next_pc()
        if n is not None:
            def ok(c, s, ev, n=n, r=r, ln=ln):
                outs = [e for e in ev if e[0] == 'out']
                if any(e[0] != 'out' for e in ev) or any(e[2] != 'chr' for e in outs):
                    return MAYBE, None, (), 'text not recognised'
                if len(outs) != n:
                    return NO, None, (), '%d characters are written for a string of %d' % (len(outs), n)
                for k, e in enumerate(outs):
                    want = c.ai.str_char(s, r, ZERO, s.f.norm(ln), Lin(k), ('str', r))
                    d = s.f.norm(e[3].l - want.l)
                    if not s.f.prove_eq(d):
                        return MAYBE, (lambda env: env.lin(d) % 256 != 0), (d,), 'character %d written is %r, expected %r' % (k, e[3], want)
                return YES, None, (), ''
            _emitted(c, ok)
        b.go(c)
    b.underflow(0, 1)


@spec('B_CLS')
def _cls(b):
    c = b.case('any column', ['C20'])
    c.silent = False
    c.want('col', 1)
    c.next_pc()
    b.go(c)


# ------------------------------------------------------------------------------------------ input

@spec('B_INPUT_BUF')
def _input_buf(b):
    for prompt in (True, False):
        for got in (True, False):
            c = b.case('%s prompt, %s' % ('own' if prompt else 'no', 'a line is read' if got else 'end of input or error'), ['C30', 'C02'])
            if prompt:
                s = c.ai.region('lazy', 'lit', name='prompt', string=True)
                c.operand('u.str', PV(s))
            else:
                c.operand('u.str', NULLP)
            c.silent = False
            if got:
                c.filter = lambda o: not any(e[0] == 'gets' and not e[2] for e in o.st.events())
                c.want('inp', 0)
                c.want('input_pc', c.pc)
                c.next_pc()
                in_input(c)
            else:
                c.filter = lambda o: any(e[0] == 'gets' and not e[2] for e in o.st.events())
                c.error()
            b.go(c)


def in_input(c):
    fl = c.lay['input']

    def fn(s, r, off, size):
        o = s.f.norm(off) if off is not None else None
        return r is c.vm and (o is None or s.f.prove_ge(o - fl.off) and s.f.prove_ge(-o + fl.off + fl.size - 1))
    c.nonframe.append(fn)


def _input(c, chars, inp=None, rest=True):
    """the input line from the current position: a list of character constraints (int or 'other': not \\0 \\n ,)"""
    fl = c.lay['input']
    p = inp if inp is not None else c.atom('inp', 0, min(100, fl.size - len(chars)))
    c.put('inp', p)
    ext = (Lin(fl.off), Lin(fl.off + fl.size))
    out = []
    for k, ch in enumerate(chars):
        if isinstance(ch, int):
            v = Lin(ch)
        else:
            v = c.atom('ch%d' % k, -128, 127)
            for x in ch:
                c.assume(('ne', v - x))
        c.st.mem[c.vm] = Node(c.st.mem.get(c.vm), 'w', Lin(fl.off) + p + k, 1, IV(8, v), ext)
        out.append(v)
    return p, out


SP, TB, NL, CM, NUL = 32, 9, 10, 44, 0
OTHER = (0, 10, 44, 32, 9, 13)


@spec('B_INPUT_SEP')
def _input_sep(b):
    for name, chars, sep in (('comma', [CM], 1), ('space and comma', [SP, CM], 2), ('tab, space and comma', [TB, SP, CM], 3),
                             ('two commas', [CM, CM, NUL], 1), ('comma then space and comma', [CM, SP, CM, NUL], 1),
                             ('comma then end of line', [CM, NL, NUL], 1), ('comma then text', [CM, OTHER, CM, NUL], 1),
                             ('many spaces and comma', [SP, TB] * 20 + [CM, OTHER], 41), ('carriage return', [13, NL, NUL], None),
                             ('end of line then comma', [NL, CM, NUL], None),
                             ('end of line', [NL, NUL], None), ('space and end of line', [SP, NL, NUL], None),
                             ('end of text', [NUL], None), ('another character', [OTHER, NUL], None),
                             ('end of a full buffer', [SP, SP, NUL], None)):
        c = b.case(name, ['C30'])
        c.ai.unroll = 6 + len(chars)
        c.silent = False
        p, _ = _input(c, chars, Lin(c.lay['input'].size - 3) if 'full' in name else None)
        c.want('inp', ANY)
        if sep is not None:
            c.want('inp', p + sep)
            c.next_pc()
        else:
            c.want('code_state.pc', c.get('input_pc'), ('C30',))
        c.exp = [e for i, e in enumerate(c.exp) if e[1] is not ANY or not any(q[0].name == e[0].name and q[1] is not ANY for q in c.exp)]
        b.go(c)


@spec('B_INPUT_END')
def _input_end(b):
    for name, chars in (('end of text', [NUL]), ('line end', [NL, NUL]), ('spaces', [SP, TB, NL, NUL]), ('extra text', [OTHER, NUL])):
        c = b.case(name, ['C30'])
        c.ai.unroll = 6
        c.silent = False
        _input(c, chars)
        c.want('inp', ANY)
        c.next_pc()
        b.go(c)


def _convert(c, kind, endchar=None, used=None):
    """the text-to-number conversion: contract of convert()"""
    res = {}

    def conv(ai, st, fr, ins, a):
        if kind == 'none':
            return [Outcome('ret', st, NULLP)]
        v = fe('fa', 'number', c.vm.id)
        ai.store(st, a[1], DOUBLE, v, ins)
        res['at'] = a[0]
        return [Outcome('ret', st, PV(a[0].r, st.f.norm(a[0].off + used), a[0].ext, a[0].chk))]
    c.ai.icpt['convert'] = conv
    return fe('fa', 'number', c.vm.id)


@spec('B_INPUT_NUM')
def _input_num(b):
    for n in (0, 1, 2):
        for name, kind, end in (('a number then a comma', 'num', CM), ('a number then a line end', 'num', NL), ('a number at the end', 'num', NUL),
                                ('a number then other text', 'num', OTHER), ('no number', 'none', None)):
            c = b.case('%s, %s' % (name, 'variable' if n == 0 else '%d subscript%s' % (n, 's' * (n - 1))), ['C30', 'C31'])
            c.silent = False
            p = c.atom('inp', 0, 60)
            u = c.atom('numlen', 1, 60)
            x = _convert(c, kind, end, u)
            if n == 0:
                sid, r, val, dl = c.variable('V', 'TYPE_NUM')
                c.operand('u.param.params', 0)
            else:
                sid, sr, a, mx = c.array('A', 'TYPE_NUM', n)
                c.operand('u.param.params', n)
                c.depth('sp', lo=n)
                idx = subscripts(c, n)
                for i, m in zip(idx, mx):
                    c.assume(('ge', m - i))
                val, dl = c.elem(a, 'TYPE_NUM', idx, mx), None
            c.operand('u.param.symbol_id', sid)
            if kind == 'num':
                fl = c.lay['input']
                c.put('inp', p)
                v = Lin(end) if isinstance(end, int) else c.atom('endch', -128, 127)
                if not isinstance(end, int):
                    for q in end:
                        c.assume(('ne', v - q))
                c.st.mem[c.vm] = Node(c.st.mem.get(c.vm), 'w', Lin(fl.off) + p + u, 1, IV(8, v), (Lin(fl.off), Lin(fl.off + fl.size)))
            else:
                c.put('inp', p)
            c.want_sp(-n)
            if kind == 'num' and isinstance(end, int):
                c.want('inp', p + u)
                c.want(val, x)
                if dl:
                    c.want(dl, 1)
                c.next_pc()
            else:
                c.want('inp', ANY)
                c.want('code_state.pc', c.get('input_pc'), ('C30',))
            b.go(c)


@spec('B_INPUT_STR')
def _input_str(b):
    for n in (0, 1, 2):
        for name, chars, k in (('empty field', [CM], 0), ('one character', [OTHER, CM], 1), ('two characters', [OTHER, OTHER, NL, NUL], 2),
                               ('three characters to the end', [OTHER, (0, 10, 44), OTHER, NUL], 3), ('end of line', [NL, NUL], 0),
                               ('up to the end of a full buffer', [OTHER, OTHER, NUL], 2),
                               ('forty characters', [OTHER] + [(0, 10, 44)] * 38 + [OTHER, CM], 40),
                               ('a whole buffer', [OTHER] * (b.p.layout('vm')['input'].size - 2) + [NL, NUL], b.p.layout('vm')['input'].size - 2)):
            if n and len(chars) > 10:
                continue
            c = b.case('%s, %s' % (name, 'variable' if n == 0 else '%d subscript%s' % (n, 's' * (n - 1))), ['C30', 'C31'])
            c.ai.unroll = 6 + len(chars)
            p, vs = _input(c, chars, Lin(c.lay['input'].size - 3) if 'full' in name else Lin(0) if 'whole' in name else None)
            if n == 0:
                sid, r, val, dl = c.variable('V', 'TYPE_STR', True)
                c.owned[c.get(val).r] = 'the previous value'
                c.want(dl, 1)
            else:
                sid, sr, a, mx = c.array('A', 'TYPE_STR', n)
                c.depth('sp', lo=n)
                idx = subscripts(c, n)
                for i, m in zip(idx, mx):
                    c.assume(('ge', m - i))
                val = c.elem(a, 'TYPE_STR', idx, mx)
                old = c.get(val)
                old.r.string = True
                old.r.maybe_null = True
                c.owned[old.r] = 'the previous value'
            c.operand('u.param.symbol_id', sid)
            c.operand('u.param.params', n)
            c.want_sp(-n)
            c.want('inp', p + k)
            t = ('lit', b'')
            for v in vs[:k]:
                t = cat(t, ('chr', IV(8, v)))
            c.want(val, Str(k, t))
            c.next_pc()
            # the input line itself is as it was
            fl = c.lay['input']

            def same(c, s, o, p=p, vs=vs, fl=fl):
                for q, v in enumerate(vs):
                    a = c.ai.load(s, PV(c.vm, Lin(fl.off) + p + q, (Lin(fl.off), Lin(fl.off + fl.size))), I8)
                    st, pred, extra = equal(c.ai, s, IV(8, v), a)
                    if st != YES:
                        return st, pred, extra, 'input character %d is changed to %r' % (q, a)
                return YES, None, (), ''
            c.check(['C30'], 'the rest of the line', same)
            in_input(c)
            b.go(c)


@spec('B_INPUT_LINE')
def _input_line(b):
    for n in (0, 1):
        for name, newline in (('a line with its newline', True), ('a line without newline', False)):
            c = b.case('%s, %s' % (name, 'variable' if n == 0 else 'array element'), ['C30', 'C31'])
            c.put('inp', 0)
            fl = c.lay['input']
            ln = c.atom('linelen', 1, fl.size - 1)
            t = ('gets', 0)
            ext = (Lin(fl.off), Lin(fl.off + fl.size))
            base = Lin(fl.off)
            if newline:
                body = c.ai.region('ghost', 'typed', name='typed text')
                lb = LA(AT.get(('len', body.name, body.id), 0, fl.size - 2))
                term = cat(('str', body), ('lit', b'\n'))
                c.st.mem[c.vm] = Node(c.st.mem.get(c.vm), 's', base, lb + 1, term, ext)

                def strchr(ai, st, fr, ins, a, lb=lb, base=base):
                    if a[0].r is c.vm and st.f.norm(a[1].l) == Lin(10):
                        return [Outcome('ret', st, PV(c.vm, st.f.norm(base + lb), ext))]
                    return None
                c.ai.icpt['strchr'] = strchr
            else:
                body = c.ai.region('ghost', 'typed', name='typed text')
                lb = LA(AT.get(('len', body.name, body.id), 0, fl.size - 1))
                term = ('str', body)
                c.st.mem[c.vm] = Node(c.st.mem.get(c.vm), 's', base, lb, term, ext)

                def strchr(ai, st, fr, ins, a):
                    if a[0].r is c.vm and st.f.norm(a[1].l) == Lin(10):
                        return [Outcome('ret', st, NULLP)]
                    return None
                c.ai.icpt['strchr'] = strchr
            if n == 0:
                sid, r, val, dl = c.variable('V', 'TYPE_STR', True)
                c.owned[c.get(val).r] = 'the previous value'
                c.want(dl, 1)
            else:
                sid, sr, a, mx = c.array('A', 'TYPE_STR', 1)
                c.depth('sp', lo=1)
                idx = subscripts(c, 1)
                c.assume(('ge', mx[0] - idx[0]))
                val = c.elem(a, 'TYPE_STR', idx, mx)
                old = c.get(val)
                old.r.string = True
                old.r.maybe_null = True
                c.owned[old.r] = 'the previous value'
            c.operand('u.param.symbol_id', sid)
            c.operand('u.param.params', n)
            c.want_sp(-n)
            c.want(val, Str(lb, ('str', body)))
            c.want('inp', ANY)
            c.next_pc()
            in_input(c)
            b.go(c)
    for text in (b'', b' A ', b'A,B', b'"A"', b'A\rB', b'A\tB\r', b'\xe9', b'12', b'A: B', b'A' * 60):
        for nl in (True, False):
            if not nl and not text:
                continue
            c = b.case('the line %r%s' % (text[:9].decode('latin1'), '' if nl else ', without newline'), ['C30', 'C31'])
            c.ai.unroll = 80
            _input(c, [x if x < 128 else x - 256 for x in text + (b'\n' if nl else b'')] + [NUL], Lin(0))
            sid, r, val, dl = c.variable('V', 'TYPE_STR', True)
            c.owned[c.get(val).r] = 'the previous value'
            c.want(dl, 1)
            c.operand('u.param.symbol_id', sid)
            c.operand('u.param.params', 0)
            c.want(val, Str(len(text), ('lit', text)))
            c.want('inp', ANY)
            c.next_pc()
            in_input(c)
            b.go(c)


# ------------------------------------------------------------------------------------------ DATA

def _data_code(c, which, dp, dist, end):
    """instructions from dp on: dist then DATA (or the end of the code); returns (index, text)"""
    p = c.p
    bc, inst, src, used = c.bcs[which]
    for k, d in enumerate(dist):
        c.st.mem[inst] = Node(c.st.mem.get(inst), 'w', (dp + k).scale(c.istep) + c.isz['op'].off, 2, IV(16, p.enum(d)))
    at = dp + len(dist)
    if end:
        c.assume(('eq', used - at))
        return at, None
    c.assume(('ge', used - at - 1))
    s = c.ai.region('lazy', 'datum', name='DATA item', string=True)
    c.st.mem[inst] = Node(c.st.mem.get(inst), 'w', at.scale(c.istep) + c.isz['op'].off, 2, IV(16, p.enum('B_DATA')))
    c.st.mem[inst] = Node(c.st.mem.get(inst), 'w', at.scale(c.istep) + c.isz['u.str'].off, 8, PV(s))
    return at, s


def _has_data(c, which, v):
    bc = c.bcs[which][0]
    c.st.mem[bc] = Node(c.st.mem.get(bc), 'w', Lin(c.p.off('BCODE', 'has_data')), 1, IV(8, v))


@spec('B_READ_NUM', 'B_READ_STR')
def _read(b):
    num = b.op.endswith('NUM')
    typ = 'TYPE_NUM' if num else 'TYPE_STR'

    def target(c, n):
        if n == 0:
            sid, r, val, dl = c.variable('V', typ, True)
            if not num:
                c.owned[c.get(val).r] = 'the previous value'
            c.want(dl, 1)
        else:
            sid, sr, a, mx = c.array('A', typ, n)
            c.depth('sp', lo=n)
            idx = subscripts(c, n)
            for i, m in zip(idx, mx):
                c.assume(('ge', m - i))
            val = c.elem(a, typ, idx, mx)
            if not num:
                old = c.get(val)
                old.r.string = True
                old.r.maybe_null = True
                c.owned[old.r] = 'the previous value'
        c.operand('u.param.symbol_id', sid)
        c.operand('u.param.params', n)
        c.want_sp(-n)
        return val

    def dpos(c, which, field):
        dp = c.iget(field)
        bc, inst, src, used = c.bcs[which]
        if which == 'stored_program' and c.variant == 'stored' or which == 'immediate_code' and c.variant == 'immediate':
            c.assume(('ge', dp - c.pc - 1))
        c.assume(('ge', used - dp))
        return dp

    scen = [('stored', 'stored_program', 'program_data', 'program DATA'),
            ('immediate', 'immediate_code', 'immediate_data', 'DATA of the immediate line'),
            ('immediate', 'stored_program', 'program_data', 'program DATA from an immediate line')]
    for variant, which, field, label in scen:
        for n in (0, 1):
            for dist in ([], ['B_SOURCE_LINE'], ['B_NOP', 'B_RESTORE', 'B_SOURCE_LINE'], others('B_DATA')):
                if n and len(dist) >= 3:
                    continue
                c = b.case('%s, %s, %d instructions before the item' % (label, 'variable' if n == 0 else 'array element', len(dist)),
                           ['C25', 'C31'], variant)
                c.ai.unroll = 8 + len(dist)
                if which != ('stored_program' if variant == 'stored' else 'immediate_code'):
                    bcr = c.bcs['stored_program'][0]
                    bcr.maybe_null = False
                    _has_data(c, 'immediate_code', 0)
                _has_data(c, which, 1)
                dp = dpos(c, which, field)
                at_, s = _data_code(c, which, dp, dist, False)
                ln = c.ai.strlen_base(s)
                if num:
                    x = _convert(c, 'num', None, ln)
                val = target(c, n)
                c.want(val, x if num else Str(ln, ('str', s)))
                c.want(field, at_ + 1, ('C25',))
                c.next_pc()
                b.go(c)
        for dist in ([], ['B_NOP', 'B_SOURCE_LINE'], others('B_DATA')):
            c = b.case('%s, past the last item, %d instructions on' % (label, len(dist)), ['C25'], variant)
            c.ai.unroll = 8 + len(dist)
            if which != ('stored_program' if variant == 'stored' else 'immediate_code'):
                c.bcs['stored_program'][0].maybe_null = False
                _has_data(c, 'immediate_code', 0)
            _has_data(c, which, 1)
            dp = dpos(c, which, field)
            _data_code(c, which, dp, dist, True)
            target(c, 0)
            c.error()
            b.go(c)
    c = b.case('no DATA', ['C25'])
    _has_data(c, 'stored_program', 0)
    target(c, 0)
    c.error()
    b.go(c)
    c = b.case('no program', ['C25'], 'immediate')
    _has_data(c, 'immediate_code', 0)
    c.put('stored_program.bcode', NULLP)
    target(c, 0)
    c.error()
    b.go(c)
    if num:
        for name, kind in (('text that is no number', 'none'), ('a number followed by text', 'num')):
            c = b.case(name, ['C25'])
            _has_data(c, 'stored_program', 1)
            dp = dpos(c, 'stored_program', 'program_data')
            at_, s = _data_code(c, 'stored_program', dp, [], False)
            u = c.atom('numlen', 1, 1 << 20)
            c.assume(('ge', c.ai.strlen_base(s) - u - 1))
            _convert(c, kind, None, u)
            target(c, 0)
            c.error()
            b.go(c)


@spec('B_RESTORE')
def _restore(b):
    for v in ('stored', 'immediate'):
        c = b.case('any position', ['C25'], v)
        c.want('program_data', 0)
        c.want('immediate_data', ANY if v == 'stored' else 0)
        c.next_pc()
        b.go(c)


@spec('B_RESTORE_LINE')
def _restore_line(b):
    for v in ('stored', 'immediate'):
        for exists in (True, False):
            c = b.case('the line exists' if exists else 'no such line', ['C25'], v)
            c.line_map()
            l = c.atom('target', 1, 0xffffffff)
            c.operand('u.basic_line.lineno', l)
            t = c.line(l, exists)
            if exists:
                c.want('program_data', t)
                c.next_pc()
            else:
                c.error()
            b.go(c)


# ------------------------------------------------------------------------------------------ random numbers

@spec('B_RAND')
def _rand(b):
    c = b.case('any state', ['C33'])
    c.seeds = None
    c.next_pc()
    b.go(c)


@spec('B_SEED')
def _seed(b):
    c = b.case('an integer', ['C33'])
    c.seeds = None
    c.depth('sp', lo=1)
    k = c.integral(c.nums(1)[0], 0, 4294967295)
    c.want_sp(-1)
    c.next_pc()

    def seeded(c, s, o):
        ev = [e for e in s.events() if e[0] == 'srand']
        if len(ev) != 1:
            return (NO if not ev else MAYBE), None, (), 'the generator is seeded %d times' % len(ev)
        v = ev[0][1]
        if not isinstance(v, IV):
            return MAYBE, None, (), ''
        d = s.f.norm(v.l - k)
        if not d.t:
            return (YES if d.c % (1 << 32) == 0 else MAYBE), (lambda env: True), (), ''
        if set(d.atoms()) <= set(k.atoms()):
            return YES, None, (), ''        # some function of the number alone
        if any(AT.key[a][0] in ('time', 'rand', 'init') for a in d.atoms()):
            return NO, None, (), 'the seed %r depends on something else than the number' % (v,)
        return MAYBE, None, (), ''
    c.check(['C33'], 'seed', seeded)
    b.go(c)
    for q in range(4):
        c = b.case('seed %s' % OpCase.BAD[q], ['C33', 'C28'])
        c.seeds = None
        c.depth('sp', lo=1)
        c.bad_unsigned(c.nums(1)[0], q)
        c.error()
        b.go(c)
    b.underflow(1, 0)


@spec('B_RND')
def _rnd(b):
    c = b.case('any state', ['C33', 'C09'])
    c.rands = None
    c.depth('sp', hi=c.cap['sp'] - 1)
    d = c.iget('sp')
    c.want('stack[]', ANY, idx=d)
    c.want_sp(1)
    c.next_pc()

    def inrange(c, s, o):
        v = c.ai.load(s, c.loc('stack[]', d).pv(), DOUBLE)
        if not isinstance(v, FE):
            return MAYBE, None, (), ''
        lo, lo_o, hi, hi_o, nan, it = s.f.frange(v)
        if lo >= 0 and (hi < 1 or hi == 1 and hi_o) and not nan:
            return YES, None, (), ''
        return MAYBE, (lambda env: not (0 <= env.fe(v) < 1)), (v,), 'RND yields %r, in %r..%r' % (v, lo, hi)
    c.check(['C33'], 'range of RND', inrange)

    def drawn(c, s, o):
        n = [e for e in flat_events(s.events()) if e[0] == 'rand']
        if not n:
            return NO, None, (), 'no random number is drawn'
        return YES, None, (), ''
    c.check(['C33'], 'source of RND', drawn)
    b.go(c)

    def setup(c):
        c.rands = None
    b.overflow('sp', 0, 0, setup)


# ------------------------------------------------------------------------------------------ built-in functions

MATH = {'B_ABS': 'fabs', 'B_ATN': 'atan', 'B_COS': 'cos', 'B_EXP': 'exp', 'B_INT': 'floor', 'B_SIN': 'sin', 'B_SQR': 'sqrt', 'B_TAN': 'tan'}


@spec(*MATH)
def _math(b):
    c = b.case('in its domain', ['C09'])
    c.depth('sp', lo=1)
    x, = c.nums(1)
    if b.op == 'B_SQR':
        c.assume(('f', GT | EQ, x, fc(0.0)))
    c.push_num(c.ai.mkf(MATH[b.op], x), 1)
    c.next_pc()
    b.go(c)
    b.underflow(1, 0)


@spec('B_LOG')
def _log(b):
    c = b.case('positive', ['C09'])
    c.depth('sp', lo=1)
    x, = c.nums(1)
    c.assume(('f', GT, x, fc(0.0)))
    c.push_num(c.ai.mkf('log', x), 1)
    c.next_pc()
    b.go(c)
    for name, m in (('negative', LT), ('zero', EQ)):
        c = b.case(name, ['C09'])
        c.depth('sp', lo=1)
        c.assume(('f', m, c.nums(1)[0], fc(0.0)))
        c.error()
        b.go(c)
    b.underflow(1, 0)


@spec('B_SGN')
def _sgn(b):
    for name, m, v in (('negative', LT, -1.0), ('zero', EQ, 0.0), ('positive', GT, 1.0)):
        c = b.case(name, ['C09'])
        c.depth('sp', lo=1)
        c.assume(('f', m, c.nums(1)[0], fc(0.0)))
        c.push_num(fc(v), 1)
        c.next_pc()
        b.go(c)
    b.underflow(1, 0)


@spec('B_ASC')
def _asc(b):
    for name in ('empty', 'one or more characters'):
        c = b.case(name, ['C09'])
        c.depth('ssp', lo=1)
        c.depth('sp', hi=c.cap['sp'] - 1)
        (r, ln, t), = c.strs(1)
        d = c.iget('sp')
        c.want_ssp(-1)
        c.want_sp(1)
        if name == 'empty':
            c.assume(('eq', ln))
            c.want('stack[]', fc(0.0), idx=d)
        else:
            c.assume(('ge', ln - 1))
            ch = c.ai.str_char(c.st, r, ZERO, c.st.f.norm(ln), ZERO, ('str', r))
            c.want('stack[]', ANY, idx=d)

            def code(c, s, o, ch=ch, d=d):
                v = c.ai.load(s, c.loc('stack[]', d).pv(), DOUBLE)
                if not isinstance(v, FE):
                    return MAYBE, None, (), ''
                l = s.f.norm(ch.l)
                u = c.ai.uview(s, IV(8, l))
                if v is fe('i2f', u):
                    return YES, None, (), ''
                return MAYBE, (lambda env: env.fe(v) != env.lin(l) % 256), (v, l), 'ASC yields %r for the character %r' % (v, ch)
            c.check(['C09'], 'character code', code)
        c.next_pc()
        b.go(c)
    b.underflow(0, 1)
    b.overflow('sp', 0, 1)


@spec('B_CHR')
def _chr(b):
    c = b.case('code 0', ['C09'])
    c.depth('sp', lo=1)
    c.depth('ssp', hi=c.cap['ssp'] - 1)
    c.integral(c.nums(1)[0], 0, 0)
    c.push_str(0, ('lit', b''), 0)
    c.want_sp(-1)
    c.next_pc()
    b.go(c)
    for name, lo, hi in (('a code from 1 to 127', 1, 127), ('a code from 128 to 255', 128, 255)):
        c = b.case(name, ['C09'])
        c.depth('sp', lo=1)
        c.depth('ssp', hi=c.cap['ssp'] - 1)
        k = c.integral(c.nums(1)[0], lo, hi)
        c.want_sp(-1)
        c.push_str(1, ('chr', IV(8, k)), 0)
        c.next_pc()
        b.go(c)
    for name, f in (('negative', lambda c, x: c.assume(('f', LT, x, fc(0.0)))), ('above 255', lambda c, x: c.assume(('f', GT, x, fc(255.0)))),
                    ('fractional', lambda c, x: c.fractional(x)), ('not a number', lambda c, x: c.nan(x))):
        c = b.case('code %s' % name, ['C09', 'C28'])
        c.depth('sp', lo=1)
        c.depth('ssp', hi=c.cap['ssp'] - 1)
        f(c, c.nums(1)[0])
        c.error()
        b.go(c)
    b.underflow(1, 0)

    def setup(c):
        c.depth('sp', lo=1)
        c.integral(c.nums(1)[0], 1, 127)
    b.overflow('ssp', 1, 0, setup)


@spec('B_LEFT', 'B_RIGHT')
def _left(b):
    left = b.op == 'B_LEFT'
    for name in ('part of the string', 'the whole string'):
        c = b.case(name, ['C09', 'C02'])
        c.depth('sp', lo=1)
        c.depth('ssp', lo=1)
        u = c.integral(c.nums(1)[0], 0, 4294967295)
        (r, ln, t), = c.strs(1)
        c.assume(('ge', -ln + 255))
        c.want_sp(-1)
        if name.startswith('part'):
            c.assume(('ge', ln - u - 1))
            c.push_str(u, sub(t, ZERO if left else ln - u, u), 1)
        else:
            c.assume(('ge', u - ln))
            c.push_str(ln, t, 1)
        c.next_pc()
        b.go(c)
    for q in range(4):
        c = b.case('count %s' % OpCase.BAD[q], ['C09', 'C28'])
        c.depth('sp', lo=1)
        c.depth('ssp', lo=1)
        c.bad_unsigned(c.nums(1)[0], q)
        c.error()
        b.go(c)
    # whatever the lengths: no access outside, nothing forgotten
    c = b.case('any string and count', ['C02'])
    c.depth('sp', lo=1)
    c.depth('ssp', lo=1)
    c.integral(c.nums(1)[0], 0, 4294967295)
    c.strs(1)
    c.want_sp(-1)
    d = c.iget('ssp')
    c.want('strstack[]', ANY, idx=d - 1)
    c.want_ssp(0)
    c.next_pc()
    c.either = True
    b.go(c)
    b.underflow(1, 1)


@spec('B_MID3')
def _mid(b):
    for name in ('inside the string', 'to the end', 'nothing'):
        c = b.case(name, ['C09', 'C02'])
        c.depth('sp', lo=2)
        c.depth('ssp', lo=1)
        xv, xu = c.nums(2)
        v, u = c.integral(xv, 0, 4294967295), c.integral(xu, 1, 4294967295)
        (r, ln, t), = c.strs(1)
        c.assume(('ge', -ln + 255), ('ge', ln - u))
        c.want_sp(-2)
        if name == 'inside the string':
            c.assume(('ge', ln - u + 1 - v - 1), ('ge', v - 1))
            c.push_str(v, sub(t, u - 1, v), 1)
        elif name == 'to the end':
            c.assume(('ge', v - (ln - u + 1)))
            c.push_str(ln - u + 1, sub(t, u - 1, ln - u + 1), 1)
        else:
            c.assume(('eq', v))
            c.push_str(0, ('lit', b''), 1)
        c.next_pc()
        b.go(c)
    for name in ('start 0', 'start beyond the string'):
        c = b.case(name, ['C09', 'C02'])
        c.depth('sp', lo=2)
        c.depth('ssp', lo=1)
        xv, xu = c.nums(2)
        c.integral(xv, 0, 4294967295)
        (r, ln, t), = c.strs(1)
        if name == 'start 0':
            c.integral(xu, 0, 0)
        else:
            u = c.integral(xu, 1, 4294967295)
            c.assume(('ge', u - ln - 1))
        c.error()
        b.go(c)
    for which in (0, 1):
        for q in range(4):
            c = b.case('%s %s' % (('length', 'start')[which], OpCase.BAD[q]), ['C09', 'C28'])
            c.depth('sp', lo=2)
            c.depth('ssp', lo=1)
            xs = c.nums(2)
            c.integral(xs[1 - which], 1, 100)
            c.bad_unsigned(xs[which], q)
            c.error()
            b.go(c)
    c = b.case('any string, start and length', ['C02'])
    c.depth('sp', lo=2)
    c.depth('ssp', lo=1)
    for x in c.nums(2):
        c.integral(x, 0, 4294967295)
    c.strs(1)
    c.want_sp(-2)
    d = c.iget('ssp')
    c.want('strstack[]', ANY, idx=d - 1)
    c.want_ssp(0)
    c.next_pc()
    c.either = True
    b.go(c)
    b.underflow(2, 1)


@spec('B_LEN')
def _len(b):
    c = b.case('any string', ['C09'])
    c.depth('ssp', lo=1)
    c.depth('sp', hi=c.cap['sp'] - 1)
    (r, ln, t), = c.strs(1)
    c.want('stack[]', fe('i2f', ln), idx=c.iget('sp'))
    c.want_sp(1)
    c.want_ssp(-1)
    c.next_pc()
    b.go(c)
    b.underflow(0, 1)
    b.overflow('sp', 0, 1)


@spec('B_STR')
def _str(b):
    c = b.case('any number', ['C09', 'C02'])
    c.depth('sp', lo=1)
    c.depth('ssp', hi=c.cap['ssp'] - 1)
    x, = c.nums(1)
    d = c.iget('ssp')
    c.want('strstack[]', ANY, idx=d)
    c.want_sp(-1)
    c.want_ssp(1)
    c.next_pc()

    def text(c, s, o):
        v = c.ai.load(s, c.loc('strstack[]', d).pv(), PTR)
        if not isinstance(v, PV) or v.r is None:
            return MAYBE, None, (), ''
        ln, term = c.ai.strlen(s, v)
        if term is None:
            return MAYBE, None, (), ''
        if term[0] == 'fmt' and term[1] == b'%g' and len(term[2]) == 1 and term[2][0] is x:
            return YES, None, (), ''
        want = ('fmt', b'%g', (x,))
        return MAYBE, (lambda env: not close_text(env.term(term), env.fe(x))), (x,), 'STR$ yields %s' % show_term(term)
    c.check(['C09'], 'text of the number', text)
    b.go(c)
    b.underflow(1, 0)
    b.overflow('ssp', 1, 0)


def close_text(bs, v):
    """does the text denote the number to the documented precision?"""
    try:
        w = float(bs.strip())
    except ValueError:
        return not (math.isfinite(v))
    if math.isnan(v) or math.isnan(w):
        return math.isnan(v) == math.isnan(w)
    if math.isinf(v) or math.isinf(w):
        return v == w
    return abs(w - v) <= abs(v) * 1e-5


@spec('B_TIME_STR')
def _time(b):
    c = b.case('any time', ['C09', 'C02'])
    c.depth('ssp', hi=c.cap['ssp'] - 1)
    d = c.iget('ssp')
    c.want('strstack[]', ANY, idx=d)
    c.want_ssp(1)
    c.next_pc()
    b.go(c)
    b.overflow('ssp', 0, 0)


@spec('B_VAL')
def _val(b):
    for name, kind in (('a number', 'num'), ('a number followed by text', 'rest'), ('no number', 'none')):
        c = b.case(name, ['C09'])
        c.depth('ssp', lo=1)
        c.depth('sp', hi=c.cap['sp'] - 1)
        (r, ln, t), = c.strs(1)
        u = ln
        if kind == 'rest':
            u = c.atom('numlen', 1, 1 << 20)
            c.assume(('ge', ln - u - 1))
        x = _convert(c, 'none' if kind == 'none' else 'num', None, u)
        if kind == 'num':
            c.want('stack[]', x, idx=c.iget('sp'))
            c.want_sp(1)
            c.want_ssp(-1)
            c.next_pc()
        else:
            c.error()
        b.go(c)
    b.underflow(0, 1)


@spec('B_INKEY')
def _inkey(b):
    c = b.case('any state', ['C09'])
    c.error()
    b.go(c)


@spec('B_CLEAR')
def _clear(b):
    c = b.case('any state', ['C31'])
    st, psym, used = c.symtab()
    done = []

    def clear(ai, s, fr, ins, a):
        s.emit('clear_values', a[0], ins)
        return [Outcome('ret', s, None)]
    c.ai.icpt['clear_symbol_table_values'] = clear
    c.next_pc()

    def cleared(c, s, o):
        ev = [e for e in s.events() if e[0] == 'clear_values']
        if ev and isinstance(ev[0][1], PV) and ev[0][1].r is st:
            return YES, None, (), ''
        if not any(g.name == 'clear_symbol_table_values' for g in c.p.all):
            return MAYBE, None, (), ''
        return NO, None, (), 'the variables are not cleared'
    c.check(['C31'], 'variables cleared', cleared)
    b.go(c)
