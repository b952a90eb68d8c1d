"""The stored program (Basic/source.c): abstract interpretation of every operation on small symbolic programs."""
from ..fnx import *
from ..fnx import FnBench
from ..units import Unit

SRC, LN = 'SOURCE', 'source_line'


class SrcCase(FnCase):
    def source(self, n, spare=1, named=True):
        """a stored program of n lines with symbolic ascending numbers; spare = free line slots"""
        self.n = n
        if n > 8:
            # a long program: its own numbers are fixed, so that every position has room for a new one
            self.nums = [Lin(100 * (i + 1)) for i in range(n)]
            self.ai.unroll = n + 8
            self.ai.unroll_steps = max(getattr(self.ai, 'unroll_steps', 0) or 0, 1 << 20)
        else:
            self.nums = [self.atom('line%d' % (i + 1), 1, (1 << 32) - 1) for i in range(n)]
            for a, b in zip(self.nums, self.nums[1:]):
                self.assume(('ge', b - a - 1))
        self.texts = [self.text('text%d' % (i + 1), own='text of line %d' % (i + 1)) for i in range(n)]
        cap = n + spare
        self.lines = self.array(LN, 'lines', [dict(num=a, text=t) for a, t in zip(self.nums, self.texts)], cap=cap,
                                own='the line table') if cap else None
        self.nm = self.text('name', own='the program name') if named else None
        self.src = self.obj(SRC, 'program', name=self.nm, lines=self.lines, allocated=cap, used=n, own='the program')
        return self.src

    def stale_ok(self, rr, off, s):
        # slots of the line table beyond the used part hold nothing
        if self.src in s.freed:
            return True
        v = self.ai.load(s, self.at(self.src, SRC, 'lines').pv(), PTR)
        if isinstance(v, PV) and v.r is rr:
            u = self.ai.load(s, self.at(self.src, SRC, 'used').pv(), I32)
            return s.f.prove_ge(off - u.l.scale(self.lay_size(LN)))
        return False

    def expect_lines(self, want, props, src=None):
        """want: list of (number Lin, Str)"""
        sz = self.lay_size(LN)

        def chk(c, s, o):
            r = src(o) if src else self.src
            if r is None:
                return NO, None, (), 'no program is returned'
            if r in s.freed:
                return NO, None, (), 'the program is released'
            u = c.ai.load(s, c.at(r, SRC, 'used').pv(), I32)
            st, pred, extra = equal(c.ai, s, IV(32, len(want)), u)
            if st != YES:
                return st, pred, extra, 'the program has %r lines, expected %d' % (u, len(want))
            if not want:
                return YES, None, (), ''
            lp = c.ai.load(s, c.at(r, SRC, 'lines').pv(), PTR)
            if not isinstance(lp, PV) or lp.r is None:
                return NO, None, (), 'no line table'
            al = c.ai.load(s, c.at(r, SRC, 'allocated').pv(), I32)
            if lp.r.size is not None:
                d = s.f.norm(lp.r.size - al.l.scale(sz))
                if not s.f.prove_ge(d):
                    return MAYBE, (lambda env: env.lin(d) < 0), (d,), 'the line table has room for fewer lines than recorded'
            for i, (n, t) in enumerate(want):
                a = c.ai.load(s, PV(lp.r, lp.off + i * sz + c.field(LN, 'num').off), I32)
                st, pred, extra = equal(c.ai, s, IV(32, n), a)
                if st != YES:
                    return st, pred, extra, 'line %d of the program has number %r, expected %r' % (i + 1, a, n)
                a = c.ai.load(s, PV(lp.r, lp.off + i * sz + c.field(LN, 'text').off), PTR)
                x = c.cmp(s, 'text of line %d' % (i + 1), t, a)
                if x[0] != YES:
                    return x
            return YES, None, (), ''
        self.check(props, 'program lines', chk)

    def want_same(self):
        return [(a, Str(self.len(t), ('str', t))) for a, t in zip(self.nums, self.texts)]

    def bound(self):
        for l in ('used', 'lines', 'allocated'):
            self.want(self.at(self.src, SRC, l), ANY)
        sz = self.lay_size(LN)
        self.nonframe.append(lambda s, r, off, size: r is self.lines)


def enter(b, n):
    for spare in (0, 1):
        rels = []
        for i in range(n):
            rels += [('before', i), ('same', i)]
        if n > 8:
            rels = [r for r in rels if r[1] in (0, n // 2, n - 1)]
        rels += [('after', n - 1)]
        for rel, i in rels:
            nm = {'before': 'before line %d' % (i + 1), 'same': 'replacing line %d' % (i + 1), 'after': 'after the last line'}[rel]
            c = b.case('%d lines, %s room, %s' % (n, 'with' if spare else 'without', nm), ['C24'], 'enter_source_line', cls=SrcCase)
            c.source(n, spare)
            num = c.atom('new', 1, (1 << 32) - 1)
            t = c.text('new text')
            same = c.want_same()
            new = (num, Str(c.len(t), ('str', t)))
            if rel == 'before':
                c.assume(('ge', c.nums[i] - num - 1))
                if i:
                    c.assume(('ge', num - c.nums[i - 1] - 1))
                want = same[:i] + [new] + same[i:]
            elif rel == 'same':
                c.assume(('eq', num - c.nums[i]))
                want = same[:i] + [new] + same[i + 1:]
            else:
                if n:
                    c.assume(('ge', num - c.nums[-1] - 1))
                want = same + [new]
            c.call(c.src, IV(32, num), t)
            c.bound()
            c.expect_lines(want, ['C24'])
            c.sus_props = ['C11']
            b.go(c)
    c = b.case('%d lines, line number 0' % n, ['C24', 'C17'], 'enter_source_line', cls=SrcCase)
    c.source(n)
    t = c.text('new text')
    c.call(c.src, 0, t)
    c.expect_lines(c.want_same(), ['C24'])
    b.go(c)


def delete(b, n):
    for i in range(n) if n < 9 else (0, n // 2, n - 1):
        c = b.case('%d lines, line %d deleted' % (n, i + 1), ['C24'], 'delete_source_line', cls=SrcCase)
        c.source(n)
        c.call(c.src, i)
        c.bound()
        w = c.want_same()
        c.expect_lines(w[:i] + w[i + 1:], ['C24'])
        c.sus_props = ['C11']
        b.go(c)
    c = b.case('%d lines, no such line' % n, ['C24', 'C17'], 'delete_source_line', cls=SrcCase)
    c.source(n)
    k = c.atom('k', 0, (1 << 32) - 1)
    c.assume(('ge', k - n))
    c.call(c.src, IV(32, k))
    c.expect_lines(c.want_same(), ['C24'])
    b.go(c)


def whole(b, n):
    for named in (True, False):
        c = b.case('%d lines, %s' % (n, 'named' if named else 'no name'), ['C11'], 'delete_source', cls=SrcCase)
        c.source(n, named=named)
        c.call(c.src)
        c.free_frame = True

        def gone(c, s, o):
            for r, d in c.owned.items():
                if r not in s.freed:
                    return NO, None, (), '%s is not released' % d
            return YES, None, (), ''
        c.check(['C11'], 'everything released', gone)
        b.go(c)
    c = b.case('%d lines' % n, ['C11', 'C24', 'C12'], 'clear_source', cls=SrcCase)
    c.source(n)
    c.call(c.src)
    c.bound()
    c.expect_lines([], ['C24'])
    b.go(c)


def find(b, n):
    for i in range(-1, n):
        c = b.case('%d lines, %s' % (n, 'present' if i >= 0 else 'absent'), ['C24', 'C23'], 'find_source_linenum', cls=SrcCase)
        c.source(n)
        num = c.atom('num', 1, (1 << 32) - 1)
        out = c.slot('index', I32)
        for k in range(n):
            c.assume(('eq' if k == i else 'ne', num - c.nums[k]))
        c.call(c.src, IV(32, num), out)
        c.returns(1 if i >= 0 else 0)
        if i >= 0:
            c.want(out, i)
        b.go(c)


def wrap(b):
    c = b.case('any text', ['C17', 'C24'], 'wrap_source_text', cls=SrcCase)
    t = c.text('command')
    c.call(t)
    c.src = Region('x', 'x')
    c.expect_lines([(Lin(0), Str(c.len(t), ('str', t)))], [], src=lambda o: o.val.r)
    b.go(c)
    for nm in (True, False):
        c = b.case('new program', ['C24', 'C11'], 'new_source', cls=SrcCase)
        c.src = Region('x', 'x')
        t = c.text('name') if nm else None
        c.call(t)
        c.expect_lines([], [], src=lambda o: o.val.r)
        if nm:
            c.check([], 'name', lambda c, s, o: c.cmp(s, 'name', Str(c.len(t), ('str', t)), c.ai.load(s, c.at(o.val.r, SRC, 'name').pv(), PTR)))
        b.go(c)


def numbering(b, n):
    for i in range(n):
        c = b.case('set the number of line %d of %d' % (i + 1, n), ['C23', 'C24'], 'set_source_linenum', cls=SrcCase)
        c.source(n)
        num = c.atom('num', 1, (1 << 32) - 1)
        c.call(c.src, i, IV(32, num))
        c.bound()
        w = c.want_same()
        w[i] = (num, w[i][1])
        c.expect_lines(w, [])
        b.go(c)
        for fn, want in (('source_linenum', lambda c: IV(32, c.nums[i])), ('source_text', lambda c: PV(c.texts[i]))):
            c = b.case('line %d of %d' % (i + 1, n), ['C24', 'C15', 'C27'], fn, cls=SrcCase)
            c.source(n)
            c.call(c.src, i)
            c.returns(want(c))
            b.go(c)
    c = b.case('%d lines' % n, ['C24'], 'source_lines', cls=SrcCase)
    c.source(n)
    c.call(c.src)
    c.returns(IV(32, n))
    b.go(c)


def replace(b):
    """text of a line: pos characters, then `from`, then the rest"""
    for how in ('matches', 'differs', 'beyond the end', 'no such line'):
        c = b.case(how, ['C23'], 'source_replace', cls=SrcCase)
        c.source(2)
        fr, to = c.text('from'), c.text('to')
        pos = c.atom('pos', 0, 1 << 16)
        t = c.texts[1]
        L, F, T = c.len(t), c.len(fr), c.len(to)
        for x in (L, F, T):
            c.assume(('ge', -x + 60000))
        line = 1
        c.sus_props = ['C02']
        c.bound()
        if how == 'matches' or how == 'differs':
            c.assume(('ge', L - pos - F))
            key = ('matches',)

            def cmpn(ai, st, frm, ins, a, m=how == 'matches', pos=pos, t=t):
                # contract of strncmp on the two texts at the position
                ok = isinstance(a[0], PV) and a[0].r is t and st.f.prove_eq(a[0].off - pos) and isinstance(a[1], PV) and \
                    a[1].r is fr and st.f.prove_eq(a[1].off) and st.f.prove_eq(ai.sview(st, a[2]) - F)
                if not ok:
                    return None
                if m:
                    return [Outcome('ret', st, IV(32, 0))]
                v = LA(AT.fresh('order', -255, 255))
                st.f.assume_ne(v)
                return [Outcome('ret', st, IV(32, v))]
            c.ai.icpt['strncmp'] = cmpn
        elif how == 'beyond the end':
            c.assume(('ge', pos + F - L - 1))
        else:
            line = c.atom('k', 2, (1 << 32) - 1)
        c.call(c.src, IV(32, line), IV(32, pos), fr, to)
        same = c.want_same()
        if how == 'matches':
            term = ('cat', (('sub', ('str', t), ZERO, pos), ('str', to), ('sub', ('str', t), pos + F, L - pos - F)))
            same[1] = (same[1][0], Str(L - F + T, term))
            c.returns(1)
        else:
            c.returns(0)
        c.expect_lines(same, [])
        b.go(c)


# ------------------------------------------------------------------------------------------------ files
def scripted(c, lines, err=False):
    """fgets delivers these lines: each a list of (value constraint) characters or a term; then end of file"""
    def gets(ai, st, fr, ins, a):
        k = sum(1 for e in st.events() if e[0] == 'line')
        n = st.f.norm(ai.sview(st, a[1]))
        ai.access(st, a[0], n, ins, 'write', fr)
        if k >= len(lines):
            st.emit('eof', ins)
            return [Outcome('ret', st, NULLP)]
        st.emit('line', k, ins)
        off = a[0].off
        chars, tail = lines[k]
        for i, v in enumerate(chars):
            st.mem[a[0].r] = Node(st.mem.get(a[0].r), 'w', off + i, 1, IV(8, v if isinstance(v, Lin) else Lin(v)), a[0].ext)
        if tail is not None:
            r, nl = tail
            ln = ai.strlen_base(r)
            term = ('str', r) if not nl else cat(('str', r), ('lit', b'\n'))
            ai.set_str(st, PV(a[0].r, off + len(chars), a[0].ext), ln + (1 if nl else 0), term)
        else:
            st.mem[a[0].r] = Node(st.mem.get(a[0].r), 'w', off + len(chars), 1, IV(8, 0), a[0].ext)
        return [Outcome('ret', st, a[0])]
    c.ai.icpt['fgets'] = gets

    def ferr(ai, st, fr, ins, a):
        return [Outcome('ret', st, IV(32, 1 if err else 0))]
    c.ai.icpt['ferror'] = ferr
    c.ai.icpt['isdigit'] = lambda ai, st, fr, ins, a: None


def digits(c, k, tag):
    ds = [c.atom('%s digit %d' % (tag, i), 48, 57) for i in range(k)]
    v = Lin(0)
    for d in ds:
        v = v.scale(10) + d - 48
    return ds, v


def closed(c, s, o):
    """every file opened and not null is closed, once"""
    for e in flat_events(s.events()):
        if e[0] == 'open':
            n = c.ai.evalc(s, ('null', e[1]))
            if n is None:
                raise Split(('null', e[1]))
            k = sum(1 for x in flat_events(s.events()) if x[0] == 'io' and x[1] == 'fclose' and len(x) > 3 and (x[2] is e[1] or x[2] == e[1].name))
            if n and k:
                return NO, None, (), 'a file that was not opened is closed'
            if not n and k != 1:
                return NO, None, (), 'the file opened at %s is closed %d times' % (at(e[4]), k)
    return YES, None, (), ''


def load(b):
    def setup(name, lines, props, good, err=False, want=None):
        c = b.case(name, props, 'load_source_file', cls=SrcCase)
        c.src = Region('x', 'x')
        c.free_frame = True
        fn = c.text('file name')
        c.call(fn)
        return c

    def nullopen(c):
        c.check(['C11'], 'file closed', closed)

    c = b.case('the file cannot be opened', ['C17', 'C11'], 'load_source_file', cls=SrcCase)
    c.src = Region('x', 'x')
    c.call(c.text('file name'))
    c.ai.icpt['fopen'] = lambda ai, st, fr, ins, a: [Outcome('ret', st, NULLP)]
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)

    def fopen(ai, st, fr, ins, a):
        r = Region('file', ('file', next(AT.n)), name='FILE@%s' % at(ins))
        r.site = ins
        st.emit('open', r, None, a[0], ins)
        return [Outcome('ret', st, PV(r))]

    def mk(name, props=('C24',)):
        c = b.case(name, props, 'load_source_file', cls=SrcCase)
        c.src = Region('x', 'x')
        c.free_frame = True
        c.fname = c.text('file name')
        c.call(c.fname)
        c.ai.icpt['fopen'] = fopen
        c.check(['C11'], 'file closed', closed)
        c.sus_props = ['C02', 'C11']
        return c

    def line(c, tag, nd, sep, tail, nl=True):
        """a line of nd digits, a space or none, text or none; returns (script, number, expected text)"""
        L = c.text('line ' + tag, hi=200)
        term, n = ('str', L), c.len(L)

        def ch(i):
            return LA(AT.get(('chr', term, Lin(i)), -128, 127))
        v = Lin(0)
        for i in range(nd):
            c.assume(('ge', ch(i) - 48), ('ge', -ch(i) + 57))
            v = v.scale(10) + ch(i) - 48
        k = nd
        if sep:
            c.assume(('eq', ch(k) - 32))
            k += 1
        if tail:
            c.assume(('ge', n - k - 1))
            for x in [0] + ([] if sep else list(range(48, 58)) + [32]):
                c.assume(('ne', ch(k) - x))
        else:
            c.assume(('eq', n - k))
        c.seen_line = L
        return ([], (L, nl)), v, Str(n - k, ('sub', term, Lin(k), n - k))

    c = mk('an empty file')
    scripted(c, [])
    c.expect_lines([], ['C24'], src=lambda o: o.val.r)
    b.go(c)
    for nd in (1, 2, 3):
        for sep in (True, False):
            for tail in (True, False):
                c = mk('one line, %d digits%s%s' % (nd, ', a space' if sep else '', ', text' if tail else ''))
                l, v, t = line(c, 'a', nd, sep, tail)
                c.assume(('ge', v - 1))
                scripted(c, [l])
                c.expect_lines([(v, t)], ['C24'], src=lambda o: o.val.r)
                b.go(c)
    c = mk('line number 0', ('C24', 'C17'))
    l, v, t = line(c, 'a', 2, True, True)
    c.assume(('eq', v))
    scripted(c, [l])
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)
    for rel in ('ascending', 'equal', 'descending'):
        c = mk('two lines, %s numbers' % rel, ('C24', 'C17'))
        l1, v1, t1 = line(c, 'a', 2, True, True)
        l2, v2, t2 = line(c, 'b', 2, True, True)
        c.assume(('ge', v1 - 1), ('ge', v2 - 1))
        c.assume({'ascending': ('ge', v2 - v1 - 1), 'equal': ('eq', v2 - v1), 'descending': ('ge', v1 - v2 - 1)}[rel])
        scripted(c, [l1, l2])
        if rel == 'ascending':
            c.expect_lines([(v1, t1), (v2, t2)], ['C24'], src=lambda o: o.val.r)
        else:
            c.returns(None)
            c.check(['C17'], 'reported', told)
        b.go(c)
    # given texts: (lines of the file, lines of the program or None)
    for lines, want in (
            ([b'10 A', b'10 B'], None), ([b'10 A', b'20 B', b'20 C'], None), ([b'20 A', b'10 B'], None), ([b'10 A', b'20 B', b'15 C'], None),
            ([b'65535 A', b'65536 B'], [(65535, b'A'), (65536, b'B')]), ([b'65536 A', b'65535 B'], None),
            ([b'2147483647 A', b'2147483648 B'], [(2147483647, b'A'), (2147483648, b'B')]),
            ([b'4294967289 A'], [(4294967289, b'A')]), ([b'4294967296 A'], None), ([b'4294967300 A'], None), ([b'10 A', b'4294967316 B'], None),
            ([b'9999999999 A'], None), ([b'42949672960 A'], None), ([b'42949672970 A'], None), ([b'18446744073709551626 A'], None),
            ([b'10 '], [(10, b'')]), ([b'10  '], [(10, b' ')]), ([b'10   A '], [(10, b'  A ')]), ([b'10'], [(10, b'')]), ([b'10A'], [(10, b'A')]),
            ([b'007 A'], [(7, b'A')]), ([b'10 20'], [(10, b'20')]), ([b'10 %d\\n%s'], [(10, b'%d\\n%s')]), ([b'10 \xe9\x80'], [(10, b'\xe9\x80')]),
            ([b'10\tA'], [(10, b'\tA')]), ([b' 10 A'], None), ([b'-10 A'], None), ([b'+10 A'], None), ([b'REM'], None), ([b'0 A'], None),
            ([b'10 A', b''], None), ([b'', b'10 A'], None), ([b'10 A', b'X', b'20 B'], None)):
        c = mk('the lines %s' % ' / '.join(x.decode('latin1') for x in lines), ('C24', 'C26') + (() if want else ('C17',)))
        c.ai.unroll = 64
        scripted(c, [([x if x < 128 else x - 256 for x in l + b'\n'], None) for l in lines])
        if want is None:
            c.returns(None)
            c.check(['C17'], 'reported', told)
        else:
            c.expect_lines([(Lin(v), Str(Lin(len(t)), ('lit', t))) for v, t in want], ['C24', 'C26'], src=lambda o: o.val.r)
        b.go(c)
    c = mk('an empty line', ('C24', 'C17'))
    scripted(c, [([10], None)])
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)
    c = mk('a line without a number', ('C24', 'C17'))
    ch = c.atom('first', -128, 127)
    for x in list(range(48, 58)) + [0, 10]:
        c.assume(('ne', ch - x))
    t = c.text('rest', hi=100)
    scripted(c, [([ch], (t, True))])
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)
    c = mk('a line longer than the buffer', ('C24', 'C17'))
    l, v, t = line(c, 'a', 2, True, True, nl=False)
    scripted(c, [l])
    lch = LA(AT.get(('chr', ('str', c.seen_line), c.len(c.seen_line) - 1), -128, 127))
    c.assume(('ne', lch - 10))
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)
    c = mk('a read error', ('C24', 'C17'))
    scripted(c, [], err=True)
    c.returns(None)
    c.check(['C17'], 'reported', told)
    b.go(c)


def told(c, s, o):
    for e in flat_events(s.events()):
        if e[0] == 'out' and e[1] in ('stderr', 'stdout'):
            return YES, None, (), ''
    return NO, None, (), 'nothing is reported to the user'


def save(b, n):
    for how in ('written', 'cannot be opened', 'write error', 'close error', 'write and close error'):
        c = b.case('%d lines, %s' % (n, how), ['C26'], 'save_source_file', cls=SrcCase)
        c.source(n)
        c.own_props = ('C11', 'C26')
        fn = c.text('file name')
        c.call(c.src, fn)

        def fopen(ai, st, fr, ins, a, how=how):
            if how == 'cannot be opened':
                return [Outcome('ret', st, NULLP)]
            r = Region('file', ('file', next(AT.n)), name='FILE@%s' % at(ins))
            r.site = ins
            st.emit('open', r, None, a[0], ins)
            return [Outcome('ret', st, PV(r))]
        c.ai.icpt['fopen'] = fopen
        werr, cerr = 'write' in how and how != 'written', 'close' in how

        def ferror(ai, st, fr, ins, a, werr=werr):
            st.emit('io', 'ferror', None, ins)
            return [Outcome('ret', st, IV(32, 1 if werr and wrote(st) else 0))]

        def wrote(st):
            return True

        def fclose(ai, st, fr, ins, a, cerr=cerr):
            st.emit('io', 'fclose', a[0].r.name if isinstance(a[0], PV) and a[0].r else None, ins)
            return [Outcome('ret', st, IV(32, -1 if cerr else 0))]
        c.ai.icpt['ferror'] = ferror
        c.ai.icpt['fclose'] = fclose

        def fflush(ai, st, fr, ins, a, werr=werr):
            return [Outcome('ret', st, IV(32, -1 if werr else 0))]
        c.ai.icpt['fflush'] = fflush
        c.returns(1 if how == 'written' else 0)
        if how != 'written':
            c.check(['C26'], 'failure reported', told)
        c.check(['C11', 'C26'], 'file closed', closed)
        if how == 'written':
            def text(c, s, o, n=n):
                got = []
                for e in s.events():
                    if e[0] == 'out' and isinstance(e[1], Region):
                        t = out_term(e)
                        if t is None:
                            return MAYBE, None, (), 'unknown text written'
                        got.append(t)
                    if e[0] == 'loop' and any(x[0] == 'out' for x in flat_events([e])):
                        return MAYBE, None, (), 'loop of writes'
                want = []
                for v, t in zip(c.nums, c.texts):
                    want += [('fmt', b'%u', (v,)), ('lit', b' '), ('str', t), ('lit', b'\n')]
                g = canon_term(s, ('cat', tuple(split_fmt(got))))
                w = canon_term(s, ('cat', tuple(want)))
                if g == w:
                    return YES, None, (), ''
                return MAYBE, (lambda env: env.term(g) != env.term(w)), (g, w), 'the file holds %s, expected %s' % (show_term(g), show_term(w))
            c.check(['C26'], 'text written', text)

            def opened(c, s, o):
                for e in s.events():
                    if e[0] == 'open' and isinstance(e[3], PV) and e[3].r is fn:
                        return YES, None, (), ''
                return NO, None, (), 'the named file is not opened'
            c.check(['C26', 'C18'], 'file name', opened)
        b.go(c)


def out_term(e):
    """text written by an output event, or None"""
    if e[2] == 'fmt':
        if e[3] is None:
            return None
        return ('fmtx', e[3], e[4])
    if e[2] == 'str':
        t = e[3]
        if t is None:
            return None
        return ('cat', (t, ('lit', b'\n'))) if len(e) > 7 and e[7] else t
    if e[2] == 'chr':
        v = e[3]
        if isinstance(v, IV) and not v.l.t:
            return ('lit', bytes([v.l.c & 255]))
        return ('chr', v)
    return None


def split_fmt(ts):
    """formats as concatenations of single conversions"""
    import re
    out = []
    for t in ts:
        if t[0] != 'fmtx':
            out.append(t)
            continue
        f, args = t[1], list(t[2])
        pos, k = 0, 0
        for m in re.finditer(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+))?(hh|h|ll|l|z)?([a-zA-Z%])', f):
            if m.start() > pos:
                out.append(('lit', f[pos:m.start()]))
            pos = m.end()
            cv = m.group(5)
            if cv == b'%':
                out.append(('lit', b'%'))
                continue
            a = args[k] if k < len(args) else None
            k += 1
            if cv == b's' and not m.group(2) and not m.group(3):
                if isinstance(a, tuple):
                    out.append(a)
                    continue
                if isinstance(a, PV) and a.r is not None and a.r.string and a.off == ZERO:
                    out.append(('str', a.r))
                    continue
            l = a.l if isinstance(a, IV) else a
            if cv == b'c' and not m.group(2):
                out.append(('chr', a))
                continue
            out.append(('fmt', m.group(0), (l,)))
        if pos < len(f):
            out.append(('lit', f[pos:]))
    return out


def unit(title, fn, *args):
    def run(prog, arg):
        b = FnBench(prog, title)
        b.attempt(fn, *args)
        return b.result()
    return run


P = ['C02', 'C11', 'C12', 'C15', 'C17', 'C18', 'C23', 'C24', 'C26', 'C27']


LONG = (64, 127, 128, 129, 256)


def units(prog):
    out = []
    for n in LONG:
        out.append(Unit('entering a line, %d lines' % n, P, unit('enter_source_line', enter, n)))
        out.append(Unit('deleting a line, %d lines' % n, P, unit('delete_source_line', delete, n)))
    for n in range(4):
        out.append(Unit('entering a line, %d lines' % n, P, unit('enter_source_line', enter, n)))
        out.append(Unit('deleting a line, %d lines' % n, P, unit('delete_source_line', delete, n)))
        out.append(Unit('program table, %d lines' % n, P, unit('program', whole, n)))
        out.append(Unit('finding a line, %d lines' % n, P, unit('find_source_linenum', find, n)))
        out.append(Unit('line access, %d lines' % n, P, unit('line access', numbering, n)))
    for n in range(3):
        out.append(Unit('saving, %d lines' % n, P, unit('save_source_file', save, n)))
    out.append(Unit('new programs', P, unit('new_source', wrap)))
    out.append(Unit('replacing text in a line', P, unit('source_replace', replace)))
    out.append(Unit('loading a file', P, unit('load_source_file', load)))
    return out
