"""RENUM: sessions that renumber a program whose lines are unknown numbers and token strings. interact(), the command and the
renumbering itself are the real code; the tokeniser, the line index and the text replacement are replaced by their contracts."""
import re
from ..fnx import *
from ..fnx import FnBench
from ..units import Unit
from ..ai import Node
from .store import SRC, LN
from .monitor import Mon, lines_in, ran, unchanged, spellings

ENDL = 10


class Ren(Mon):
    """a program given as token strings; numbers in it are those of a line ('ref', j), of no line ('free',), or no line number at all"""

    def __init__(self, *a):
        super().__init__(*a)
        self.toks = []
        self.refs = []          # (line, token) positions that must be rewritten, with the line they name
        ic = self.ai.icpt
        ic['lex_line'] = self._lex_line
        ic['lex_next'] = self._lex_next
        ic['lex_next_data'] = self._lex_data
        ic['lex_refresh'] = self._lex_refresh
        ic['lex_discard'] = self._lex_discard
        ic['source_replace'] = self._replace
        ic['new_line_map'] = self._map
        ic['insert_line_mapping'] = self._insert
        ic['lookup_line_mapping'] = self._look
        ic['delete_line_map'] = self._del_map
        for n in ('lex_line', 'lex_next', 'source_replace', 'new_line_map', 'insert_line_mapping', 'lookup_line_mapping'):
            self.p.func(n)
        self.woff = self.field('LEX', 'word').off

    def body(self, i, *toks):
        """tokens of line i; (tok, want) pairs mark references"""
        E, out = self.p.enum, []
        for t in toks:
            if isinstance(t, list):         # a DATA item: its text, and the tokens it looks like
                out.append(('item', [self.one(i, x) for x in t]))
            else:
                out.append(self.one(i, t))
        while len(self.toks) <= i:
            self.toks.append([])
        self.toks[i] = out

    def one(self, i, t):
        E = self.p.enum
        if isinstance(t, str):
            if len(t) == 1 and not t.isalpha():
                return (ord(t), None)
            return (E('TOK_' + {'<>': 'NE', '<=': 'LE', '>=': 'GE'}.get(t, t)), None)
        k = t[0]
        if k in ('id', 'str'):
            return (E('TOK_ID' if k == 'id' else 'TOK_STR'), self.text('word %d' % len(self.words(i)), hi=100))
        if k == 'ref':
            self.assume(('ge', -self.nums[t[1]] + 65535))
            return (E('TOK_NUM'), fe('i2f', self.nums[t[1]]))
        if k == 'free':
            a = self.atom('number %d' % next(COUNT), 1, 65535)
            for n in self.nums:
                self.assume(('ne', a - n))
            return (E('TOK_NUM'), fe('i2f', a))
        if k == 'num':
            return (E('TOK_NUM'), t[1])
        raise AssertionError(t)

    def words(self, i):
        return self.toks

    # ---- the tokeniser
    def cur(self, st, pos):
        line, k, sub = pos
        ts = self.toks[line] if line < len(self.toks) else []
        if k >= len(ts):
            return (ENDL, None)
        if ts[k][0] == 'item':
            return ts[k][1][sub] if sub < len(ts[k][1]) else None
        return ts[k]

    def step(self, st, pos):
        """the next token position in ordinary reading (inside DATA items too)"""
        line, k, sub = pos
        ts = self.toks[line] if line < len(self.toks) else []
        if k < len(ts) and ts[k][0] == 'item' and sub + 1 < len(ts[k][1]):
            return (line, k, sub + 1)
        return (line, k + 1, 0) if k < len(ts) else pos

    def lex(self, st, a, pos, text=None):
        t, v = self.cur(st, pos)
        put = lambda f, x, ty: self.ai.store(st, PV(a.r, a.off + self.field('LEX', f).off, a.ext), ty, x, None)
        st.ghost['lex'] = pos
        put('token', IV(32, t), I32)
        put('token_pos', IV(32, self.tpos(pos)), I32)
        put('pos', IV(32, self.tpos(pos) + 1), I32)
        new = st.ghost.get(('value', pos))
        if isinstance(v, FE):
            put('num', new if new is not None else v, DOUBLE)
            self.ai.set_str(st, PV(a.r, a.off + self.woff, a.ext), self.len(self.spelling(pos)), ('str', self.spelling(pos)))
        elif isinstance(v, Region):
            self.ai.set_str(st, PV(a.r, a.off + self.woff, a.ext), self.len(v), ('str', v))
        return [Outcome('ret', st, IV(32, t))]

    def tpos(self, pos):
        return self.atom('position of token %d.%d of line %d' % (pos[1], pos[2], pos[0]), 0, 1 << 16)

    def spelling(self, pos):
        if not hasattr(self, 'sp'):
            self.sp = {}
        if pos not in self.sp:
            self.sp[pos] = self.ai.region('lazy', ('spelling', pos), name='spelling of token %d of line %d' % (pos[1], pos[0] + 1), string=True)
        return self.sp[pos]

    def text_now(self, st, i):
        return st.ghost.get(('text', i), self.texts[i])

    def _lex_line(self, ai, st, fr, ins, a):
        line = None
        for i in range(self.n):
            if isinstance(a[2], PV) and a[2].r is self.text_now(st, i):
                line = i
        if line is None:
            raise Undecided('line read by the tokeniser is not known')
        put = lambda f, x, ty: ai.store(st, PV(a[0].r, a[0].off + self.field('LEX', f).off, a[0].ext), ty, x, None)
        put('text', a[2], PTR)
        put('lineno', a[1], I32)
        fl = self.at(a[0].r, 'LEX', 'recognise_keyword_prefixes')
        st.emit('mon', 'mode', ai.load(st, fl.pv(), fl.ty), ins)
        st.ghost['stale'] = 0
        return self.lex(st, a[0], (line, 0, 0))

    def check_text(self, ai, st, ins):
        if st.ghost.get('stale'):
            ai.suspect(ins, 'released text', st, None, 'the tokeniser reads the text of a line that was replaced')

    def _lex_next(self, ai, st, fr, ins, a):
        self.check_text(ai, st, ins)
        pos = st.ghost['lex']
        return self.lex(st, a[0], self.step(st, pos))

    def _lex_data(self, ai, st, fr, ins, a):
        self.check_text(ai, st, ins)
        line, k, sub = st.ghost['lex']
        ts = self.toks[line]
        nxt = ts[k + 1] if k + 1 < len(ts) else None
        # the cursor is at the next item (or at nothing: an empty item)
        if nxt is not None and nxt[0] == 'item':
            st.ghost['lex'] = (line, k + 1, len(nxt[1]) - 1)
        return [Outcome('ret', st, PV(a[0].r, a[0].off + self.woff, a[0].ext))]

    def _lex_refresh(self, ai, st, fr, ins, a):
        pos = st.ghost['lex']
        if not (isinstance(a[1], PV) and a[1].r is self.text_now(st, pos[0])):
            raise Undecided('text read again is not known')
        ai.store(st, PV(a[0].r, a[0].off + self.field('LEX', 'text').off, a[0].ext), PTR, a[1], None)
        st.ghost['stale'] = 0
        return self.lex(st, a[0], pos)

    def _lex_discard(self, ai, st, fr, ins, a):
        line = st.ghost['lex'][0]
        return [Outcome('ret', self.lex(st, a[0], (line, 1 << 20, 0))[0].st, None)]

    # ---- replacing text
    def _replace(self, ai, st, fr, ins, a):
        if not (isinstance(a[0], PV) and a[0].r is self.src):
            raise Undecided('text replaced in another program')
        k = st.f.norm(a[1].l)
        if k.t or not 0 <= k.c < self.n:
            raise Undecided('line whose text is replaced is not known')
        frm, to = ai.strlen(st, a[3], ins), ai.strlen(st, a[4], ins)
        num = number_text(st, to[1])
        pos = st.ghost['lex']
        st.emit('mon', 'replace', k.c, pos, a[2], frm, to, ins)
        new = self.ai.region('lazy', ('new text', st.ghost.get('texts', 0), k.c), name='new text of line %d' % (k.c + 1), string=True)
        new.maybe_null = False
        st.ghost['texts'] = st.ghost.get('texts', 0) + 1
        old = self.text_now(st, k.c)
        st.freed[old] = ins
        st.ghost[('text', k.c)] = new
        st.ghost['stale'] = int(k.c == pos[0])
        if num is not None:
            st.ghost[('value', pos)] = fe('i2f', num)
        st.mem[self.lines] = Node(st.mem.get(self.lines), 'w', Lin(k.c * self.lay_size(LN) + self.field(LN, 'text').off), 8, PV(new))
        one = IV(1, 1) if ins.ty.a == 1 else IV(ins.ty.a, 1)
        return [Outcome('ret', st, one)]

    # ---- line index
    def _map(self, ai, st, fr, ins, a):
        k = st.ghost.get('maps', 0)
        st.ghost['maps'] = k + 1
        r = ai.region('lazy', ('map', k), name='line map %d' % (k + 1), di=self.di('line_map'))
        r.maybe_null = False
        st.ghost[('map', r)] = ()
        n = st.f.norm(ai.uview(st, a[0]))
        st.ghost[('cap', r)] = n
        return [Outcome('ret', st, PV(r))]

    def _insert(self, ai, st, fr, ins, a):
        key = ('map', a[0].r)
        if key not in st.ghost:
            raise Undecided('line map is not known')
        m, cap = st.ghost[key], st.ghost[('cap', a[0].r)]
        full = ai.evalc(st, ('ge', Lin(len(m)) - cap))
        if full is None:
            raise Split(('ge', Lin(len(m)) - cap))
        if not full:
            st.ghost[key] = ((st.f.norm(ai.uview(st, a[1])), a[2]),) + m
        w = ins.ty.a
        return [Outcome('ret', st, IV(w, int(not full)))]

    def _look(self, ai, st, fr, ins, a):
        key = ('map', a[0].r)
        if key not in st.ghost:
            raise Undecided('line map is not known')
        q = st.f.norm(ai.uview(st, a[1]))
        w = ins.ty.a
        for k, v in st.ghost[key]:
            e = ai.evalc(st, ('eq', q - k))
            if e is None:
                raise Split(('eq', st.f.norm(q - k)))
            if e:
                ai.store(st, a[2], I32, v, ins)
                return [Outcome('ret', st, IV(w, 1))]
        return [Outcome('ret', st, IV(w, 0))]

    def _del_map(self, ai, st, fr, ins, a):
        if isinstance(a[0], PV) and a[0].r is not None and ('map', a[0].r) in st.ghost:
            if a[0].r in st.freed:
                ai.suspect(ins, 'free', st, None, 'line map released twice')
            st.freed[a[0].r] = ins
            return [Outcome('ret', st, None)]
        return self._del('index')(ai, st, fr, ins, a)


import itertools
COUNT = itertools.count()


def number_text(st, term):
    """the number a text spells in decimal, None if not known to be one"""
    if term is None:
        return None
    if term[0] == 'lit':
        return Lin(int(term[1])) if re.fullmatch(rb'[1-9]\d*|0', term[1]) else None
    if term[0] == 'fmt':
        m = re.fullmatch(rb'%(l|ll|h|z)?([ud])', term[1])
        if m and len(term[2]) == 1 and isinstance(term[2][0], Lin):
            v = st.f.norm(term[2][0])
            if not v.t:
                bits = {b'l': 64, b'll': 64, b'z': 64, b'h': 16}.get(m.group(1), 32)
                x = v.c & ((1 << bits) - 1)
                return Lin(x - (1 << bits) if m.group(2) == b'd' and x >> (bits - 1) else x)
            if m.group(1) == b'h' and not st.f.prove_ge(-v + 32767):
                return None
            if m.group(2) == b'd' and not (st.f.prove_ge(v) and st.f.prove_ge(-v + ((1 << 31) - 1))):
                return None
            if m.group(2) == b'u' and not st.f.prove_ge(v):
                return None
            return v
    return None


def renumbered(new, old, inc, refused=False):
    """what the session must leave: numbers of the lines and the replaced references"""
    def chk(c, s, o):
        cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
        if not isinstance(cur, PV) or cur.r is not c.src:
            return NO, None, (), 'another program is stored'
        ev = [e for e in c.mon(s) if e[:2] == ('mon', 'replace')]
        if refused:
            if ev:
                return NO, None, (), 'a line number is replaced although the renumbering is refused'
            if not any(e[0] == 'out' for e in c.mon(s)):
                return NO, None, (), 'the refusal is not reported'
            return unchanged(c, s, o)
        now = lines_in(c, s, s.mem, c.src)
        if now is None:
            return MAYBE, None, (), ''
        if len(now) != c.n:
            return NO, None, (), 'the program has %d lines, expected %d' % (len(now), c.n)
        want = c.newnum
        for i, (num, t) in enumerate(now):
            st, pred, extra = equal(c.ai, s, IV(32, want[i]), num)
            if st != YES:
                return st, pred, extra, 'line %d is numbered %r, expected %r' % (i + 1, num, want[i])
        for e in c.mon(s):
            if e[:2] == ('mon', 'mode'):
                l = c.loc('keywords_anywhere')
                st, pred, extra = equal(c.ai, s, c.ai.load(s, l.pv(), l.ty), e[2])
                if st != YES:
                    return st, pred, extra, 'the lines are not read in the keyword mode of the program'
        todo = dict(c.expect)
        for e in ev:
            _, _, line, pos, at_, frm, to, ins = e
            if pos not in todo or pos[0] != line:
                return NO, None, (), 'text of line %d is replaced at token %d, which refers to no line' % (line + 1, pos[1] + 1)
            j = todo.pop(pos)
            st, pred, extra = equal(c.ai, s, IV(32, c.tpos(pos)), at_)
            if st != YES:
                return st, pred, extra, 'text is replaced at %r, not at the number' % (at_,)
            if not same_term(s, frm[1], ('str', c.spelling(pos))):
                return NO, None, (), 'text replaced is %s, not the number' % show_term(frm[1])
            v = number_text(s, to[1])
            if v is None:
                return MAYBE, None, (), 'text of the new number'
            d = s.f.norm(v - want[j])
            if not s.f.prove_eq(d):
                return MAYBE, (lambda env: env.lin(d) != 0), (d,), 'a reference to line %d becomes %r, expected %r' % (j + 1, v, want[j])
        for pos, j in todo.items():
            d = s.f.norm(want[j] - c.nums[j])
            if s.f.prove_eq(d):
                continue
            return (NO if s.f.prove_ne(d) else MAYBE), (lambda env: env.lin(d) != 0), (d,), 'the reference to line %d in line %d (token %d) is not rewritten' % (j + 1, pos[0] + 1, pos[1] + 1)
        maps = [r for r in (k[1] for k in s.ghost if isinstance(k, tuple) and k[0] == 'map') if r not in s.freed]
        if maps:
            return NO, None, (), 'the line map is not released'
        return YES, None, (), ''
    return chk


TABLE = []


def bench(title, props, cost=1):
    def deco(fn):
        TABLE.append((title, props, fn, cost))
        return fn
    return deco


M32 = (1 << 32) - 1


def setup(b, title, typed, n, old, new, inc, low, bodies=(), state='compiled', then=(b'RUN',)):
    """n lines of which `low` are below old; bodies = [(tokens, {token index or (index, sub): line referred to})]"""
    c = b.case(title, ['C23'], cls=Ren)
    c.program(state, n)
    c.left_over(depth=1)
    for i in range(n):
        if i < low:
            c.assume(('ge', -c.nums[i] + (old - 1)))
        else:
            c.assume(('ge', c.nums[i] - old))
    l = c.loc('keywords_anywhere')
    c.put('keywords_anywhere', IV(l.ty.a, c.atom('keyword mode', 0, 1)))
    c.newnum, v = list(c.nums), new
    for i in range(low, n):
        c.newnum[i] = Lin(v)
        v += inc
    # does it keep the order?
    c.expect = {}
    for i, (toks, refs) in enumerate(bodies):
        c.body(i, *toks)
        for k, j in refs.items():
            c.expect[(i,) + (k if isinstance(k, tuple) else (k, 0))] = j
    c.typed(typed, *then)
    if then:
        c.check(['C23', 'C12'], 'the program runs afterwards', ran('?', 'stored_program'))
    return c


@bench('line numbers', ['C23', 'C12', 'C17', 'C24', 'C22'], 2)
def numbers(b):
    # the words of the command
    for w in ('RENUM', 'RENUMBER'):
        for sp in spellings(w):
            c = setup(b, '%r typed' % sp, sp.encode(), 2, 1, 10, 10, 0)
            c.check(['C22', 'C23'], 'renumbered', renumbered(10, 1, 10))
            b.go(c)
    for typed, new, old, inc in ((b'RENUM', 10, 1, 10), (b'renum 100', 100, 1, 10), (b'RENUM 100,20', 100, 20, 10), (b'RENUM 100,20,5', 100, 20, 5),
                                 (b'RENUM ,20', 10, 20, 10), (b'RENUM ,,5', 10, 1, 5), (b'RENUM 100,,5', 100, 1, 5), (b'RENUM   7,  8,  9', 7, 8, 9),
                                 (b'RENUMBER 20,20,20', 20, 20, 20), (b'RENUM 1,1,1', 1, 1, 1), (b'RENUM 65000,1,1', 65000, 1, 1), (b'RENUM 20,20', 20, 20, 10)):
        for n in (0, 1, 2, 3):
            for low in range(n + 1):
                if old == 1 and low:
                    continue
                if low > 1 and low >= old:
                    continue
                c = setup(b, '%s, %d lines, %d below' % (typed.decode(), n, low), typed, n, old, new, inc, low)
                if low and low < n:
                    # order can be kept
                    c.assume(('ge', Lin(new - 1) - c.nums[low - 1]))
                c.check(['C23', 'C24'], 'renumbered', renumbered(new, old, inc))
                b.go(c)
                if low and low < n and new < old:
                    c = setup(b, '%s, %d lines, %d below, order cannot be kept' % (typed.decode(), n, low), typed, n, old, new, inc, low, then=())
                    c.assume(('ge', c.nums[low - 1] - new))
                    c.check(['C23', 'C24'], 'refused', renumbered(new, old, inc, True))
                    b.go(c)
    for typed, new, old, inc in ((b'RENUM 10,1,0', 10, 1, 0), (b'RENUM 0', 0, 1, 10), (b'RENUM 4294967290,1,10', 4294967290, 1, 10),
                                 (b'RENUM 100,1,4294967295', 100, 1, 4294967295)):
        n = 1 if new == 0 else 3
        c = setup(b, '%s, %d lines: not ascending' % (typed.decode(), n), typed, n, old, new, inc, 0, then=())
        c.check(['C23', 'C24'], 'refused', renumbered(new, old, inc, True))
        b.go(c)
    for typed in (b'RENUM X', b'RENUM 10 X', b'RENUM 10,20,30,40', b'RENUM -5', b'RENUM 10-20', b'RENUM "A"'):
        c = setup(b, '%s: not understood' % typed.decode(), typed, 2, 1, 10, 10, 0, then=())
        c.check(['C23', 'C24'], 'refused', renumbered(10, 1, 10, True))
        b.go(c)


R0, R1, R2 = ('ref', 0), ('ref', 1), ('ref', 2)
ID, STR, FREE = ('id',), ('str',), ('free',)


def forms():
    """(title, tokens, {token: line referred to})"""
    out = []
    for k in ('GOTO', 'GOSUB', 'RESTORE'):
        out += [(k, [k, R0], {1: 0}), ('%s followed by a statement' % k, [k, R1, ':', k, R2], {1: 1, 4: 2}),
                ('%s no line' % k, [k, FREE], {}), ('%s alone' % k, [k, ':', 'PRINT', R0], {}), (k + ' then a name', [k, ID, '=', R0], {})]
    out += [('IF THEN', ['IF', ID, '=', R0, 'THEN', R1], {5: 1}),
            ('IF THEN ELSE', ['IF', ID, '>', R1, 'THEN', R2, 'ELSE', R0], {5: 2, 7: 0}),
            ('IF THEN ELSE with colon', ['IF', ID, '>', R1, 'THEN', R2, ':', 'ELSE', R0], {5: 2, 8: 0}),
            ('IF GOTO ELSE', ['IF', ID, 'GOTO', R2, 'ELSE', R0], {3: 2, 5: 0}),
            ('IF THEN statement', ['IF', ID, 'THEN', 'PRINT', R2, 'ELSE', 'LET', ID, '=', R0], {}),
            ('IF THEN GOTO', ['IF', ID, 'THEN', 'GOTO', R2, 'ELSE', 'GOSUB', R0], {4: 2, 7: 0}),
            ('nested IF', ['IF', ID, 'THEN', 'IF', ID, 'THEN', R0, 'ELSE', R1], {6: 0, 8: 1})]
    for k in ('GOTO', 'GOSUB'):
        out += [('ON %s' % k, ['ON', ID, k, R0, ',', R1, ',', R2], {3: 0, 5: 1, 7: 2}),
                ('ON number %s' % k, ['ON', R0, k, R1, ',', R1, ':', 'PRINT', R0, ',', R2], {3: 1, 5: 1}),
                ('ON %s with a line that is not there' % k, ['ON', ID, k, FREE, ',', R1, ',', FREE, ',', R2], {5: 1, 9: 2}),
                ('ON %s, first too large' % k, ['ON', ID, k, ('num', fc(70000.0)), ',', R1], {5: 1}),
                ('ON %s, first not whole' % k, ['ON', ID, k, ('num', fc(1.5)), ',', R1], {5: 1})]
    out += [('numbers in expressions', ['LET', ID, '=', R0, '+', R1, '*', '(', R2, ')'], {}),
            ('PRINT list', ['PRINT', R0, ',', R1, ';', R2], {}),
            ('FOR', ['FOR', ID, '=', R0, 'TO', R1, 'STEP', R2], {}),
            ('DIM', ['DIM', ID, '(', R0, ',', R1, ')'], {}),
            ('INPUT with text', ['INPUT', STR, ';', ID], {}),
            ('DEF', ['DEF', ID, '(', ID, ')', '=', R0], {}),
            ('array element', [ID, '(', R0, ',', R1, ')', '=', R2], {}),
            ('REM', ['REM', 'GOTO', R0], {}),
            ('statement then REM', ['GOTO', R0, ':', 'REM', 'GOTO', R1], {1: 0}),
            ('DATA', ['DATA', ['GOTO', R0], ',', [R1], ',', ['THEN', R2]], {}),
            ('DATA between statements', ['GOSUB', R0, ':', 'DATA', ['GOTO', R0], ',', [R1], ':', 'GOTO', R2], {1: 0, 9: 2}),
            ('DATA with an empty item', ['DATA', ',', ['GOTO', R0], ':', 'GOTO', R1], {5: 1}),
            ('RANDOMIZE', ['RANDOMIZE', R0], {}), ('ON without a list', ['ON', R0], {}), ('empty line', [], {}),
            ('text and name', [STR, ID, 'GOTO', STR, R0], {}),
            *[('%s, then GOTO' % k, [k, ID, ':', 'GOTO', R0], {4: 0}) for k in ('CLEAR', 'CLS', 'DEF', 'DIM', 'END', 'FOR', 'IF', 'INPUT', 'LET', 'LINE', 'NEXT',
                                                                            'ON', 'PRINT', 'RANDOMIZE', 'READ', 'RETURN', 'STOP', 'AND', 'OR', 'NOT')],
            ('PRINT list, then GOSUB', ['PRINT', STR, ';', R1, ',', ID, '(', R0, ')', ':', 'GOSUB', R2], {11: 2}),
            ('a number first', [R0, ':', 'GOTO', R0], {3: 0})]
    return out


@bench('references', ['C23', 'C12'], 2)
def references(b):
    for title, toks, refs in forms():
        for where in (0, 1):
            bodies = [(toks, refs) if where == 0 else (['PRINT'], {}), (toks, refs) if where else (['REM', 'GOTO', R0], {})]
            c = setup(b, '%s in line %d' % (title, where + 1), b'RENUM 1000,1,7', 3, 1, 1000, 7, 0, bodies)
            c.check(['C23'], 'renumbered', renumbered(1000, 1, 7))
            b.go(c)
            if where == 0 and refs:
                c = setup(b, '%s, to large numbers' % title, b'RENUM 65000,1,10', 3, 1, 65000, 10, 0, bodies)
                c.check(['C23'], 'renumbered', renumbered(65000, 1, 10))
                b.go(c)
    # only part of the program is renumbered; the references to the rest stay
    for title, toks, refs in [f for f in forms() if f[2]]:
        c = setup(b, '%s, part of the program renumbered' % title, b'RENUM 5000,500,3', 3, 500, 5000, 3, 1, [(['PRINT'], {}), (toks, refs)])
        c.check(['C23'], 'renumbered', renumbered(5000, 500, 3))
        b.go(c)


def unit(title, fn, props):
    def run(prog, arg):
        b = FnBench(prog, 'renum ' + title)
        b.attempt(fn)
        for r in b.recs:
            if not r.props:
                r.props = frozenset(props)
        return b.result()
    return run


def units(prog):
    return [Unit('renum: ' + t, p, unit(t, fn, p), cost=k) for t, p, fn, k in TABLE]
