"""The tokeniser: every class of token, with unknown characters of the class, at and around the size of the word buffer, at the end of
the text and before every kind of following character, in normal and crunched keyword mode."""
import itertools
from ..fnx import *
from ..fnx import FnCase, FnBench
from ..units import Unit

TABLE = []
MEM = ['C04']
# a line that cannot be tokenised is refused; the interpreter goes on
STAYS = ['C17']
TOK = ['C38']
ALL = ['C04', 'C38']


def bench(title, props, cost=1):
    def deco(fn):
        TABLE.append((title, props, fn, cost))
        return fn
    return deco


UPPER, LOWER, DIGIT, PRINT, HIGH = (65, 90), (97, 122), (48, 57), (32, 126), (128, 254)
# any printable character that is not one of these is described by its ranges
def but(*stop):
    """ranges of printable characters (and tab) without those"""
    bad = sorted(ord(c) for c in stop)
    out, lo = [], 32
    for b in bad:
        if lo <= b - 1:
            out.append((lo, b - 1))
        lo = b + 1
    if lo <= 126:
        out.append((lo, 126))
    return out


class LexCase(FnCase):
    """the tokeniser about to read text = before + body, the cursor after `before`"""

    def __init__(self, *a):
        super().__init__(*a)
        self.session = True
        self.owners = False
        self.free_frame = True
        self.silent = False
        self.sus_props = MEM
        self.kws = []
        self.ai.unroll = 400
        self.ai.unroll_steps = 400000
        self.ai.max_steps = 2000000

    def text_of(self, before, body):
        """region holding the text; characters given as int or (lo, hi) range"""
        cells = [c if isinstance(c, int) else c for c in list(before) + list(body)]
        r = self.ai.region('lazy', ('line', len(cells)), name='line text')
        r.size = Lin(len(cells) + 1)
        self.chars = []
        memo = {}
        for i, c in enumerate(cells + [0]):
            if isinstance(c, tuple):
                lo, hi = c[0], c[1]
                a = self.atom('character %d' % i, lo, hi)
                # characters are signed
                if lo > 127:
                    a = a + (-256)
                v = IV(8, a)
            else:
                v = IV(8, c if c < 128 else c - 256)
            self.chars.append(v)
            self.st.mem[r] = Node(self.st.mem.get(r), 'w', Lin(i), 1, v)
        self.line, self.nline = r, len(cells)
        self.start_at = len(before)
        return r

    def lexer(self, crunched, before, body):
        t = self.text_of(before, body)
        self.lx = self.obj('LEX', 'lex', name=None, text=t, recognise_keyword_prefixes=int(crunched))
        self.set(self.lx, 'LEX', 'pos', len(before))
        self.set(self.lx, 'LEX', 'token', self.p.enum('TOK_NONE'))
        return self.lx

    def fields(self, s, **want):
        for k, v in want.items():
            l = self.at(self.lx, 'LEX', k)
            x = self.cmp(s, 'lex.' + k, IV(l.ty.a, v) if isinstance(v, int) else v, self.ai.load(s, l.pv(), l.ty))
            if x[0] != YES:
                return x
        return YES, None, (), ''

    def word_is(self, s, chars):
        w = self.field('LEX', 'word')
        for i, ch in enumerate(list(chars) + [IV(8, 0)]):
            a = self.ai.load(s, PV(self.lx, Lin(w.off + i)), I8)
            x = self.cmp(s, 'character %d of the word' % i, ch, a)
            if x[0] != YES:
                return x
        return YES, None, (), ''

    def inside(self):
        """whatever happens the cursors stay in the text and the word is terminated"""
        def chk(c, s, o):
            for k in ('pos', 'token_pos'):
                v = c.ai.load(s, c.at(c.lx, 'LEX', k).pv(), I32)
                l = s.f.norm(v.l)
                if not s.f.prove_ge(Lin(c.nline) - l) or not s.f.prove_ge(l):
                    return MAYBE, (lambda env: env.lin(l) > c.nline or env.lin(l) < 0), (l,), '%s is %r in a text of %d characters' % (k, l, c.nline)
            return YES, None, (), ''
        self.check(MEM, 'cursor inside the text', chk)

    def spelled_like_keyword(self):
        """names in these cases are not keywords: the keyword table answers that (decided by the keyword cases)"""
        c = self
        fl = self.field('LEX', 'word').off

        def it(ai, st, fr, ins, a):
            ln, term = ai.strlen(st, a[0], ins)
            k = IV(32, c.atom('identifier token', c.p.enum('TOK_ID'), c.p.enum('TOK_TO')))
            st.emit('mon', 'identifier', a[0], k, ins)
            return [Outcome('ret', st, k)]
        self.ai.icpt['identifier_token'] = it


def key(body):
    out = []
    for k, g in itertools.groupby(body, key=lambda c: {UPPER: 'A', LOWER: 'a', DIGIT: '9'}.get(c) or
                                  ('[%d-%d]' % c if isinstance(c, tuple) else repr(chr(c)) if 32 <= c < 127 else '\\x%02x' % c)):
        n = len(list(g))
        out.append(k + ('*%d' % n if n > 1 else ''))
    return ' '.join(out) or '(nothing)'


def lit(s):
    return list(s.encode('latin1'))


FOLLOW = ['', ' ', ',', ':', '(', '"', '=', '+']


def case(b, title, crunched, before, body, func='lex_next'):
    c = b.case('%s mode, %s, cursor at %d: %s' % ('crunched' if crunched else 'normal', title, len(before), key(body)), ALL, func, 'lexer.c', LexCase)
    c.lexer(crunched, before, body)
    c.call(c.lx)
    c.inside()
    return c


ERR = 'tokeniser reports an error'


def expect(b, c, tok, word, tpos, pos):
    """token, word (list of indices into the text, or None) and cursor"""
    E = c.p.enum(tok) if isinstance(tok, str) and len(tok) > 1 else (ord(tok) if isinstance(tok, str) else tok)
    n = len(c.chars) - 1

    def chk(cc, s, o):
        want = dict(token=E)
        if pos is not None:
            want['pos'] = pos
        if tpos is not None:
            want['token_pos'] = tpos
        x = cc.fields(s, **want)
        if x[0] != YES:
            return x
        if word is not None:
            return cc.word_is(s, [cc.chars[i] for i in word])
        return YES, None, (), ''
    c.returns(E, TOK)
    c.check(TOK, 'token', chk)
    if E == c.p.enum('TOK_ERROR'):
        c.check(ALL, 'error reported', lambda cc, s, o: (YES if any(e[0] == 'out' for e in flat_events(s.events())) else NO, None, (), 'nothing is reported'))
    b.go(c)
    return c


SIZE = 128
LENS = (1, 2, 7, 126, 127, 128, 129, 150)


def runs(total, *classes):
    """total characters of the classes in turn (first class first)"""
    return [classes[0]] + [classes[1 + i % (len(classes) - 1)] for i in range(total - 1)] if len(classes) > 1 else [classes[0]] * total


def word_size(b):
    return b.p.layout('LEX')['word'].size


def lens(b):
    n = word_size(b)
    return (1, 2, 7, n - 3, n - 2, n - 1, n, n + 1, n + 20)


# places in a line where a token can start: at its start, a little into it, and where only a long line has any text
BEFORE = [[], [(32, 126)] * 3]
FAR = [99, 100, 126, 127, 128, 200, 252]


def far(n):
    return [32] + [65] * (n - 1)


@bench('names', ALL, 3)
def names(b):
    n = word_size(b)
    for L in lens(b):
        for cls in ([UPPER], [LOWER, DIGIT], [UPPER, LOWER, DIGIT]):
            if L > 7 and cls == [UPPER]:
                continue
            for dollar in (False, True):
                for fol in (FOLLOW if L in (2, n - 2) else ['', ' ']):
                    for before in BEFORE if L == 2 else [[]]:
                        body = runs(L, *cls) + ([ord('$')] if dollar else []) + lit(fol)
                        c = case(b, 'name', 0, before, body)
                        c.spelled_like_keyword()
                        st = len(before)
                        if L > n - 2:
                            # longer than a name can be
                            expect(b, c, 'TOK_ERROR', None, st, None)
                            continue
                        word = list(range(st, st + L + dollar))

                        def idt(cc, s, o, c=c):
                            ev = [e for e in flat_events(s.events()) if e[0] == 'mon' and e[1] == 'identifier']
                            if len(ev) != 1:
                                return NO, None, (), 'the keyword table is asked %d times' % len(ev)
                            x = cc.cmp(s, 'token', ev[0][3], o.val)
                            if x[0] != YES:
                                return x
                            l = cc.at(cc.lx, 'LEX', 'token')
                            return cc.cmp(s, 'lex.token', ev[0][3], cc.ai.load(s, l.pv(), l.ty))
                        c.check(TOK, 'token of a name', idt)

                        def chk(cc, s, o, word=word, st=st):
                            x = cc.fields(s, pos=word[-1] + 1, token_pos=st)
                            return x if x[0] != YES else cc.word_is(s, [cc.chars[i] for i in word])
                        c.check(TOK, 'name', chk)
                        b.go(c)


@bench('names in crunched mode', ALL, 3)
def crunched(b):
    n = word_size(b)
    fill = [ord('X'), DIGIT]
    for L in lens(b):
        for fol in ['', ' ', '$', '$(', ',', 'FOR', '1TO', 'goto5'] if L < 8 or L == n - 2 else ['', '$']:
            body = runs(L, *fill)
            dollar = fol.startswith('$')
            if fol[:1].isdigit():
                body[-1:] = [ord('1')] if L > 1 else [ord('X')]
                fol2 = fol[1:]
                if L == 1:
                    continue
            else:
                fol2 = fol
            c = case(b, 'name', 1, [], body + lit(fol2))
            if L > n - 2:
                expect(b, c, 'TOK_ERROR', None, 0, None)
            else:
                expect(b, c, 'TOK_ID', range(L + dollar), 0, L + dollar)
    for kw, tok in (('FOR', 'TOK_FOR'), ('print', 'TOK_PRINT'), ('Goto', 'TOK_GOTO'), ('TO', 'TOK_TO'), ('On', 'TOK_ON'), ('RANDOMIZE', 'TOK_RANDOMIZE')):
        for fol in ('', 'A', '5', ' ', '$', '"'):
            for before in BEFORE:
                c = case(b, 'keyword', 1, before, lit(kw + fol))
                st = len(before)
                expect(b, c, tok, None, st, st + len(kw))
    for w in ('A', 'FO', 'PRI', 'XY', 'B2'):
        c = case(b, 'name before a keyword', 1, [], lit(w + 'THEN'))
        expect(b, c, 'TOK_ID', range(len(w)), 0, len(w))


def number(b, c, tpos, a, z, ok=True):
    def chk(cc, s, o):
        x = cc.fields(s, pos=z, token_pos=tpos)
        if x[0] != YES:
            return x
        x = cc.word_is(s, [cc.chars[i] for i in range(a, z)])
        if x[0] != YES:
            return x
        ev = [e for e in flat_events(s.events()) if e[0] == 'strtod']
        if len(ev) != 1:
            return NO, None, (), 'the number is converted %d times' % len(ev)
        ln, term = cc.ai.strlen(s, PV(cc.lx, Lin(cc.field('LEX', 'word').off)), None)
        if ev[0][1] is None or term is None:
            return MAYBE, None, (), 'the converted text is unknown'
        if not same_term(s, ev[0][1], term):
            return NO, None, (), 'the converted text is not the token'
        l = cc.at(cc.lx, 'LEX', 'num')
        v = cc.ai.load(s, l.pv(), l.ty)
        tk = cc.ai.load(s, cc.at(cc.lx, 'LEX', 'token').pv(), I32)
        if s.f.prove_eq(tk.l - cc.p.enum('TOK_NUM')):
            if not (isinstance(v, FE) and v.op == 'fa' and v.a[0] == 'strtod'):
                return NO, None, (), 'the value is not that of the digits'
            if not s.f.prove_eq(o.val.l - cc.p.enum('TOK_NUM')):
                return NO, None, (), 'the result is not the token'
            return YES, None, (), ''
        if s.f.prove_eq(tk.l - cc.p.enum('TOK_ERROR')):
            # only when the conversion stops early
            if s.f.prove_eq(ln - ev[0][2]):
                return NO, None, (), 'a number is refused although all of it converts'
            return YES, None, (), ''
        return MAYBE, None, (), 'token unknown'
    c.check(TOK, 'number', chk)
    b.go(c)


FORMS = []


def number_forms(n):
    """(body, length of the number) with digits unknown"""
    D = DIGIT
    out = []
    for L in (1, 2, 5):
        out.append([D] * L)
    out += [[D, 46], [46, D], [D, D, 46, D, D], [46], [D, 69, D], [D, 101, D, D], [D, 46, D, 69, 45, D], [46, D, 101, 45, D, D], [D, 69], [D, 69, 45]]
    return out


@bench('numbers in normal mode', ALL, 3)
def numbers0(b):
    number_follow(b, 0)


@bench('numbers in crunched mode', ALL, 3)
def numbers1(b):
    number_follow(b, 1)


def number_follow(b, cr):
    n = word_size(b)
    for body in number_forms(n):
        for fol in ['', ' ', ',', ':', ')', '+', '-', 'A', 'PRINT', '"', '.', '$']:
            if fol == '.' and not (46 in body or 69 in body or 101 in body):
                continue
            if fol == '-' and body[-1] in (69, 101):
                continue
            for before in (BEFORE if fol == ' ' else [[]]):
                c = case(b, 'number', cr, before, body + lit(fol))
                st = len(before)
                number(b, c, st, st, st + len(body))


@bench('long numbers', ALL, 3)
def long_numbers(b):
    n = word_size(b)
    D = DIGIT
    for L in (n - 2, n - 1, n, n + 1, n + 20):
        for body in ([D] * L, [D, 46] + [D] * (L - 2), [46] + [D] * (L - 1), [D] * (L - 1) + [46], [D, 69] + [D] * (L - 2), [D] * (L - 1) + [69],
                     [D] * (L - 2) + [69, 45], [D] * (L - 2) + [69, D], [D, 69, 45] + [D] * (L - 3)):
            if L not in (n - 1, n) and body[-1] != D:
                continue
            for fol in ('', ' ') if body == [D] * L else ('',):
                c = case(b, 'number', 0, [], body + lit(fol))
                if L > n - 1:
                    expect(b, c, 'TOK_ERROR', None, 0, None)
                else:
                    number(b, c, 0, 0, L)


@bench('strings', ALL, 2)
def strings(b):
    n = word_size(b)
    Q = [34]
    P = [(32, 33), (35, 126)]
    for cr in (0, 1):
        for L in (0,) + lens(b):
            for rng in (P if L in (1, 2) else P[1:]):
                for fol in ['', ' ', ',', '"', ';'] if L <= 2 else ['', ' ']:
                    for before in (BEFORE if L == 2 else [[]]):
                        body = Q + [rng] * L + Q + lit(fol)
                        st = len(before)
                        c = case(b, 'string', cr, before, body)
                        if L > n - 1:
                            expect(b, c, 'TOK_ERROR', None, st, None)
                        else:
                            expect(b, c, 'TOK_STR', range(st + 1, st + 1 + L), st, st + L + 2)
                # not terminated
                c = case(b, 'string without its end', cr, [], Q + [rng] * L)
                expect(b, c, 'TOK_ERROR', None, 0, None)


@bench('other characters', ALL)
def others(b):
    ops = {'<': "<", '<=': 'TOK_LE', '<>': 'TOK_NE', '>': '>', '>=': 'TOK_GE'}
    for cr in (0, 1):
        for before in BEFORE:
            st = len(before)
            for sp in ('', ' ', '\t', ' \t ', '\r', ' ' * 9):
                at0 = st + len(sp)
                for o, t in ops.items():
                    for fol in ('', ' ', 'A', '5', '"', '<', '-'):
                        c = case(b, 'operator', cr, before, lit(sp + o + fol))
                        expect(b, c, t, None, at0, at0 + len(o))
                if len(sp) > 2:
                    continue
                for ch in '+-*/^=(),;:?&#!%@\'[]{}|~_`\\':
                    c = case(b, 'single character', cr, before, lit(sp + ch + 'A'))
                    expect(b, c, ch, None, at0, at0 + 1)
                c = case(b, 'end of the text', cr, before, lit(sp))
                expect(b, c, '\n', None, at0, at0)
                for o in ('>', '<'):
                    c = case(b, 'operator then =', cr, before, lit(sp + o + ' ='))
                    expect(b, c, o, None, at0, at0 + 1)
                for rng in ((127, 127), (128, 254)):
                    c = case(b, 'character outside ASCII', cr, before, lit(sp) + [rng, 65])
                    expect(b, c, 'TOK_ERROR', None, at0, None)
                    c = case(b, 'character outside ASCII in a string', cr, before, lit(sp) + [34, rng, 34])
                    expect(b, c, 'TOK_ERROR', None, at0, None)


@bench('tokeniser cursor functions', ALL)
def cursor(b):
    p = b.p
    for fn in ('lex_peek', 'lex_discard', 'lex_remaining'):
        for cr in (0, 1):
            c = b.case('any text, any cursor', ALL, fn, 'lexer.c', LexCase)
            x = c.text('text')
            n = c.len(x)
            lx = c.lx = c.obj('LEX', 'lex', name=None, text=x, recognise_keyword_prefixes=cr)
            pos = c.atom('pos', 0, 1 << 20)
            c.set(lx, 'LEX', 'pos', pos)
            c.assume(('ge', n - pos))
            c.call(lx)

            def inv(cc, s, o, n=n):
                l = s.f.norm(cc.ai.load(s, cc.at(cc.lx, 'LEX', 'pos').pv(), I32).l)
                if s.f.prove_ge(n - l):
                    return YES, None, (), ''
                return MAYBE, (lambda env: env.lin(n - l) < 0), (l,), 'the cursor is %r' % (l,)
            c.check(MEM, 'cursor inside the text', inv)
            if fn == 'lex_discard':
                def gone(cc, s, o, n=n):
                    for k in ('pos', 'token_pos'):
                        l = s.f.norm(cc.ai.load(s, cc.at(cc.lx, 'LEX', k).pv(), I32).l)
                        if not s.f.prove_eq(l - n):
                            return MAYBE, (lambda env: env.lin(l - n) != 0), (l,), '%s is %r' % (k, l)
                    return cc.fields(s, token=10)
                c.check(TOK, 'rest of the line discarded', gone)
            if fn == 'lex_remaining':
                def rem(cc, s, o, x=x, pos=pos):
                    if not isinstance(o.val, PV) or o.val.r is not x:
                        return NO, None, (), 'not a position in the text'
                    return (YES if s.f.prove_eq(s.f.norm(o.val.off - pos)) else NO), None, (), 'offset %r' % (o.val.off,)
                c.check(TOK, 'remaining text', rem)
            b.go(c)
    for fn, want in (('lex_peek', -1), ('lex_remaining', None)):
        c = b.case('no text', ALL, fn, 'lexer.c', LexCase)
        c.lx = c.obj('LEX', 'lex', name=None, text=None)
        c.call(c.lx)
        c.returns(want, TOK)
        b.go(c)
    for fn in ('lex_next', 'lex_next_data', 'lex_discard'):
        for cr in (0, 1):
            c = b.case('no text', ALL, fn, 'lexer.c', LexCase)
            c.lx = c.obj('LEX', 'lex', name=None, text=None, recognise_keyword_prefixes=cr)
            c.set(c.lx, 'LEX', 'pos', 0)
            c.nline = 0
            if fn == 'lex_next_data':
                continue
            c.call(c.lx)
            c.inside()
            if fn == 'lex_next':
                c.returns(p.enum('TOK_EOF'), TOK)
            b.go(c)
    # starting a line, and reading a token again after its text changed
    for cr in (0, 1):
        for body, tok, n in ((lit('+A'), '+', 1), (lit(''), '\n', 0), (lit('  >=3'), 'TOK_GE', 4)):
            c = b.case('line %s' % key(body), ALL, 'lex_line', 'lexer.c', LexCase)
            t = c.text_of([], body)
            c.lx = c.obj('LEX', 'lex', name=None, text=None, recognise_keyword_prefixes=cr)
            ln = c.atom('line number', 0, 65535)
            c.call(c.lx, IV(32, ln), t)
            c.inside()
            E = p.enum(tok) if len(tok) > 1 else ord(tok)
            c.returns(E, TOK)
            c.check(TOK, 'line started', lambda cc, s, o, E=E, n=n, ln=ln, t=t: cc.fields(s, token=E, pos=n, lineno=IV(32, ln), text=PV(t)))
            b.go(c)
            c = b.case('token read again in %s' % key(body), ALL, 'lex_refresh', 'lexer.c', LexCase)
            t = c.text_of(lit('A=1:'), body)
            c.lx = c.obj('LEX', 'lex', name=None, text=None, recognise_keyword_prefixes=cr)
            c.set(c.lx, 'LEX', 'token_pos', 4)
            c.set(c.lx, 'LEX', 'pos', 6)
            c.call(c.lx, t)
            c.inside()
            c.returns(E, TOK)
            c.check(TOK, 'token read again', lambda cc, s, o, E=E, n=n, t=t: cc.fields(s, token=E, pos=4 + n, text=PV(t)))
            b.go(c)


@bench('tokens far into a line', ALL, 2)
def far_tokens(b):
    D = DIGIT
    for cr in (0, 1):
        for n in FAR:
            st = n
            for fol in ('', ' ', ',', '+'):
                c = case(b, 'number', cr, far(n), [D, 46, D] + lit(fol))
                number(b, c, st, st, st + 3)
                c = case(b, 'number', cr, far(n), [D, D, 101, 45, D] + lit(fol))
                number(b, c, st, st, st + 5)
                c = case(b, 'name', cr, far(n), lit('X') + [D] + lit(fol))
                if not cr:
                    c.spelled_like_keyword()
                    c.check(TOK, 'name', lambda cc, s, o, st=st: (lambda x: x if x[0] != YES else cc.word_is(s, cc.chars[st:st + 2]))(cc.fields(s, pos=st + 2, token_pos=st)))
                    b.go(c)
                else:
                    expect(b, c, 'TOK_ID', range(st, st + 2), st, st + 2)
                for o, t in (('<', '<'), ('>', '>'), ('>=', 'TOK_GE'), ('<>', 'TOK_NE'), ('=', '=')):
                    c = case(b, 'operator', cr, far(n), lit(o + fol))
                    expect(b, c, t, None, st, st + len(o))
                c = case(b, 'string', cr, far(n), [34, (35, 126), 34] + lit(fol))
                expect(b, c, 'TOK_STR', [st + 1], st, st + 3)
                for it in ([(65, 90)], [34, (35, 126), 34]):
                    c = case(b, 'data', cr, far(n), it + lit(fol.strip(' +')), 'lex_next_data')
                    a, z = (st, st + 1) if len(it) == 1 else (st + 1, st + 2)

                    def chk(cc, s, o, a=a, z=z, e=st + len(it), st=st):
                        if not isinstance(o.val, PV) or o.val.r is not cc.lx:
                            return NO, None, (), 'the item is not returned'
                        x = cc.fields(s, pos=e, token_pos=st)
                        return x if x[0] != YES else cc.word_is(s, cc.chars[a:z])
                    c.check(TOK, 'item', chk)
                    b.go(c)
            c = case(b, 'end of the text', cr, far(n), [])
            expect(b, c, '\n', None, st, st)
            for kw, tok in (('FOR', 'TOK_FOR'), ('THEN', 'TOK_THEN')) if cr else ():
                c = case(b, 'keyword', cr, far(n), lit(kw))
                expect(b, c, tok, None, st, st + len(kw))


@bench('long mantissas and exponents', ALL, 2)
def long_exponents(b):
    D, K = DIGIT, ord('7')
    for L in list(range(3, 18)) + [24, 32, 33, 64, 65, word_size(b) - 8]:
        for mant in ([D] + [K] * (L - 1), [K, 46] + [K] * (L - 3) + [D], [46] + [K] * (L - 2) + [D], [K] * (L - 2) + [D, 46]):
            for ex in ([69, D], [101, 45, D, D], [101, D, D, D, D]) if L < 17 else ([69, D],):
                for fol in ('',):
                    c = case(b, 'number', L % 2, [], mant + ex + lit(fol))
                    number(b, c, 0, 0, L + len(ex))


@bench('values of tokens', ALL)
def unsigneds(b):
    p = b.p
    for tok in ('TOK_NUM', 'TOK_ID', 'TOK_STR', 'TOK_ERROR'):
        for lo, hi, ok in ((1, 65535, True), (0, 0, False), (65536, (1 << 31) - 1, False), (-(1 << 31), -1, False)):
            c = b.case('%s %d..%d' % (tok, lo, hi), ALL, 'lex_unsigned', 'lexer.c', LexCase)
            k = c.atom('value', lo, hi)
            c.lx = c.obj('LEX', 'lex', name=None, num=fe('i2f', k))
            c.set(c.lx, 'LEX', 'token', p.enum(tok))
            out = c.slot('answer', I32)
            c.put(out, IV(32, c.atom('before', 0, (1 << 32) - 1)))
            c.call(c.lx, out)
            yes = ok and tok == 'TOK_NUM'
            c.returns(int(yes), TOK)
            if yes:
                c.check(TOK, 'value', lambda cc, s, o, k=k, out=out: cc.cmp(s, 'value', IV(32, k), cc.ai.load(s, out.pv(), I32)))
            b.go(c)
        for x in (0.5, 1.5, 65535.5, 65534.999, -1.0, 1e300, 0.0):
            c = b.case('%s %g' % (tok, x), ALL, 'lex_unsigned', 'lexer.c', LexCase)
            c.lx = c.obj('LEX', 'lex', name=None, num=x)
            c.set(c.lx, 'LEX', 'token', p.enum(tok))
            out = c.slot('answer', I32)
            c.put(out, IV(32, c.atom('before', 0, (1 << 32) - 1)))
            c.call(c.lx, out)
            c.returns(0, TOK)
            b.go(c)


# ---- DATA items ---------------------------------------------------------------------------------
@bench('data items', ALL, 2)
def data(b):
    n = word_size(b)
    plain = [(33, 33), (35, 43), (45, 57), (59, 126)]

    def good(c, word, tpos, pos):
        def chk(cc, s, o):
            if not isinstance(o.val, PV) or o.val.r is not cc.lx or not s.f.prove_eq(s.f.norm(o.val.off - cc.field('LEX', 'word').off)):
                return NO, None, (), 'the item is not returned'
            x = cc.fields(s, pos=pos, token_pos=tpos)
            return x if x[0] != YES else cc.word_is(s, [cc.chars[i] for i in word])
        c.check(TOK, 'item', chk)
        b.go(c)

    def bad(c, quiet=False):
        c.returns(None, TOK)
        c.check(ALL, 'error reported', lambda cc, s, o: (YES if any(e[0] == 'out' for e in flat_events(s.events())) else NO, None, (), 'nothing is reported'))
        b.go(c)
    for cr in (0, 1):
        for L in (0,) + lens(b):
            for before in (BEFORE if L == 2 else [[]]):
                st = len(before)
                for rng in (plain if L == 2 else plain[3:]):
                    for tail in ('', ',', ':', '"', ' ', ' ,', '\t :') if L <= 2 else ('', ','):
                        if tail == '"' and L == 0:
                            continue
                        # spaces after an item are not part of it
                        for sp in ('', '  ', '\t') if L == 1 else ('',):
                            c = case(b, 'data', cr, before, lit(sp) + [rng] * L + lit(tail), 'lex_next_data')
                            a = st + len(sp)
                            spaces = len(tail) - len(tail.lstrip(' \t'))
                            if L > n - 1:
                                bad(c)
                            elif L == 0:
                                good(c, [], a + spaces, a + spaces)
                            else:
                                good(c, range(a, a + L), a, a + L + spaces)
                for rng in ((32, 33), (35, 126)) if L == 2 else ((35, 126),):
                    for tail in ('', ',', ' '):
                        c = case(b, 'quoted data', cr, before, [34] + [rng] * L + [34] + lit(tail), 'lex_next_data')
                        if L > n - 1:
                            bad(c)
                        else:
                            good(c, range(st + 1, st + 1 + L), st, st + L + 2)
                    c = case(b, 'quoted data without its end', cr, before, [34] + [rng] * L, 'lex_next_data')
                    bad(c)
        for rng in ((127, 127), (128, 254)):
            bad(case(b, 'data outside ASCII', cr, [], lit('A') + [rng], 'lex_next_data'))
            bad(case(b, 'quoted data outside ASCII', cr, [], lit('"A') + [rng, 34], 'lex_next_data'))
        # inside a long item, spaces are kept
        c = case(b, 'data with spaces inside', cr, [], lit(' ') + [plain[3]] + lit('  ') + [plain[3]] + lit('  ,B'), 'lex_next_data')
        good(c, range(1, 5), 1, 7)
        # only spaces, as many as fill the buffer
        for L in (n - 2, n - 1, n):
            c = case(b, 'data followed by spaces', cr, [], lit('A') + [32] * (L - 1), 'lex_next_data')
            if L > n - 1:
                bad(c)
            else:
                good(c, [0], 0, L)


def unit(title, fn, props):
    def run(prog, arg):
        b = FnBench(prog, title)
        b.attempt(fn)
        for r in b.recs:
            if not r.props:
                r.props = frozenset(props)
        return b.result()
    return run


def units(prog):
    return [Unit('lexer: ' + t, p + STAYS, unit(t, fn, p), cost=k) for t, p, fn, k in TABLE]
