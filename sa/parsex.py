"""The compiler (parse.c, emit.c, bcode.c) over abstract token strings: every token has its class, while numbers, strings and names
are unknown values. The code found in the resulting BCODE object is compared with the code the language definition prescribes."""
from .fnx import *
from .fnx import FnCase, FnBench

# reference: operand format and effect on the numeric and string stacks (taken, left) of each instruction
FORMATS = {}
EFFECT = {}


def _ops(fmt, **kw):
    for k, v in kw.items():
        FORMATS['B_' + k] = fmt
        EFFECT['B_' + k] = v


_ops('none', NOP=('', ''), CLEAR=('', ''), POP_NUM=('n', ''), ADD=('nn', 'n'), SUB=('nn', 'n'), MUL=('nn', 'n'), DIV=('nn', 'n'),
     POW=('nn', 'n'), EQ_NUM=('nn', 'n'), LT_NUM=('nn', 'n'), GT_NUM=('nn', 'n'), NE_NUM=('nn', 'n'), LE_NUM=('nn', 'n'),
     GE_NUM=('nn', 'n'), OR=('nn', 'n'), AND=('nn', 'n'), NOT=('n', 'n'), NEG=('n', 'n'), POP_STR=('s', ''), EQ_STR=('ss', 'n'),
     NE_STR=('ss', 'n'), LT_STR=('ss', 'n'), GT_STR=('ss', 'n'), LE_STR=('ss', 'n'), GE_STR=('ss', 'n'), CONCAT=('ss', 's'),
     END=('', ''), STOP=('', ''), RETURN=('', ''), NEXT_IMP=('', ''), END_DEF=('', ''), IF_THEN=('n', ''), IF_ELSE=('n', ''),
     ELSE=('', ''), PRINT_LN=('', ''), PRINT_SPC=('n', ''), PRINT_TAB=('n', ''), PRINT_COMMA=('', ''), PRINT_NUM=('n', ''),
     PRINT_STR=('s', ''), CLS=('', ''), INPUT_END=('', ''), INPUT_SEP=('', ''), RESTORE=('', ''), RAND=('', ''), SEED=('n', ''),
     ABS=('n', 'n'), ASC=('s', 'n'), ATN=('n', 'n'), CHR=('n', 's'), COS=('n', 'n'), EXP=('n', 'n'), INKEY=('', 's'), INT=('n', 'n'),
     LEFT=('sn', 's'), LEN=('s', 'n'), LOG=('n', 'n'), MID3=('snn', 's'), RIGHT=('sn', 's'), RND=('', 'n'), SGN=('n', 'n'),
     SIN=('n', 'n'), SQR=('n', 'n'), STR=('n', 's'), TAN=('n', 'n'), TIME_STR=('', 's'), VAL=('s', 'n'))
_ops('source', SOURCE_LINE=('', ''))
_ops('num', PUSH_NUM=('', 'n'))
_ops('str', PUSH_STR=('', 's'), INPUT_BUF=('', ''), DATA=('', ''))
_ops('var', GET_SIMPLE_NUM=('', 'n'), SET_SIMPLE_NUM=('n', ''), SET_SIMPLE_STR=('s', ''), GET_SIMPLE_STR=('', 's'),
     FOR=('nnn', ''), NEXT_VAR=('', ''), PARAM=('', ''))
_ops('line', GOTO=('', ''), GOTRUE=('n', ''), GOSUB=('', ''), ON_LINE=('', ''), RESTORE_LINE=('', ''))
_ops('count', ON_GOTO=('n', ''), ON_GOSUB=('n', ''))
_ops('param', DIM_NUM=('*', ''), GET_PAREN_NUM=('*', 'n'), SET_ARRAY_NUM=('*n', ''), DIM_STR=('*', ''), GET_PAREN_STR=('*', 's'),
     SET_ARRAY_STR=('*s', ''), DEF=('', ''), INPUT_NUM=('*', ''), INPUT_STR=('*', ''), INPUT_LINE=('*', ''), READ_NUM=('*', ''),
     READ_STR=('*', ''))

KINDS = {'unknown': 'SYM_UNKNOWN', 'var': 'SYM_VARIABLE', 'array': 'SYM_ARRAY', 'def': 'SYM_DEF', 'builtin': 'SYM_BUILTIN'}


class Name:
    """an identifier: unknown spelling, known type, known table entries"""
    __slots__ = ('c', 'key', 'string', 'word', 'term', 'len', 'syms', 'plain', 'paren')

    def __init__(self, c, key, string, plain, paren):
        self.c, self.key, self.string = c, key, string
        self.syms = []
        self.word = c.text('name ' + key, lo=1, hi=100)
        self.len = c.len(self.word)
        self.term = ('str', self.word)
        last = LA(AT.get(('chr', self.term, c.st.f.norm(self.len - 1)), -128, 127))
        c.assume(('eq' if string else 'ne', last - 36), ('ne', last))
        self.plain = self.paren = None
        if plain:
            self.plain = c.symbol_object(self, 'var')
        if paren:
            self.paren = c.symbol_object(self, paren)


def cancel(code, neg):
    out = []
    for x in code:
        if neg(x) and out and neg(out[-1]):
            out.pop()
        else:
            out.append(x)
    return out


class ParseCase(FnCase):
    def effects(self, o, where):
        bad = False
        for e in flat_events(o.st.events()):
            d = os_effect(self.ai, o.st, e)
            if d:
                bad = True
                self.refute(o.st, None, (), ('C18',), 'effect of compiling', d, where)
        if not bad:
            self.rec(('C18',), 'proved', 'effect of compiling', '', where)

    def __init__(self, prog, title, name, props, func=None, file=None):
        super().__init__(prog, title, name, props, 'parse_source', 'parse.c')
        self.f = prog.func('parse_source')
        self.free_frame = True
        self.names, self.lits = [], {}
        self.lines = []
        self.symtab = self.obj('SYMTAB', 'symbol table', used=0, allocated=0, psym=None)
        self.E = prog.enum
        self.own_props = ('C11',)
        self.sus_props = ['C04']
        self.expect_code = None
        self.word_off = self.field('LEX', 'word').off
        self.ai.unroll = 64
        self.ai.max_rec = 12
        self.ai.icpt.update(lex_next=self._next, lex_line=self._line, lex_next_data=self._data, lex_discard=self._discard,
                            lex_peek=self._peek, sym_lookup=self._lookup, sym_insert=self._insert, sym_make_unknown_array=self._unknown,
                            print_lex_token=self._noop, print_token=self._noop, space=self._noop)
        for k in ('strcmp', 'strcasecmp'):
            self.ai.icpt[k] = self._cmp

    # ---- script
    def ident(self, key, string=False, plain=False, paren=None):
        n = Name(self, key, string, plain, paren)
        self.names.append(n)
        return n

    def symbol_object(self, n, kind):
        r = self.obj('SYMBOL', '%s %s' % (kind, n.key if isinstance(n, Name) else n), kind=self.E(KINDS[kind]),
                     type=self.E('TYPE_STR' if (n.string if isinstance(n, Name) else n.endswith('$')) else 'TYPE_NUM'))
        r.maybe_null = False
        self.set(r, 'SYMBOL', 'id', self.atom('id of %s' % r.name, 0, 65535))
        if isinstance(n, Name):
            self.set(r, 'SYMBOL', 'name', n.word)
            n.syms.append(r)
        return r

    def line(self, *toks):
        self.lines.append([self.tok(t) for t in toks])

    def tok(self, t):
        """'FOR' keyword; '=' character; Name; ('num', FE); ('line', Lin); ('str', region); ('data', region or None); ('any', {not these})"""
        E = self.E
        if isinstance(t, Name):
            return (E('TOK_ID'), t)
        if isinstance(t, str):
            if len(t) == 1 and not t.isalpha():
                return (ord(t), None)
            two = {'<>': 'NE', '<=': 'LE', '>=': 'GE'}
            return (E('TOK_' + two.get(t, t)), None)
        if t[0] == 'fn':
            return (E('TOK_ID'), t[1].encode())
        if t[0] in ('num', 'lineno'):
            return (E('TOK_NUM'), t[1] if isinstance(t[1], FE) else fe('i2f', t[1]))
        if t[0] == 'str':
            return (E('TOK_STR'), t[1])
        if t[0] == 'data':
            return ('data', t[1])
        if t[0] == 'any':
            a = self.atom('token %d' % len(self.lines), 0, E('TOK_TO'))
            for x in t[1]:
                self.assume(('ne', a - (self.tok(x)[0] if isinstance(x, str) else x)))
            return (a, 'any')
        raise AssertionError(t)

    def num(self, key):
        return fe('fa', 'name', 'number ' + key, self.serial)

    def big(self):
        x = self.num('big')
        self.assume(('f', GT, x, fc(65535.0)))
        return x

    def frac(self):
        x = self.num('frac')
        self.assume(('f', LT | GT, self.ai.mkf('floor', x), x))
        return x

    def lineno(self, key):
        return self.atom('line ' + key, 1, 65535)

    def string(self, key):
        return self.text('string ' + key, hi=120)

    # ---- the tokeniser's contract
    def _lexset(self, st, lex, tok):
        t, v = tok
        put = lambda f, x, ty: self.ai.store(st, PV(lex.r, lex.off + self.field('LEX', f).off, lex.ext), ty, x, None)
        put('token', IV(32, t), I32)
        if isinstance(v, Name):
            self.ai.set_str(st, PV(lex.r, lex.off + self.word_off, lex.ext), v.len, v.term)
        elif isinstance(v, bytes):
            self.ai.set_str(st, PV(lex.r, lex.off + self.word_off, lex.ext), Lin(len(v)), ('lit', v))
        elif isinstance(v, Region):
            self.ai.set_str(st, PV(lex.r, lex.off + self.word_off, lex.ext), self.len(v), ('str', v))
        elif isinstance(v, FE):
            put('num', v, DOUBLE)
        elif v == 'any':
            r = self.text('word of any token', hi=120)
            self.ai.set_str(st, PV(lex.r, lex.off + self.word_off, lex.ext), self.len(r), ('str', r))
            put('num', self.num('of any token'), DOUBLE)

    def _pos(self, st):
        line = tok = -1
        for e in st.events():
            if e[0] == 'lexline':
                line, tok = line + 1, 0
            elif e[0] == 'lextok':
                tok += 1
            elif e[0] == 'lexend':
                tok = 1 << 20
        return line, tok

    def _cur(self, st, line, tok):
        if 0 <= line < len(self.lines) and tok < len(self.lines[line]):
            return self.lines[line][tok]
        return (10, None)

    def _next(self, ai, st, fr, ins, a):
        line, tok = self._pos(st)
        t = self._cur(st, line, tok + 1)
        if t[0] == 'data':
            raise Undecided('token requested where DATA text follows')
        st.emit('lextok', ins)
        self._lexset(st, a[0], t)
        return [Outcome('ret', st, IV(32, t[0]))]

    def _line(self, ai, st, fr, ins, a):
        st.emit('lexline', ins)
        line, tok = self._pos(st)
        t = self._cur(st, line, 0)
        put = lambda f, x, ty: ai.store(st, PV(a[0].r, a[0].off + self.field('LEX', f).off, a[0].ext), ty, x, None)
        put('lineno', a[1], I32)
        put('text', a[2], PTR)
        self._lexset(st, a[0], t)
        return [Outcome('ret', st, IV(32, t[0]))]

    def _data(self, ai, st, fr, ins, a):
        line, tok = self._pos(st)
        t = self._cur(st, line, tok + 1)
        st.emit('lextok', ins)
        if t[0] != 'data' or t[1] is None:
            self._lexset(st, a[0], (self.E('TOK_ERROR'), None))
            return [Outcome('ret', st, NULLP)]
        p = PV(a[0].r, a[0].off + self.word_off, a[0].ext)
        ai.set_str(st, p, self.len(t[1]), ('str', t[1]))
        return [Outcome('ret', st, p)]

    def _discard(self, ai, st, fr, ins, a):
        st.emit('lexend', ins)
        self._lexset(st, a[0], (10, None))
        return [Outcome('ret', st, None)]

    def _peek(self, ai, st, fr, ins, a):
        return [Outcome('ret', st, IV(32, LA(AT.fresh('peek', -1, 255))))]

    def _noop(self, ai, st, fr, ins, a):
        return [Outcome('ret', st, None)]

    def _cmp(self, ai, st, fr, ins, a):
        """comparison of a name with a reserved word: unknown names are not reserved words, and equal only to themselves"""
        (l1, t1), (l2, t2) = ai.strlen(st, a[0], ins), ai.strlen(st, a[1], ins)
        if t1 is None or t2 is None:
            return None
        if t1 == t2:
            return [Outcome('ret', st, IV(32, 0))]
        if t1[0] == 'lit' and t2[0] == 'lit':
            return None
        if t1[0] in ('lit', 'str') and t2[0] in ('lit', 'str'):
            v = LA(AT.fresh('order', -255, 255))
            st.f.assume_ne(v)
            return [Outcome('ret', st, IV(32, v))]
        return None

    # ---- the symbol table's contract
    def _name_of(self, ai, st, p, ins):
        ln, term = ai.strlen(st, p, ins)
        for n in self.names:
            if term == n.term:
                return n
        if term is not None and term[0] == 'lit':
            return term[1].decode().upper()
        raise Undecided('unknown name looked up')

    def _syms(self, st, n):
        out = list(n.syms) if isinstance(n, Name) else list(self.lits.get(n, ()))
        return out + [e[2] for e in st.events() if e[0] == 'insert' and e[1] is n or e[0] == 'insert' and e[1] == n]

    def _lookup(self, ai, st, fr, ins, a):
        n = self._name_of(ai, st, a[1], ins)
        p = a[2]
        if isinstance(p, BV):
            paren = ai.decide(st, p.c)
        else:
            v = st.f.norm(p.l)
            if v.t:
                raise Split(('eq', v))
            paren = v.c != 0
        if not isinstance(n, Name) and n in BUILTINS:
            if n not in self.lits:
                self.lits[n] = [self.symbol_object(n, 'builtin')]
                for r in self.lits[n]:
                    st.mem[r] = self.st.mem[r]
            for r in self.lits[n]:
                if r not in st.mem:
                    st.mem[r] = self.st.mem[r]
            return [Outcome('ret', st, PV(self.lits[n][0]))]
        for r in self._syms(st, n):
            k = ai.load(st, self.at(r, 'SYMBOL', 'kind').pv(), I8)
            kk = st.f.norm(k.l)
            if kk.t:
                raise Undecided('kind of a symbol unknown')
            if kk.c == self.E('SYM_BUILTIN') or (kk.c == self.E('SYM_VARIABLE')) == (not paren):
                return [Outcome('ret', st, PV(r))]
        return [Outcome('ret', st, NULLP)]

    def _insert(self, ai, st, fr, ins, a):
        n = self._name_of(ai, st, a[1], ins)
        r = Region('lazy', ('newsym', next(AT.n)), name='new symbol', di=self.di('SYMBOL'))
        r.maybe_null = False
        r.size = Lin(self.lay_size('SYMBOL'))
        put = lambda f, x, ty: ai.store(st, self.at(r, 'SYMBOL', f).pv(), ty, x, None)
        put('kind', IV(8, ai.uview(st, a[2])), I8)
        put('type', IV(8, ai.uview(st, a[3])), I8)
        put('defined', IV(8, 0), I8)
        put('id', IV(16, LA(AT.get(('name', 'id of new symbol', r.id), 0, 65535))), I16)
        if isinstance(n, Name):
            put('name', PV(n.word), PTR)
        st.emit('insert', n, r, ins)
        return [Outcome('ret', st, PV(r))]

    def _unknown(self, ai, st, fr, ins, a):
        st.emit('resolve', ins)
        return [Outcome('ret', st, None)]

    # ---- expected result
    def setup(self):
        texts = [self.text('program text %d' % i) for i in range(len(self.lines))]
        nums = [self.atom('number of line %d' % i, 0, 65535) for i in range(len(self.lines))]
        ls = self.array('source_line', 'lines', [dict(num=a, text=t) for a, t in zip(nums, texts)]) if self.lines else None
        self.src = self.obj('SOURCE', 'program', name=None, lines=ls, allocated=len(self.lines), used=len(self.lines))
        self.call(self.src, self.symtab, IV(1, 0) if False else IV(8, 0))
        f = self.f
        self.args[2] = IV(1, self.atom('crunched text', 0, 1))
        self.roots |= {self.src, self.symtab}

    def weak(self, rr, off):
        return False

    def sym_now(self, s, n, paren):
        """table entry of a name for a use with or without parentheses, after compiling"""
        for r in self._syms(s, n):
            k = s.f.norm(self.ai.load(s, self.at(r, 'SYMBOL', 'kind').pv(), I8).l)
            if not k.t and (k.c == self.E('SYM_VARIABLE')) == (not paren):
                return r
        return None

    def rejected(self, props=()):
        self.setup()
        self.returns(None, props)

        def told(c, s, o):
            for e in flat_events(s.events()):
                if e[0] == 'out' and e[1] == 'stderr':
                    return YES, None, (), ''
            return NO, None, (), 'the error is not reported'
        self.check(sorted(set(props) | {'C27'} & {'C27'}), 'error reported', told)

    def code(self, want, props=()):
        """want: list of (opname, operand...) after the SOURCE_LINE instructions included explicitly as ('LINE', i)"""
        self.setup()
        self.props |= set(props)
        self.expect_code = want
        props = sorted(self.props)

        def chk(c, s, o):
            return c.judge_code(s, o, want)
        self.check(props, 'compiled code', chk)

        def bal(c, s, o):
            return c.balance(s, o)
        self.check(['C06'], 'stack effect of the compiled line', bal)

        def done(c, s, o):
            ev = [e[0] for e in s.events()]
            if 'resolve' not in ev:
                return NO, None, (), 'names only used with parentheses are not made arrays'
            return YES, None, (), ''
        self.check(['C32'], 'undeclared arrays', done)

    def instructions(self, s, o):
        """[(op number, region, offset)] found in the returned code, or an error text"""
        ai = self.ai
        v = o.val
        if not isinstance(v, PV) or v.r is None:
            return 'the line is rejected'
        n = ai.evalc(s, ('null', v.r))
        if n:
            return 'the line is rejected'
        used = s.f.norm(ai.load(s, self.at(v.r, 'BCODE', 'used').pv(), I32).l)
        if used.t:
            raise Undecided('length of the code unknown')
        p = ai.load(s, self.at(v.r, 'BCODE', 'inst').pv(), PTR)
        out = []
        sz = self.lay_size('BINST')
        for i in range(used.c):
            op = s.f.norm(ai.load(s, PV(p.r, p.off + i * sz), I16).l)
            if op.t:
                raise Undecided('operation unknown')
            out.append((op.c, p.r, p.off + i * sz))
        return out

    def opname(self, k):
        return OPNAME(self.p).get(k, '?%d' % k)

    def listing(self, ins):
        return ' '.join(self.opname(k)[2:] for k, _, _ in ins)

    def judge_code(self, s, o, want):
        got = self.instructions(s, o)
        if isinstance(got, str):
            return NO, None, (), got
        # two negations in a row change nothing, whether they are compiled or not
        got = cancel(got, lambda x: self.opname(x[0]) == 'B_NEG')
        want = cancel(want, lambda w: w[0] == 'NEG')
        ops = [w[0] for w in want]
        names = [self.opname(k)[2:] for k, _, _ in got]
        if names != ops:
            return NO, None, (), 'compiled to %s, expected %s' % (' '.join(names), ' '.join(ops))
        ai = self.ai
        for (k, r, off), w in zip(got, want):
            nm = 'B_' + w[0]
            fmt = FORMATS[nm]

            def ld(path, ty, ext=None):
                return ai.load(s, PV(r, off + self.field('BINST', 'u.' + path).off), ty)
            pairs = []
            if fmt == 'source':
                pairs = [(IV(32, w[1]), ld('source_line', I32), 'line index')]
            elif fmt == 'num':
                pairs = [(self.val(w[1]), ld('num', DOUBLE), 'number')]
            elif fmt == 'str':
                v = ld('str', PTR)
                if w[1] is None:
                    pairs = [(NULLP, v, 'text')]
                else:
                    x = self.cmp(s, 'text of %s' % w[0], Str(self.len(w[1]), ('str', w[1])), v)
                    if x[0] != YES:
                        return x
                    if not isinstance(v, PV) or v.r in (w[1],) or v.r.kind != 'heap':
                        return NO, None, (), 'text of %s is not a copy of its own' % w[0]
            elif fmt == 'line':
                pairs = [(IV(32, w[1]), ld('basic_line.lineno', I32), 'line number'),
                         (IV(32, (1 << 32) - 1), ld('basic_line.bcode', I32), 'unresolved mark')]
            elif fmt == 'count':
                pairs = [(IV(32, w[1]), ld('count', I32), 'count')]
            elif fmt in ('var', 'param'):
                q = self.sym_now(s, w[1], fmt == 'param' and (w[2] > 0))
                if q is None:
                    return NO, None, (), '%s: no such entry in the symbol table' % w[0]
                idv = ai.load(s, self.at(q, 'SYMBOL', 'id').pv(), I16)
                pairs = [(IV(32, ai.uview(s, idv)), ld('symbol_id' if fmt == 'var' else 'param.symbol_id', I32), 'symbol')]
                if fmt == 'param':
                    pairs.append((IV(8, w[2]), ld('param.params', I8), 'number of parameters'))
                want_kind = w[-1] if isinstance(w[-1], str) else None
                if want_kind:
                    kv = ai.load(s, self.at(q, 'SYMBOL', 'kind').pv(), I8)
                    pairs.append((IV(8, self.E(KINDS[want_kind])), kv, 'kind of the symbol'))
                tv = ai.load(s, self.at(q, 'SYMBOL', 'type').pv(), I8)
                pairs.append((IV(8, self.E('TYPE_STR' if w[1].string else 'TYPE_NUM')), tv, 'type of the symbol'))
            for a, b, what in pairs:
                st, pred, extra = equal(ai, s, a, b)
                if st != YES:
                    return st, pred, extra, '%s: %s is %r, expected %r' % (w[0], what, b, a)
        hd = ai.load(s, self.at(o.val.r, 'BCODE', 'has_data').pv(), I8)
        st, pred, extra = equal(ai, s, IV(8, 1 if 'DATA' in ops else 0), hd)
        if st != YES:
            return st, pred, extra, 'the mark for code with DATA is %r' % hd
        return YES, None, (), ''

    def balance(self, s, o):
        got = self.instructions(s, o)
        if isinstance(got, str):
            return YES, None, (), ''
        stack = []
        for k, r, off in got:
            nm = self.opname(k)
            if nm not in EFFECT:
                return NO, None, (), 'unknown instruction %d' % k
            take, give = EFFECT[nm]
            if '*' in take:
                n = s.f.norm(self.ai.load(s, PV(r, off + self.field('BINST', 'u.param.params').off), I8).l)
                if n.t:
                    return MAYBE, None, (), 'parameter count unknown'
                take = take.replace('*', 'n' * n.c)
            # the operands of each type, taken from that type's own stack
            for x in 'ns':
                need = take.count(x)
                have = stack.count(x)
                if have < need:
                    return NO, None, (), '%s takes %d %s operands, %d are there: %s' % (
                        nm[2:], need, 'numeric' if x == 'n' else 'string', have, self.listing(got))
                for _ in range(need):
                    stack.reverse()
                    stack.remove(x)
                    stack.reverse()
            stack += list(give)
            if nm == 'B_END_DEF':
                # the body leaves the function's result
                if len(stack) != 1:
                    return NO, None, (), 'a function body leaves %d values' % len(stack)
                stack = []
            if nm in ('B_SOURCE_LINE', 'B_IF_THEN', 'B_IF_ELSE', 'B_ELSE') and stack:
                return NO, None, (), 'values are left on the stacks at %s: %s' % (nm[2:], self.listing(got))
        if stack:
            return NO, None, (), 'the line leaves %s on the stacks: %s' % (stack, self.listing(got))
        return YES, None, (), ''


# reference: documented built-in functions: arguments, result, instruction; None = reserved, not implemented
BUILTINS = {
    'ABS': ('n', 'n', 'ABS'), 'ASC': ('s', 'n', 'ASC'), 'ATN': ('n', 'n', 'ATN'), 'CHR$': ('n', 's', 'CHR'), 'COS': ('n', 'n', 'COS'),
    'EXP': ('n', 'n', 'EXP'), 'INT': ('n', 'n', 'INT'), 'LEFT$': ('sn', 's', 'LEFT'), 'LEN': ('s', 'n', 'LEN'), 'LOG': ('n', 'n', 'LOG'),
    'MID$': ('snn', 's', 'MID3'), 'RIGHT$': ('sn', 's', 'RIGHT'), 'RND': ('d', 'n', 'RND'), 'SGN': ('n', 'n', 'SGN'),
    'SIN': ('n', 'n', 'SIN'), 'SQR': ('n', 'n', 'SQR'), 'STR$': ('n', 's', 'STR'), 'TAN': ('n', 'n', 'TAN'),
    'TIME$': ('d', 's', 'TIME_STR'), 'VAL': ('s', 'n', 'VAL'),
    'FIX': None, 'GET$': None, 'HEX$': None, 'INKEY$': None, 'SPACE$': None, 'USR': None,
}

_OPN = {}


def OPNAME(prog):
    if prog not in _OPN:
        d = {}
        for nm in FORMATS:
            try:
                d[prog.enum(nm)] = nm
            except Anchor:
                pass
        _OPN[prog] = d
    return _OPN[prog]
