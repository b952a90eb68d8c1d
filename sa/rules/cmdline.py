"""The command line: abstract interpretation of main() on argument vectors. Option parsing, the choice of mode, the start of the
interactive monitor and the creation of the machine are the real code; loading a file, compiling, running and printing an
instruction are contracts that the other units establish."""
import re
from ..fnx import *
from ..fnx import FnBench
from ..units import Unit
from ..ai import Node
from ..libc import stream_of
from .store import SrcCase, SRC, LN

PROPS = ['C39']
FILE = b'prog.bas'
FLAGS = [('keywords_anywhere', b'--keywords-anywhere', b'-k'), ('trace_basic', b'--trace-basic', b'-t'),
         ('trace_for', b'--trace-for', b'-f'), ('trace_log', b'--trace-log', b'-g'), ('quiet', b'--quiet', b'-q'),
         ('randomize', b'--randomize', b'-z'), ('memory', b'--report-memory', b'-m')]
SETTINGS = ('keywords_anywhere', 'trace_basic', 'trace_for', 'trace_log')
MODES = [('list', b'--list', b'-l'), ('names', b'--list-names', b'-n'), ('parse', b'--parse', b'-p'), ('code', b'--code', b'-c'),
         ('run', b'--run', b'-r')]
INFO = [b'--version', b'-v', b'--help', b'-h', b'-?', b'/?', b'--help-full', b'-hh']


class Cmd(SrcCase):
    def __init__(self, prog, title, name, props, func=None, file=None):
        super().__init__(prog, title, name, props, func or 'main', file)
        ai = self.ai
        ai.unroll = 200
        ai.unroll_steps = 60000
        ai.max_steps = 400000
        self.owners = False
        self.free_frame = True
        self.loads, self.compiles = True, True
        self.ninst = 3
        self.files = []
        ic = ai.icpt
        ic['load_source_file'] = self._load
        ic['run_program'] = self._note('run')
        ic['parse_source'] = self._parse
        ic['print_binst'] = self._note('instruction')
        ic['new_symbol_table'] = self._new('symbol table', None)
        ic['init_builtins'] = self._nop
        for n in ('init_keywords', 'deinit_keywords', 'delete_symbol_table', 'delete_bcode'):
            ic[n] = self._nop
        ic['fgets'] = self._prompt
        self.words = {}
        ic['new_lex'], ic['lex_line'], ic['lex_next'], ic['lex_word'] = self._new_lex, self._lex_line, self._lex_next, self._lex_word
        for n in ('lex_token', 'lex_peek'):
            ic[n] = lambda ai, st, fr, ins, a: [Outcome('ret', st, self.tok(st)[1])]
        ic['delete_lex'] = self._nop
        for n in ('interpret_line', 'execute'):
            ic[n] = self._note('run')
        for n in ('load_source_file', 'run_program', 'parse_source', 'print_binst', 'interact'):
            prog.func(n)                # anchors

    # ---- contracts
    def _nop(self, ai, st, fr, ins, a):
        return [Outcome('ret', st, None if ins.ty is None or ins.ty.k == 'void' else IV(ins.ty.a, 1))]

    def _note(self, what):
        def fn(ai, st, fr, ins, a):
            st.emit('cmd', what, tuple(a), self.vm_now(st), ins)
            return self._nop(ai, st, fr, ins, a)
        return fn

    def _new(self, name, di):
        def fn(ai, st, fr, ins, a):
            r = ai.region('lazy', ('new', name), name=name)
            r.maybe_null = False
            return [Outcome('ret', st, PV(r))]
        return fn

    def _load(self, ai, st, fr, ins, a):
        st.emit('cmd', 'load', tuple(a), None, ins)
        if not self.loads:
            st.emit('out', 'stdout', 'str', None, (), None, ins, False)
            return [Outcome('ret', st, NULLP)]
        return [Outcome('ret', st, PV(self.src))]

    def _parse(self, ai, st, fr, ins, a):
        st.emit('cmd', 'compile', tuple(a), None, ins)
        if not self.compiles:
            st.emit('out', 'stdout', 'str', None, (), None, ins, False)
            return [Outcome('ret', st, NULLP)]
        return [Outcome('ret', st, PV(self.bc))]

    def _prompt(self, ai, st, fr, ins, a):
        if stream_of(ai, st, a[2]) != 'stdin':
            return None
        st.emit('cmd', 'prompt', (), self.vm_now(st), ins)
        return [Outcome('ret', st, NULLP)]

    def vm_now(self, st):
        """settings of the machine: the object of that size allocated last"""
        n = self.lay_size('vm')
        r = None
        for e in flat_events(st.events()):
            if e[0] == 'alloc' and e[1].size is not None and not e[1].size.t and e[1].size.c == n:
                r = e[1]
        return r and (r, st.mem.get(r))

    def truth(self, s, b):
        if isinstance(b, BV):
            return self.ai.decide(s, b.c)
        if isinstance(b, IV):
            l = s.f.norm(b.l)
            return None if l.t else l.c != 0
        return None

    # ---- the tokens of the lines, for --list-names
    toks = ()

    def tok(self, st):
        line, k = st.ghost['lex']
        ts = self.toks[line] if line < len(self.toks) else ()
        t = ts[k] if k < len(ts) else '\n'
        v = {'\n': 10, 'REM': self.p.enum('TOK_REM')}.get(t)
        if v is None:
            v = self.p.enum('TOK_ID') if isinstance(t, bytes) else self.p.enum(t) if t.startswith('TOK_') else ord(t)
        return t, IV(32, v)

    def _lex_line(self, ai, st, fr, ins, a):
        line = [i for i in range(self.n) if isinstance(a[2], PV) and a[2].r is self.texts[i]]
        if not line:
            raise Undecided('line read by the tokeniser is not known')
        st.ghost['lex'] = (line[0], 0)
        return [Outcome('ret', st, self.tok(st)[1])]

    def _lex_next(self, ai, st, fr, ins, a):
        line, k = st.ghost['lex']
        if self.tok(st)[0] != '\n':
            st.ghost['lex'] = (line, k + 1)
        return [Outcome('ret', st, self.tok(st)[1])]

    def _lex_word(self, ai, st, fr, ins, a):
        t = self.tok(st)[0]
        if not isinstance(t, bytes):
            raise Undecided('word of a token that is no name')
        return [Outcome('ret', st, PV(self.word(t)))]

    def word(self, t):
        if t not in self.words:
            self.words[t] = self.const(t, name='name %r' % t)
        return self.words[t]

    def _new_lex(self, ai, st, fr, ins, a):
        st.emit('cmd', 'mode', (a[1],), None, ins)
        return self._new('tokeniser', None)(ai, st, fr, ins, a)

    # ---- set-up
    def command(self, *args):
        self.source(2, spare=1, named=True)
        inst = self.ai.region('lazy', ('inst',), name='instructions', di=self.di('BINST'))
        inst.size = Lin(self.ninst * self.lay_size('BINST'))
        self.inst = inst
        self.bc = self.obj('BCODE', 'code', inst=inst, used=self.ninst, allocated=self.ninst)
        self.argv = [self.const(a, name='argument %d %r' % (i, a)) for i, a in enumerate((b'lbasic',) + args)]
        self.call(len(self.argv), self.ptrs('argv', self.argv + [None]))
        self.cmd = args

    def start(self):
        outs = super().start()
        for o in outs:
            if o.k == 'exit':
                o.k = 'ret'             # leaving by exit or by return is the same to the user
        return outs

    def ev(self, s, what=None):
        return [e for e in flat_events(s.events()) if e[0] == 'cmd' and (what is None or e[1] == what)]

    def status(self, want):
        def chk(c, s, o):
            v = o.val
            if not isinstance(v, IV):
                return MAYBE, None, (), 'exit status'
            l = s.f.norm(v.l)
            if l.t:
                return MAYBE, None, (), 'exit status'
            if (l.c == 0) != (want == 0):
                return NO, None, (), 'the exit status is %d' % l.c
            return YES, None, (), ''
        self.check(PROPS, 'exit status', chk)

    def file_arg(self):
        return self.argv[1 + self.cmd.index(FILE)]

    def expect(self, what, flags=()):
        """what: 'interactive', 'run', 'list', 'names', 'parse', 'code', 'info' (help or version), 'refused'"""
        flags = set(flags)

        def done(c, s, o):
            ld, runs = c.ev(s, 'load'), c.ev(s, 'run')
            allowed = {'interactive': 'prompt', 'run': 'load run', 'list': 'load', 'names': 'load mode', 'parse': 'load compile',
                       'code': 'load compile instruction'}.get(what, '').split()
            for e in c.ev(s):
                if e[1] not in allowed:
                    d = {'load': 'a file is loaded', 'run': 'the program is executed', 'prompt': 'an interactive session starts',
                         'compile': 'the program is compiled', 'instruction': 'instructions are listed'}[e[1]]
                    return NO, None, (), d
            for k in allowed:
                n = len(c.ev(s, k))
                want = 1
                if k == 'mode':
                    if n and c.truth(s, c.ev(s, k)[0][2][0]) not in ('keywords_anywhere' in flags, None):
                        return NO, None, (), 'names are read in the wrong keyword mode'
                    continue
                if k != 'load' and 'load' in allowed and not c.loads:
                    want = 0
                if k == 'instruction':
                    want = c.ninst if c.loads and c.compiles else 0
                if n != want:
                    return NO, None, (), '%s happens %d times, expected %d' % (
                        {'run': 'execution', 'prompt': 'a prompt', 'compile': 'compilation', 'instruction': 'listing an instruction'}.get(k, k), n, want)
            for e in ld:
                if not (isinstance(e[2][0], PV) and e[2][0].r is c.file_arg()):
                    return NO, None, (), 'the file loaded is not the one named'
            return YES, None, (), ''
        self.check(PROPS, 'what is done', done)

        def settings(c, s, o):
            for e in c.ev(s):
                if e[1] in ('run', 'prompt'):
                    if e[3] is None:
                        return MAYBE, None, (), 'machine not found'
                    r, mem = e[3]
                    s2 = s.copy()
                    s2.mem[r] = mem
                    for f in SETTINGS:
                        fl = c.field('vm', f)
                        v = c.ai.load(s2, PV(r, Lin(fl.off)), c.ty_of(fl))
                        st, pred, extra = equal(c.ai, s2, IV(8 * fl.size, int(f in flags)), v)
                        if st != YES:
                            return st, pred, extra, 'the setting %s is %r when the program or session starts, expected %d' % (f, v, int(f in flags))
                    if e[1] == 'run':
                        a = e[2][0] if e[2] else None
                        if not (isinstance(a, PV) and a.r is r):
                            return NO, None, (), 'another machine runs'
                        fl = c.field('vm', 'stored_program.source')
                        v = c.ai.load(s2, PV(r, Lin(fl.off)), PTR)
                        if not (isinstance(v, PV) and v.r is c.src):
                            return NO, None, (), 'the program executed is not the one loaded'
                if e[1] == 'compile':
                    b = e[2][2] if len(e[2]) > 2 else None
                    v = c.truth(s, b)
                    if v != ('keywords_anywhere' in flags):
                        return (MAYBE if v is None else NO), None, (), 'compiled with keywords anywhere = %r' % (v,)
                    if not (isinstance(e[2][0], PV) and e[2][0].r is c.src):
                        return NO, None, (), 'the program compiled is not the one loaded'
            seeds = [e for e in flat_events(s.events()) if e[0] == 'srand']
            if bool(seeds) != ('randomize' in flags and what not in ('info', 'refused')) and not ('randomize' in flags and what in ('info', 'refused')):
                return NO, None, (), 'the random numbers are %sseeded' % ('' if seeds else 'not ')
            return YES, None, (), ''
        self.check(PROPS, 'settings', settings)

        def greeting(c, s, o):
            if what in ('info', 'refused'):
                said = any(e[0] == 'out' for e in flat_events(s.events()))
                return (YES if said else NO), None, (), 'nothing is printed'
            first = 0
            text = []
            for e in s.events():
                if e[0] == 'loop':
                    return MAYBE, None, (), 'output in a loop'
                if e[0] == 'cmd':
                    break
                if e[0] == 'out':
                    text.append(e)
            t = pieces(c, s, text, 'stdout')
            if t is None:
                return (MAYBE, None, (), 'text printed') if 'quiet' in flags else (YES, None, (), '')
            if t and isinstance(t[-1], bytes) and t[-1].endswith(b'> ') and what == 'interactive':
                t[-1] = t[-1][:-2]
            n = sum(len(x) if isinstance(x, bytes) else 1 for x in t)
            if ('quiet' in flags) == bool(n):
                return NO, None, (), 'version information is %s' % ('printed in quiet mode' if n else 'not printed')
            return YES, None, (), ''
        self.check(PROPS, 'version information', greeting)

        if what == 'code':
            def code(c, s, o):
                for i, e in enumerate(c.ev(s, 'instruction')):
                    a = e[2]
                    if not (isinstance(a[0], PV) and a[0].r is c.inst):
                        return NO, None, (), 'what is listed is no instruction of the program'
                    d = s.f.norm(a[0].off - i * c.lay_size('BINST'))
                    if not s.f.prove_eq(d):
                        return NO, None, (), 'instruction %d is not listed in its place' % i
                    st, pred, extra = equal(c.ai, s, IV(32, i), a[1])
                    if st != YES:
                        return st, pred, extra, 'instruction %d is listed with number %r' % (i, a[1])
                return YES, None, (), ''
            self.check(PROPS, 'instructions listed', code)
        if what == 'list' and self.loads:
            def lines(c, s, o):
                ev, k = s.events(), 0
                for i, e in enumerate(ev):
                    if e[0] == 'cmd' and e[1] == 'load':
                        k = i + 1
                    if e[0] == 'loop':
                        return MAYBE, None, (), 'output in a loop'
                got = pieces(c, s, ev[k:], 'stdout')
                if got is None:
                    return MAYBE, None, (), 'text printed'
                want = []
                for n, t in zip(c.nums, c.texts):
                    want += [('num', s.f.norm(n)), ('str', t)]
                vals = [x for x in got if not isinstance(x, bytes)]
                if len(vals) < len(want) or vals[:len(want)] != want:
                    return NO, None, (), 'the lines printed are %s, expected %s' % (show(vals), show(want))
                lits = [x for x in got if isinstance(x, bytes)]
                if sum(x.count(b'\n') for x in lits[:2 * c.n]) < c.n:
                    return NO, None, (), 'the lines are not printed one to a line'
                return YES, None, (), ''
            self.check(PROPS, 'lines printed', lines)
        if 'memory' in flags and what not in ('info', 'refused') and self.loads and self.compiles:
            def memory(c, s, o):
                ev = [e for e in flat_events(s.events())]
                k = max([i for i, e in enumerate(ev) if e[0] == 'cmd'] or [0])
                want = {g: c.ai.load(s, PV(c.ai.global_region(c.mod, g)), I64) for g in ('malloc_count', 'free_count')}
                for g, v in want.items():
                    def has(x):
                        if not isinstance(x, IV):
                            return False
                        return s.f.prove_eq(s.f.norm(x.l - v.l)) if isinstance(v, IV) else False
                    if not any(e[0] == 'out' and e[2] == 'fmt' and any(has(x) for x in e[4]) for e in ev[k:]):
                        return MAYBE, None, (), '%s is not found in the output' % g
                return YES, None, (), ''
            def memory2(c, s, o):
                ev = [e for e in flat_events(s.events())]
                k = max([i for i, e in enumerate(ev) if e[0] == 'cmd'] or [0])
                nums = [x for e in ev[k:] if e[0] == 'out' and e[2] == 'fmt' for x in e[4] if isinstance(x, IV)]
                if len(nums) < 2 and what != 'list':
                    return NO, None, (), 'the numbers of blocks are not printed'
                return YES, None, (), ''
            self.check(PROPS, 'memory report', memory2)
        if what == 'refused':
            self.status(1)
        elif what in ('parse', 'code', 'run') and not self.loads:
            self.status(1)
        elif what in ('parse', 'code') and not self.compiles:
            self.status(1)
        elif what != 'info' and self.loads and self.compiles:
            self.status(0)


def show(xs):
    return ' '.join(repr(x) if not isinstance(x, tuple) else show_term(x) if x[0] == 'str' else repr(x[1]) for x in xs)


def pieces(c, s, ev, stream):
    """the text printed: bytes, ('num', Lin) and string terms; None if not known"""
    out = []

    def add(x):
        if isinstance(x, bytes):
            if x and out and isinstance(out[-1], bytes):
                out[-1] += x
            elif x:
                out.append(x)
        elif isinstance(x, tuple) and x[0] == 'lit':
            add(x[1])
        elif isinstance(x, tuple) and x[0] == 'cat':
            for y in x[1]:
                add(y)
        else:
            out.append(x)
    for e in ev:
        if e[0] != 'out' or e[1] != stream:
            continue
        if e[2] == 'chr':
            if not isinstance(e[3], IV) or s.f.norm(e[3].l).t:
                return None
            add(bytes([s.f.norm(e[3].l).c & 255]))
        elif e[2] == 'str':
            if e[3] is None:
                return None
            add(e[3])
            if len(e) > 7 and e[7]:
                add(b'\n')
        elif e[2] == 'fmt':
            if not isinstance(e[3], bytes):
                return None
            args, pos = list(e[4]), 0
            for m in re.finditer(rb'%[-0 ]*\d*(?:\.\d+)?(?:l|ll|z|h)?([%usdci])', e[3]):
                add(e[3][pos:m.start()])
                pos = m.end()
                w = m.group(1)
                if w == b'%':
                    add(b'%')
                    continue
                if not args:
                    return None
                a = args.pop(0)
                if w == b's':
                    c.ai.quiet += 1
                    try:
                        _, term = c.ai.strlen(s, a)
                    finally:
                        c.ai.quiet -= 1
                    if term is None:
                        return None
                    add(term)
                elif w == b'c' and isinstance(a, IV) and not s.f.norm(a.l).t:
                    add(bytes([s.f.norm(a.l).c & 255]))
                elif isinstance(a, IV):
                    add(('num', s.f.norm(a.l)))
                else:
                    return None
            if b'%' in e[3][pos:]:
                return None
            add(e[3][pos:])
        else:
            return None
    return out


TABLE = []


def bench(title, cost=1):
    def deco(fn):
        TABLE.append((title, fn, cost))
        return fn
    return deco


def case(b, what, args, flags=(), **kw):
    c = b.case(' '.join(x.decode('latin-1') for x in args) or '(nothing)', PROPS, cls=Cmd)
    note = [k + ' = ' + str(v) for k, v in kw.items()]
    if note:
        c.name += ' (' + ', '.join(note) + ')'
    for k, v in kw.items():
        setattr(c, k, v)
    c.command(*args)
    c.expect(what, flags)
    b.go(c)


@bench('one option at a time')
def single(b):
    case(b, 'interactive', ())
    case(b, 'run', (FILE,))
    for f, lo, sh in FLAGS:
        for o in (lo, sh):
            case(b, 'interactive', (o,), (f,))
            case(b, 'run', (o, FILE), (f,))
            case(b, 'run', (FILE, o), (f,))
    for m, lo, sh in MODES:
        for o in (lo, sh):
            case(b, m, (o, FILE))
            case(b, m, (FILE, o))
            case(b, 'refused', (o,))
    for o in INFO:
        case(b, 'info', (o,))
        case(b, 'info', (o, FILE))
        case(b, 'info', (FILE, o))


def pairs(b, part):
    for i, (f, lo, sh) in enumerate(FLAGS):
        if i != part:
            continue
        for g, lo2, sh2 in FLAGS[i:]:
            case(b, 'run', (sh, lo2, FILE), (f, g))
            case(b, 'run', (sh2, FILE, lo), (f, g))
            case(b, 'interactive', (sh2, sh), (f, g))
        for m, ml, ms in MODES:
            case(b, m, (sh, ms, FILE), (f,))
            case(b, m, (ml, FILE, lo), (f,))
        for o in INFO[:3]:
            case(b, 'info', (sh, o, FILE), (f,))
    if part:
        return
    every = [sh for f, lo, sh in FLAGS]
    case(b, 'run', tuple(every) + (FILE,), [f for f, lo, sh in FLAGS])
    case(b, 'run', (FILE,) + tuple(lo for f, lo, sh in FLAGS), [f for f, lo, sh in FLAGS])
    case(b, 'interactive', tuple(every), [f for f, lo, sh in FLAGS])


for i, fl in enumerate(FLAGS):
    TABLE.append(('options together with ' + fl[1].decode(), (lambda i: lambda b: pairs(b, i))(i), 1))


@bench('files that cannot be used')
def failing(b):
    for m, lo, sh in MODES + [('run', None, None)]:
        for extra in ((), (b'-k',), (b'-q', b'-m')):
            fl = [f for f, l, s in FLAGS if s in extra]
            a = ((sh,) if sh else ()) + extra + (FILE,)
            case(b, m, a, fl, loads=False)
            if m in ('parse', 'code'):
                case(b, m, a, fl, compiles=False)


@bench('instructions listed by --code')
def listing(b):
    for n in (0, 1, 2, 5):
        case(b, 'code', (b'-c', FILE), ninst=n)


@bench('arguments that are no options')
def unknown(b):
    known = {x for _, lo, sh in FLAGS + MODES for x in (lo, sh)} | set(INFO) | {b'--time', b'-i', b'--unit-tests', b'-unittest'}
    bad = set()
    for ch in range(33, 127):
        bad.add(b'-' + bytes([ch]))
    for k in sorted(known):
        for x in (k[:-1], k + b's', k + b' ', k.upper(), b'-' + k, k[:2] + k[3:], k + b'=1'):
            bad.add(x)
    bad |= {b'-', b'--', b'-qk', b'---quiet', b'--k', b'--q', b'-quiet', b'-help', b'-1', b'--no-quiet'}
    for x in sorted(bad - known):
        if x[:1] != b'-':
            continue
        case(b, 'refused', (x,))
        case(b, 'refused', (FILE, x))
        case(b, 'refused', (b'-q', x, FILE), ('quiet',))
    case(b, 'refused', (FILE, b'other.bas'))
    case(b, 'refused', (FILE, b'-q', b'other.bas'), ('quiet',))
    case(b, 'refused', (b'-l', FILE, b'other.bas'))
    case(b, 'refused', (b'other.bas', b'--parse', FILE))
    case(b, 'refused', (b'', FILE))
    case(b, 'refused', (FILE, b''))


@bench('names listed')
def names(b):
    kinds = {b'SIN': '*', b'sqr': '*', b'TAB': '=', b'Spc': '='}
    lines = [
        ((b'A', '=', 'TOK_NUM'), (b'B', '=', b'A')),
        ((b'B', '=', b'SIN', '(', b'A', ')'), (b'TAB', b'X1', 'REM', b'HIDDEN')),
        (('REM', b'HIDDEN'), (b'Z', b'M', b'C', b'A', b'P', b'Y', b'N')),
        ((b'Name', b'NAME', b'name', b'NAM'), (b'sqr', b'SIN', b'Spc', b'sqr', b'AA', b'A')),
        ((), (b'Q',)), ((b'A$', b'A', b'A%'), (b'A$', b'B$', 'TOK_IF')),
        ((b'A', b'B', b'C', b'D'), (b'D', b'C', b'B', b'A')), ((b'D', b'C', b'B', b'A'), (b'B', b'D', b'A', b'E')),
        ((b'C', b'A', b'B'), (b'A', b'B', b'C')), ((b'A', b'C', b'B'), (b'b', b'c', b'a')),
    ]
    for k, toks in enumerate(lines):
        for opt, fl in (((b'-n',), ()), ((b'-k', b'-n'), ('keywords_anywhere',))):
            c = b.case('lines %d%s' % (k + 1, ' -k' if fl else ''), PROPS, cls=Cmd)
            c.toks = toks
            c.command(*opt, FILE)

            def isb(ai, st, fr, ins, a, kind='*'):
                _, t = ai.strlen(st, a[0], ins)
                if t is None or t[0] != 'lit':
                    raise Undecided('name looked up')
                hit = kinds.get(t[1]) == kind
                w = ins.ty
                if w.k == 'p' or w is PTR:
                    r = ai.region('lazy', ('builtin', t[1]), name='built-in')
                    r.maybe_null = False
                    return [Outcome('ret', st, PV(r) if hit else NULLP)]
                return [Outcome('ret', st, IV(w.a, int(hit)))]
            c.ai.icpt['builtin'] = isb
            c.ai.icpt['name_is_print_builtin'] = lambda ai, st, fr, ins, a, f=isb: f(ai, st, fr, ins, a, '=')
            want = {}
            for l in toks:
                for t in l:
                    if t == 'REM':
                        break
                    if isinstance(t, bytes):
                        want.setdefault(t.upper(), kinds.get(t, ' '))

            def listed(c, s, o, want=want):
                ev, k = s.events(), 0
                for i, e in enumerate(ev):
                    if e[0] == 'cmd':
                        k = i + 1
                    if e[0] == 'loop':
                        return MAYBE, None, (), 'output in a loop'
                got = flat(s, pieces(c, s, ev[k:], 'stdout'))
                if got is None:
                    return MAYBE, None, (), 'text printed'
                out = {}
                for l in got.split(b'\n'):
                    if not l.strip():
                        continue
                    w = l.split()
                    mark = w[0].decode() if len(w) > 1 else ' '
                    if w[-1].upper() in out:
                        return NO, None, (), 'the name %s is listed twice' % w[-1].decode()
                    out[w[-1].upper()] = mark
                for n in want:
                    if n not in out:
                        return NO, None, (), 'the name %s is not listed' % n.decode()
                    if out[n] != want[n]:
                        return NO, None, (), 'the name %s is marked %r, expected %r' % (n.decode(), out[n], want[n])
                for n in out:
                    if n not in want:
                        return NO, None, (), '%s is listed' % n.decode()
                return YES, None, (), ''
            c.check(PROPS, 'names', listed)
            c.expect('names', fl)
            b.go(c)


def flat(s, ps):
    if ps is None:
        return None
    out = b''
    for x in ps:
        if isinstance(x, bytes):
            out += x
        elif x[0] == 'num' and not x[1].t:
            out += b'%d' % x[1].c
        elif x[0] == 'str' and isinstance(x[1], Region) and x[1].init == 'const' and x[1].data and x[1].data[2][0] == 'str':
            out += x[1].data[2][1].rstrip(b'\0')
        else:
            return None
    return out


def unit(title, fn):
    def go(prog, arg):
        b = FnBench(prog, title)
        b.attempt(fn)
        return b.result()
    return go


def units(prog):
    return [Unit('command line: ' + t, PROPS, unit(t, fn), cost=cost) for t, fn, cost in TABLE]
