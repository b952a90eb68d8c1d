"""The interactive monitor: abstract interpretation of whole sessions from interact(), with what is typed given as a script and
the machine in an arbitrary state. The interpreter loop (run), the commands and the interrupt handling are the real code; the
execution of one instruction, the compiler, and reading or writing program files are replaced by their contracts, which the
other units establish."""
from ..fnx import *
from ..fnx import FnBench
from ..units import Unit
from ..ai import Node
from ..libc import stream_of
from .store import SrcCase, SRC, LN

EOF_ = -1


def byte(b):
    return b if b < 128 else b - 256


class Mon(SrcCase):
    """a session: `lines` is what is typed (bytes or lists of bytes and value numbers), newline added"""

    def __init__(self, prog, title, name, props, func=None, file=None):
        super().__init__(prog, title, name, props, func or 'interact', file)
        ai = self.ai
        ai.unroll = 160
        ai.unroll_steps = 60000
        ai.max_steps = 900000
        self.free_frame = True
        self.owners = False
        self.own_props = ('C11',)
        self.ghost = Region('ghost', 'typed', name='typed')
        self.execs = []                 # effects of successive instructions; then the code ends
        self.parses = []                # results of successive compilations (default: ok)
        self.loads, self.saves = [], []
        self.vm = self.obj('vm', 'vm', own='the interpreter')
        self.lay = prog.layout('vm')
        self.cap = {'sp': self.lay['stack'].count, 'ssp': self.lay['strstack'].count, 'rsp': self.lay['retstack'].count,
                    'for_sp': self.lay['for_stack'].count}
        for k, v in self.cap.items():
            ai.ranges[('vm', k)] = (0, v)
        for k, f in self.lay.items():
            if '.' not in k and '[' not in k and f.is_bool and (k.startswith('trace_') or k.startswith('strict_') or k == 'verbose'):
                self.put(k, 0)
        self.stab = self.ai.region('lazy', 'symtab', name='symbol table')
        self.put('st', PV(self.stab))
        self.script = []
        self.nbc = 0
        ic = ai.icpt
        ic['new_vm'] = self._new_vm
        ic['delete_vm'] = self._delete_vm
        ic['fgets'] = self._fgets
        for n in ('getchar', 'getc', 'fgetc'):
            ic[n] = self._getc
        ic['execute'] = self._execute
        ic['parse_source'] = self._parse
        ic['bcode_index'] = self._index
        ic['delete_bcode'] = self._del('code')
        ic['delete_line_map'] = self._del('index')
        ic['load_source_file'] = self._load
        ic['save_source_file'] = self._save
        ic['print_source_line'] = self._srcline
        ic['system'] = self._system
        ps = self.psym = ai.region('lazy', 'parameter', name='parameter symbol', di=self.di('symbol'))
        for path, v in (('kind', IV(8, prog.enum('SYM_VARIABLE'))), ('type', IV(8, prog.enum('TYPE_NUM')))):
            self.st.mem[ps] = Node(self.st.mem.get(ps), 'w', Lin(prog.off('symbol', path)), v.w // 8, v)
        ic['symbol'] = lambda ai, st, fr, ins, a: [Outcome('ret', st, PV(ps))]
        for n in ('clear_symbol_table_values', 'clear_symbol_table_names', 'init_builtins', 'delete_symbol_table'):
            ic[n] = self._sym(n)
        prog.func('execute')            # anchors

    # ---- the machine before the session
    def code(self, which, source=None, compiled=False, bc=None):
        p = self.p
        if source is not None:
            self.put(which + '.source', PV(source))
        else:
            self.put(which + '.source', NULLP)
        if compiled:
            bc, ix = self.bcode('%s.bcode' % which), self.ai.region('lazy', ('ix', which), name='%s.index' % which, di=self.di('line_map'))
            self.put(which + '.bcode', PV(bc))
            self.put(which + '.index', PV(ix))
            return bc, ix
        self.put(which + '.bcode', NULLP)
        self.put(which + '.index', NULLP)
        return None, None

    def bcode(self, name, st=None, lo=1):
        p, st = self.p, st or self.st
        bc = self.ai.region('lazy', ('bc', name), name=name, di=self.di('BCODE'))
        inst = self.ai.region('lazy', ('inst', name), name=name + '.inst', di=self.di('BINST'))
        used = self.atom(name + '.used', lo, 1 << 28)
        inst.size = used.scale(self.lay_size('BINST'))
        bc.size = Lin(self.lay_size('BCODE'))
        n = st.mem.get(bc)
        n = Node(n, 'w', Lin(p.off('BCODE', 'inst')), 8, PV(inst))
        st.mem[bc] = Node(n, 'w', Lin(p.off('BCODE', 'used')), 4, IV(32, used))
        self.lims[bc] = (inst, used)
        return bc

    lims = None

    def program(self, state, n=2):
        """state: 'none', 'entered' (not compiled), 'compiled'"""
        self.lims = self.lims or {}
        self.pstate = state
        if state == 'none':
            self.src = Region('x', 'x')
            self.n, self.nums, self.texts, self.lines = 0, [], [], None
            self.code('stored_program')
            self.b0 = None
        else:
            self.source(n, spare=1, named=True)
            self.b0, self.i0 = self.code('stored_program', self.src, state == 'compiled')

    def left_over(self, imm=True, depth=1, fn=None, strs=1, stopped=False):
        """what earlier statements left: an immediate line, GOSUB and FOR in progress, a CONT point"""
        self.lims = self.lims or {}
        if imm:
            s = self.obj(SRC, 'immediate line', name=None, lines=None, allocated=0, used=0)
            self.code('immediate_code', s, True)
        else:
            self.code('immediate_code')
        here = PV(self.vm, Lin(self.lay['stored_program'].off))
        self.put('rsp', depth)
        self.put('for_sp', depth)
        for i in range(depth):
            self.put('retstack[].code', here, i)
            self.put('for_stack[].code_state.code', here, i)
        self.put('ssp', strs)
        for i in range(strs):
            t = self.text('string %d' % i)
            self.put('strstack[]', PV(t), i)
        # code executed last: an immediate line or the program
        last = 'immediate_code' if imm and sum(self.name.encode()) % 3 else 'stored_program'
        self.put('code_state.code', PV(self.vm, Lin(self.lay[last].off)))
        self.put('fn.code_state.code', NULLP)
        if fn:
            self.put('fn.code_state.code', here)
        if stopped:
            self.put('stopped_program.code', here)
            if self.b0 is not None:
                inst, used = self.lims[self.b0]
                pc = self.atom('CONT point', 0, 1 << 28)
                self.assume(('ge', used - pc - 1))
                self.put('stopped_program.pc', pc)
                o = self.p.layout('BINST')['op']
                self.st.mem[inst] = Node(self.st.mem.get(inst), 'w', pc.scale(self.lay_size('BINST')) + o.off, o.size,
                                         IV(8 * o.size, self.p.enum('B_NOP')))
        else:
            self.put('stopped_program.code', NULLP)

    def typed(self, *lines):
        for l in lines:
            if isinstance(l, bytes):
                l = [byte(b) for b in l]
            self.script += list(l) + [10]
        self.nlines = len(lines)

    # ---- contracts
    def _new_vm(self, ai, st, fr, ins, a):
        st.emit('mon', 'new', ins)
        return [Outcome('ret', st, PV(self.vm))]

    def _delete_vm(self, ai, st, fr, ins, a):
        st.emit('mon', 'delete', a[0], ins)
        if isinstance(a[0], PV) and a[0].r is not None:
            if a[0].r in st.freed:
                ai.suspect(ins, 'free', st, None, 'released twice: %s' % a[0].r.name)
            st.freed[a[0].r] = ins
        return [Outcome('ret', st, None)]

    def _fgets(self, ai, st, fr, ins, a):
        if stream_of(ai, st, a[2]) != 'stdin':
            return None
        n = st.f.norm(ai.sview(st, a[1]))
        ai.access(st, a[0], n, ins, 'write', fr)
        if n.t:
            raise Undecided('length of the input buffer is not known')
        pos = st.ghost.get('pos', 0)
        if pos >= len(self.script):
            st.emit('mon', 'eof', ins)
            return [Outcome('ret', st, NULLP)]
        st.emit('mon', 'read', pos, ins)
        k, off = 0, a[0].off
        while k < n.c - 1 and pos < len(self.script):
            v = self.script[pos]
            pos += 1
            st.mem[a[0].r] = Node(st.mem.get(a[0].r), 'w', off + k, 1, IV(8, v if isinstance(v, Lin) else Lin(v)), a[0].ext)
            k += 1
            if v == 10:
                break
        st.mem[a[0].r] = Node(st.mem.get(a[0].r), 'w', off + k, 1, IV(8, 0), a[0].ext)
        st.ghost['pos'] = pos
        return [Outcome('ret', st, a[0])]

    def _getc(self, ai, st, fr, ins, a):
        if a and stream_of(ai, st, a[0]) != 'stdin':
            return None
        pos = st.ghost.get('pos', 0)
        if pos >= len(self.script):
            st.emit('mon', 'eofc', ins)
            return [Outcome('ret', st, IV(32, -1))]
        v = self.script[pos]
        st.ghost['pos'] = pos + 1
        if isinstance(v, int) and v < 0:
            v += 256
        return [Outcome('ret', st, IV(32, v if isinstance(v, Lin) else Lin(v)))]

    def state(self, st):
        return (dict(st.mem), dict(st.freed))

    def mload(self, st, mem, l):
        """value of a vm location in a remembered memory"""
        s = st.copy()
        s.mem = dict(mem)
        return self.ai._load(s, l.r, mem.get(l.r), l.off, l.ty.size, l.ty, l.ext, False)

    def _execute(self, ai, st, fr, ins, a):
        vm = a[0]
        k = st.ghost.get('exec', 0)
        st.ghost['exec'] = k + 1
        eff = self.execs[k] if k < len(self.execs) else 'end'
        st.emit('mon', 'exec', k, eff, self.state(st), ins)
        if not (isinstance(vm, PV) and vm.r is self.vm):
            raise Undecided('execute on another machine')
        cl = self.loc('code_state.code')
        cp = ai.load(st, cl.pv(), PTR)
        if not isinstance(cp, PV) or cp.r is None:
            raise Undecided('no code is selected')
        bo = self.lay['stored_program.bcode'].off - self.lay['stored_program'].off
        bp = ai.load(st, PV(cp.r, cp.off + bo), PTR)
        if not isinstance(bp, PV) or bp.r not in self.lims:
            raise Undecided('code executed is not known: %r' % (bp,))
        inst, used = self.lims[bp.r]

        def setf(path, v):
            l = self.loc(path)
            st.mem[self.vm] = Node(st.mem.get(self.vm), 'w', l.off, l.ty.size, v if not isinstance(v, (int, Lin)) else IV(l.ty.a, v))
        def setop(pc, op):
            isz = self.lay_size('BINST')
            o = self.p.layout('BINST')['op']
            st.mem[inst] = Node(st.mem.get(inst), 'w', pc.scale(isz) + o.off, o.size, IV(8 * o.size, self.p.enum(op)))
        pc = self.atom('pc after instruction %d' % k, 0, 1 << 28)
        sl = self.atom('line after instruction %d' % k, 0, 1 << 20)
        if eff in ('step', 'intr', 'error', 'call', 'return', 'errorfn', 'errdeep', 'errops'):
            st.f.assume_ge(used - pc - 1)
            setf('code_state.pc', pc)
            setf('code_state.source_line', sl)
            setop(pc, 'B_NOP')
        if eff in ('end', 'intrend'):
            setf('code_state.pc', used)
        if eff == 'stop':
            st.f.assume_ge(used - pc - 1)
            setf('code_state.pc', pc)
            setf('code_state.source_line', sl)
            st.f.assume_ge(used - pc - 2)
            setop(pc, 'B_STOP')
            setf('stopped', 1)
        if eff in ('intr', 'intrend'):
            st.ghost['at'] = pc if eff == 'intr' else used
            self.signal(ai, st)
        if eff == 'stack':
            # operands and loops are left
            setf('sp', self.atom('sp after instruction %d' % k, 0, self.cap['sp']))
            here = PV(self.vm, Lin(self.lay['stored_program'].off))
            for d, arr in (('rsp', 'retstack[].code'), ('for_sp', 'for_stack[].code_state.code')):
                setf(d, 1)
                l = self.loc(arr, 0)
                st.mem[self.vm] = Node(st.mem.get(self.vm), 'w', l.off, 8, here, l.ext)
        if eff.startswith('leave '):
            # the line goes on in the stored program and leaves a return point or loop in its own code
            arr = {'rsp': 'retstack', 'for_sp': 'for_stack'}[eff[6:]]
            l = self.loc(arr + ('[].code' if arr == 'retstack' else '[].code_state.code'), 0)
            st.mem[self.vm] = Node(st.mem.get(self.vm), 'w', l.off, 8, cp, l.ext)
            setf(eff[6:], 1)
            setf('code_state.pc', used)
        if eff in ('call', 'callintr'):
            # a user-defined function is entered
            cur = [ai.load(st, self.loc('code_state.' + f).pv(), self.loc('code_state.' + f).ty) for f in ('code', 'source_line', 'pc')]
            for f, v in zip(('code', 'source_line', 'pc'), cur):
                setf('fn.code_state.' + f, v)
            setop(cur[2].l, 'B_NOP')
            bc = self.bcode('function code', st)
            setf('def_code.bcode', PV(bc))
            setf('def_code.source', NULLP)
            setf('def_code.index', NULLP)
            setf('code_state.code', PV(self.vm, Lin(self.lay['def_code'].off)))
            setf('code_state.pc', 0)
            if eff == 'callintr':
                self.signal(ai, st)
        if eff == 'return':
            for f in ('code', 'source_line', 'pc'):
                l = self.loc('fn.code_state.' + f)
                setf('code_state.' + f, ai.load(st, l.pv(), l.ty))
            setf('fn.code_state.code', NULLP)
            st.ghost['at'] = ai.load(st, self.loc('code_state.pc').pv(), I32).l
            back = ai.load(st, self.loc('code_state.code').pv(), PTR)
            b2 = ai.load(st, PV(back.r, back.off + bo), PTR)
            npc = ai.load(st, self.loc('code_state.pc').pv(), I32)
            if isinstance(b2, PV) and b2.r in self.lims:
                st.f.assume_ge(self.lims[b2.r][1] - npc.l - 1)
        if eff == 'errdeep':
            # at any depth
            for d in ('sp', 'rsp', 'for_sp'):
                setf(d, self.atom('%s after instruction %d' % (d, k), 0, self.cap[d]))
        if eff == 'errops':
            # with operands of the statement on the stacks
            setf('sp', self.atom('sp after instruction %d' % k, 1, self.cap['sp']))
            setf('ssp', 2)
            for i in (0, 1):
                t = Region('heap', ('operand', k, i), name='string operand %d' % i)
                t.string = True
                l = self.loc('strstack[]', i)
                st.mem[self.vm] = Node(st.mem.get(self.vm), 'w', l.off, 8, PV(t), l.ext)
        if eff in ('error', 'errorfn', 'errdeep', 'errops'):
            e = self.loc('errjmp')
            st.emit('mon', 'error', k, ins)
            return [Outcome('longjmp', st, None, ins, (self.vm.id, repr(st.f.norm(e.off))))]
        return [Outcome('ret', st, None)]

    def stopped_at(self, s):
        return s.ghost.get('at')

    def signal(self, ai, st):
        """Ctrl-C arrives: the handler in force runs"""
        h = None
        for e in flat_events(st.events()):
            if e[0] == 'signal':
                h = e
        st.emit('mon', 'interrupt', h[1] if h else None, None)
        g = self.handler_flag
        if g is not None and h is not None and isinstance(h[1][1], FP):
            r = ai.global_region(g[0], g[1])
            st.mem[r] = Node(st.mem.get(r), 'w', ZERO, g[2], IV(8 * g[2], 1))

    @property
    def handler_flag(self):
        """the variable the interrupt handler sets: (module, name, size)"""
        return handler_flag(self.p)

    def _parse(self, ai, st, fr, ins, a):
        k = st.ghost.get('parse', 0)
        st.ghost['parse'] = k + 1
        ok = self.parses[k] if k < len(self.parses) else True
        bc = self.bcode('code compiled by compilation %d' % (k + 1), st, 0 if ok == 'empty' else 1) if ok else None
        if ok == 'empty':
            st.f.assume_eq(self.lims[bc][1])
        if bc is not None:
            bc.maybe_null = False
        st.emit('mon', 'parse', a[0], bc, self.state(st), a[1], ins)
        return [Outcome('ret', st, PV(bc) if ok else NULLP)]

    def _index(self, ai, st, fr, ins, a):
        k = st.ghost.get('index', 0)
        st.ghost['index'] = k + 1
        r = ai.region('lazy', ('index', k), name='index %d' % (k + 1), di=self.di('line_map'))
        r.maybe_null = False
        st.emit('mon', 'index', a[0], a[1], r, ins)
        return [Outcome('ret', st, PV(r))]

    def _del(self, what):
        def h(ai, st, fr, ins, a):
            p = a[0]
            if isinstance(p, PV) and p.r is not None:
                n = ai.evalc(st, ('null', p.r))
                if n is None:
                    raise Split(('null', p.r))
                if not n:
                    if p.r in st.freed:
                        ai.suspect(ins, 'free', st, None, 'released twice: %s' % p.r.name)
                    st.freed[p.r] = ins
                    st.emit('mon', 'drop', what, p.r, ins)
            return [Outcome('ret', st, None)]
        return h

    def _load(self, ai, st, fr, ins, a):
        k = st.ghost.get('load', 0)
        st.ghost['load'] = k + 1
        ok = self.loads[k] if k < len(self.loads) else True
        ln, term = ai.strlen(st, a[0], ins)
        r = None
        if ok:
            r = self.loaded = ai.region('lazy', ('loaded', k), name='loaded program', di=self.di(SRC))
            r.maybe_null = False
            r.size = Lin(self.lay_size(SRC))
            nm = self.text('loaded name')
            for f, v, w in (('name', PV(nm), 8), ('lines', NULLP, 8), ('allocated', IV(32, 0), 4), ('used', IV(32, 0), 4)):
                st.mem[r] = Node(st.mem.get(r), 'w', Lin(self.p.off(SRC, f)), w, v)
        st.emit('mon', 'load', (ln, term), r, ins)
        return [Outcome('ret', st, PV(r) if r else NULLP)]

    def _save(self, ai, st, fr, ins, a):
        k = st.ghost.get('save', 0)
        st.ghost['save'] = k + 1
        ok = self.saves[k] if k < len(self.saves) else True
        ln, term = ai.strlen(st, a[1], ins)
        st.emit('mon', 'save', (ln, term), a[0], ins)
        return [Outcome('ret', st, IV(1, 1 if ok else 0) if ins.ty.a == 1 else IV(ins.ty.a, 1 if ok else 0))]

    def _system(self, ai, st, fr, ins, a):
        v = ai.strlen(st, a[0], ins) if isinstance(a[0], PV) and a[0].r is not None else (ZERO, None)
        st.emit('system', v, ins)
        return [Outcome('ret', st, ai.fresh_val(I32, 'system', True))]

    def _srcline(self, ai, st, fr, ins, a):
        if stream_of(ai, st, a[2]) == 'stdout':
            return None                 # part of a listing: followed
        st.emit('mon', 'srcline', a[0], a[1], stream_of(ai, st, a[2]), ins)
        return [Outcome('ret', st, None)]

    def _sym(self, n):
        def h(ai, st, fr, ins, a):
            st.emit('mon', 'sym', n, a[0], ins)
            return [Outcome('ret', st, None)]
        return h

    def check(self, props, rule, fn):
        self.post.append((frozenset(props), rule, fn))

    # ---- what every session must satisfy
    def mon(self, s):
        return [e for e in flat_events(s.events()) if e[0] in ('mon', 'signal', 'out', 'system', 'open')]

    def universal(self):
        self.check(['C17'], 'the prompt returns', prompts)
        self.check(['C16'], 'interrupt handling around the run', handlers)
        self.check(['C16'], 'interrupted code stops', stops)
        self.check(['C27'], 'a failed run stops', fails)
        self.check(['C12'], 'current code is executed', fresh)
        self.check(['C18'], 'operating system', effects)

    def kind_props(self, o):
        return self.props | {'C17'}

    def effects(self, o, where):
        pass

    def run(self):
        self.universal()
        self.call(*self.options())
        super().run()
        for o in self.outs or ():
            if o.k in ('exit', 'assert') and not self.expect_exit:
                d = '%s during a session' % ('the interpreter is terminated' if o.k == 'exit' else 'an assertion fails')
                self.refute(o.st, None, (), ['C17'], 'session survives', d, at(o.ins) if o.ins is not None else '')
        return self

    def options(self):
        """arguments of interact: every option off, except quiet"""
        names = [n for ty, n in self.f.params]
        q = [i for i, n in enumerate(names) if 'quiet' in n] or [len(names) - 1]
        return [int(i == q[0]) for i in range(len(names))]

    expect_exit = False


def handler_flag(p):
    """the flag set by the handler installed for SIGINT"""
    if hasattr(p, '_hflag'):
        return p._hflag
    p._hflag = None
    for h in handlers_of(p):
        for i in h.instrs():
            if i.op == 'store':
                tgt = i.a[2] if len(i.a) > 2 else i.a[1]
                for x in i.a:
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'global':
                        g = h.mod.globals.get(x[1])
                        p._hflag = (h.mod, x[1], g[0].size if g else 1)
    return p._hflag


def handlers_of(p):
    """functions installed with signal()"""
    out = []
    for f in p.all:
        for i in f.instrs():
            if i.op == 'call' and i.a[0] == ('global', 'signal'):
                t, o = i.a[1][1]
                if o[0] == 'global':
                    g = p.resolve(f.mod, o[1])
                    if g is not None and g not in out:
                        out.append(g)
    return out


# ---- rules over the events of a session ----------------------------------------------------------
def prompts(c, s, o):
    ev = c.mon(s)
    eof = [e for e in ev if e[:2] == ('mon', 'eof')]
    reads = [e for e in ev if e[:2] == ('mon', 'read')]
    if c.expect_quit:
        if eof:
            return NO, None, (), 'the session goes on after the command to leave it'
        return YES, None, (), ''
    if not eof:
        last = reads[-1][2] if reads else 0
        return NO, None, (), 'the session ends although more is typed (after reading the line at character %d)' % last
    dele = [e for e in ev if e[:2] == ('mon', 'delete')]
    if len(dele) != 1:
        return NO, None, (), 'the interpreter is released %d times at the end of the session' % len(dele)
    return YES, None, (), ''


Mon.expect_quit = False


def default_handler(e):
    """is SIGINT's default disposition set by this signal event?"""
    h = e[1][1]
    return isinstance(h, PV) and h.r is None


def ignores(e):
    """is SIG_IGN set by this signal event?"""
    h = e[1][1]
    return isinstance(h, PV) and h.r is not None and h.r.name == '(ptr)1' and not h.off.t and h.off.c == 0


def is_sigint(c, s, e):
    v = e[1][0]
    return isinstance(v, IV) and s.f.norm(v.l) == Lin(2)


def handlers(c, s, o):
    cur = None
    flag_seen = None
    for e in c.mon(s):
        if e[0] == 'signal':
            if not is_sigint(c, s, e):
                continue
            if default_handler(e):
                cur = None
            elif isinstance(e[1][1], FP):
                cur = e
            elif ignores(e):
                cur = e
            else:
                return MAYBE, None, (), 'a handler that is not known (%r) is installed at %s' % (e[1][1], at(e[2]))
        elif e[1:2] == ('exec',):
            if cur is None:
                return NO, None, (), 'code is executed while an interrupt would end the interpreter'
            if ignores(cur):
                return NO, None, (), 'code is executed with interrupts ignored'
        elif e[1:2] in (('read',), ('eof',)):
            if cur is not None:
                return NO, None, (), 'the prompt is reached with %s' % ('interrupts ignored' if ignores(cur) else
                                                                        'the interrupt handler still in place')
    if cur is not None:
        return NO, None, (), 'the session ends with the interrupt handler still in place'
    return YES, None, (), ''


def stops(c, s, o):
    """after an interrupt no instruction is executed until the next line is typed, unless a function call is to be completed;
    Break is reported"""
    pend, said = False, True
    g = c.handler_flag
    for e in c.mon(s):
        if e[0] == 'mon' and e[1] == 'interrupt':
            pend, said = True, False
        elif e[0] == 'mon' and e[1] == 'exec' and pend:
            v = c.mload(s, e[4][0], c.loc('fn.code_state.code'))
            if isinstance(v, PV) and v.r is not None:
                continue
            return NO, None, (), 'an instruction is executed after the interrupt'
        elif e[0] == 'out' and pend:
            said = said or mentions(c, s, e, b'Break')
        elif e[0] == 'mon' and e[1] in ('read', 'eof'):
            if pend and not said:
                return NO, None, (), 'the interrupt is not reported'
            pend = False
    return YES, None, (), ''


def text_of(c, s, e):
    """constant text of an output event, or None"""
    if e[2] == 'fmt':
        return e[3] if isinstance(e[3], bytes) else None
    if e[2] == 'str':
        t = e[3]
        if isinstance(t, tuple) and t and t[0] == 'lit':
            return t[1]
        try:
            if isinstance(t, tuple) and t[0] == 'cat':
                return b''.join(x[1] if x[0] == 'lit' else b'' for x in t[1])
        except Exception:
            return None
    return None


def mentions(c, s, e, what):
    t = text_of(c, s, e)
    return t is not None and what.lower() in t.lower()


def fails(c, s, o):
    pend = False
    for e in c.mon(s):
        if e[0] != 'mon':
            continue
        if e[1] == 'error' or e[1] == 'parse' and e[3] is None:
            pend = e[1]
        elif e[1] == 'exec' and pend:
            return NO, None, (), 'an instruction is executed after %s' % ('the run-time error' if pend == 'error' else 'a failed compilation')
        elif e[1] in ('read', 'eof'):
            pend = False
    return YES, None, (), ''


def lines_in(c, s, mem, r):
    """[(number, text pointer)] of a program in a remembered memory, or None"""
    def ld(reg, off, ty):
        s2 = s.copy()
        s2.mem = dict(mem)
        return c.ai._load(s2, reg, mem.get(reg), off, ty.size, ty, None, False)
    u = ld(r, Lin(c.p.off(SRC, 'used')), I32)
    if not isinstance(u, IV) or s.f.norm(u.l).t:
        return None
    n = s.f.norm(u.l).c
    if n == 0:
        return []
    lp = ld(r, Lin(c.p.off(SRC, 'lines')), PTR)
    if not isinstance(lp, PV) or lp.r is None:
        return None
    out = []
    sz = c.lay_size(LN)
    for i in range(n):
        num = ld(lp.r, lp.off + i * sz + c.p.off(LN, 'num'), I32)
        tx = ld(lp.r, lp.off + i * sz + c.p.off(LN, 'text'), PTR)
        out.append((num, tx))
    return out


def same_lines(c, s, a, b):
    if a is None or b is None:
        return None
    if len(a) != len(b):
        return False
    res = True
    for (n1, t1), (n2, t2) in zip(a, b):
        if not s.f.prove_eq(n1.l - n2.l):
            if not s.f.prove_ne(n1.l - n2.l):
                raise Split(('eq', s.f.norm(n1.l - n2.l)))
            return False
        if isinstance(t1, PV) and isinstance(t2, PV):
            if t1.r is not t2.r:
                # another text object: the line was entered again
                return False
        else:
            res = None
    return res


def fresh(c, s, o):
    """every instruction executed comes from code compiled from the program as it is now, with names as they are now"""
    lay = c.lay
    so, io, do = (lay[k].off for k in ('stored_program', 'immediate_code', 'def_code'))
    parsed = {}                 # code -> (source, lines at that time, position)
    indexed = {}
    if c.b0 is not None:
        parsed[c.b0] = (c.src, lines_in(c, s, c.pre_mem, c.src), -1)
        indexed[c.i0] = (c.b0, c.src)
    names, stored_parse = -2, None
    depth_checked = -1
    changed_clear = None
    for k, e in enumerate(c.mon(s)):
        if e[0] != 'mon':
            continue
        if e[1] == 'sym' and e[2] == 'clear_symbol_table_names':
            names = k
        elif e[1] == 'parse' and e[3] is not None and isinstance(e[2], PV):
            parsed[e[3]] = (e[2].r, lines_in(c, s, e[4][0], e[2].r), k)
            if isinstance(e[5], PV) and e[5].r is not c.stab:
                return NO, None, (), 'the code is compiled with another symbol table'
        elif e[1] == 'index':
            if isinstance(e[2], PV) and isinstance(e[3], PV):
                indexed[e[4]] = (e[2].r, e[3].r)
        elif e[1] == 'exec':
            mem, freed = e[4]
            cp = c.mload(s, mem, c.loc('code_state.code'))
            if not isinstance(cp, PV) or cp.r is not c.vm:
                return NO, None, (), 'code that is not known is executed'
            live = [('stored_program', so)]
            if s.f.prove_eq(cp.off - io):
                live.append(('immediate_code', io))
            elif s.f.prove_eq(cp.off - do):
                continue
            elif not s.f.prove_eq(cp.off - so):
                return MAYBE, None, (), 'code executed: %r' % cp
            for which, off in live:
                b = c.mload(s, mem, c.loc(which + '.bcode'))
                x = c.mload(s, mem, c.loc(which + '.index'))
                src = c.mload(s, mem, c.loc(which + '.source'))
                cur = s.f.prove_eq(cp.off - off)
                if not isinstance(b, PV):
                    return MAYBE, None, (), 'code of %s: %r' % (which, b)
                if b.r is None:
                    if cur:
                        return NO, None, (), 'code is executed that does not exist'
                    if isinstance(src, PV) and src.r is not None:
                        return NO, None, (), 'the program is not compiled when code is executed'
                    continue
                for r, what in ((b.r, 'code'), (getattr(x, 'r', None), 'line index'), (getattr(src, 'r', None), 'program text')):
                    if r is not None and r in freed:
                        return NO, None, (), 'the %s of %s in use was released at %s' % (what, which, at(freed[r]))
                if b.r not in parsed:
                    return MAYBE, None, (), 'origin of the code of %s is not known' % which
                psrc, plines, pk = parsed[b.r]
                if which == 'stored_program':
                    if not isinstance(src, PV) or psrc is not src.r:
                        return NO, None, (), 'the code in use was compiled from another program than the one stored'
                    now = lines_in(c, s, mem, src.r)
                    sm = same_lines(c, s, plines, now)
                    if sm is False:
                        return NO, None, (), 'the code in use was compiled from the program before it was changed'
                    if sm is None:
                        return MAYBE, None, (), 'lines of the program'
                if pk < names:
                    return NO, None, (), 'the names used by the code of %s were cleared after it was compiled' % which
                if not isinstance(x, PV) or x.r is None or x.r not in indexed:
                    if isinstance(x, PV) and x.r is None:
                        return NO, None, (), 'there is no line index for the code of %s' % which
                    return MAYBE, None, (), 'line index of %s' % which
                if indexed[x.r] != (b.r, psrc):
                    return NO, None, (), 'the line index in use belongs to other code'
                if which == 'stored_program' and pk > depth_checked:
                    # first execution since the program was compiled: nothing points into older code
                    depth_checked = pk
                    if pk >= 0:
                        for f in ('rsp', 'for_sp'):
                            v = c.mload(s, mem, c.loc(f))
                            if not isinstance(v, IV) or not s.f.prove_eq(v.l):
                                return MAYBE, (lambda env, v=v: env.lin(v.l) != 0), (v.l,), \
                                    '%s is %r when newly compiled code is first executed: a %s from the program before the change' % (
                                        f, v, 'GOSUB' if f == 'rsp' else 'FOR')
                        v = c.mload(s, mem, c.loc('fn.code_state.code'))
                        if not isinstance(v, PV) or v.r is not None:
                            return NO, None, (), 'a function call from before the change is in progress in newly compiled code'
                        if names < 0 and not any(y[0] == 'mon' and y[1] == 'sym' for y in c.mon(s)[:k]):
                            return NO, None, (), 'functions and names from before the change are still defined in newly compiled code'
    return YES, None, (), ''


def effects(c, s, o):
    got = [e for e in c.mon(s) if e[0] in ('system', 'open')]
    want = c.want_system if c.want_system is not None else [None] * len([e for e in got if e[0] == 'system'])
    if len([e for e in got if e[0] == 'open']):
        return NO, None, (), 'a file is opened'
    sysm = [e for e in got if e[0] == 'system']
    if len(sysm) != len(want):
        return NO, None, (), '%d operating system commands are run, expected %d' % (len(sysm), len(want))
    for e, w in zip(sysm, want):
        if w is None:
            continue
        x = c.cmp_str(s, 'operating system command', Str(len(w), ('lit', w)), *e[1])
        if x[0] != YES:
            return x
    fl = [e for e in c.mon(s) if e[0] == 'mon' and e[1] in ('load', 'save')]
    if c.want_files is None:
        return YES, None, (), ''
    if [(e[1]) for e in fl] != [k for k, w in c.want_files]:
        return NO, None, (), 'program files used: %s, expected %s' % ([e[1] for e in fl], [k for k, w in c.want_files])
    for e, (k, w) in zip(fl, c.want_files):
        if not same_term(s, e[2][1], ('lit', w)):
            x = c.cmp_str(s, 'file name', Str(len(w), ('lit', w)), e[2][0], e[2][1])
            if x[0] != YES:
                return x
    return YES, None, (), ''


Mon.want_system = ()
Mon.want_files = ()


# ---- sessions ------------------------------------------------------------------------------------
TABLE = []


def bench(title, props, cost=1):
    def deco(fn):
        TABLE.append((title, props, fn, cost))
        return fn
    return deco


def execs(c, s):
    return [e for e in c.mon(s) if e[:2] == ('mon', 'exec')]


def which_code(c, s, e):
    cp = c.mload(s, e[4][0], c.loc('code_state.code'))
    if isinstance(cp, PV) and cp.r is c.vm:
        for k in ('stored_program', 'immediate_code', 'def_code'):
            if s.f.prove_eq(cp.off - c.lay[k].off):
                return k
    return None


def by_line(c, s):
    """events grouped by the line typed that caused them"""
    out, cur = [], []
    for e in c.mon(s):
        if e[:2] in (('mon', 'read'), ('mon', 'eof')):
            out.append(cur)
            cur = []
        cur.append(e)
    out.append(cur)
    return out[1:]


def ran(*want):
    """what is executed after each line typed: None, or (code, number of instructions)"""
    def chk(c, s, o):
        groups = by_line(c, s)
        for k, w in enumerate(want):
            ev = groups[k] if k < len(groups) else []
            x = [which_code(c, s, e) for e in ev if e[:2] == ('mon', 'exec')]
            if None in x:
                return MAYBE, None, (), 'code executed is not known'
            if w is None:
                if x:
                    return NO, None, (), '%d instructions (%s) are executed for line %d typed, expected none' % (len(x), x[0], k + 1)
                continue
            if w == '?':
                continue
            code, n = w if isinstance(w, tuple) else (w, None)
            if not x or x[0] != code or any(y not in (code, 'def_code') for y in x):
                return NO, None, (), 'code executed for line %d typed: %s, expected %s' % (k + 1, x or 'none', code)
            if n is not None and len(x) != n:
                return NO, None, (), '%d instructions are executed for line %d typed, expected %d' % (len(x), k + 1, n)
        return YES, None, (), ''
    return chk


FRESH = [('sp', 0), ('ssp', 0), ('rsp', 0), ('for_sp', 0), ('col', 1), ('program_data', 0), ('stopped', 0), ('code_state.pc', 0)]


def fresh_state(k=0):
    """the first instruction executed for the k-th line finds the machine as a new one"""
    def chk(c, s, o):
        groups = by_line(c, s)
        ev = groups[k] if k < len(groups) else []
        ex = [i for i, e in enumerate(ev) if e[:2] == ('mon', 'exec')]
        if not ex:
            return NO, None, (), 'nothing is executed'
        mem = ev[ex[0]][4][0]
        for f, v in FRESH:
            l = c.loc(f)
            a = c.mload(s, mem, l)
            st, pred, extra = equal(c.ai, s, IV(l.ty.a, v), a)
            if st != YES:
                return st, pred, extra, '%s is %r when the run starts, expected %d' % (f, a, v)
        a = c.mload(s, mem, c.loc('fn.code_state.code'))
        if not isinstance(a, PV) or a.r is not None:
            return NO, None, (), 'a function call is in progress when the run starts'
        if not any(e[:2] == ('mon', 'sym') and e[2].startswith('clear_symbol_table') for e in ev[:ex[0]]):
            return NO, None, (), 'variables are not cleared when the run starts'
        return YES, None, (), ''
    return chk


RUNS = (('ends', ['step', 'end']), ('fails', ['step', 'error']), ('stops', ['step', 'stop']), ('is interrupted', ['intr']),
        ('is interrupted at its end', ['intrend']), ('is interrupted in a function', ['callintr', 'step', 'return']),
        ('fails in a function', ['call', 'error']), ('calls a function', ['call', 'step', 'return', 'end']),
        ('leaves loops', ['stack', 'end']))


def data_position(kept=True, k=0):
    """an immediate statement reads its own DATA from the start, and the program's from where reading had got to"""
    def chk(c, s, o):
        groups = by_line(c, s)
        ev = [e for e in (groups[k] if k < len(groups) else []) if e[:2] == ('mon', 'exec')]
        if not ev or which_code(c, s, ev[0]) != 'immediate_code':
            return YES, None, (), ''
        mem = ev[0][4][0]
        l = c.loc('immediate_data')
        a = c.mload(s, mem, l)
        st, pred, extra = equal(c.ai, s, IV(l.ty.a, 0), a)
        if st != YES:
            return st, pred, extra, 'immediate_data is %r when the statement starts, expected 0' % (a,)
        if kept:
            l = c.loc('program_data')
            a, w = c.mload(s, mem, l), c.mload(s, c.pre_mem, l)
            st, pred, extra = equal(c.ai, s, w, a)
            if st != YES:
                return st, pred, extra, 'program_data is %r when the statement starts, it was %r' % (a, w)
        return YES, None, (), ''
    return chk


def count(effs):
    """instructions executed"""
    return len(effs)


@bench('RUN', ['C13', 'C12', 'C16', 'C17', 'C18', 'C22', 'C27', 'C14'])
def run_command(b):
    for state in ('compiled', 'entered', 'none'):
        for name, effs in RUNS:
            if state == 'none' and name != 'ends':
                continue
            c = b.case('program %s, run %s' % (state, name), ['C17'], cls=Mon)
            c.program(state)
            c.left_over(depth=0 if state == 'none' else 2, strs=2, fn=state != 'none', stopped=state != 'none')
            c.execs = effs
            c.typed(b'RUN')
            if state != 'none':
                c.check(['C22', 'C16', 'C27', 'C13'], 'the program is executed', ran(('stored_program', count(effs))))
                c.check(['C13'], 'fresh state', fresh_state())
            else:
                c.check(['C17'], 'nothing is executed', ran(None))
            if 'function' in name:
                c.check(['C14'], 'function call finished', call_over)
            b.go(c)
    # whatever the run did, the next one starts afresh
    for name, effs in RUNS:
        c = b.case('run %s, then run again' % name, ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=1)
        c.execs = effs + ['end']
        c.typed(b'RUN', b'RUN')
        c.check(['C13'], 'fresh state', fresh_state(1))
        c.check(['C13', 'C27'], 'the program is executed', ran(('stored_program', count(effs)), ('stored_program', 1)))
        b.go(c)
    for state in ('compiled', 'entered'):
        c = b.case('program %s, run fails at any depth' % state, ['C17'], cls=Mon)
        c.program(state)
        c.left_over(depth=1)
        c.execs = ['step', 'errdeep']
        c.typed(b'RUN')
        c.check(['C27', 'C13'], 'the program is executed', ran(('stored_program', 2)))
        b.go(c)
    # the program does not compile
    for follow in (b'RUN', b'PRINT 1', b'CONT', b'COMPILE'):
        c = b.case('compilation fails, then %s' % follow.decode(), ['C17'], cls=Mon)
        c.program('entered')
        c.left_over(stopped=True)
        c.parses = [False, False]
        c.typed(b'RUN', follow)
        c.check(['C27', 'C12'], 'nothing is executed', ran(None, None))
        b.go(c)


def call_over(c, s, o):
    """no function call outlives its statement; the variable with the parameter's name is back"""
    v = c.ai.load(s, c.loc('fn.code_state.code').pv(), PTR)
    if not isinstance(v, PV) or v.r is not None:
        return NO, None, (), 'a function call is still in progress after the error'
    if not any(e[:2] == ('mon', 'error') for e in c.mon(s)):
        return YES, None, (), ''
    for f, path in (('defined', 'fn.param_defined'), ('val.num', 'fn.param_val')):
        l = c.symloc(c.psym, f)
        a = c.ai.load(s, l.pv(), l.ty)
        w = c.mload(s, c.pre_mem, c.loc(path))
        st, pred, extra = equal(c.ai, s, w, a)
        if st != YES:
            return st, pred, extra, 'after the error the variable with the parameter\'s name has %s %r, it was %r' % (f, a, w)
    return YES, None, (), ''


@bench('immediate statements', ['C13', 'C12', 'C25', 'C06', 'C10', 'C02', 'C16', 'C17', 'C18', 'C27', 'C14'])
def immediate(b):
    for state in ('compiled', 'entered', 'none'):
        for name, effs in RUNS:
            c = b.case('program %s, statement %s' % (state, name), ['C17'], cls=Mon)
            c.program(state)
            c.left_over(depth=0 if state == 'none' else 2, strs=2, stopped=state != 'none')
            c.execs = effs
            c.typed(b'PRINT 1')
            c.check(['C16', 'C27', 'C17'], 'the statement is executed', ran(('immediate_code', count(effs))))
            c.check(['C25'], 'where DATA is read', data_position(state == 'compiled'))
            if 'function' in name:
                c.check(['C14'], 'function call finished', call_over)
            b.go(c)
        c = b.case('program %s, statement does not compile' % state, ['C17'], cls=Mon)
        c.program(state)
        c.left_over(depth=0 if state == 'none' else 1)
        c.parses = [False] if state != 'entered' else [True, False]
        c.typed(b'PRINT PRINT')
        c.check(['C27', 'C17'], 'nothing is executed', ran(None))
        c.check(['C27'], 'the statement is compiled', lambda c, s, o: (YES if any(e[:2] == ('mon', 'parse') and e[3] is None for e in c.mon(s))
                                                                       else NO, None, (), 'the statement is not compiled'))
        b.go(c)
    for first, second in ((b'PRINT 1', b'PRINT 2'), (b'PRINT 1', b'RUN'), (b'RUN', b'PRINT 1'), (b'RUN', b'RUN')):
        c = b.case('%s fails with operands on the stacks, then %s' % (first.decode(), second.decode()), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0, strs=0)
        c.execs = ['step', 'errops', 'end']
        c.sus_props = ['C02', 'C10', 'C17']
        c.typed(first, second, b'PRINT 3')
        where = {b'RUN': 'stored_program'}
        c.check(['C17', 'C27'], 'the statements are executed', ran((where.get(first, 'immediate_code'), 2), (where.get(second, 'immediate_code'), 1),
                                                                   ('immediate_code', 1)))

        def dropped(c, s, o):
            ex = execs(c, s)
            if len(ex) < 3:
                return MAYBE, None, (), ''
            for f in ('sp', 'ssp'):
                v = c.mload(s, ex[2][4][0], c.loc(f))
                if not isinstance(v, IV) or not s.f.prove_eq(v.l):
                    return NO, None, (), '%s is %r when the next statement starts: operands of the statement that failed' % (f, v)
            return YES, None, (), ''
        c.check(['C06', 'C10', 'C27'], 'operands of a failed statement', dropped)
        b.go(c)
    c = b.case('two statements', ['C17'], cls=Mon)
    c.program('compiled')
    c.left_over(depth=0)
    c.execs = ['end', 'end']
    c.typed(b'PRINT 1', b'PRINT 2')
    c.check(['C17'], 'the statements are executed', ran(('immediate_code', 1), ('immediate_code', 1)))
    b.go(c)
    # GOSUB or FOR left by an immediate line refers to code that the next line replaces
    for what in ('rsp', 'for_sp'):
        c = b.case('immediate line leaves a %s, then another' % ('GOSUB' if what == 'rsp' else 'FOR'), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.execs = ['leave ' + what, 'end']
        c.typed(b'GOSUB 10', b'PRINT 2')
        c.check(['C17'], 'the statements are executed', ran(('immediate_code', 1), ('immediate_code', 1)))

        def none_left(c, s, o, what=what):
            ex = execs(c, s)
            if len(ex) < 2:
                return MAYBE, None, (), ''
            v = c.mload(s, ex[1][4][0], c.loc(what))
            if isinstance(v, IV) and s.f.prove_eq(v.l):
                return YES, None, (), ''
            return NO, None, (), '%s is %r: a return point in an immediate line that is gone' % (what, v)
        c.check(['C12', 'C10', 'C15'], 'control state of the line before', none_left)
        b.go(c)


MUTATIONS = [
    # what is typed, does it change the program
    ('a line is entered at the end', 'new', True), ('a line is replaced', 'same', True), ('a line is deleted', 'delete', True),
    ('NEW', b'NEW', True), ('LOAD', b'LOAD "X"', True),
    ('deleting a line that is not there', 'absent', False), ('LOAD of an unreadable file', b'LOAD "X"', False), ('LIST', b'LIST', False),
    ('SAVE', b'SAVE "X"', False), ('HELP', b'HELP', False), ('COMPILE', b'COMPILE', False), ('a bad line number', b'99999999999 REM', False),
]


@bench('editing and then executing', ['C12', 'C13', 'C16', 'C17', 'C22', 'C24', 'C27'], 4)
def editing(b):
    for what, text, changes in MUTATIONS:
        for follow, expect in ((b'RUN', 'stored_program'), (b'CONT', 'cont'), (b'PRINT 1', 'immediate_code'), (b'COMPILE', None)):
            for stopped in (True, False):
                if stopped != (expect == 'cont') and not (expect == 'immediate_code' and stopped):
                    continue
                c = b.case('%s, then %s%s' % (what, follow.decode(), ' with the program stopped' if stopped else ''), ['C17'], cls=Mon)
                c.program('compiled')
                c.left_over(depth=1, stopped=stopped)
                if isinstance(text, bytes):
                    line = text
                else:
                    line = list(b'1234 PRINT') if text in ('new', 'same') else list(b'1234')
                    n = Lin(1234)
                    if text == 'new':
                        c.assume(('ge', n - c.nums[1] - 1))
                    elif text == 'same' or text == 'delete':
                        c.assume(('eq', n - c.nums[1]))
                    else:
                        c.assume(('ne', n - c.nums[0]), ('ne', n - c.nums[1]))
                if what.startswith('LOAD of'):
                    c.loads = [False]
                c.want_files = {'LOAD': [('load', b'X')], 'SAVE': [('save', b'X')]}.get(what.split()[0], ())
                c.typed(line, follow)
                if changes and expect == 'cont':
                    # the changed program is compiled by a statement in between
                    d = b.case('%s, then a statement, then CONT' % what, ['C17'], cls=Mon)
                    d.program('compiled')
                    d.left_over(depth=1, stopped=True)
                    if not isinstance(text, bytes):
                        if text == 'new':
                            d.assume(('ge', n - d.nums[1] - 1))
                        elif text != 'absent':
                            d.assume(('eq', n - d.nums[1]))
                    d.want_files = c.want_files
                    d.typed(line, b'PRINT 1', follow)
                    d.check(['C12'], 'the program cannot be continued', ran(None, 'immediate_code', None))
                    b.go(d)
                if expect == 'cont':
                    if not changes:
                        c.check(['C12', 'C16'], 'the program continues', ran(None, 'stored_program'))
                    else:
                        c.check(['C12'], 'the program cannot be continued', ran(None, None))
                elif expect is None:
                    c.check(['C12'], 'nothing is executed', ran(None, None))
                else:
                    c.check(['C12', 'C22'], 'execution', ran(None, expect))
                    if follow == b'RUN':
                        c.check(['C13'], 'fresh state', fresh_state(1))
                b.go(c)


@bench('STOP, interrupt and CONT', ['C16', 'C17', 'C12', 'C22', 'C27'])
def continuing(b):
    for between in (None, b'PRINT 1', b'LIST', b'HELP'):
        for name, effs in RUNS:
            if 'function' in name and name != 'is interrupted in a function':
                continue
            for st in ('compiled', 'entered'):
                c = b.case('%s program, run %s%s, CONT' % (st, name, ', ' + between.decode() if between else ''), ['C17'], cls=Mon)
                c.program(st)
                c.left_over(depth=0)
                n = count(effs)
                c.execs = effs + (['end'] if between == b'PRINT 1' else []) + ['end']
                c.typed(*([b'RUN'] + ([between] if between else []) + [b'CONT']))
                mid = [('immediate_code', 1)] if between == b'PRINT 1' else [None] if between else []
                cont = name in ('stops', 'is interrupted', 'is interrupted in a function')
                if name == 'is interrupted at its end':
                    c.check(['C16'], 'CONT', ran(*([('stored_program', n)] + mid + [None])))
                    b.go(c)
                    continue
                c.check(['C16', 'C22'], 'CONT', ran(*([('stored_program', n)] + mid + [('stored_program', 1) if cont else None])))
                if cont:
                    def there(c, s, o, n=n, stop=name == 'stops'):
                        ex = execs(c, s)
                        e = ex[-1]
                        pc = c.mload(s, e[4][0], c.loc('code_state.pc'))
                        # position when the run was left
                        k = [i for i, x in enumerate(c.mon(s)) if x[:2] == ('mon', 'read')][1]
                        if stop:
                            want = c.atom('pc after instruction %d' % (n - 1), 0, 1 << 28) + 1
                        else:
                            want = None
                            for e2 in reversed(ex[:n]):
                                pass
                            want = c.stopped_at(s)
                        if want is None:
                            return MAYBE, None, (), ''
                        st, pred, extra = equal(c.ai, s, IV(32, want), pc)
                        return st, pred, extra, 'CONT continues at instruction %r, expected %r' % (pc, want)
                    c.check(['C16'], 'position', there)
                b.go(c)


# ---- what is printed ------------------------------------------------------------------------------
def pieces(c, s, ev, stream='stdout'):
    """text written by these events: list of bytes | ('num', Lin) | ('text', term); None if not known"""
    import re
    out = []

    def add(x):
        if isinstance(x, bytes):
            if not x:
                return
            if out and isinstance(out[-1], bytes):
                out[-1] += x
                return
        elif isinstance(x, tuple) and x[0] == 'lit':
            return add(x[1])
        elif isinstance(x, tuple) and x[0] == 'cat':
            for y in x[1]:
                add(y)
            return
        out.append(x)
    for e in ev:
        if e[0] != 'out' or e[1] != stream:
            continue
        if e[2] == 'chr':
            v = e[3]
            if not isinstance(v, IV) or s.f.norm(v.l).t:
                return None
            add(bytes([s.f.norm(v.l).c & 255]))
        elif e[2] == 'str':
            if e[3] is None:
                return None
            add(e[3] if isinstance(e[3], tuple) else e[3])
            if len(e) > 7 and e[7]:
                add(b'\n')
        elif e[2] == 'fmt':
            if not isinstance(e[3], bytes):
                return None
            args, k = list(e[4]), 0
            pos = 0
            for m in re.finditer(rb'%(?:%|u|s|c|d|i)', e[3]):
                add(e[3][pos:m.start()])
                pos = m.end()
                w = m.group()[1:]
                if w == b'%':
                    add(b'%')
                    continue
                a = args[k]
                k += 1
                if w in (b'u', b'd', b'i'):
                    l = s.f.norm(a.l)
                    add(str(l.c).encode() if not l.t else ('num', l))
                elif w == b's':
                    c.ai.quiet += 1
                    try:
                        _, term = c.ai.strlen(s, a)
                    finally:
                        c.ai.quiet -= 1
                    if term is None:
                        return None
                    add(term)
                else:
                    return None
            if b'%' in e[3][pos:]:
                return None
            add(e[3][pos:])
    return out


def prints(k, want):
    """the k-th line typed prints exactly this (before the next prompt); want = fn(case, state) -> pieces"""
    def chk(c, s, o):
        g = by_line(c, s)
        got = pieces(c, s, g[k] if k < len(g) else [])
        if got is None:
            return MAYBE, None, (), 'text printed is not known'
        if got and isinstance(got[-1], bytes) and got[-1].endswith(b'> '):
            got[-1] = got[-1][:-2]
            if not got[-1]:
                got.pop()
        w, m = [], want(c, s)
        for x in m:
            if isinstance(x, bytes) and w and isinstance(w[-1], bytes):
                w[-1] += x
            else:
                w.append(x)
        d = 'prints %s, expected %s' % (got, w)
        if len(got) != len(w):
            return NO, None, (), d
        for a, b in zip(got, w):
            if isinstance(b, bytes) or isinstance(a, bytes):
                if a != b:
                    return NO, None, (), d
            elif a[0] == 'num' or b[0] == 'num':
                if a[0] != b[0]:
                    return NO, None, (), d
                x = s.f.norm(a[1] - b[1])
                if not s.f.prove_eq(x):
                    return MAYBE, (lambda env: env.lin(x) != 0), (x,), d
            elif not same_term(s, a, b):
                return NO, None, (), d
        return YES, None, (), ''
    return chk


def listed(lo, hi):
    """lines in the range, each as its number, a space, its text"""
    def want(c, s):
        out = []
        for n, t in zip(c.nums, c.texts):
            for cond in (('ge', n - lo), ('ge', -n + hi)):
                v = c.ai.evalc(s, cond)
                if v is None:
                    raise Split(cond)
                if not v:
                    break
            else:
                out += [('num', s.f.norm(n)) if s.f.norm(n).t else str(s.f.norm(n).c).encode(), b' ', ('str', t), b'\n']
        return out
    return want


BIG = (1 << 32) - 1


@bench('LIST', ['C37', 'C17', 'C16', 'C18'], 2)
def listing(b):
    for cmd, lo, hi in ((b'LIST', 0, BIG), (b'list', 0, BIG), (b'LIST 100', 100, BIG), (b'LIST 100-', 100, BIG), (b'LIST -200', 0, 200),
                        (b'LIST 100-200', 100, 200), (b'LIST100-200', 100, 200), (b'LIST  100 -  200', 100, 200), (b'LIST -', 0, BIG),
                        (b'LIST 0', 0, BIG), (b'LIST -4294967295', 0, BIG)):
        for state, n in (('compiled', 2), ('entered', 3), ('none', 0)):
            c = b.case('%s, %s program%s' % (cmd.decode(), state, ' of %d lines' % n if n else ''), ['C17'], cls=Mon)
            c.program(state, n)
            c.left_over(depth=0)
            c.typed(cmd)
            c.check(['C37'], 'listing', prints(0, listed(lo, hi)))
            c.check(['C17'], 'nothing is executed', ran(None))
            b.go(c)
    # typed digits
    for k in (1, 3, 5):
        c = b.case('LIST from a number of %d digits' % k, ['C17'], cls=Mon)
        c.program('compiled', 1)
        c.left_over(depth=0)
        ds = [c.atom('digit %d' % i, 48, 57) for i in range(k)]
        v = Lin(0)
        for d in ds:
            v = v.scale(10) + d - 48
        c.typed(list(b'LIST ') + ds)
        c.check(['C37'], 'listing', lambda c, s, o, v=v: prints(0, listed(v, BIG))(c, s, o))
        b.go(c)
    # pages: every line appears, ENTER goes on
    for n in (24, 26):
        for tail in (b' P', b' p', b' 1-p'):
            c = b.case('LIST%s of %d lines' % (tail.decode(), n), ['C17'], cls=Mon)
            c.program('compiled', n)
            c.left_over(depth=0)
            c.typed(b'LIST' + tail, b'', b'')

            def paged(c, s, o, n=n):
                got = pieces(c, s, c.mon(s))
                if got is None:
                    return MAYBE, None, (), ''
                # the page breaks are typed newlines
                got = [x.replace(b'\n', b'').replace(b'> ', b'') if isinstance(x, bytes) else x for x in got]
                if got and isinstance(got[-1], bytes) and got[-1].endswith(b'> '):
                    got[-1] = got[-1][:-2]
                got = [x for x in got if x != b'']
                w = [y for a, t in zip(c.nums, c.texts) for y in (b'%d ' % s.f.norm(a).c, ('str', t))]
                d = 'lists %s, expected %d lines' % ([show_term(x) if isinstance(x, tuple) else x for x in got], n)
                if len(got) != len(w):
                    return NO, None, (), d
                for x, y in zip(got, w):
                    if x != y if isinstance(y, bytes) or isinstance(x, bytes) else not same_term(s, x, y):
                        return NO, None, (), d
                return YES, None, (), ''
            c.check(['C37'], 'paged listing', paged)
            b.go(c)


COMMANDS = [('BYE', 'quit'), ('COMPILE', 'compile'), ('CONT', 'cont'), ('HELP', 'help'), ('LIST', 'list'), ('LOAD "P"', 'load'),
            ('NEW', 'new'), ('RUN', 'run'), ('SAVE "P"', 'save')]


def spellings(w):
    head = w.split(' ')[0]
    rest = w[len(head):]
    alt = ''.join(ch.lower() if i % 2 else ch for i, ch in enumerate(head))
    alt2 = ''.join(ch if i % 2 else ch.lower() for i, ch in enumerate(head))
    return [head + rest, head.lower() + rest, alt + rest, alt2 + rest, '  ' + head + rest, '\t' + head + rest]


@bench('command words', ['C22', 'C17', 'C18', 'C16', 'C27', 'C12', 'C13', 'C26'], 2)
def words(b):
    for w, act in COMMANDS:
        for sp in spellings(w) + ([w + '  '] if act in ('quit', 'new', 'list', 'load', 'save') else []) +                 ([w.replace(' ', '')] if ' ' in w else []):
            c = b.case('%r typed' % sp, ['C17'], cls=Mon)
            c.program('entered' if act == 'compile' else 'compiled')
            c.left_over(depth=0, stopped=act == 'cont')
            c.typed(sp.encode(), *([] if act == 'quit' else [b'HELP']))
            c.expect_quit = act == 'quit'
            c.want_files = {'load': [('load', b'P')], 'save': [('save', b'P')]}.get(act, ())
            c.execs = ['end']
            c.check(['C22'], 'what is executed', ran({'cont': 'stored_program', 'run': 'stored_program'}.get(act)))

            def done(c, s, o, act=act):
                g = by_line(c, s)[0]
                comp = [e for e in g if e[:2] == ('mon', 'parse')]
                out = [e for e in g if e[0] == 'out' and e[1] == 'stdout']
                lines = lines_in(c, s, s.mem, c.src)
                if act not in ('new', 'load') and c.src not in s.freed:
                    now = lines_in(c, s, s.mem, c.src)
                    if same_lines(c, s, lines_in(c, s, c.pre_mem, c.src), now) is False:
                        return NO, None, (), 'the program is changed'
                if act == 'compile':
                    if len(comp) != 1 or not isinstance(comp[0][2], PV) or comp[0][2].r is not c.src:
                        return NO, None, (), 'the program is not compiled'
                elif comp:
                    return NO, None, (), 'something is compiled'
                if act == 'new':
                    cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
                    if isinstance(cur, PV) and cur.r is not None:
                        if lines_in(c, s, s.mem, cur.r) != []:
                            return NO, None, (), 'the program is still there'
                    if not any(e[:2] == ('mon', 'sym') and e[2] == 'clear_symbol_table_names' for e in g):
                        return NO, None, (), 'names are still defined after NEW'
                if act == 'load':
                    cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
                    if not isinstance(cur, PV) or cur.r is not c.loaded:
                        return NO, None, (), 'the program loaded is not the program stored'
                if act == 'save':
                    e = [x for x in g if x[:2] == ('mon', 'save')]
                    if not e or not isinstance(e[0][3], PV) or e[0][3].r is not c.src:
                        return NO, None, (), 'the program is not saved'
                if act == 'help':
                    t = pieces(c, s, g)
                    if t is None:
                        return MAYBE, None, (), ''
                    t = b''.join(x for x in t if isinstance(x, bytes))
                    for word in ('BYE', 'COMPILE', 'CONT', 'HELP', 'LIST', 'LOAD', 'NEW', 'RENUM', 'RUN', 'SAVE'):
                        if word.encode() not in t:
                            return NO, None, (), 'HELP does not mention %s' % word
                return YES, None, (), ''
            c.check(['C22'], 'effect of the command', done)
            if act == 'list':
                c.check(['C22'], 'listing', prints(0, listed(0, BIG)))
            b.go(c)
    # words that only begin like a command, or contain one, are statements
    for w in ('RU', 'RUNN', 'XRUN', 'R', 'BYEBYE', 'LIS', 'LISTS', 'CON', 'CONTA=1', 'NE', 'NEWA', 'SAVES', 'LOADX', 'RENU', 'RENUMB', 'HEL', 'PRINT'):
        c = b.case('%r typed' % w, ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.typed(w.encode())
        c.check(['C22'], 'statement', ran('immediate_code'))
        b.go(c)
    # text after the command
    for w in ('BYE NOW', 'NEW X', 'LIST X', 'LIST 1,2', 'LOAD', 'LOAD X', 'LOAD "P" X', 'SAVE', 'SAVE P', 'SAVE "P" X'):
        c = b.case('%r typed' % w, ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.typed(w.encode())
        c.check(['C22', 'C18'], 'nothing is executed', ran(None))
        c.check(['C22'], 'nothing is changed', unchanged)
        b.go(c)


def unchanged(c, s, o):
    cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
    if c.pstate == 'none':
        if isinstance(cur, PV) and cur.r is not None:
            now = lines_in(c, s, s.mem, cur.r)
            if now is None:
                return MAYBE, None, (), ''
            if now:
                return NO, None, (), 'a program is stored'
        return YES, None, (), ''
    if not isinstance(cur, PV) or cur.r is not c.src:
        return NO, None, (), 'another program is stored'
    sm = same_lines(c, s, lines_in(c, s, c.pre_mem, c.src), lines_in(c, s, s.mem, c.src))
    if sm is None:
        return MAYBE, None, (), ''
    return (YES if sm else NO), None, (), 'the program is changed'


@bench('program files and operating system commands', ['C18', 'C26', 'C17', 'C12'], 2)
def files(b):
    for nm in (b'P', b'prog.bas', b'a b.bas', b'/tmp/x; rm -r y', b'', b"it's", b'*', b'..\\up'):
        for word in (b'LOAD', b'SAVE'):
            for quote in (True, False):
                c = b.case('%s "%s%s' % (word.decode(), nm.decode(), '"' if quote else ''), ['C17'], cls=Mon)
                c.program('compiled')
                c.left_over(depth=0)
                c.typed(word + b' "' + nm + (b'"' if quote else b''))
                c.want_files = [(word.decode().lower(), nm)]
                c.check(['C18'], 'nothing is executed', ran(None))
                b.go(c)
    # a name of characters that are not known
    for word in (b'LOAD', b'SAVE'):
        c = b.case('%s of any name of two characters' % word.decode(), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        x, y = (c.atom('character %d' % i, 35, 126) for i in (1, 2))
        c.typed(list(word + b' "') + [x, y, 34])
        c.want_files = None
        key = word.decode().lower()

        def nm(c, s, o, x=x, y=y, key=key):
            e = [e for e in c.mon(s) if e[:2] == ('mon', key)]
            if len(e) != 1:
                return NO, None, (), '%s reaches the file %d times' % (key.upper(), len(e))
            ln, term = e[0][2]
            if not s.f.prove_eq(ln - 2):
                return MAYBE, (lambda env: env.lin(ln) != 2), (ln,), 'length of the file name %r' % ln
            for i, w in enumerate((x, y)):
                from ..libc import piece_len
                ch = term_char(s, term, i)
                if ch is None:
                    return MAYBE, None, (), ''
                d = s.f.norm(ch - w)
                if not s.f.prove_eq(d):
                    return MAYBE, (lambda env, d=d: env.lin(d) % 256 != 0), (d,), 'file name'
            return YES, None, (), ''
        c.check(['C18'], 'file name', nm)
        b.go(c)
    for cmd in (b'DIR', b'ls -l', b' echo hi', b'"x" && y', b'10 PRINT', b'*', b'RUN'):
        c = b.case('*%s' % cmd.decode(), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.typed(b'*' + cmd)
        c.want_system = [cmd.lstrip(b' \t')]
        c.check(['C18'], 'nothing is executed', ran(None))
        b.go(c)
    for cmd in (b'', b'   ', b'\t'):
        c = b.case('* and %r' % cmd.decode(), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.typed(b'*' + cmd)
        b.go(c)
    # failures are told
    for state, ok in (('compiled', False), ('entered', False), ('none', True), ('compiled', True)):
        c = b.case('SAVE that %s, program %s' % ('succeeds' if ok and state != 'none' else 'fails', state), ['C17'], cls=Mon)
        c.program(state)
        c.left_over(depth=0)
        c.saves = [ok]
        c.typed(b'SAVE "P"')
        if state != 'none':
            c.want_files = [('save', b'P')]

        def told(c, s, o, fail=not ok or state == 'none'):
            ev = by_line(c, s)[0]
            said = any(e[0] == 'out' and (pieces(c, s, [e], e[1]) or [b'?']) != [b'> '] for e in ev)
            if fail and not said:
                return NO, None, (), 'nothing is said about the program not being saved'
            return YES, None, (), ''
        c.check(['C26'], 'failure is reported', told)
        c.check(['C12', 'C26'], 'program', unchanged)
        b.go(c)
    for state in ('compiled', 'entered', 'none'):
        c = b.case('LOAD that fails, program %s' % state, ['C17'], cls=Mon)
        c.program(state)
        c.left_over(depth=0)
        c.loads = [False]
        c.typed(b'LOAD "P"')
        c.want_files = [('load', b'P')]
        c.check(['C12', 'C17'], 'program', unchanged)
        b.go(c)


def term_char(s, term, i):
    """i-th character of a text of known pieces"""
    if term is None:
        return None
    ps = term[1] if term[0] == 'cat' else (term,)
    for p in ps:
        if p[0] == 'lit':
            if i < len(p[1]):
                return Lin(byte(p[1][i]))
            i -= len(p[1])
        elif p[0] == 'chr':
            if i == 0:
                return p[1] if isinstance(p[1], Lin) else getattr(p[1], 'l', None)
            i -= 1
        else:
            return None
    return None


@bench('typing program lines', ['C24', 'C17', 'C12', 'C28'], 2)
def lines(b):
    # number, one space, text
    for sep, text, keep in ((b' ', b'PRINT "HI"', b'PRINT "HI"'), (b'', b'PRINT', b'PRINT'), (b'  ', b'REM', b' REM'), (b'\t', b'REM', b'\tREM'),
                            (b' ', b'x', b'x'), (b' ', b'RUN', b'RUN'), (b' ', b'*LS', b'*LS'), (b' ', b' ', b' ')):
        for lead in (b'', b'  ', b'\t'):
            for state in ('compiled', 'none'):
                if state == 'none' and lead:
                    continue
                c = b.case('%r typed, program %s' % ((lead + b'1234' + sep + text).decode(), state), ['C17'], cls=Mon)
                c.program(state)
                c.left_over(depth=0)
                if state != 'none':
                    c.assume(('ge', Lin(1233) - c.nums[0]), ('ge', c.nums[1] - 1235))
                c.typed(lead + b'1234' + sep + text)
                c.check(['C24'], 'nothing is executed', ran(None))
                c.check(['C24'], 'program lines', entered(1 if state != 'none' else 0, Lin(1234), Str(len(keep), ('lit', keep))))
                b.go(c)
    # whatever follows the number is the text
    for state in ('compiled', 'none'):
        for rest, lo, hi in [(r,) + x for r in (b'', b'PRINT') for x in ((-128, -1), (1, 9), (11, 31), (33, 47), (58, 127))]:
            c = b.case('1234 typed with a character %d..%d%s after it, program %s' % (lo, hi, ' and a text' if rest else '', state), ['C17'], cls=Mon)
            c.program(state)
            c.left_over(depth=0)
            if state != 'none':
                c.assume(('ge', Lin(1233) - c.nums[0]), ('ge', c.nums[1] - 1235))
            x = c.atom('character', lo, hi)
            c.typed(list(b'1234') + [x] + list(rest))
            k = 1 if state != 'none' else 0

            def taken(c, s, o, k=k, x=x, rest=rest):
                cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
                now = lines_in(c, s, s.mem, cur.r) if isinstance(cur, PV) and cur.r is not None else []
                if now is None:
                    return MAYBE, None, (), ''
                if len(now) != len(c.nums) + 1:
                    return NO, None, (), 'the program has %d lines, expected %d' % (len(now), len(c.nums) + 1)
                t = now[k][1]
                for i, want in enumerate([x] + list(rest) + [0]):
                    a = c.ai.load(s, PV(t.r, t.off + i), I8)
                    st, pred, extra = equal(c.ai, s, IV(8, want), a)
                    if st != YES:
                        return st, pred, extra, 'character %d of the text is %r, expected %r' % (i, a, want)
                return YES, None, (), ''
            c.check(['C24'], 'text of the line', taken)
            b.go(c)
    # deleting
    for tail in (b'', b'\r') if False else (b'',):
        for k in (0, 1, None):
            c = b.case('1234 typed alone, %s' % ('line %d' % (k + 1) if k is not None else 'no such line'), ['C17'], cls=Mon)
            c.program('compiled')
            c.left_over(depth=0)
            for i in (0, 1):
                c.assume(('eq' if k == i else 'ne', c.nums[i] - 1234))
            c.typed(b'1234' + tail)
            if k is None:
                c.check(['C24'], 'program', unchanged)
            else:
                c.check(['C24'], 'program lines', removed(k))
            b.go(c)
    # any number
    for k in (1, 2, 4, 9, b'2147483647', b'2147483648', b'4294967289', b'4294967295', b'4294967296', b'4294967306', b'9999999999', 11, b'18446744073709551626'):
        for text in (b'', b' REM'):
            c = b.case('number %s%s' % ('of %d digits' % k if isinstance(k, int) else k.decode(), ' and text' if text else ' alone'), ['C17'], cls=Mon)
            c.program('compiled', 1)
            c.left_over(depth=0)
            ds = [c.atom('digit %d' % i, 49 if i == 0 and k > 1 else 48, 57) for i in range(k)] if isinstance(k, int) else [Lin(x) for x in k]
            v = Lin(0)
            for d in ds:
                v = v.scale(10) + d - 48
            c.assume(('ne', v - c.nums[0]))
            c.typed((ds if isinstance(k, int) else list(k)) + list(text))

            def number(c, s, o, v=v, text=text):
                # numbers just below the largest may be refused as too large
                cond = ('ge', -v + (BIG - 6))
                near = c.ai.evalc(s, cond)
                if near is None:
                    raise Split(cond)
                if not near:
                    cond = ('ge', v - BIG)
                    over = c.ai.evalc(s, cond)
                    if over is None:
                        raise Split(cond)
                    x = unchanged(c, s, o)
                    if over or x[0] == YES:
                        return x
                cond = ('ge', -v + (BIG - 1))
                fits = c.ai.evalc(s, cond)
                if fits is None:
                    raise Split(cond)
                if fits:
                    z = c.ai.evalc(s, ('ge', v - 1))
                    if z is None:
                        raise Split(('ge', v - 1))
                    fits = z
                if not fits or not text:
                    return unchanged(c, s, o)
                cond = ('ge', v - c.nums[0])
                after = c.ai.evalc(s, cond)
                if after is None:
                    raise Split(cond)
                return entered(1 if after else 0, v, Str(3, ('lit', b'REM')))(c, s, o)
            c.check(['C24', 'C28'], 'line number', number)
            b.go(c)


def entered(k, num, text):
    """the program is what it was, with this line at position k"""
    def chk(c, s, o):
        cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
        if not isinstance(cur, PV) or cur.r is None:
            return NO, None, (), 'no program is stored'
        now = lines_in(c, s, s.mem, cur.r)
        if now is None:
            return MAYBE, None, (), 'lines of the program'
        want = [(a, t) for a, t in zip(c.nums, c.texts)]
        want.insert(k, (num, None))
        if len(now) != len(want):
            return NO, None, (), 'the program has %d lines, expected %d' % (len(now), len(want))
        for i, ((n, t), (wn, wt)) in enumerate(zip(now, want)):
            st, pred, extra = equal(c.ai, s, IV(32, wn), n)
            if st != YES:
                return st, pred, extra, 'line %d of the program has number %r, expected %r' % (i + 1, n, wn)
            if wt is None:
                x = c.cmp(s, 'text entered', text, t)
                if x[0] != YES:
                    return x
            elif t.r is not wt:
                x = c.cmp(s, 'text of line %d' % (i + 1), Str(c.len(wt), ('str', wt)), t)
                if x[0] != YES:
                    return x
        return YES, None, (), ''
    return chk


def removed(k):
    def chk(c, s, o):
        cur = c.ai.load(s, c.loc('stored_program.source').pv(), PTR)
        now = lines_in(c, s, s.mem, cur.r) if isinstance(cur, PV) and cur.r is not None else None
        if now is None:
            return MAYBE, None, (), 'lines of the program'
        want = [(a, t) for i, (a, t) in enumerate(zip(c.nums, c.texts)) if i != k]
        if len(now) != len(want):
            return NO, None, (), 'the program has %d lines, expected %d' % (len(now), len(want))
        for i, ((n, t), (wn, wt)) in enumerate(zip(now, want)):
            st, pred, extra = equal(c.ai, s, IV(32, wn), n)
            if st != YES:
                return st, pred, extra, 'line %d of the program has number %r, expected %r' % (i + 1, n, wn)
            if t.r is not wt:
                return NO, None, (), 'line %d of the program has another text' % (i + 1)
        return YES, None, (), ''
    return chk


@bench('anything typed', ['C17', 'C18', 'C16', 'C24'], 3)
def anything(b):
    # any characters: nothing ends the session
    def ch(c, i, lo=-128, hi=127):
        x = c.atom('character %d' % i, lo, hi)
        c.assume(('ne', x), ('ne', x - 10))
        return x
    for name, chars in (('any character', lambda c: [ch(c, 0)]),
                        ('a character above 127 and any other', lambda c: [ch(c, 0, -128, -1), ch(c, 1)]),
                        ('a control character and any other', lambda c: [ch(c, 0, 1, 31), ch(c, 1)]),
                        ('a sign and any character', lambda c: [ch(c, 0, 33, 41), ch(c, 1)]),
                        ('X and any character', lambda c: [88, ch(c, 1)]),
                        ('1 and any character', lambda c: [49, ch(c, 1)]),
                        ('* and any character', lambda c: [42, ch(c, 1)])):
        c = b.case(name, ['C17'], cls=Mon)
        c.program('compiled', 1)
        c.left_over(depth=0)
        cs = chars(c)
        c.typed(cs, b'PRINT')
        c.want_system = None
        c.check(['C17'], 'the next line is executed', ran('?', 'immediate_code'))
        b.go(c)
    for w in (b'', b' ', b'\t ', b'\r', b'@', b'"', b'=', b'-1 PRINT', b'.5', b'\x80', b'\xff\xfe', b'\x01', b'0', b'0 PRINT', b'00000000000000000000 X',
              b'+10', b'RENUM', b'RENUM 1,2', b'RENUM X', b'RENUM 99999999999', b'RENUMBER 0,0,0'):
        for state in ('compiled', 'none'):
            if w.startswith(b'RENUM') and state != 'none' and b'X' not in w:
                continue
            c = b.case('%r typed, program %s' % (w, state), ['C17'], cls=Mon)
            c.program(state)
            c.left_over(depth=0)
            c.typed(w, b'PRINT')
            c.check(['C17'], 'the next line is executed', ran('?', 'immediate_code'))
            if not w.startswith(b'RENUM'):
                c.check(['C24'], 'program', unchanged)
            b.go(c)
    # lines longer than the input buffer are discarded whole
    for n in (126, 127, 128, 129, 150):
        for body in (b'PRINT ', b'10 REM ', b'*ls '):
            w = body + b'X' * (n - len(body))
            c = b.case('%d characters typed: %s...' % (n, body.decode()), ['C17'], cls=Mon)
            c.program('compiled', 1)
            c.left_over(depth=0)
            c.assume(('ge', c.nums[0] - 11))
            c.typed(w, b'LET')
            c.want_system = None
            taken = lambda c, s: [e for e in c.mon(s) if e[0] == 'system' or e[:2] in (('mon', 'parse'), ('mon', 'exec'))]

            def whole(c, s, o, w=w, body=body):
                # the line is taken as a whole or not at all; the next line is taken as typed
                comp = [e for e in c.mon(s) if e[:2] == ('mon', 'parse')]
                for e in c.mon(s):
                    if e[0] == 'system':
                        x = c.cmp_str(s, 'operating system command', Str(len(w) - 1, ('lit', w[1:])), *e[1])
                        if x[0] != YES:
                            return x
                texts = []
                for e in comp:
                    if not isinstance(e[2], PV) or e[2].r is None or e[2].r is c.src:
                        continue
                    ll = lines_in(c, s, e[4][0], e[2].r)
                    if ll is None:
                        return MAYBE, None, (), ''
                    s2 = s.copy()
                    s2.mem, s2.freed = dict(e[4][0]), {}
                    for _, t in ll:
                        c.ai.quiet += 1
                        try:
                            texts.append(c.ai.strlen(s2, t)[1])
                        finally:
                            c.ai.quiet -= 1
                if None in texts:
                    return MAYBE, None, (), ''
                if texts not in ([('lit', b'LET')], [('lit', w), ('lit', b'LET')]):
                    return NO, None, (), 'statements compiled: %s' % [show_term(t) for t in texts]
                cur = lines_in(c, s, s.mem, c.src)
                if cur is not None and len(cur) == 2:
                    return entered(0, Lin(10), Str(len(w) - 3, ('lit', w[3:])))(c, s, o)
                return unchanged(c, s, o)
            c.check(['C17', 'C24', 'C18'], 'overlong line', whole)
            b.go(c)
    # end of input
    for script in ([], [b'RUN'], [b'']):
        c = b.case('end of input after %d lines' % len(script), ['C17'], cls=Mon)
        c.program('compiled')
        c.left_over(depth=0)
        c.typed(*script)
        b.go(c)


def units(prog):
    def mk(i):
        title, props, fn, cost = TABLE[i]

        def go(p, arg):
            b = FnBench(p, title)
            b.attempt(fn)
            return b.result()
        return Unit('monitor: ' + title, props, go, None, cost)
    return [mk(i) for i in range(len(TABLE))]
