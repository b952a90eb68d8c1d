"""Abstract machine states for execute(): build a pre-state of the virtual machine, run the abstract interpretation
of one instruction from it, and judge every outcome partition against an expectation.

A judgement is three-valued:
  proved     the expectation is entailed by the partition's facts (in the abstract domain);
  refuted    the partition is inhabited (some assignment of its value numbers satisfies every fact) and under that
             assignment the expectation fails; or the case is inhabited and every partition provably fails;
  undecided  neither: no alarm, counted in the evidence.
"""
import re
from . import ir
from .dom import *
from .ai import *
from .eval import Witness, Unknown, feq, show_env
from . import libc
from .ir import at, Anchor, PTR, DOUBLE, I8, I16, I32, I64

TYPES = {1: I8, 2: I16, 4: I32}


class Rec:
    """one judged obligation"""
    __slots__ = ('props', 'status', 'rule', 'detail', 'where', 'case', 'example')

    def __init__(self, props, status, rule, detail, where, case, example=''):
        self.props, self.status, self.rule, self.detail, self.where, self.case, self.example = \
            frozenset(props), status, rule, detail, where, case, example

    def __repr__(self):
        return '%s [%s] %s: %s (%s) %s %s' % (self.status, ','.join(sorted(self.props)), self.case, self.rule,
                                              self.where, self.detail, self.example)


class Loc:
    __slots__ = ('r', 'off', 'ext', 'ty', 'name', 'path')

    def __init__(self, r, off, ext, ty, name, path):
        self.r, self.off, self.ext, self.ty, self.name, self.path = r, off, ext, ty, name, path

    def pv(self):
        return PV(self.r, self.off, self.ext)

    def __repr__(self):
        return self.name


class DontCare:
    pass


ANY = DontCare()


class Str:
    """expected value: pointer to a string with this content, freshly owned"""

    def __init__(self, ln, term):
        self.ln, self.term = ln if isinstance(ln, Lin) else Lin(ln), term


def forks(ai, st, fn, limit=64):
    """evaluate fn on every refinement of st it asks for"""
    work, out = [st.copy()], []
    while work:
        s = work.pop()
        s0 = s.copy()
        try:
            out.append((s, fn(s)))
        except Split as sp:
            limit -= 1
            if limit < 0:
                raise Budget('too many refinements of a post-state')
            for c in (sp.cond, neg(sp.cond)):
                s2 = s0.copy()
                s2.nsplit = 0
                try:
                    ai.assume(s2, c)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            continue
    return out


def flat_events(ev):
    for e in ev:
        if e[0] == 'loop':
            for b in e[1]:
                for x in flat_events(b):
                    yield x
        else:
            yield e


YES, NO, MAYBE = 'yes', 'no', 'maybe'


def equal(ai, st, exp, act):
    """(YES/NO/MAYBE, predicate(env) that they differ, extra values)"""
    f = st.f
    if exp is ANY:
        return YES, None, ()
    if isinstance(exp, (int, Lin)) and isinstance(act, IV):
        exp = IV(act.w, exp)
    if isinstance(exp, IV) and isinstance(act, BV):
        act = IV(exp.w, 1 if ai.decide(st, act.c) else 0)
    if isinstance(exp, IV) and isinstance(act, IV):
        M = 1 << exp.w
        d = f.norm(exp.l - act.l)
        if not d.t:
            return (YES, None, ()) if d.c % M == 0 else (NO, None, ())
        if f.prove_eq(d):
            return YES, None, ()
        pred = lambda env: env.lin(d) % M != 0
        lo, hi = f.bounds(d)
        if f.prove_ne(d) and lo is not None and hi is not None and lo > -M and hi < M:
            return NO, pred, (d,)
        return MAYBE, pred, (d,)
    if isinstance(exp, FE) and isinstance(act, FE):
        if exp is act:
            return YES, None, ()
        m = f.frel_mask(exp, act)
        pred = lambda env: not feq(env.fe(exp), env.fe(act))
        if m == EQ or f.frel.get((exp, act)) == EQ:
            return YES, None, ()
        if not m & EQ and not m & UN:
            return NO, pred, (exp, act)
        return MAYBE, pred, (exp, act)
    if isinstance(exp, PV) and isinstance(act, PV):
        if exp.r is act.r:
            if exp.r is None:
                return YES, None, ()
            d = f.norm(exp.off - act.off)
            if not d.t:
                return (YES if d.c == 0 else NO), None, ()
            if f.prove_eq(d):
                return YES, None, ()
            return MAYBE, (lambda env: env.lin(d) != 0), (d,)
        for a, b in ((exp, act), (act, exp)):
            if a.r is None:
                n = ai.evalc(st, ('null', b.r))
                if n is None:
                    raise Split(('null', b.r))
                return (YES if n else NO), None, ()
        for r in (exp.r, act.r):
            n = ai.evalc(st, ('null', r))
            if n is None:
                raise Split(('null', r))
        if ai.evalc(st, ('null', exp.r)) and ai.evalc(st, ('null', act.r)):
            return YES, None, ()
        if exp.r.imprecise or act.r.imprecise:
            return MAYBE, None, ()
        return NO, None, ()
    if isinstance(exp, PV) and isinstance(act, (FP,)):
        return NO, None, ()
    return MAYBE, None, ()


# C library and system functions that act on files, processes or the environment
OS_EFFECTS = frozenset('''fopen fopen64 freopen freopen64 fdopen open open64 openat creat creat64 remove unlink unlinkat rename renameat rmdir mkdir mknod
mkfifo link symlink truncate ftruncate chmod fchmod chown fchown chdir chroot tmpfile tmpfile64 tmpnam tempnam mkstemp mkdtemp
system popen execl execle execlp execv execve execvp fork vfork posix_spawn posix_spawnp kill raise
setenv putenv unsetenv dlopen socket connect mount umount'''.split())


def os_effect(ai, st, e):
    """does this event act on files or the operating system (a constant command is not of the program's choosing)?"""
    if e[0] == 'open':
        return 'a file is opened'
    if e[0] == 'system':
        ai.quiet += 1
        try:
            term = ai.strlen(st.copy(), e[1])[1]
        except (Undecided, Budget, Split, Infeasible):
            term = None
        finally:
            ai.quiet -= 1
        if not (isinstance(term, tuple) and term[0] == 'lit'):
            return 'text that is not constant is given to the operating system'
    elif e[0] == 'call' and e[1] in OS_EFFECTS:
        return '%s is called' % e[1]
    return None


class Case:
    """one abstract pre-state of execute()"""

    def __init__(self, prog, op, name, props, variant='stored', trace=None, func='execute'):
        self.p, self.op, self.props, self.variant, self.trace = prog, op, frozenset(props), variant, trace
        self.name = '%s%s%s: %s' % (op, '' if variant == 'stored' else ' (%s code)' % variant,
                                    ' +%s' % trace if trace else '', name)
        self.f = prog.func(func)
        self.recs = []
        ai = self.ai = AI(prog)
        ai.suspects = []
        ai.hooks['alloc_never_fails'] = True
        st = self.st = State()
        self.mod = self.f.mod
        self.vm = ai.region('param', 'vm', di=(self.mod, self.meta('vm')), name='vm')
        self.lay = prog.layout('vm')
        self.vm.size = Lin(max(x.off + x.size for x in self.lay.values()))
        self.cap = {'sp': self.lay['stack'].count, 'ssp': self.lay['strstack'].count, 'rsp': self.lay['retstack'].count,
                    'for_sp': self.lay['for_stack'].count}
        for k, v in self.cap.items():
            ai.ranges[('vm', k)] = (0, v)
        self.isz = prog.layout('BINST')
        self.istep = self.lay_size('BINST')
        self.exp = []           # (Loc, value, props)
        self.locs = []
        self.post = []          # (props, rule, fn(case, st, o))
        self.outs = None
        self.kind = 'ret'
        self.either = False     # an error is as good as completing
        self.filter = None      # outcomes the case is about
        self.syms = {}
        self.nonframe = []
        self.owned = {}         # region -> description: strings popped or replaced, to be released or stored once
        self.frame_props = {}
        self.silent, self.seeds, self.rands = True, False, False
        self.extra_ok = set()
        for k, f in self.lay.items():
            if '.' not in k and '[' not in k and f.is_bool:
                if k.startswith('trace_') or k.startswith('strict_') or k == 'verbose':
                    self.put(k, 0)
                elif k == 'input_prompt':
                    self.put(k, 1)
        if trace:
            self.put(trace, 1)
        if 'array_base' in self.lay:
            self.put('array_base', 0)
        self.setup_code()

    # ---- layout helpers
    def meta(self, s):
        for m in [self.mod] + list(self.p.mods.values()):
            r = m.struct_meta(s)
            if r:
                if m is not self.mod:
                    return r
                return r
        raise Anchor('struct %s not found' % s)

    def di(self, s):
        for m in [self.mod] + list(self.p.mods.values()):
            r = m.struct_meta(s)
            if r:
                return (m, r)
        raise Anchor('struct %s not found' % s)

    def lay_size(self, s):
        m, r = self.di(s)
        v = m.meta[m.di_strip(r)]
        return int(re.search(r'size: (\d+)', v).group(1)) // 8

    def ty_of(self, fld):
        if fld.is_ptr:
            return PTR
        v = fld.mod.meta.get(fld.mod.di_strip(fld.di), '')
        if 'DW_ATE_float' in v:
            return DOUBLE
        return TYPES.get(fld.size, I64)

    def loc(self, path, idx=None):
        """location in the vm; path of an array element is 'stack[]' or 'retstack[].pc'"""
        if idx is None:
            if path not in self.lay:
                raise Anchor('member vm.%s not found' % path)
            fl = self.lay[path]
            return Loc(self.vm, Lin(fl.off), None, self.ty_of(fl), path, path)
        arr = path[:path.index('[]')]
        if arr not in self.lay:
            raise Anchor('member vm.%s not found' % arr)
        a = self.lay[arr]
        idx = idx if isinstance(idx, Lin) else Lin(idx)
        ext = (Lin(a.off), Lin(a.off + a.size))
        if path.endswith('[]'):
            off, ty = Lin(a.off), None
            v = a.mod.meta.get(a.mod.di_strip(a.di), '')
            eb = a.mod.di_strip(re.search(r'baseType: (!\d+)', v).group(1)) if 'baseType' in v else None
            ev = a.mod.meta.get(eb, '')
            ty = PTR if 'pointer_type' in ev else DOUBLE if 'DW_ATE_float' in ev else TYPES.get(a.stride, I64)
        else:
            fl = self.lay[path]
            off, ty = Lin(fl.off), self.ty_of(fl)
        return Loc(self.vm, off + idx.scale(a.stride), ext, ty, '%s[%r]%s' % (arr, idx, path[path.index('[]') + 2:]), path)

    def put(self, path, v, idx=None):
        l = path if isinstance(path, Loc) else self.loc(path, idx)
        if isinstance(v, int) or isinstance(v, Lin):
            v = IV(l.ty.a, v)
        self.st.mem[l.r] = Node(self.st.mem.get(l.r), 'w', l.off, l.ty.size, v, l.ext)
        return v

    def get(self, path, idx=None):
        l = path if isinstance(path, Loc) else self.loc(path, idx)
        return self.ai.load(self.st, l.pv(), l.ty)

    def iget(self, path, idx=None):
        return self.st.f.norm(self.get(path, idx).l)

    def assume(self, *cs):
        for c in cs:
            self.ai.assume(self.st, c)

    def atom(self, name, lo, hi):
        return LA(AT.get(('name', name, self.vm.id), lo, hi))

    # ---- code
    def setup_code(self):
        ai, p = self.ai, self.p
        which = {'stored': 'stored_program', 'immediate': 'immediate_code', 'def': 'def_code'}[self.variant]
        self.code = self.loc(which)
        self.codes = {k: self.loc(k) for k in ('stored_program', 'immediate_code', 'def_code')}
        self.bcs = {}
        for k in self.codes:
            bc = ai.region('lazy', 'bc:' + k, name='%s.bcode' % k, di=self.di('BCODE'))
            inst = ai.region('lazy', 'inst:' + k, name='%s.inst' % k, di=self.di('BINST'))
            src = ai.region('lazy', 'src:' + k, name='%s.source' % k, di=self.di('SOURCE'))
            used = self.atom(k + '.used', 0, 1 << 28)
            inst.size = used.scale(self.istep)
            self.st.mem[bc] = Node(Node(None, 'w', Lin(p.off('BCODE', 'inst')), 8, PV(inst)),
                                   'w', Lin(p.off('BCODE', 'used')), 4, IV(32, used))
            self.bcs[k] = (bc, inst, src, used)
        bc, inst, src, used = self.bcs[which]
        self.put(which + '.bcode', PV(bc))
        self.put(which + '.source', PV(src))
        src.maybe_null = self.variant == 'def'
        self.bc, self.inst, self.src, self.used = bc, inst, src, used
        if self.variant != 'stored':
            # the stored program may or may not be compiled
            b2, i2, s2, u2 = self.bcs['stored_program']
            b2.maybe_null = True
            self.put('stored_program.bcode', PV(b2))
            self.put('stored_program.source', PV(s2))
        pc = self.pc = self.atom('pc', 0, 1 << 28)
        self.assume(('ge', used - pc - 1))
        self.put('code_state.code', PV(self.vm, self.code.off))
        self.put('code_state.pc', pc)
        # the line being executed is a line of the source
        sl = self.iget('code_state.source_line')
        self.sline = sl
        su = self.atom('source.used', 0, 1 << 20)
        self.st.mem[src] = Node(self.st.mem.get(src), 'w', Lin(p.off('SOURCE', 'used')), 4, IV(32, su))
        self.assume(('ge', su - sl - 1))
        if self.op is not None:
            self.put_inst(pc, 'op', self.p.enum(self.op))

    def iloc(self, k, path):
        fl = self.isz[path]
        return Loc(self.inst, k.scale(self.istep) + fl.off if isinstance(k, Lin) else Lin(k * self.istep + fl.off), None,
                   self.ty_of(fl), 'inst[%r].%s' % (k, path), path)

    def put_inst(self, k, path, v):
        if path not in self.isz:
            raise Anchor('member BINST.%s not found' % path)
        return self.put(self.iloc(k, path), v)

    def operand(self, path, v):
        return self.put_inst(self.pc, path, v)

    # ---- stacks
    def depth(self, k, lo=None, hi=None, exact=None):
        """constrain a stack depth, return it as Lin"""
        d = self.iget(k)
        if exact is not None:
            self.assume(('eq', d - exact))
        if lo is not None:
            self.assume(('ge', d - lo))
        if hi is not None:
            self.assume(('ge', -d + hi))
        return self.st.f.norm(d)

    def nums(self, n):
        """the n topmost numbers, top first"""
        d = self.iget('sp')
        return [self.get('stack[]', d - k - 1) for k in range(n)]

    def strs(self, n):
        """the n topmost strings, top first: (region, length, term); owned by the string stack"""
        d = self.iget('ssp')
        out = []
        for k in range(n):
            v = self.get('strstack[]', d - k - 1)
            v.r.maybe_null = False
            v.r.string = True
            ln = self.ai.strlen_base(v.r)
            out.append((v.r, ln, ('str', v.r)))
            self.owned[v.r] = 'string popped from the stack'
        return out

    # ---- symbols
    def symtab(self):
        if getattr(self, '_st', None) is None:
            p = self.p
            pv = self.get('st')
            self.str_ = pv.r
            pv.r.maybe_null = False
            if pv.r.di is None:
                pv.r.di = self.di('SYMTAB')
            used = self.atom('symbols', 0, 65536)
            psym = self.ai.region('lazy', 'psym', name='psym')
            psym.size = used.scale(8)
            self.st.mem[pv.r] = Node(Node(None, 'w', Lin(p.off('SYMTAB', 'used')), 4, IV(32, used)),
                                     'w', Lin(p.off('SYMTAB', 'psym')), 8, PV(psym))
            self._st = (pv.r, psym, used)
        return self._st

    def symbol(self, name, kind, typ):
        """a symbol table entry with the given kind and type; returns (id Lin, region)"""
        st, psym, used = self.symtab()
        sid = self.atom('id_' + name, 0, 65535)
        self.assume(('ge', used - sid - 1))
        for other, (oid, r) in self.syms.items():
            self.assume(('ne', sid - oid))
        r = self.ai.region('lazy', 'sym:' + name, name='symbol ' + name, di=self.di('symbol'))
        p = self.p
        self.st.mem[psym] = Node(self.st.mem.get(psym), 'w', sid.scale(8), 8, PV(r))
        n = None
        for path, v in (('id', IV(16, sid)), ('kind', IV(8, p.enum(kind))), ('type', IV(8, p.enum(typ)))):
            n = Node(n, 'w', Lin(p.off('symbol', path)), v.w // 8, v)
        self.st.mem[r] = n
        self.syms[name] = (sid, r)
        return sid, r

    def symloc(self, r, path):
        fl = self.p.layout('symbol')
        if path not in fl:
            raise Anchor('member symbol.%s not found' % path)
        fl = fl[path]
        return Loc(r, Lin(fl.off), None, self.ty_of(fl), '%s.%s' % (r.name, path), 'symbol.' + path)

    # ---- expectation
    def want(self, path, v, props=(), idx=None):
        l = path if isinstance(path, Loc) else self.loc(path, idx)
        self.exp.append((l, v, frozenset(props) | self.props))

    def want_sp(self, delta, props=('C06',)):
        self.want('sp', self.iget('sp') + delta, props)

    def want_ssp(self, delta, props=('C06', 'C10')):
        self.want('ssp', self.iget('ssp') + delta, props)

    def next_pc(self, n=1):
        self.want('code_state.pc', self.pc + n, ('C15',))

    def error(self):
        self.kind = 'longjmp'

    def check(self, props, rule, fn):
        self.post.append((frozenset(props) | self.props, rule, fn))

    # ---- judgement
    def rec(self, props, status, rule, detail='', where='', example=''):
        if self.trace:
            props = ('C19',)
        self.recs.append(Rec(props, status, rule, detail, where, self.name, example))

    def refute(self, st, pred, extra, props, rule, detail, where, proved_differs=False):
        w = Witness(st, extra)
        if not w.precise:
            self.rec(props, 'undecided', rule, detail + ' (imprecise state)', where)
            return 'undecided'
        env = w.find(pred if pred else (lambda env: True))
        if env is None:
            self.rec(props, 'undecided', rule, detail + ' (no inhabitant found)', where)
            return 'undecided'
        self.rec(props, 'refuted', rule, detail, where, show_env(w, env))
        return 'refuted'

    def run(self):
        ai = self.ai
        self.pre = self.st.copy()
        self.pre_mem = dict(self.st.mem)
        try:
            outs = ai.call(self.f, [PV(self.vm)], self.st.copy())
        except (Budget, Undecided) as e:
            self.rec(self.props, 'undecided', 'analysis', str(e))
            return self
        self.outs = outs
        if ai.undecided:
            for u in ai.undecided:
                self.rec(self.props, 'undecided', 'analysis', u)
        if not outs:
            self.rec(self.props, 'undecided', 'analysis', 'no outcome')
        good = 0
        proved_bad = []
        for o in outs:
            where = at(o.ins) if o.ins is not None else self.f.name
            if self.filter and not self.filter(o):
                continue
            if self.either and o.k == 'longjmp':
                self.common(o, where)
                good += 1
                continue
            if o.k != self.kind:
                names = {'ret': 'completes', 'longjmp': 'ends in a run-time error', 'assert': 'fails an assertion',
                         'exit': 'terminates the interpreter'}
                d = '%s where it should %s' % (names.get(o.k, o.k), {'ret': 'complete', 'longjmp': 'end in a run-time error'}[self.kind])
                if o.k == 'assert' and isinstance(o.val, bytes):
                    d += ' (%s)' % o.val.decode()
                r = self.refute(o.st, None, (), self.kind_props(o), 'outcome', d, where)
                if r == 'undecided':
                    proved_bad.append((self.kind_props(o), 'outcome', d, where))
                continue
            good += 1
            self.judge(o, where, proved_bad)
            self.common(o, where)
        if good == 0 and outs and not ai.blurred and not any(r.status == 'refuted' for r in self.recs):
            # every partition is wrong: the case itself is inhabited, so the code is wrong
            if proved_bad:
                p, rule, d, where = proved_bad[0]
                self.refute(self.pre, None, (), p, rule, d + ' on every path', where)
        self.judge_suspects()
        return self

    session = True          # part of what happens at the prompt

    def kind_props(self, o):
        return self.props | {'C17'} if o.k in ('exit', 'assert') and self.session else self.props

    # ---- obligations of every outcome
    def common(self, o, where):
        ai = self.ai
        if o.k == 'longjmp':
            tgt = self.loc('errjmp') if 'errjmp' in self.lay else None
            if tgt is not None and isinstance(o.x, tuple):
                if o.x[0] == self.vm.id and o.x[1] == repr(tgt.off):
                    self.rec(('C27',), 'proved', 'error target', '', where)
                else:
                    self.rec(('C27',), 'undecided', 'error target', repr(o.x), where)
            for k, cap in self.cap.items():
                l = self.loc(k)

                def chk(s, l=l, cap=cap):
                    v = ai.load(s, l.pv(), l.ty)
                    x = s.f.norm(v.l)
                    if s.f.prove_ge(x) and s.f.prove_ge(-x + cap):
                        return YES, None, (), ''
                    return MAYBE, (lambda env: not 0 <= env.lin(x) <= cap), (x,), '%s is %r after the error, capacity %d' % (l.name, x, cap)
                self.apply(o, ('C01',), 'depth after error', chk, where)
        if self.session and o.k in ('ret', 'longjmp'):
            self.rec(('C17',), 'proved', 'does not terminate the interpreter', '', where)
        self.ownership(o, where)
        self.effects(o, where)

    def apply(self, o, props, rule, fn, where):
        try:
            res = forks(self.ai, o.st, fn)
        except (Budget, Undecided) as e:
            self.rec(props, 'undecided', rule, str(e), where)
            return
        for s, (status, pred, extra, detail) in res:
            if status == YES:
                self.rec(props, 'proved', rule, '', where)
            elif status == MAYBE and pred is None:
                self.rec(props, 'undecided', rule, detail, where)
            else:
                self.refute(s, pred if status == MAYBE else (pred and (lambda env: True)), extra, props, rule, detail, where)

    def refs(self, st):
        """region -> list of (region, off, size, ext) of locations that were read or written as pointers to it"""
        out, unknown = {}, [False]

        def outside(n, win):
            """the cells of this node are known to lie outside the copied range"""
            if win is None or n.off is None or n.off.t or win[0].t:
                return False
            if not isinstance(n.size, int):
                return False
            return n.off.c + n.size <= win[0].c or n.off.c >= win[0].c + win[1]

        def walk(r, n, delta, depth, win=None):
            while n is not None:
                if n.k in ('w', 'r') and isinstance(n.val, PV) and n.val.r is not None:
                    if not outside(n, win):
                        l = out.setdefault(n.val.r, [])
                        k = (r, st.f.norm(n.off + delta), n.size, n.ext if depth == 0 else None)
                        if k not in l:
                            l.append(k)
                elif n.k == 'h' or (n.k == 'c' and (n.x is None or depth > 12)):
                    unknown[0] = True
                elif n.k == 'c' and not outside(n, win):
                    walk(r, n.x[1], delta + n.off - n.x[2], depth + 1, (n.x[2], n.size) if isinstance(n.size, int) else None)
                n = n.prev
        for r, n in st.mem.items():
            if r.kind == 'alloca' or r in st.freed:
                continue
            walk(r, n, ZERO, 0)
        unknown = unknown[0]
        return out, unknown

    def ownership(self, o, where):
        ai, st = self.ai, o.st
        refs, unknown = self.refs(st)
        allocs = [e[1] for e in st.events() if e[0] == 'alloc']
        tracked = [(r, 'memory allocated at %s' % at(r.site) if r.site is not None else r.name) for r in dict.fromkeys(allocs)]
        tracked += [(r, d) for r, d in self.owned.items() if r not in allocs]
        for r in st.freed:
            if r not in self.owned and r not in allocs:
                tracked.append((r, r.name))
        for r, desc in tracked:
            def chk(s, r=r, desc=desc):
                n = ai.evalc(s, ('null', r))
                if n is None:
                    if r.maybe_null:
                        raise Split(('null', r))
                    n = False
                if n:
                    return YES, None, (), ''
                live = []
                for rr, off, size, ext in refs.get(r, ()):
                    if rr is r:
                        continue
                    v = ai.load(s, PV(rr, off, ext), PTR)
                    if not isinstance(v, PV) or v.r is not r:
                        continue
                    if rr is self.vm:
                        po = self.path_of(s.f.norm(off), ext)
                        if po and self.dead(s, po[0], po[1]):
                            continue
                        if po and po[0] in ('def_code', 'code_state', 'fn'):
                            continue
                    if any(rr is a and (s.f.prove_eq(off - b)) for a, b in live):
                        continue
                    live.append((rr, off))
                if r in s.freed:
                    if live:
                        return NO, None, (), '%s is released but still referred to by %s' % (desc, live[0][0].name)
                    return YES, None, (), ''
                if o.k != 'ret':
                    return YES, None, (), ''
                if not live:
                    if unknown:
                        return MAYBE, None, (), 'no reference found to %s' % desc
                    return NO, None, (), '%s is neither released nor stored' % desc
                if len(live) > 1:
                    for i, (a, b) in enumerate(live):
                        for a2, b2 in live[:i]:
                            if a is a2 and not s.f.prove_ne(b - b2):
                                raise Split(('eq', s.f.norm(b - b2)))
                    return NO, None, (), '%s is stored in two places' % desc
                return YES, None, (), ''
            self.apply(o, ('C10', 'C11') if not r.string and r not in self.owned else ('C10',), 'ownership', chk, where)
        if o.k == 'ret':
            # a string stored by the instruction is one it created or took over
            locs, _ = self.written(o)
            done = set()
            for rr, off, size, ext in locs:
                if size != 8 or rr in st.freed:
                    continue
                if rr is self.vm:
                    po = self.path_of(st.f.norm(off), ext)
                    if not po or po[0] != 'strstack[]':
                        continue
                elif rr.name.startswith('symbol'):
                    pass
                elif not (rr.name.startswith('strarr')):
                    continue
                if (rr, off) in done:
                    continue
                done.add((rr, off))
                m = st.mem.get(rr)
                while m is not None and not (m.k == 'w' and m.off == off and m.size == 8):
                    m = m.prev
                if m is not None and not isinstance(m.val, PV):
                    continue

                def chk2(s, rr=rr, off=off, ext=ext):
                    v = ai.load(s, PV(rr, off, ext), PTR)
                    if not isinstance(v, PV) or v.r is None:
                        return YES, None, (), ''
                    if rr is self.vm:
                        po = self.path_of(s.f.norm(off), ext)
                        if self.dead(s, po[0], po[1]):
                            return YES, None, (), ''
                    old = ai._load(s, rr, self.pre_mem.get(rr), off, 8, PTR, ext, False)
                    if isinstance(old, PV) and old.r is v.r:
                        return YES, None, (), ''
                    if v.r in allocs or v.r in self.owned or v.r.kind == 'heap':
                        return YES, None, (), ''
                    if v.r.imprecise:
                        return MAYBE, None, (), ''
                    return NO, None, (), '%s stores %s, which belongs to something else' % (rr.name, v.r.name)
                self.apply(o, ('C10',), 'ownership', chk2, where)

    def effects(self, o, where):
        if not any(os_effect(self.ai, o.st, e) for e in flat_events(o.st.events()) if e[0] in ('open', 'system', 'call')):
            self.rec(('C18',), 'proved', 'effect', '', where)
        for e in flat_events(o.st.events()):
            bad = None
            if e[0] == 'out' and e[1] == 'stdout' and not self.trace and self.silent:
                bad = (('C20',), 'unexpected output on standard output')
            elif e[0] == 'srand' and self.seeds is False:
                bad = (('C33',), 'the random sequence is reseeded')
            elif e[0] == 'rand' and self.rands is False:
                bad = (('C33',), 'a random number is drawn')
            else:
                d = os_effect(self.ai, o.st, e)
                if d:
                    bad = (('C18',), d)
            if bad:
                self.refute(o.st, None, (), bad[0], 'effect', bad[1], where)

    SUS = {'f2i': ('C28',), 'freed': ('C10',), 'free': ('C10',), 'null': ('C10',)}

    def judge_suspects(self):
        seen = {}
        for ins, kind, st, pred, text, extra in self.ai.suspects:
            k = (ins, kind)
            if seen.get(k, 0) >= 6:
                continue
            seen[k] = seen.get(k, 0) + 1
            props = self.SUS.get(kind)
            if kind == 'bounds':
                props = self.bounds_props(text)
            fn = ins.fn.name
            self.refute(st, pred, extra, frozenset(props or ('C02',)) | frozenset(self.props), kind, text, at(ins))
        for (ins, kind), v in self.ai.obl.items():
            if v[0]:
                props = self.SUS.get(kind, ('C02',))
                if kind == 'bounds':
                    props = ('C01', 'C02', 'C03')
                if kind in ('terminated', 'ctype', 'f2i-integral'):
                    continue
                self.rec(props, 'proved', kind, '', at(ins))

    def bounds_props(self, text):
        if ' of vm ' in text:
            return ('C01', 'C02')
        if '.inst' in text or 'psym' in text:
            return ('C01', 'C15')
        if 'arr' in text or '.val' in text:
            return ('C03',)
        return ('C02',)

    # ---- post-state
    def judge(self, o, where, proved_bad):
        ai = self.ai
        bad = []
        checks = []
        if self.kind == 'ret':
            for l, v, props in self.exp:
                checks.append((props, 'value of ' + l.name, lambda s, l=l, v=v: self.cmp_loc(s, l, v)))
            checks.append((self.props, 'frame', None))
        for props, rule, fn in self.post:
            checks.append((props, rule, lambda s, fn=fn: fn(self, s, o)))
        for props, rule, fn in checks:
            if rule == 'frame':
                self.frame(o, where)
                continue
            try:
                res = forks(ai, o.st, fn)
            except (Budget, Undecided) as e:
                self.rec(props, 'undecided', rule, str(e), where)
                continue
            for s, (status, pred, extra, detail) in res:
                if status == YES:
                    self.rec(props, 'proved', rule, '', where)
                elif status == MAYBE and pred is None:
                    self.rec(props, 'undecided', rule, detail, where)
                else:
                    r = self.refute(s, pred if status == MAYBE else (pred and (lambda env: True)), extra, props, rule, detail, where)
                    if r == 'undecided' and status == NO:
                        proved_bad.append((props, rule, detail, where))
        return

    def cmp_loc(self, s, l, v):
        ai = self.ai
        a = ai.load(s, l.pv(), l.ty)
        return self.cmp(s, l.name, v, a)

    def cmp(self, s, name, v, a):
        ai = self.ai
        if isinstance(v, Str):
            if not isinstance(a, PV) or a.r is None:
                return NO, None, (), '%s is not a string: %r' % (name, a)
            ai.quiet += 1
            try:
                ln, term = ai.strlen(s, a)
            finally:
                ai.quiet -= 1
            return self.cmp_str(s, name, v, ln, term, a)
        st, pred, extra = equal(ai, s, v, a)
        return st, pred, extra, '%s is %r, expected %r' % (name, a, v)

    def cmp_str(self, s, name, v, ln, term, a=None):
        d = '%s holds %s, expected %s' % (name, show_term(term), show_term(v.term))
        if a is not None and a.r in s.freed:
            return NO, None, (), '%s refers to released memory' % name
        if same_term(s, v.term, term):
            return YES, None, (), ''
        if term is None or v.term is None:
            e = s.f.norm(ln - v.ln)
            if s.f.prove_ne(e):
                return NO, None, (), d + ' (length %r, expected %r)' % (ln, v.ln)
            return MAYBE, None, (), d
        t1, t2 = v.term, term
        return MAYBE, (lambda env: env.term(t1) != env.term(t2)), (t1, t2), d

    # ---- frame: everything written that is not an expected change is unchanged
    DEAD = (('stack[]', 'sp'), ('strstack[]', 'ssp'), ('retstack[]', 'rsp'), ('for_stack[]', 'for_sp'))

    def path_of(self, off, ext=None):
        """(path, index Lin or None) of the vm member at an offset; None if unknown"""
        for name, f in self.lay.items():
            if '.' in name or '[' in name:
                continue
            if ext is not None and not ext[0].t and not f.off <= ext[0].c < f.off + max(f.size, 1):
                continue
            if f.count:
                d = off - f.off
                # index = d / stride when every term is a multiple
                st = f.stride
                if all(k % st == 0 for _, k in d.t):
                    c = d.c
                    if d.t or 0 <= c < f.size:
                        rem = c % st
                        idx = Lin((c - rem) // st, tuple((a, k // st) for a, k in d.t))
                        if d.t and not (-f.size <= c < f.size):
                            continue
                        if d.t:
                            # the range of the index must fit
                            pass
                        return name + '[]', idx, rem
            elif not off.t and f.off <= off.c < f.off + max(f.size, 1):
                return name, None, off.c - f.off
        return None

    def dead(self, s, path, idx):
        """is this array element beyond the live part of its stack?"""
        for arr, depth in self.DEAD:
            if path.startswith(arr) and idx is not None:
                d = self.ai.load(s, self.loc(depth).pv(), self.loc(depth).ty)
                c = ('ge', s.f.norm(idx - d.l))
                r = self.ai.evalc(s, c)
                if r is None:
                    raise Split(c)
                return r
        return False

    OWN = {'sp': 'C06', 'ssp': 'C06', 'stack': 'C06', 'strstack': 'C10', 'rsp': 'C15', 'retstack': 'C15', 'col': 'C20',
           'for_sp': 'C29', 'for_stack': 'C29', 'program_data': 'C25', 'immediate_data': 'C25', 'stopped': 'C16',
           'stopped_program': 'C16', 'fn': 'C14', 'inp': 'C30', 'input_pc': 'C30', 'input': 'C30', 'code_state': 'C15',
           'stored_program': 'C12', 'st': 'C31', 'immediate_code': 'C12'}

    def written(self, o):
        """locations written since the pre-state: (region, off, size, ext) and a flag for unknown ranges"""
        out, unknown = [], []
        for r, n in o.st.mem.items():
            if r.kind in ('alloca', 'heap', 'global', 'ext', 'file', 'ghost'):
                continue
            stop = self.pre_mem.get(r)
            while n is not None and n is not stop:
                if n.k == 'w':
                    out.append((r, n.off, n.size, n.ext))
                elif n.k == 'c' and isinstance(n.size, int) and n.size <= 64:
                    for d, sz in self.pieces(r, n):
                        out.append((r, n.off + d, sz, n.ext))
                elif n.k in ('h', 'c', 'z', 's', 'raw'):
                    unknown.append((r, n))
                n = n.prev
        return out, unknown

    def pieces(self, r, n):
        """scalar pieces of a copied range"""
        d = 0
        while d < n.size:
            for sz in (8, 4, 2, 1):
                if d + sz > n.size:
                    continue
                f = self.ai.field(r, n.off + d, sz)
                if f is not None:
                    yield d, sz
                    d += sz
                    break
            else:
                d += 1

    def frame(self, o, where):
        ai = self.ai
        locs, unknown = self.written(o)
        done = set()
        for r, off, size, ext in locs:
            off = o.st.f.norm(off)
            if (r, off, size) in done:
                continue
            done.add((r, off, size))
            props = set(self.props)
            name = r.name
            if r is self.vm:
                po = self.path_of(off, ext)
                if po:
                    base = po[0].replace('[]', '')
                    if base in self.OWN:
                        props.add(self.OWN[base])
                    name = base if po[1] is None else '%s[%r]' % (base, po[1])
                    if po[2]:
                        name += '+%d' % po[2]
            elif r.name.startswith('symbol'):
                props.add('C31')

            def chk(s, r=r, off=off, size=size, ext=ext, name=name):
                for l, v, _ in self.exp:
                    if l.r is r:
                        rel = ai.disjoint(s, off, size, ext, l.off, l.ty.size, l.ext)
                        if rel == 'same' or rel == 'part':
                            return YES, None, (), ''
                        if rel is None:
                            raise Split(('eq', s.f.norm(off - l.off)))
                for fn in self.nonframe:
                    if fn(s, r, off, size):
                        return YES, None, (), ''
                if r is self.vm:
                    po = self.path_of(off, ext)
                    if po and self.dead(s, po[0], po[1]):
                        return YES, None, (), ''
                    if po and po[0].startswith('fn'):
                        c = ai.load(s, self.loc('fn.code_state.code').pv(), PTR)
                        if isinstance(c, PV) and c.r is None and not off == Lin(self.lay['fn.code_state.code'].off):
                            return YES, None, (), ''
                    if po and po[0] == 'def_code':
                        # only meaningful while a function call is in progress
                        return YES, None, (), ''
                fld = ai.field(r, off, size)
                ty = None
                if fld is not None:
                    v = fld[6].meta.get(fld[5], '')
                    ty = PTR if fld[4] else DOUBLE if 'DW_ATE_float' in v else TYPES.get(size, I64)
                else:
                    ty = TYPES.get(size, I64)
                a = ai.load(s, PV(r, off, ext), ty)
                b = ai._load(s, r, self.pre_mem.get(r), off, size, ty, ext, False)
                if r.name.startswith('symbol') and not isinstance(a, type(b)):
                    return MAYBE, None, (), ''
                st, pred, extra = equal(ai, s, b, a)
                return st, pred, extra, '%s is changed to %r' % (name, a)
            try:
                res = forks(ai, o.st, chk)
            except (Budget, Undecided) as e:
                self.rec(props, 'undecided', 'frame', str(e), where)
                continue
            for s, (status, pred, extra, detail) in res:
                if status == YES:
                    self.rec(props, 'proved', 'frame', '', where)
                elif status == MAYBE and pred is None:
                    self.rec(props, 'undecided', 'frame', detail, where)
                else:
                    self.refute(s, pred if status == MAYBE else None, extra, props, 'unexpected change', detail, where)
        for r, n in unknown:
            ok = False
            for fn in self.nonframe:
                if fn(o.st, r, n.off, n.size):
                    ok = True
            if not ok:
                self.rec(self.props, 'undecided', 'frame', 'range of %s written' % r.name, where)


def same_term(st, a, b):
    if a is None or b is None:
        return False
    if a == b:
        return True
    return canon_term(st, a) == canon_term(st, b)


def term_len(t):
    if t[0] == 'lit':
        return Lin(len(t[1]))
    if t[0] == 'chr':
        return Lin(1)
    if t[0] == 'str':
        return LA(AT.get(('len', t[1].name, t[1].id), 0, MAXLEN))
    return None


def canon_term(st, t):
    k = t[0]
    if k == 'cat':
        out = []
        for x in t[1]:
            y = canon_term(st, x)
            for z in (y[1] if y[0] == 'cat' else (y,)):
                if z == ('lit', b''):
                    continue
                if out and out[-1][0] == 'lit' and z[0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + z[1])
                else:
                    out.append(z)
        return out[0] if len(out) == 1 else ('cat', tuple(out)) if out else ('lit', b'')
    if k == 'sub':
        s, n = st.f.norm(t[2]), st.f.norm(t[3])
        if (not n.t and n.c == 0) or st.f.prove_eq(n):
            return ('lit', b'')
        b = canon_term(st, t[1])
        if b[0] == 'sub':
            return canon_term(st, ('sub', b[1], b[2] + s, n))
        if b[0] == 'lit' and not s.t and not n.t and 0 <= s.c and s.c + n.c <= len(b[1]):
            return ('lit', b[1][s.c:s.c + n.c])
        if b[0] == 'cat':
            # take the part piece by piece while the cuts are known to fall inside or between pieces
            f, out, pos, left = st.f, [], s, n
            for x in b[1]:
                if f.prove_eq(left):
                    break
                l = piece_len(x)
                if l is None:
                    out = None
                    break
                if f.prove_ge(pos - l):
                    pos = f.norm(pos - l)
                    continue
                if not f.prove_ge(l - pos):
                    out = None
                    break
                if f.prove_ge(l - pos - left):
                    out.append(('sub', x, pos, left) if x[0] != 'chr' else x)
                    left = Lin(0)
                    break
                if not f.prove_ge(left - (l - pos)):
                    out = None
                    break
                out.append(('sub', x, pos, f.norm(l - pos)) if x[0] != 'chr' else x)
                left, pos = f.norm(left - (l - pos)), Lin(0)
            if out is not None and f.prove_eq(left):
                return canon_term(st, ('cat', tuple(out)))
        if b[0] == 'str':
            ln = LA(AT.get(('len', b[1].name, b[1].id), 0, MAXLEN))
            if st.f.prove_eq(s) and st.f.prove_eq(ln - n):
                return b
            if st.f.prove_eq(ln - s - n):
                # a suffix: canonical by its start
                return ('sub', b, s, st.f.norm(ln - s))
        return ('sub', b, s, n)
    if k == 'chr':
        v = t[1]
        if isinstance(v, IV):
            return ('chr', st.f.norm(v.l))
        return t
    if k == 'str':
        ln = LA(AT.get(('len', t[1].name, t[1].id), 0, MAXLEN))
        if st.f.prove_eq(ln):
            return ('lit', b'')
    return t


def show_term(t):
    if t is None:
        return 'an unknown string'
    if t[0] == 'lit':
        return repr(t[1])
    if t[0] == 'str':
        return t[1].name
    if t[0] == 'cat':
        return ' + '.join(show_term(x) for x in t[1])
    if t[0] == 'sub':
        return '%s from %r for %r' % (show_term(t[1]), t[2], t[3])
    return repr(t)
