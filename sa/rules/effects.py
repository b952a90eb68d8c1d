"""Effects: what the interrupt handler, the reporting of errors and the execution of BASIC code may do."""
from ..fnx import *
from ..fnx import FnBench
from ..vmx import os_effect, OS_EFFECTS
from ..units import Unit
from .store import SRC, LN
from .monitor import Mon, handlers_of, handler_flag, mentions, pieces, text_of


# ---- the handler of interrupts
def handler(b):
    """installed for SIGINT: it sets the flag the interpreter polls, and does nothing else"""
    hs = handlers_of(b.p)
    if not hs:
        raise Anchor('no function is installed with signal()')
    flag = handler_flag(b.p)
    if flag is None:
        raise Anchor('the interrupt handler stores to no variable')
    mod, name, size = flag
    for h in hs:
        for was in (0, 1):
            c = b.case('%s, request %s before' % (h.name, 'pending' if was else 'not pending'), ['C16'])
            c.f, c.mod = h, h.mod
            c.owners = False
            r = c.ai.global_region(mod, name)
            c.st.mem[r] = Node(c.st.mem.get(r), 'w', ZERO, size, IV(8 * size, was))
            c.call(IV(32, 2))

            def only(c, s, o, h=h, r=r):
                for e in flat_events(s.events()):
                    if e[0] == 'signal' and isinstance(e[1][1], FP) and h.name in repr(e[1][1]):
                        continue            # installs itself again
                    what = {'out': 'output', 'signal': 'signal() with another disposition', 'longjmp': 'longjmp'}.get(e[0], e[1] if e[0] == 'call' else e[0])
                    return NO, None, (), 'the handler does more than record the interrupt: %s' % (what,)
                v = c.ai.load(s, PV(r), TYPES[size])
                if not isinstance(v, IV):
                    return MAYBE, None, (), 'value recorded'
                l = s.f.norm(v.l)
                if not l.t:
                    return (NO if l.c == 0 else YES), None, (), 'the interrupt is not recorded'
                return MAYBE, (lambda env: env.lin(l) == 0), (l,), 'the interrupt may not be recorded'
            c.check(['C16'], 'handler', only)
            b.go(c)


TYPES = {1: I8, 2: I16, 4: I32, 8: I64}


# ---- the report of a run-time error
class Err(Mon):
    """execute() on an instruction that fails, in a line of known place"""

    def __init__(self, prog, title, name, props, func=None, file=None):
        super().__init__(prog, title, name, props, 'execute', None)
        for n in ('execute', 'print_source_line'):
            self.ai.icpt.pop(n, None)
        self.kind = 'longjmp'
        self.session = True

    def universal(self):
        pass

    def run(self):
        self.call(PV(self.vm))
        return FnCase.run(self)


def errors(b):
    p = b.p
    E = [('B_ADD', {'sp': 0}, b'numeric stack'), ('B_RETURN', {'rsp': 0}, b''), ('B_POP_STR', {'ssp': 0}, b'')]
    for op, fields, _ in E:
        try:
            p.enum(op)
        except Anchor:
            continue
        for which in ('stored_program', 'immediate_code', 'def_code'):
            for n in ((1, 3) if which == 'stored_program' else (1,)):
                for k in range(n):
                    c = b.case('%s fails in line %d of %d, %s' % (op, k + 1, n, which.replace('_', ' ')), ['C27'], cls=Err)
                    if which == 'immediate_code':
                        c.program('compiled', 2)
                        c.left_over(imm=True, depth=0, strs=0)
                        t = c.text('immediate text')
                        ln = c.array(LN, 'immediate lines', [dict(num=0, text=t)])
                        src = c.obj(SRC, 'immediate source', name=None, lines=ln, allocated=1, used=1)
                        bc, _ = c.code('immediate_code', src, True)
                        num, text = None, t
                    else:
                        c.program('compiled', n)
                        c.left_over(depth=0, strs=0)
                        bc, num, text = c.b0, c.nums[k], c.texts[k]
                    if which == 'def_code':
                        bc = c.bcode('function code')
                        c.put('def_code.bcode', PV(bc))
                        c.put('def_code.source', NULLP)
                        c.put('def_code.index', NULLP)
                    for f, v in fields.items():
                        c.put(f, v)
                    inst, used = c.lims[bc]
                    pc = c.atom('pc', 0, 1 << 28)
                    c.assume(('ge', used - pc - 1))
                    c.put('code_state.code', PV(c.vm, Lin(c.lay[which].off)))
                    c.put('code_state.pc', pc)
                    c.put('code_state.source_line', k)
                    o = p.layout('BINST')['op']
                    c.st.mem[inst] = Node(c.st.mem.get(inst), 'w', pc.scale(c.lay_size('BINST')) + o.off, o.size, IV(8 * o.size, p.enum(op)))

                    def report(c, s, out, num=num, text=text, which=which):
                        got = pieces(c, s, c.mon(s), 'stderr')
                        if got is None:
                            return MAYBE, None, (), 'text reported is not known'
                        # an error in a function names the line if the interpreter knows it
                        if which == 'def_code' or num is None:
                            if not got:
                                return NO, None, (), 'the error is not reported'
                            return YES, None, (), ''
                        texts = [x for x in got if isinstance(x, tuple) and x[0] != 'num']
                        nums = [x for x in got if isinstance(x, tuple) and x[0] == 'num']
                        want = ('str', text)
                        for x in nums:
                            if s.f.prove_eq(x[1] - num):
                                break
                        else:
                            return NO, None, (), 'the error report does not name the line being executed: %s' % (got,)
                        for x in nums:
                            if not s.f.prove_eq(x[1] - num):
                                return NO, None, (), 'the error report names another line: %s' % (got,)
                        if texts and not any(same_term(s, x, want) for x in texts):
                            return NO, None, (), 'the error report shows the text of another line: %s' % (got,)
                        return YES, None, (), ''
                    c.check(['C27'], 'error report', report)

                    def target(c, s, out):
                        t = c.loc('errjmp')
                        if isinstance(out.x, tuple) and out.x[0] == c.vm.id and out.x[1] == repr(t.off):
                            return YES, None, (), ''
                        return MAYBE, None, (), 'where the error goes: %r' % (out.x,)
                    c.check(['C27'], 'error goes to the run in progress', target)
                    b.go(c)


# ---- what can be reached from the execution and compilation of BASIC code
def reachable(prog, arg):
    from ..units import Result
    res = Result()
    for root, what in (('execute', 'executing an instruction'), ('parse_source', 'compiling')):
        try:
            f = prog.func(root)
        except Anchor as e:
            res.notes.append(str(e))
            continue
        seen, ext = direct(prog, f)
        res.functions |= {g.qname for g in seen}
        n = 0
        for name, sites in sorted(ext.items()):
            for g, ins in sites:
                n += 1
                if name not in OS_EFFECTS:
                    continue
                if name == 'system' and constant_arg(ins):
                    res.recs.append(Rec(('C18',), 'proved', 'reachable effects', '', at(ins), what))
                    continue
                if name == 'system':
                    # the argument may still be constant on every path: decided case by case in the instruction analysis
                    res.recs.append(Rec(('C18',), 'undecided', 'reachable effects', 'system() with a computed command', at(ins), what))
                    continue
                res.recs.append(Rec(('C18',), 'refuted', 'reachable effects', '%s can call %s: %s' % (what, name, path(seen, g)), at(ins), what))
        res.paths += n
        res.cases += 1
        res.recs += [Rec(('C18',), 'proved', 'reachable effects', '', g.qname, what) for g in seen
                     if not any(name in OS_EFFECTS and any(x is g for x, _ in sites) for name, sites in ext.items())]
    return res


def direct(prog, f):
    """functions reached by direct calls, and calls of functions outside the program"""
    seen, ext, work = {f: None}, {}, [f]
    while work:
        g = work.pop()
        for ins, name, h in prog.callees(g):
            if h is not None:
                if h not in seen:
                    seen[h] = (g, ins)
                    work.append(h)
            elif name:
                ext.setdefault(name, []).append((g, ins))
    return seen, ext


def path(seen, f):
    out = []
    while f is not None:
        out.append(f.name)
        f = seen[f][0] if seen[f] else None
    return ' <- '.join(out)


def constant_arg(ins):
    t, o = ins.a[1][0]
    return isinstance(o, tuple) and o[0] in ('global', 'gep', 'null')


def units(prog):
    def mk(name, props, fn, cost=1):
        def go(p, arg):
            b = FnBench(p, name)
            b.attempt(fn)
            return b.result()
        return Unit('effects: ' + name, props, go, None, cost)
    return [mk('interrupt handler', ['C16'], handler), mk('report of a run-time error', ['C27', 'C17'], errors),
            Unit('effects: reachable from BASIC code', ['C18'], reachable)]
