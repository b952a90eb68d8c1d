"""Abstract pre-states for any function of the program, built from small symbolic structures, and the judgement of every
outcome partition against an expected result and post-state (same three-valued judgement as vmx.Case)."""
import itertools
from .vmx import *
from .vmx import Case, Rec
from .libc import cat

RET = object()
SERIAL = itertools.count()


class FnCase(Case):
    def __init__(self, prog, title, name, props, func=None, file=None):
        self.p, self.op, self.props, self.variant, self.trace = prog, None, frozenset(props), None, None
        self.serial = next(SERIAL)
        self.name = '%s: %s' % (title, name)
        self.f = prog.func(func, file) if func else None
        self.recs = []
        ai = self.ai = AI(prog)
        ai.suspects = []
        ai.unroll = 8
        ai.hooks['alloc_never_fails'] = True
        self.st = State()
        self.mod = self.f.mod if self.f else list(prog.mods.values())[0]
        self.vm = Region('param', 'none', name='none')
        self.cap, self.lay = {}, {}
        self.exp, self.locs, self.post = [], [], []
        self.outs, self.kind, self.either, self.filter = None, 'ret', False, None
        self.syms, self.nonframe, self.owned = {}, [], {}
        self.silent, self.seeds, self.rands = True, False, False
        self.ok_effects = set()
        self.args = []
        self.seq = None                 # [(function, fn(ai, st, results) -> args)]
        self.want_ret = None
        self.free_frame = False         # nothing is said about other memory
        self.own_props = ('C11',)
        self.sus_props = None
        self.roots = set()              # objects the caller holds
        self.owners = True              # judge ownership

    # ---- building memory
    def atom(self, name, lo, hi):
        return LA(AT.get(('name', name, self.serial), lo, hi))

    def obj(self, struct, name, /, own=None, **fields):
        """a structure; fields that are not given hold unknown values"""
        r = self.ai.region('lazy', ('obj', name), name=name, di=self.di(struct))
        r.size = Lin(self.lay_size(struct))
        for k, v in fields.items():
            self.set(r, struct, k.replace('__', '.'), v)
        if own:
            self.owned[r] = own
        return r

    def zeroed(self, struct, name, /, own=None, **fields):
        r = Region('lazy', ('obj', name), name=name, di=self.di(struct), init='zero')
        r.size = Lin(self.lay_size(struct))
        for k, v in fields.items():
            self.set(r, struct, k.replace('__', '.'), v)
        if own:
            self.owned[r] = own
        return r

    def field(self, struct, path):
        lay = self.p.layout(struct)
        if path not in lay:
            raise Anchor('member %s.%s not found' % (struct, path))
        return lay[path]

    def at(self, r, struct, path, base=0):
        fl = self.field(struct, path)
        off = (base if isinstance(base, Lin) else Lin(base)) + fl.off
        return Loc(r, off, None, self.ty_of(fl), '%s[%r].%s' % (r.name, base, path) if not isinstance(base, int) or base else
                   '%s.%s' % (r.name, path), path)

    def set(self, r, struct, path, v, base=0):
        return self.put(self.at(r, struct, path, base), self.val(v))

    def val(self, v):
        if v is None:
            return NULLP
        if isinstance(v, Region):
            return PV(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float):
            return fc(v)
        return v

    def array(self, struct, name, items, cap=None, own=None):
        """an array of structures; items = list of dicts; cap = number of elements allocated (default: as many)"""
        r = self.ai.region('lazy', ('arr', name), name=name, di=self.di(struct))
        sz = self.lay_size(struct)
        cap = len(items) if cap is None else cap
        r.size = cap.scale(sz) if isinstance(cap, Lin) else Lin(cap * sz)
        for i, d in enumerate(items):
            for k, v in d.items():
                self.set(r, struct, k.replace('__', '.'), v, i * sz)
        if own:
            self.owned[r] = own
        return r

    def ptrs(self, name, items, cap=None, own=None):
        r = self.ai.region('lazy', ('ptrs', name), name=name)
        cap = len(items) if cap is None else cap
        r.size = cap.scale(8) if isinstance(cap, Lin) else Lin(cap * 8)
        for i, v in enumerate(items):
            self.st.mem[r] = Node(self.st.mem.get(r), 'w', Lin(8 * i), 8, self.val(v))
        if own:
            self.owned[r] = own
        return r

    def text(self, name, own=None, lo=None, hi=None):
        """a string of any content; returns region"""
        r = self.ai.region('lazy', ('text', name), name=name, string=True)
        ln = self.ai.strlen_base(r)
        if lo is not None:
            self.assume(('ge', ln - lo))
        if hi is not None:
            self.assume(('ge', -ln + hi))
        if own:
            self.owned[r] = own
        return r

    def lit(self, s, name=None, own=None, cap=None):
        """a modifiable buffer holding this text"""
        r = self.ai.region('lazy', ('lit', name or s), name=name or repr(s))
        r.size = Lin(cap or len(s) + 1)
        for i, b in enumerate(s + b'\0'):
            self.st.mem[r] = Node(self.st.mem.get(r), 'w', Lin(i), 1, IV(8, b if b < 128 else b - 256))
        if own:
            self.owned[r] = own
        return r

    def const(self, s, name=None):
        """a read-only string constant"""
        r = self.ai.region('lazy', ('const', name or s), name=name or repr(s), string=True)
        r.init = 'const'
        r.data = (self.mod, None, ('str', s + b'\0'))
        r.size = Lin(len(s) + 1)
        return r

    def len(self, r):
        return self.ai.strlen_base(r)

    def buf(self, name, n):
        r = self.ai.region('lazy', ('buf', name), name=name)
        r.size = Lin(n)
        return r

    def slot(self, name, ty):
        """a variable whose address is passed"""
        r = self.ai.region('lazy', ('slot', name), name=name)
        r.size = Lin(ty.size)
        return Loc(r, ZERO, None, ty, name, name)

    def call(self, *args):
        self.roots |= {a for a in args if isinstance(a, Region)}
        self.args = [a if isinstance(a, (IV, FE, PV)) else PV(a) if isinstance(a, Region) else a.pv() if isinstance(a, Loc) else
                     NULLP if a is None else IV(32, a) for a in args]

    def returns(self, v, props=()):
        self.want_ret = (v, frozenset(props) | self.props)

    def exits(self, props=()):
        self.kind = 'exit'

    # ---- running

    def start(self):
        ai = self.ai
        if self.seq is None:
            return ai.call(self.f, self.args, self.st.copy())
        parts = [(self.st.copy(), [])]
        done = []
        for k, (fn, mk) in enumerate(self.seq):
            nxt = []
            f = self.p.func(*fn) if isinstance(fn, tuple) else self.p.func(fn)
            self.f = f
            for st, res in parts:
                args = mk(res)
                args = [a if isinstance(a, (IV, FE, PV)) else PV(a) if isinstance(a, Region) else a.pv() if isinstance(a, Loc) else
                        NULLP if a is None else IV(32, a) for a in args]
                for o in ai.call(f, args, st):
                    o.res = res + [o.val]
                    if o.k == 'ret' and k + 1 < len(self.seq):
                        nxt.append((o.st, res + [o.val]))
                    else:
                        done.append(o)
            parts = nxt
        return done

    def run(self):
        ai = self.ai
        self.pre = self.st.copy()
        self.pre_mem = dict(self.st.mem)
        try:
            outs = self.start()
        except (Budget, Undecided) as e:
            self.rec(self.props, 'undecided', 'analysis', str(e))
            return self
        self.outs = outs
        for u in ai.undecided:
            self.rec(self.props, 'undecided', 'analysis', u)
        if not outs:
            self.rec(self.props, 'undecided', 'analysis', 'no outcome')
        good, proved_bad = 0, []
        for o in outs:
            where = at(o.ins) if o.ins is not None else self.f.name
            if self.filter and not self.filter(o):
                continue
            if o.k != self.kind:
                names = {'ret': 'returns', 'longjmp': 'ends in a run-time error', 'assert': 'fails an assertion',
                         'exit': 'terminates the interpreter'}
                d = '%s where it should %s' % (names.get(o.k, o.k), {'ret': 'return', 'longjmp': 'end in an error', 'exit': 'terminate'}[self.kind])
                if o.k == 'assert' and isinstance(o.val, bytes):
                    d += ' (%s)' % o.val.decode()
                if self.refute(o.st, None, (), self.kind_props(o), 'outcome', d, where) == 'undecided':
                    proved_bad.append((self.kind_props(o), 'outcome', d, where))
                continue
            good += 1
            self.judge(o, where, proved_bad)
            self.common(o, where)
        if good == 0 and outs and not ai.blurred and not any(r.status == 'refuted' for r in self.recs) and proved_bad:
            p, rule, d, where = proved_bad[0]
            self.refute(self.pre, None, (), p, rule, d + ' on every path', where)
        self.judge_suspects()
        return self

    def judge(self, o, where, proved_bad):
        if self.want_ret is not None and self.kind == 'ret':
            v, props = self.want_ret
            v = self.val(v)

            def chk(s):
                a = o.val
                if callable(v):
                    return v(self, s, o)
                if isinstance(v, int) and isinstance(a, BV):
                    b = self.ai.decide(s, a.c)
                    return (YES if int(b) == v else NO), None, (), 'result is %d, expected %d' % (int(b), v)
                return self.cmp(s, 'result', v, a)
            try:
                res = forks(self.ai, o.st, chk)
            except (Budget, Undecided) as e:
                self.rec(props, 'undecided', 'result', str(e), where)
                res = []
            for s, (status, pred, extra, detail) in res:
                if status == YES:
                    self.rec(props, 'proved', 'result', '', where)
                elif status == MAYBE and pred is None:
                    self.rec(props, 'undecided', 'result', detail, where)
                else:
                    r = self.refute(s, pred if status == MAYBE else None, extra, props, 'result', detail, where)
                    if r == 'undecided' and status == NO:
                        proved_bad.append((props, 'result', detail, where))
        super().judge(o, where, proved_bad)

    def frame(self, o, where):
        if not self.free_frame:
            super().frame(o, where)

    def common(self, o, where):
        if self.session and o.k in ('ret', 'longjmp'):
            self.rec(('C17',), 'proved', 'does not terminate the interpreter', '', where)
        self.ownership(o, where)
        self.effects(o, where)

    def ownership(self, o, where):
        if o.k != 'ret' or not self.owners:
            return
        ai, st = self.ai, o.st
        refs, unknown = self.refs(st)
        allocs = [e[1] for e in st.events() if e[0] == 'alloc']
        tracked = [(r, 'memory allocated at %s' % at(r.site) if r.site is not None else r.name) for r in dict.fromkeys(allocs)]
        tracked += [(r, d if isinstance(d, str) else r.name) for r, d in self.owned.items() if r not in allocs]
        vals = [v for v in getattr(o, 'res', None) or [o.val] if isinstance(v, PV) and v.r is not None]
        for r, desc in tracked:
            def chk(s, r=r, desc=desc):
                n = ai.evalc(s, ('null', r))
                if n is None:
                    if r.maybe_null:
                        raise Split(('null', r))
                    n = False
                if n:
                    return YES, None, (), ''
                held = [(v.r, v.off) for v in vals if v.r is r and r in allocs][:1]
                live = []
                if r in self.roots:
                    if r in s.freed:
                        return YES, None, (), ''
                    live = [(r, ZERO)]
                for rr, off, size, ext in refs.get(r, ()):
                    if rr is r:
                        continue
                    v = ai.load(s, PV(rr, off, ext), PTR)
                    if not isinstance(v, PV) or v.r is not r:
                        continue
                    if any(rr is a and s.f.prove_eq(off - b) for a, b in live):
                        continue
                    if self.weak(rr, off):
                        continue
                    live.append((rr, off))
                if r in s.freed or not live:
                    # a result that is stored nowhere else belongs to the caller
                    live += held
                if r in s.freed:
                    bad = [x for x in live if x[0] is not r and not self.stale_ok(x[0], x[1], s)]
                    if bad:
                        return NO, None, (), '%s is released but still referred to by %s' % (desc, bad[0][0].name)
                    return YES, None, (), ''
                if not live:
                    if unknown:
                        return MAYBE, None, (), 'no reference found to %s' % desc
                    return NO, None, (), '%s is neither released nor stored' % desc
                if len(live) > 1:
                    for i, (a, b) in enumerate(live):
                        for a2, b2 in live[:i]:
                            if a is a2 and not s.f.prove_ne(b - b2):
                                raise Split(('eq', s.f.norm(b - b2)))
                    live = [x for x in live if not self.stale_ok(x[0], x[1], s)]
                    if len(live) > 1:
                        return NO, None, (), '%s is stored in two places' % desc
                return YES, None, (), ''
            self.apply(o, self.own_props, 'ownership', chk, where)

    def weak(self, rr, off):
        """a reference that does not own (chain links, lookups)"""
        return False

    def stale_ok(self, rr, off, s):
        """a location whose content is meaningless (beyond the used part)"""
        return False

    def effects(self, o, where):
        pass

    def judge_suspects(self):
        seen = {}
        props = frozenset(self.sus_props or ()) | self.props
        for ins, kind, st, pred, text, extra in self.ai.suspects:
            k = (ins, kind)
            if seen.get(k, 0) >= 6:
                continue
            seen[k] = seen.get(k, 0) + 1
            self.refute(st, pred, extra, props, kind, text, at(ins))
        for (ins, kind), v in self.ai.obl.items():
            if v[0] and kind not in ('terminated', 'ctype', 'f2i-integral'):
                self.rec(props, 'proved', kind, '', at(ins))


class FnBench:
    """collects the cases of one unit"""

    def __init__(self, prog, title):
        self.p, self.title = prog, title
        self.recs, self.cases, self.paths, self.visited, self.notes = [], 0, 0, set(), []

    def case(self, name, props, func=None, file=None, cls=FnCase):
        return cls(self.p, self.title, name, props, func, file)

    def go(self, c):
        c.run()
        self.recs += c.recs
        self.cases += 1
        self.paths += len(c.outs or ())
        self.visited |= c.ai.visited
        return c

    def attempt(self, fn, *a):
        try:
            fn(self, *a)
        except (Anchor, Budget, Undecided, Infeasible) as e:
            self.notes.append('%s: %s: %s' % (self.title, type(e).__name__, e))
            self.recs.append(Rec((), 'undecided', 'analysis', str(e), '', self.title))

    def result(self):
        from .units import Result
        return Result(self.recs, {f.qname for f in self.visited}, self.cases, self.paths, self.notes)
