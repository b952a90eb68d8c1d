"""The tables behind the interpreter: line index, symbol table, compiled code, arrays, function definitions, built-ins, keywords."""
import itertools
from ..fnx import *
from ..fnx import FnCase, FnBench
from ..parsex import FORMATS, BUILTINS, KINDS
from ..units import Unit
from ..ai import Node

TABLE = []


def bench(title, props, cost=1):
    def deco(fn):
        TABLE.append((title, props, fn, cost))
        return fn
    return deco


# ---- line index -------------------------------------------------------------------------------
@bench('line index', ['C15', 'C11', 'C02', 'C12'])
def linemap(b):
    for n in (0, 1, 3):
        c = b.case('new index for %d lines' % n, ['C15'], 'new_line_map')
        c.call(n)

        def made(c, s, o, n=n):
            r = o.val.r if isinstance(o.val, PV) else None
            if r is None:
                return NO, None, (), 'no index is made'
            return fields(c, s, r, 'line_map', dict(count=0, allocated=n))
        c.check(['C15'], 'new index', made)
        b.go(c)
    n = b.p.layout('line_map')['hash'].size // 8     # cells of the hash array: lines n apart share one
    for k in (1, 2, 3):
        for cells in sorted(set(itertools.product((0, n // 2, n - 1), repeat=k)) if k < 3 else {(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 0)}):
            for want in list(range(k)) + [None]:
                for qc in ([cells[want]] if want is not None else sorted(set(cells) | {1})):
                    if n < 3:
                        continue
                    c = b.case('%d lines entered in cells %s, looking up %s in cell %d' % (
                        k, cells, 'line %d' % (want + 1) if want is not None else 'another line', qc), ['C15'])

                    def num(name, cell, c=c):
                        return c.atom(name, 0, ((1 << 32) - 1 - cell) // n).scale(n) + cell
                    keys = [num('line%d' % i, cells[i]) for i in range(k)]
                    vals = [c.atom('val%d' % i, 0, (1 << 32) - 1) for i in range(k)]
                    for i in range(k):
                        for j in range(i):
                            if cells[i] == cells[j]:
                                c.assume(('ne', keys[i] - keys[j]))
                    if want is not None:
                        q = keys[want]
                    else:
                        q = num('looked up', qc)
                        for x, cell in zip(keys, cells):
                            if cell == qc:
                                c.assume(('ne', q - x))
                    out = c.slot('answer', I32)
                    c.put(out, IV(32, c.atom('before', 0, (1 << 32) - 1)))
                    c.owners = False
                    c.seq = [(('new_line_map', 'linemap.c'), lambda res, k=k: [k])]
                    for a, v in zip(keys, vals):
                        c.seq.append((('insert_line_mapping', 'linemap.c'), lambda res, a=a, v=v: [res[0], IV(32, a), IV(32, v)]))
                    c.seq.append((('lookup_line_mapping', 'linemap.c'), lambda res, q=q, out=out: [res[0], IV(32, q), out]))
                    c.roots |= {out.r}
                    c.returns(1 if want is not None else 0, ['C15'])
                    c.free_frame = True
                    if want is not None:
                        c.check(['C15', 'C12'], 'value found', lambda c, s, o, v=vals[want]: c.cmp(s, 'value found', IV(32, v), c.ai.load(s, out.pv(), I32)))
                    b.go(c)
    c = b.case('entering a line in a full index', ['C15', 'C02'])
    c.owners = False
    c.seq = [(('new_line_map', 'linemap.c'), lambda res: [1]),
             (('insert_line_mapping', 'linemap.c'), lambda res: [res[0], 10, 1]),
             (('insert_line_mapping', 'linemap.c'), lambda res: [res[0], 20, 2])]
    c.returns(0)
    c.free_frame = True
    b.go(c)
    c = b.case('releasing the index', ['C11'], 'delete_line_map')
    nodes = c.array('line_node', 'nodes', [{}], own='the index nodes')
    m = c.obj('line_map', 'index', own='the index', nodes=nodes, count=1, allocated=1)
    c.call(m)
    gone(c, m, nodes)
    b.go(c)
    c = b.case('releasing no index', ['C11'], 'delete_line_map')
    c.call(None)
    b.go(c)


def gone(c, *rs):
    def chk(c, s, o):
        for r in rs:
            if r not in s.freed:
                return NO, None, (), '%s is not released' % c.owned.get(r, r.name)
        return YES, None, (), ''
    c.check(['C11'], 'released', chk)


def fields(c, s, r, struct, want, base=0):
    for k, v in want.items():
        l = c.at(r, struct, k, base)
        a = c.ai.load(s, l.pv(), l.ty)
        x = c.cmp(s, '%s.%s' % (struct, k), c.val(v) if not isinstance(v, int) else IV(l.ty.a, v), a)
        if x[0] != YES:
            return x
    return YES, None, (), ''


# ---- symbol table -----------------------------------------------------------------------------
SYMP = ['C17', 'C21', 'C32', 'C11', 'C31', 'C13', 'C10', 'C09']


class SymCase(FnCase):
    def __init__(self, *a):
        super().__init__(*a)
        self.ai.icpt['hashpjw_upper'] = self._hash
        self.same = []      # pairs of texts equal apart from case
        self.cells = {}     # text (or index of the pair in same) -> cell of the hash table its name falls in
        self.ncells = self.p.layout('SYMTAB')['hash'].size // 8
        for k in ('strcasecmp', '_stricmp'):
            self.ai.icpt[k] = self._cmp
        self.ai.icpt['strcmp'] = self._exact
        self.nms = {}

    def weak(self, rr, off):
        # hash chains refer to the symbols the order array owns
        fl = self.field('SYMTAB', 'psym').off
        if self.tab is not None and rr is self.tab:
            return off.t or off.c != fl
        # (a symbol is an allocation of exactly that size; the grown order array is not)
        sym = rr in self.nms or rr.kind == 'heap' and (rr.size is None or rr.size == Lin(self.lay_size('SYMBOL')))
        return sym and not off.t and off.c == self.field('SYMBOL', 'next').off

    def stale_ok(self, rr, off, s):
        if self.tab is None or self.tab in s.freed:
            return self.tab is not None
        v = self.ai.load(s, self.at(self.tab, 'SYMTAB', 'psym').pv(), PTR)
        if isinstance(v, PV) and v.r is rr:
            u = self.ai.load(s, self.at(self.tab, 'SYMTAB', 'used').pv(), I32)
            return s.f.prove_ge(off - u.l.scale(8))
        return False

    tab = None

    def _fold(self, ai, st, p, ins):
        ln, t = ai.strlen(st, p, ins)
        if t is not None:
            for k, (a, b) in enumerate(self.same):
                if t in (a, b):
                    return ('fold', k)
            if t[0] == 'lit':
                return ('fold', t[1].upper())
        return ('fold', t)

    def _hash(self, ai, st, fr, ins, a):
        """hash of a name: depends on the name without regard to case (rule 'hash folds case')"""
        k = self._fold(ai, st, a[0], ins)
        if k[1] is None:
            return None
        n = self.ncells
        cell = self.cells.get(k[1] if k[0] == 'fold' and isinstance(k[1], int) else k[1][1] if k[1] and k[1][0] == 'str' else None)
        if cell is None:
            return [Outcome('ret', st, IV(32, LA(AT.get(('name', 'hash', k, self.serial), 0, (1 << 28) - 1))))]
        q = LA(AT.get(('name', 'hash', k, self.serial), 0, ((1 << 28) - 1 - cell) // n))
        return [Outcome('ret', st, IV(32, q.scale(n) + cell))]

    def _cmp(self, ai, st, fr, ins, a):
        x, y = self._fold(ai, st, a[0], ins), self._fold(ai, st, a[1], ins)
        if x[1] is None or y[1] is None:
            return None
        if x == y:
            return [Outcome('ret', st, IV(32, 0))]
        v = LA(AT.fresh('order', -255, 255))
        st.f.assume_ne(v)
        return [Outcome('ret', st, IV(32, v))]

    def _exact(self, ai, st, fr, ins, a):
        """exact comparison: names that differ in case only are different"""
        (l1, t1), (l2, t2) = ai.strlen(st, a[0], ins), ai.strlen(st, a[1], ins)
        if t1 is None or t2 is None:
            return None
        if t1 == t2:
            return [Outcome('ret', st, IV(32, 0))]
        v = LA(AT.fresh('order', -255, 255))
        st.f.assume_ne(v)
        return [Outcome('ret', st, IV(32, v))]

    def table(self, syms, spare=1, hashed=True):
        n = len(syms)
        self.order = self.ptrs('symbol list', syms, cap=n + spare, own='the symbol list') if n + spare else None
        self.tab = self.zeroed('SYMTAB', 'symbol table', own='the symbol table', psym=self.order, allocated=n + spare, used=n, next_id=n)
        return self.tab

    def sym(self, key, kind, typ, defined=None, own=True):
        r = self.obj('SYMBOL', 'sym ' + key, kind=self.p.enum(KINDS[kind]), type=self.p.enum('TYPE_STR' if typ == 's' else 'TYPE_NUM'))
        nm = self.text('name of ' + key, own='the name of a symbol' if own else None)
        self.set(r, 'SYMBOL', 'name', nm)
        if defined is not None:
            self.set(r, 'SYMBOL', 'defined', IV(8, int(defined)))
        if own:
            self.owned[r] = 'a symbol'
        self.nms[r] = nm
        return r


@bench('hash of a name', ['C21', 'C32'])
def hashes(b):
    # a letter at each position and its other case: the hash is the same, so that lookup looks in the cell of insertion
    for fn in ('hashpjw_upper', 'hashpjw_upper_len'):
        for n in (1, 2, 3, 4):
            for k in range(n):
                c = b.case('%s of %d characters, letter %d in either case' % (fn, n, k + 1), ['C21', 'C32'])
                rs = []
                ch = [c.atom('digit%d' % i, 48, 57) for i in range(n)]
                c.ai.unroll = 16
                for d in (0, 32):
                    r = c.lit(b'x' * n)
                    for i in range(n):
                        v = c.atom('letter', 65, 90) + d if i == k else ch[i]
                        c.st.mem[r] = Node(c.st.mem.get(r), 'w', Lin(i), 1, IV(8, v))
                    rs.append(r)
                ln = [n] if fn.endswith('_len') else []
                c.seq = [(fn, lambda res, d=d, rs=rs, ln=ln: [rs[d]] + ln) for d in (0, 1)]

                def same(c, s, o):
                    return c.cmp(s, 'the hash', o.res[0], o.val)
                c.check(['C21', 'C32'], 'hash folds case', same)
                b.go(c)


    # names of every length a word can have, in upper, lower and mixed case
    chars = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    for fn in ('hashpjw_upper', 'hashpjw_upper_len'):
        for n in range(1, b.p.layout('LEX')['word'].size):
            w = ''.join(chars[(n * 7 + 5 * i) % 26 if i == 0 else (n * 7 + 5 * i) % 36] for i in range(n))
            forms = [w, w.lower(), ''.join(x.lower() if i % 2 else x for i, x in enumerate(w)), ''.join(x if i % 2 else x.lower() for i, x in enumerate(w)),
                     w[:-1] + w[-1].lower()]
            c = b.case('%s of a name of %d characters in all cases' % (fn, n), ['C21', 'C32'])
            c.ai.unroll = 200
            ln = fn.endswith('_len')
            # with a length, what follows the name does not count
            rs = [c.lit((x + ('', 'Z', '$', 'q', '')[i] if ln else x).encode()) for i, x in enumerate(forms)]
            c.seq = [(fn, lambda res, r=r, n=n: [r] + ([n] if ln else [])) for r in rs]

            def all_same(c, s, o, forms=forms):
                for f, x in zip(forms[1:], o.res[1:]):
                    y = c.cmp(s, 'the hash of %s, against %s' % (f, forms[0]), o.res[0], x)
                    if y[0] != YES:
                        return y
                return YES, None, (), ''
            c.check(['C21', 'C32'], 'hash folds case', all_same)
            b.go(c)


@bench('symbol table', SYMP, 2)
def symtab(b):
    # insert then look up
    for kind in KINDS:
        for typ in 'ns':
            for paren in (0, 1):
                for same in (True, 'one cell', 'two cells'):
                    cells, same = (3, 3 if same == 'one cell' else 4), same is True
                    c = b.case('%s %s entered, %s name looked up %s parentheses' % (
                        'string' if typ == 's' else 'numeric', kind, 'the same' if same else 'another' if cells[0] != cells[1] else 'another (of one hash cell)', 'with' if paren else 'without'), ['C21', 'C32'], cls=SymCase)
                    n1, n2 = c.text('name 1', lo=1, hi=100), c.text('name 2', lo=1, hi=100)
                    if same:
                        c.same.append((('str', n1), ('str', n2)))
                        c.cells[0] = cells[0]
                    else:
                        c.cells.update({n1: cells[0], n2: cells[1]})
                    c.roots |= {n1, n2}
                    c.seq = [('new_symbol_table', lambda res: []),
                             ('sym_insert', lambda res, kind=kind, typ=typ, n1=n1: [
                                 res[0], n1, c.p.enum(KINDS[kind]), c.p.enum('TYPE_STR' if typ == 's' else 'TYPE_NUM')]),
                             ('sym_lookup', lambda res, n2=n2, paren=paren: [res[0], n2, IV(1, paren)])]
                    hit = same and {'unknown': paren == 1, 'var': paren == 0, 'array': paren == 1, 'def': paren == 1, 'builtin': True}[kind]
                    c.free_frame = True
                    c.owners = False

                    def found(c, s, o, hit=hit, kind=kind, typ=typ, n1=n1):
                        v = o.val
                        null = isinstance(v, PV) and (v.r is None or c.ai.evalc(s, ('null', v.r)) is True)
                        if not hit:
                            return (YES, None, (), '') if null else (NO, None, (), 'a symbol of another name or kind is found')
                        if null:
                            return NO, None, (), 'the symbol is not found'
                        w = o.res[1]
                        if not (isinstance(w, PV) and w.r is v.r):
                            return NO, None, (), 'a different symbol is found'
                        x = fields(c, s, v.r, 'SYMBOL', dict(kind=c.p.enum(KINDS[kind]), defined=0, id=0,
                                                             type=c.p.enum('TYPE_STR' if typ == 's' else 'TYPE_NUM')))
                        if x[0] != YES:
                            return x
                        l = c.at(v.r, 'SYMBOL', 'name')
                        p = c.ai.load(s, l.pv(), PTR)
                        if isinstance(p, PV) and p.r is n1:
                            return NO, None, (), 'the name is not a copy of its own'
                        return c.cmp(s, 'name of the symbol', Str(c.len(n1), ('str', n1)), p)
                    c.check(['C21', 'C32'], 'symbol found', found)
                    b.go(c)
    # two symbols: the right one is found whatever the hashes
    for k1, k2, paren in (('var', 'array', 0), ('var', 'array', 1), ('array', 'var', 0), ('array', 'var', 1), ('var', 'def', 1)):
        for names in ('one name', 'two names', 'two names in one hash cell'):
            for which in ((0, 1) if names != 'one name' else (None,)):
                c = b.case('%s and %s of %s, looked up %s parentheses%s' % (
                    k1, k2, names, 'with' if paren else 'without', '' if which is None else ', name %d' % (which + 1)), ['C21', 'C32', 'C31'], cls=SymCase)
                n1, n2, q = c.text('name 1', lo=1, hi=100), c.text('name 2', lo=1, hi=100), c.text('looked up', lo=1, hi=100)
                c.roots |= {n1, n2, q}
                if names == 'one name':
                    c.same.append((('str', n1), ('str', q)))
                    n2 = n1
                    c.cells[0] = 7
                else:
                    c.same.append((('str', (n1, n2)[which]), ('str', q)))
                    c.cells[0] = 7
                    c.cells[(n2, n1)[which]] = 8 if names == 'two names' else 7
                ty = c.p.enum('TYPE_NUM')
                c.seq = [('new_symbol_table', lambda res: []),
                         ('sym_insert', lambda res: [res[0], n1, c.p.enum(KINDS[k1]), ty]),
                         ('sym_insert', lambda res: [res[0], n2, c.p.enum(KINDS[k2]), ty]),
                         ('sym_lookup', lambda res: [res[0], q, IV(1, paren)])]
                kinds = (k1, k2)
                idx = [i for i in (0, 1) if (kinds[i] == 'var') == (paren == 0) and (which is None or i == which)]
                c.free_frame = True
                c.owners = False

                def found2(c, s, o, idx=idx):
                    v = o.val
                    if not isinstance(v, PV):
                        return MAYBE, None, (), 'no symbol'
                    if not idx:
                        return (YES, None, (), '') if v.r is None else (NO, None, (), 'a symbol of another name or kind is found')
                    if v.r is None:
                        return NO, None, (), 'the symbol is not found'
                    if v.r is not o.res[1 + idx[0]].r:
                        return NO, None, (), 'a different symbol is found'
                    return fields(c, s, v.r, 'SYMBOL', dict(id=idx[0]))
                c.check(['C21', 'C32', 'C31'], 'symbol found', found2)

                def listed(c, s, o):
                    x = fields(c, s, o.res[0].r, 'SYMTAB', dict(used=2))
                    if x[0] != YES:
                        return x
                    p = c.ai.load(s, c.at(o.res[0].r, 'SYMTAB', 'psym').pv(), PTR)
                    for i in (0, 1):
                        e = c.ai.load(s, PV(p.r, p.off + 8 * i), PTR)
                        if not isinstance(e, PV) or e.r is not o.res[1 + i].r:
                            return NO, None, (), 'symbol %d of the list is not the one with that identifier' % i
                    return YES, None, (), ''
                c.check(['C32', 'C31'], 'symbols by identifier', listed)
                b.go(c)
    # growth
    for used, alloc in ((1, 1), (1, 2), (2, 2)) + tuple((n, n) for n in LONG):
        c = b.case('entering symbol %d with room for %d' % (used + 1, alloc), ['C32', 'C11'], 'sym_insert', cls=SymCase)
        syms = [c.sym('s%d' % i, 'var', 'n') for i in range(used)]
        long_loops(c, used)
        tab = c.table(syms, alloc - used)
        nm = c.text('new name', hi=100)
        c.call(tab, nm, c.p.enum('SYM_VARIABLE'), c.p.enum('TYPE_NUM'))
        c.free_frame = True

        def grown(c, s, o, syms=syms, tab=tab, used=used):
            x = fields(c, s, tab, 'SYMTAB', dict(used=used + 1, next_id=used + 1))
            if x[0] != YES:
                return x
            p = c.ai.load(s, c.at(tab, 'SYMTAB', 'psym').pv(), PTR)
            al = c.ai.load(s, c.at(tab, 'SYMTAB', 'allocated').pv(), I32)
            if p.r.size is not None and not s.f.prove_ge(p.r.size - al.l.scale(8)):
                return NO, None, (), 'the symbol list has room for fewer symbols than recorded'
            for i, r in enumerate(syms + [o.val.r]):
                e = c.ai.load(s, PV(p.r, p.off + 8 * i), PTR)
                if not isinstance(e, PV) or e.r is not r:
                    return NO, None, (), 'symbol %d of the list is not the one with that identifier' % i
            return fields(c, s, o.val.r, 'SYMBOL', dict(id=used, defined=0))
        c.check(['C32', 'C11'], 'symbols by identifier', grown)
        b.go(c)
    # by id
    for fn in ('symbol', 'sym_name'):
        for i in (0, 1):
            c = b.case('%s of identifier %d' % (fn, i), ['C32', 'C21'], fn, cls=SymCase)
            syms = [c.sym('s%d' % k, 'var', 'n') for k in (0, 1)]
            c.table(syms)
            c.call(c.tab, i)
            c.returns(syms[i] if fn == 'symbol' else c.nms[syms[i]])
            b.go(c)
    # kind unknown becomes array, others stay
    for k1 in KINDS:
        for k2 in KINDS:
            c = b.case('end of compilation with %s and %s' % (k1, k2), ['C32'], 'sym_make_unknown_array', cls=SymCase)
            ss = [c.sym('a', k1, 'n'), c.sym('b', k2, 's')]
            c.table(ss)
            c.call(c.tab)
            for s_, k in zip(ss, (k1, k2)):
                c.want(c.at(s_, 'SYMBOL', 'kind'), IV(8, c.p.enum(KINDS['array' if k == 'unknown' else k])))
            b.go(c)


LONG = (63, 64, 65, 127, 128, 129, 255, 256)


def long_loops(c, n):
    """let the loops over n elements be followed in full"""
    if n > 3:
        c.ai.unroll = n + 8
        c.ai.unroll_steps = 1 << 20


def value(c, r, kind, typ, key):
    """give a symbol a value of its kind; returns what it owns"""
    own = []
    if kind == 'var' and typ == 's':
        t = c.text('value ' + key, own='the value of a string variable')
        c.set(r, 'SYMBOL', 'val.str', t)
        own.append(t)
    elif kind == 'var':
        c.set(r, 'SYMBOL', 'val.num', fe('fa', 'name', 'value ' + key, c.serial))
    elif kind == 'array':
        n = 2
        st = 'string_array' if typ == 's' else 'numeric_array'
        a = c.obj(st, 'array ' + key, own='an array')
        a.size = Lin(c.lay_size(st) + 8 * n)
        c.put(Loc(a, Lin(c.field(st, 'size').off + c.field('array_size', 'elements').off), None, I32, 'elements', 'elements'), IV(32, n))
        own.append(a)
        if typ == 's':
            for i in range(n):
                t = c.text('element %d of %s' % (i, key), own='an element of a string array')
                c.put(Loc(a, Lin(c.field(st, 'val').off + 8 * i), None, PTR, 'val', 'val'), PV(t))
                own.append(t)
        c.set(r, 'SYMBOL', 'val.' + ('strarr' if typ == 's' else 'numarr'), a)
    elif kind == 'def':
        code, own2 = c_code(c, key, [('B_PUSH_STR', 's'), ('B_END_DEF', None)])
        d = c.obj('def', 'definition ' + key, own='a function definition', bcode=code)
        c.set(r, 'SYMBOL', 'val.def', d)
        own += [d] + own2
    elif kind == 'builtin':
        pass
    return own


def c_code(c, key, ops, cap=None):
    """compiled code object holding the given instructions; returns (object, what it owns)"""
    own, items = [], []
    for i, (op, x) in enumerate(ops):
        d = dict(op=c.p.enum(op))
        if x == 's':
            t = c.text('text %d of %s' % (i, key), own='the text of an instruction')
            d['u__str'] = t
            own.append(t)
        elif x is not None:
            d.update(x)
        items.append(d)
    n = len(items) if cap is None else cap
    arr = c.array('BINST', 'instructions of ' + key, items, cap=n, own='the instruction array') if n else None
    code = c.obj('BCODE', 'code ' + key, own='compiled code', inst=arr, allocated=n, used=len(items), has_data=IV(8, 0))
    return code, own + [code] + ([arr] if arr else [])


@bench('clearing the symbol table', SYMP, 2)
def clearing(b):
    for kind in KINDS:
        for typ in 'ns':
            for defined in (True, False):
                for func, place in ((x, y) for x in ('clear_symbol_table_values', 'clear_symbol_table_names', 'delete_symbol_table')
                                    for y in ('first', 'last', 'alone', 'between')):
                    vals = func.endswith('values')
                    P = ['C31', 'C13'] if vals else ['C11']
                    c = b.case('%s: %s %s%s, %s' % (func, 'string' if typ == 's' else 'numeric', kind, '' if defined else ', undefined', place), P, func, cls=SymCase)
                    s1 = c.sym('a', kind, typ, defined)
                    s2 = None
                    if place != 'alone':
                        s2 = c.sym('b', 'var', 'n', True)
                        value(c, s2, 'var', 'n', 'b')
                    own = value(c, s1, kind, typ, 'a') if defined else []
                    if not defined and not (kind == 'var' and typ == 'n'):
                        c.set(s1, 'SYMBOL', 'val.str', None)
                    syms = {'first': [s1, s2], 'last': [s2, s1], 'alone': [s1]}.get(place)
                    s3 = None
                    if place == 'between':
                        s3 = c.sym('c', 'array', 's', True)
                        own = own + value(c, s3, 'array', 's', 'c')
                        syms = [s2, s1, s3]
                    c.table(syms)
                    c.call(c.tab)
                    c.free_frame = True
                    c.ai.unroll = 400
                    c.props |= {'C11'}
                    if kind == 'builtin' or kind == 'unknown':
                        keep = True
                    else:
                        keep = False
                    if vals:
                        def cleared(c, s, o, s1=s1, s2=s2, s3=s3, syms=syms, kind=kind, typ=typ, keep=keep, defined=defined):
                            for q in syms:
                                if q is not s1:
                                    x = fields(c, s, q, 'SYMBOL', dict(defined=0))
                                    if x[0] != YES:
                                        return x
                            x = fields(c, s, s1, 'SYMBOL', dict(defined=int(defined) if kind == 'builtin' else 0))
                            if x[0] != YES:
                                return x
                            for q in [s1] * (kind in ('array', 'def') or kind == 'var' and typ == 's') + [s3] * (s3 is not None):
                                v = c.ai.load(s, c.at(q, 'SYMBOL', 'val.str').pv(), PTR)
                                if not (isinstance(v, PV) and v.r is None):
                                    return NO, None, (), 'the value of the %s is kept' % kind
                            for q in syms:
                                if q in s.freed or c.nms[q] in s.freed:
                                    return NO, None, (), 'a symbol is released though compiled code refers to it'
                            x = fields(c, s, c.tab, 'SYMTAB', dict(used=len(syms)))
                            return x
                        c.check(['C31', 'C13'], 'values cleared', cleared)
                        if own:
                            gone(c, *own)
                    else:
                        rel = syms + [c.nms[q] for q in syms] + own
                        if func == 'delete_symbol_table':
                            rel += [c.tab, c.order]
                        else:
                            def empty(c, s, o):
                                x = fields(c, s, c.tab, 'SYMTAB', dict(used=0, next_id=0))
                                if x[0] != YES:
                                    return x
                                fl = c.field('SYMTAB', 'hash')
                                for h in range(fl.size // 8 if hasattr(fl, 'size') else 293):
                                    v = c.ai.load(s, PV(c.tab, Lin(fl.off + 8 * h)), PTR)
                                    if not (isinstance(v, PV) and v.r is None):
                                        return NO, None, (), 'hash chain %d is kept' % h
                                return YES, None, (), ''
                            c.check(['C11', 'C13'], 'table emptied', empty)
                        gone(c, *rel)
                    b.go(c)


@bench('built-in functions entered', ['C09', 'C32', 'C21'])
def builtins(b):
    c = b.case('table of built-ins', ['C09', 'C32', 'C21'], 'init_builtins', cls=SymCase)
    del c.ai.icpt['hashpjw_upper']
    c.tab = c.zeroed('SYMTAB', 'symbol table', psym=None, allocated=0, used=0, next_id=0)
    c.ai.unroll = 64
    c.call(c.tab)
    c.free_frame = True
    c.owners = False

    def all_there(c, s, o):
        p = c.ai.load(s, c.at(c.tab, 'SYMTAB', 'psym').pv(), PTR)
        n = s.f.norm(c.ai.load(s, c.at(c.tab, 'SYMTAB', 'used').pv(), I32).l)
        if n.t or not isinstance(p, PV) or p.r is None:
            return MAYBE, None, (), 'number of symbols unknown'
        seen = {}
        for i in range(n.c):
            e = c.ai.load(s, PV(p.r, p.off + 8 * i), PTR)
            nm = c.ai.load(s, c.at(e.r, 'SYMBOL', 'name').pv(), PTR)
            ln, t = c.ai.strlen(s, nm)
            if t is None or t[0] != 'lit':
                return MAYBE, None, (), 'name unknown'
            seen[t[1].decode().upper()] = e.r
        for nm, d in BUILTINS.items():
            r = seen.get(nm)
            if r is None:
                return NO, None, (), '%s is not in the table' % nm
            x = fields(c, s, r, 'SYMBOL', dict(kind=c.p.enum('SYM_BUILTIN'), defined=1))
            if x[0] != YES:
                return x
        extra = set(seen) - set(BUILTINS)
        if extra:
            return NO, None, (), 'undocumented built-in function %s' % ', '.join(sorted(extra))
        return YES, None, (), ''
    c.check(['C09', 'C32', 'C21'], 'built-in functions', all_there)
    b.go(c)
    for nm in BUILTINS:
        for sp in {nm, nm.lower(), nm.capitalize()}:
            c = b.case('built-in %s' % sp, ['C21', 'C09'], 'builtin')
            c.ai.unroll = 64
            t = c.lit(sp.encode())
            c.call(t)

            def found(c, s, o, nm=nm):
                if not isinstance(o.val, PV) or o.val.r is None:
                    return NO, None, (), 'not found'
                p = c.ai.load(s, PV(o.val.r, o.val.off + c.field('BUILTIN', 'name').off), PTR)
                ln, t = c.ai.strlen(s, p)
                if t is None:
                    return MAYBE, None, (), 'name unknown'
                if t != ('lit', nm.encode()):
                    return NO, None, (), 'entry %r is found' % (t,)
                d = BUILTINS[nm]
                op = s.f.norm(c.ai.load(s, PV(o.val.r, o.val.off + c.field('BUILTIN', 'opcode').off), I32).l)
                ty = s.f.norm(c.ai.load(s, PV(o.val.r, o.val.off + c.field('BUILTIN', 'type').off), I32).l)
                if d is None:
                    ok = ty.c == c.p.enum('TYPE_ERR')
                else:
                    ok = op.c == c.p.enum('B_' + d[2]) and ty.c == c.p.enum('TYPE_STR' if d[1] == 's' else 'TYPE_NUM')
                return (YES if ok else NO), None, (), 'the entry has instruction %r, type %r' % (op, ty)
            c.check(['C21', 'C09'], 'built-in found', found)
            b.go(c)


# ---- compiled code ----------------------------------------------------------------------------
CODEP = ['C17', 'C05', 'C11', 'C12', 'C14', 'C15', 'C25', 'C10']
STRF = [op for op, f in FORMATS.items() if f == 'str']
FMT = {'none': 'BF_IMPLICIT', 'source': 'BF_SOURCE_LINE', 'line': 'BF_BASIC_LINE', 'num': 'BF_NUM', 'str': 'BF_STR', 'var': 'BF_VAR',
       'param': 'BF_PARAM', 'count': 'BF_COUNT'}


def enum_ops(prog):
    out = {}
    for op in FORMATS:
        try:
            out[op] = prog.enum(op)
        except Anchor:
            pass
    return out


@bench('compiled code', CODEP, 2)
def code(b):
    ops = enum_ops(b.p)
    for op, k in ops.items():
        c = b.case('format of %s' % op[2:], ['C05'], 'bcode_format')
        c.call(k)
        c.returns(c.p.enum(FMT[FORMATS[op]]), ['C05'])
        b.go(c)
    c = b.case('names', ['C05'], 'bcode_name')
    names = {}
    for op, k in ops.items():
        c = b.case('name of %s' % op[2:], ['C05'], 'bcode_name')
        c.call(k)

        def named(c, s, o, op=op):
            ln, t = c.ai.strlen(s, o.val)
            if t is None or t[0] != 'lit':
                return MAYBE, None, (), 'name unknown'
            if names.setdefault(t[1], op) != op:
                return NO, None, (), '%s and %s have one name, %s' % (op, names[t[1]], t[1].decode())
            return YES, None, (), ''
        c.check(['C05'], 'name', named)
        b.go(c)
    c = b.case('new code', ['C05', 'C11'], 'new_bcode')
    c.call()
    c.check(['C05', 'C11'], 'empty', lambda c, s, o: fields(c, s, o.val.r, 'BCODE', dict(inst=None, allocated=0, used=0, has_data=0)))
    b.go(c)
    for used, alloc in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2)) + tuple((n, n) for n in LONG):
        for op in ('B_NOP', 'B_DATA') if used < 8 else ('B_NOP',):
            for had in (0, 1) if used < 8 else (1,):
                c = b.case('adding %s after %d instructions, room for %d, %s' % (op[2:], used, alloc, 'with DATA' if had else 'without DATA'), ['C05', 'C25'], 'bcode_next')
                long_loops(c, used)
                code_, own = c_code(c, 'x', [('B_PUSH_STR', 's')] * used, alloc)
                c.set(code_, 'BCODE', 'has_data', IV(8, had))
                c.call(code_, ops[op])
                c.free_frame = True

                def nxt(c, s, o, used=used, code_=code_, own=own, op=op, had=had):
                    x = fields(c, s, code_, 'BCODE', dict(used=used + 1, has_data=1 if op == 'B_DATA' or had else 0))
                    if x[0] != YES:
                        return x
                    p = c.ai.load(s, c.at(code_, 'BCODE', 'inst').pv(), PTR)
                    al = c.ai.load(s, c.at(code_, 'BCODE', 'allocated').pv(), I32)
                    sz = c.lay_size('BINST')
                    if p.r.size is not None and not s.f.prove_ge(p.r.size - al.l.scale(sz)):
                        return NO, None, (), 'room for fewer instructions than recorded'
                    if not isinstance(o.val, PV) or o.val.r is not p.r or not s.f.prove_eq(o.val.off - p.off - used * sz):
                        return NO, None, (), 'the new instruction is not the last one'
                    for i in range(used):
                        x = fields(c, s, p.r, 'BINST', {'op': c.p.enum('B_PUSH_STR'), 'u.str': own[i]}, i * sz)
                        if x[0] != YES:
                            return x
                    return fields(c, s, p.r, 'BINST', dict(op=ops[op]), used * sz)
                c.check(['C05', 'C25', 'C11'], 'instruction added', nxt)
                b.go(c)
    for used in (0, 1, 3):
        c = b.case('latest of %d instructions' % used, ['C15'], 'bcode_latest')
        code_, own = c_code(c, 'x', [('B_NOP', None)] * used, used)
        c.call(code_)
        c.returns(PV(own[-1], Lin((used - 1) * c.lay_size('BINST'))) if used else NULLP)
        b.go(c)
    # releasing: texts of the instructions that have them, nothing else
    for op in ops:
        c = b.case('releasing code with %s' % op[2:], ['C11'], 'delete_bcode')
        code_, own = c_code(c, 'x', [(op, 's' if op in STRF else None), ('B_PUSH_STR', 's')])
        c.call(code_)
        gone(c, *own)
        c.free_frame = True
        b.go(c)
    for n in (0, None):
        c = b.case('releasing %s' % ('empty code' if n == 0 else 'no code'), ['C11'], 'delete_bcode')
        if n is None:
            c.call(None)
        else:
            code_, own = c_code(c, 'x', [], 0)
            c.call(code_)
            gone(c, *own)
        b.go(c)
    # copying the body of a function
    for body in ([], [('B_PUSH_NUM', dict(u__num=1.5))], [('B_PUSH_STR', 's'), ('B_GET_SIMPLE_NUM', dict(u__symbol_id=7))],
                 [('B_GET_PAREN_NUM', dict(u__param__symbol_id=3, u__param__params=2)), ('B_ADD', None)]):
        for start in (0, 2):
            c = b.case('copying a body of %d instructions from %d' % (len(body), start), ['C14', 'C05'], 'bcode_copy_def')
            code_, own = c_code(c, 'x', [('B_NOP', None)] * start + body + [('B_END_DEF', None), ('B_END', None)])
            arr = own[-1]
            c.call(code_, start)
            sz = c.lay_size('BINST')

            def copied(c, s, o, body=body, start=start, arr=arr, sz=sz):
                if not isinstance(o.val, PV) or o.val.r is None:
                    return NO, None, (), 'no copy'
                x = fields(c, s, o.val.r, 'BCODE', dict(used=len(body) + 1))
                if x[0] != YES:
                    return x
                p = c.ai.load(s, c.at(o.val.r, 'BCODE', 'inst').pv(), PTR)
                al = c.ai.load(s, c.at(o.val.r, 'BCODE', 'allocated').pv(), I32)
                if p.r.size is not None and not s.f.prove_ge(p.r.size - al.l.scale(sz)):
                    return NO, None, (), 'room for fewer instructions than recorded'
                for i, (op, d) in enumerate(body + [('B_END_DEF', None)]):
                    x = fields(c, s, p.r, 'BINST', dict(op=c.p.enum(op)), i * sz)
                    if x[0] != YES:
                        return x
                    if d == 's':
                        a = c.ai.load(s, c.at(arr, 'BINST', 'u.str', (start + i) * sz).pv(), PTR)
                        v = c.ai.load(s, c.at(p.r, 'BINST', 'u.str', i * sz).pv(), PTR)
                        if isinstance(v, PV) and v.r is a.r:
                            return NO, None, (), 'the copy shares the text of the original'
                        x = c.cmp(s, 'text of instruction %d' % i, Str(c.len(a.r), ('str', a.r)), v)
                        if x[0] != YES:
                            return x
                    elif d:
                        x = fields(c, s, p.r, 'BINST', {k.replace('__', '.'): v for k, v in d.items()}, i * sz)
                        if x[0] != YES:
                            return x
                return YES, None, (), ''
            c.check(['C14', 'C05', 'C11'], 'copy of the body', copied)
            b.go(c)
    for n, start in ((1, 1000), (100, 5), (127, 0), (128, 0), (255, 40000), (256, 70000), (300, 0)):
        c = b.case('copying a long body, %d instructions from %d' % (n, start), ['C14', 'C05'], 'bcode_copy_def')
        long_loops(c, n)
        sz = c.lay_size('BINST')
        base = c.ai.region('lazy', ('code before', 'inst'), name='instructions', di=c.di('BINST'))
        total = start + n + 5
        base.size = Lin(total * sz)
        for i in range(n):
            c.set(base, 'BINST', 'op', c.p.enum('B_PUSH_NUM'), (start + i) * sz)
            c.set(base, 'BINST', 'u.num', float(i), (start + i) * sz)
        c.set(base, 'BINST', 'op', c.p.enum('B_END_DEF'), (start + n) * sz)
        code_ = c.obj('BCODE', 'code', inst=base, allocated=total, used=total, has_data=IV(8, 0))
        c.call(code_, start)
        c.free_frame = True

        def copied_long(c, s, o, n=n, sz=sz):
            x = fields(c, s, o.val.r, 'BCODE', dict(used=n + 1))
            if x[0] != YES:
                return x
            p = c.ai.load(s, c.at(o.val.r, 'BCODE', 'inst').pv(), PTR)
            for i in range(n):
                x = fields(c, s, p.r, 'BINST', {'op': c.p.enum('B_PUSH_NUM'), 'u.num': float(i)}, i * sz)
                if x[0] != YES:
                    return x
            return fields(c, s, p.r, 'BINST', dict(op=c.p.enum('B_END_DEF')), n * sz)
        c.check(['C14', 'C05'], 'copy of the body', copied_long)
        b.go(c)
    for dop in STRF:
        c = b.case('copying a body with %s' % dop[2:], ['C05', 'C11'], 'bcode_copy_def')
        code_, own = c_code(c, 'x', [(dop, 's'), ('B_END_DEF', None)])
        c.call(code_, 0)
        c.free_frame = True
        c.check(['C05', 'C11'], 'copy', lambda c, s, o: fields(c, s, o.val.r, 'BCODE', dict(used=2)))
        b.go(c)
    # index of lines
    n = b.p.layout('line_map')['hash'].size // 8
    allops = [o for o in ops if o != 'B_SOURCE_LINE' and o not in STRF]
    for layout in (['L'], ['L', 'x', 'L'], ['x', 'L', 'x', 'x', 'L', 'L'], [], ['x'], ['L'] + allops + ['L']):
        lines = [i for i, x in enumerate(layout) if x == 'L']
        for q in list(range(len(lines))) + [None]:
            c = b.case('index of code %s, line %s' % (''.join(x if len(x) == 1 else '.' for x in layout) or '(empty)', q), ['C15', 'C12', 'C25'])
            long_loops(c, len(layout))
            nums = [c.atom('line%d' % i, 1, ((1 << 32) - 1) // n - 1).scale(n) + (5, 5, 9)[i] for i in range(len(lines))]      # the first two share a cell of the index
            for a, d in zip(nums, nums[1:]):
                c.assume(('ge', d - a - 1))
            k = iter(range(len(lines)))
            code_, own = c_code(c, 'x', [('B_SOURCE_LINE', dict(u__source_line=next(k))) if x == 'L' else (x if x != 'x' else 'B_NOP', None) for x in layout])
            texts = [c.text('text%d' % i) for i in range(len(lines))]
            ls = c.array('source_line', 'lines', [dict(num=a, text=t) for a, t in zip(nums, texts)]) if lines else None
            src = c.obj('SOURCE', 'program', name=None, lines=ls, allocated=len(lines), used=len(lines))
            look = c.atom('looked up', 1, ((1 << 32) - 1) // n - 1).scale(n) + 5 if q is None else nums[q]
            if q is None:
                for a in nums[:2]:
                    c.assume(('ne', look - a))
            out = c.slot('answer', I32)
            c.put(out, IV(32, 0))
            c.roots |= {out.r, code_, src}
            c.owners = False
            c.seq = [('bcode_index', lambda res: [code_, src]), ('lookup_line_mapping', lambda res: [res[0], IV(32, look), out])]
            c.free_frame = True
            c.returns(int(q is not None), ['C15', 'C12', 'C25'])
            if q is not None:
                c.check(['C15', 'C12', 'C25'], 'position of the line', lambda c, s, o, q=q: c.cmp(
                    s, 'position of the line', IV(32, lines[q]), c.ai.load(s, out.pv(), I32)))
            b.go(c)
    # definitions
    for typ in ('full', 'none'):
        c = b.case('releasing a function definition, %s' % typ, ['C11'], 'delete_def')
        if typ == 'full':
            code_, own = c_code(c, 'x', [('B_PUSH_STR', 's'), ('B_END_DEF', None)])
            d = c.obj('def', 'definition', own='a function definition', bcode=code_)
            c.call(d)
            gone(c, d, *own)
            c.free_frame = True
        else:
            c.call(None)
        b.go(c)
    c = b.case('new function definition', ['C14', 'C11'], 'new_def')
    code_, own = c_code(c, 'x', [('B_END_DEF', None)])
    src = c.obj('SOURCE', 'program')
    ln = c.atom('line', 0, (1 << 32) - 1)
    c.call(code_, src, IV(32, ln))
    c.roots.discard(code_)      # the definition takes it over
    c.check(['C14', 'C11'], 'definition', lambda c, s, o: fields(c, s, o.val.r, 'def', dict(bcode=code_, source=src, source_line=IV(32, ln))))
    c.free_frame = True
    b.go(c)


# ---- arrays -----------------------------------------------------------------------------------
@bench('arrays released', ['C11', 'C10'])
def arrays(b):
    for typ in 'ns':
        st = 'string_array' if typ == 's' else 'numeric_array'
        for n in (0, 1, 3):
            for empty in ((False, True) if typ == 's' and n else (False,)):
                c = b.case('%s with %d elements%s' % (st, n, ', some unassigned' if empty else ''), ['C11', 'C10'], 'delete_' + st)
                a = c.obj(st, 'array', own='an array')
                a.size = Lin(c.lay_size(st) + 8 * n)
                c.put(Loc(a, Lin(c.field(st, 'size').off + c.field('array_size', 'elements').off), None, I32, 'elements', 'elements'), IV(32, n))
                own = [a]
                if typ == 's':
                    for i in range(n):
                        t = None if empty and i % 2 == 0 else c.text('element %d' % i, own='an element')
                        c.put(Loc(a, Lin(c.field(st, 'val').off + 8 * i), None, PTR, 'val', 'val'), PV(t) if t else NULLP)
                        own += [t] if t else []
                c.call(a)
                c.free_frame = True
                gone(c, *own)
                b.go(c)
        c = b.case('%s: none' % st, ['C11'], 'delete_' + st)
        c.call(None)
        b.go(c)


# ---- keywords ---------------------------------------------------------------------------------
KEYWORDS = ['AND', 'CLEAR', 'CLS', 'DATA', 'DEF', 'DIM', 'ELSE', 'END', 'FOR', 'GOSUB', 'GOTO', 'IF', 'INPUT', 'LET', 'LINE', 'NEXT',
            'NOT', 'ON', 'OR', 'PRINT', 'RANDOMIZE', 'READ', 'REM', 'RESTORE', 'RETURN', 'STEP', 'STOP', 'THEN', 'TO']


@bench('keywords', ['C22', 'C21', 'C05'], 3)
def keywords(b):
    p = b.p
    # the table after init_keywords, then each spelling
    base = b.case('the keyword table is built', ['C22'], 'init_keywords')
    base.ai.unroll = 64
    base.free_frame = True
    base.own_props = ()
    kh = base.ai.global_region(base.mod, 'keyword_hash')
    kh.init = 'zero'
    base.call()
    b.go(base)
    outs = [o for o in base.outs or () if o.k == 'ret']
    f = p.func('identifier_token')
    if len(outs) != 1:
        b.recs.append(Rec(['C22', 'C21'], 'undecided', 'keyword table', 'table not determined', '', base.name))
    else:
        st0 = outs[0].st
        for kw in KEYWORDS:
            for sp in (kw, kw.lower(), kw.capitalize(), kw[0].lower() + kw[1:]):
                c = b.case('word %s' % sp, ['C22', 'C21'], 'identifier_token')
                c.ai = base.ai
                c.st = st0.copy()
                t = Region('lazy', ('lit', sp, c.serial), name=repr(sp))
                t.size = Lin(len(sp) + 1)
                for i, ch in enumerate(sp.encode() + b'\0'):
                    c.st.mem[t] = Node(c.st.mem.get(t), 'w', Lin(i), 1, IV(8, ch))
                c.call(t)
                c.owners = False
                c.free_frame = True
                c.returns(p.enum('TOK_' + kw), ['C22', 'C21'])
                b.go(c)
        for w in ['A', 'x', 'FO', 'FORE', 'TOTAL', 'PRIN', 'PRINTS', 'A1', 'ON2', 'IFS', 'IF$', 'END1', 'LETS', 'TAB', 'SPC', 'RND', 'MID$', 'STR$', 'LEFT$', 'BYE', 'RUN'] + \
                 [k[:-1] for k in KEYWORDS if k[:-1] not in KEYWORDS] + [k + 'A' for k in KEYWORDS]:
            c = b.case('name %s' % w, ['C22', 'C21'], 'identifier_token')
            c.ai = base.ai
            c.st = st0.copy()
            t = Region('lazy', ('lit', w, c.serial), name=repr(w))
            t.size = Lin(len(w) + 1)
            for i, ch in enumerate(w.encode() + b'\0'):
                c.st.mem[t] = Node(c.st.mem.get(t), 'w', Lin(i), 1, IV(8, ch))
            c.call(t)
            c.owners = False
            c.free_frame = True
            c.returns(p.enum('TOK_ID'), ['C22', 'C21'])
            b.go(c)
    for kw in KEYWORDS:
        c = b.case('printed name of %s' % kw, ['C22'], 'keyword_name')
        c.call(p.enum('TOK_' + kw))

        def named(c, s, o, kw=kw):
            if not isinstance(o.val, PV) or o.val.r is None:
                return NO, None, (), 'no name'
            ln, t = c.ai.strlen(s, o.val)
            if t is None:
                return MAYBE, None, (), 'name unknown'
            return (YES if t == ('lit', kw.encode()) else NO), None, (), 'the name is %s' % show_term(t)
        c.check(['C22'], 'printed name', named)
        b.go(c)
        for sp in (kw, kw.lower(), kw.capitalize()):
            for tail in ('', 'A', '1', ' ', '$', '(', '=', 'STEP', 'print'):
                c = b.case('crunched %s%s' % (sp, tail), ['C22', 'C21'], 'keyword_prefix')
                c.ai.unroll = 64
                t = c.lit((sp + tail).encode())
                c.call(t)

                def hit(c, s, o, kw=kw, sp=sp, tail=tail):
                    if not isinstance(o.val, PV) or o.val.r is None:
                        return NO, None, (), 'not recognised'
                    tk = s.f.norm(c.ai.load(s, PV(o.val.r, o.val.off + c.field('KEYWORD', 'token').off), I32).l)
                    n = s.f.norm(c.ai.load(s, PV(o.val.r, o.val.off + c.field('KEYWORD', 'len').off), I32).l)
                    if tk.t or n.t:
                        return MAYBE, None, (), 'entry unknown'
                    if tk.c != p.enum('TOK_' + kw):
                        return NO, None, (), 'recognised as another keyword, token %d' % tk.c
                    return (YES if n.c == len(kw) else NO), None, (), 'length is %d' % n.c
                c.check(['C22', 'C21'], 'keyword recognised', hit)
                b.go(c)
    for w in ('', 'A', 'X=1', 'FO', 'T', 'PRIN', ' PRINT', 'AFOR', '1TO'):
        c = b.case('not a keyword: %r' % w, ['C22'], 'keyword_prefix')
        c.ai.unroll = 64
        c.call(c.lit(w.encode()))
        c.returns(None, ['C22'])
        b.go(c)


def unit(title, fn, props):
    def run(prog, arg):
        b = FnBench(prog, title)
        b.attempt(fn)
        for r in b.recs:
            if not r.props:
                r.props = frozenset(props)
        return b.result()
    return run


def units(prog):
    return [Unit('tables: ' + t, p, unit(t, fn, p), cost=k) for t, p, fn, k in TABLE]
