"""Front end: compile /repo's current sources to LLVM IR and parse it.

No source text is inspected: everything downstream works on the compiler's resolved program
(IR after mem2reg plus its debug information).
"""
import os, re, json, shutil, subprocess, tempfile, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')


class FrontEndError(Exception):
    pass


# ----------------------------------------------------------------------------------------------
# building

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_ir(repo=REPO, keep=None, defines=()):
    """Return {relative source path: IR text} for every unit of the project's CMake build.

    UNIT_TEST is left out of the analysed configuration: it only adds the test functions.
    """
    scratch = tempfile.mkdtemp(prefix='sa_')
    try:
        src = os.path.join(scratch, 'src')
        shutil.copytree(repo, src, symlinks=True,
                        ignore=shutil.ignore_patterns('_build', '.git', '.vp'))
        bld = os.path.join(scratch, 'b')
        r = _run(['cmake', '-S', src, '-B', bld, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug',
                  '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
        cc = os.path.join(bld, 'compile_commands.json')
        if not os.path.exists(cc):
            raise FrontEndError('cmake configuration failed: ' + r.stderr[-2000:])
        units = {}
        for e in json.load(open(cc)):
            f = os.path.relpath(e['file'], src)
            args = e['command'].split() if 'command' in e else e['arguments']
            flags = []
            k = 0
            while k < len(args):
                a = args[k]
                if a in ('-I', '-D', '-U', '-include', '-isystem'):
                    flags += [a, args[k + 1]]
                    k += 1
                elif a[:2] in ('-I', '-D', '-U') or a.startswith('-isystem'):
                    flags.append(a)
                k += 1
            flags = [a for a in flags if a != '-DUNIT_TEST']
            flags = [a for a in flags if not a.startswith('-DUNIT_TEST=')]
            units[f] = flags
        if not units:
            raise FrontEndError('no translation units')
        notes = []
        out = {}

        def one(f):
            return compile_unit(src, f, units[f] + list(defines), notes)
        # normalisation edits files shared between units: do those serially on failure
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda f: (f, _compile(src, f, units[f] + list(defines))), units))
        for f, (ok, txt) in res:
            if ok:
                out[f] = txt
        for f, (ok, txt) in res:
            if not ok:
                out[f] = one(f)
        return {f: t.replace(src + '/', '').replace(src, '') for f, t in out.items()}, notes
    finally:
        if keep is None:
            shutil.rmtree(scratch, ignore_errors=True)


def _compile(src, f, flags):
    cmd = ['clang-18', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-std=gnu11', '-w',
           '-fno-discard-value-names'] + flags + [os.path.join(src, f), '-o', '-']
    r = _run(cmd)
    if r.returncode != 0:
        return False, r.stderr
    o = subprocess.run(['opt-18', '-S', '-passes=mem2reg'], input=r.stdout, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if o.returncode != 0:
        return False, o.stderr
    return True, o.stdout


def compile_unit(src, f, flags, notes):
    """clang rejects an identifier list in a declaration, which gcc (the project's compiler) accepts: in the
    scratch copy such a declaration is turned into the equivalent empty parameter list."""
    for _ in range(8):
        ok, txt = _compile(src, f, flags)
        if ok:
            return txt
        m = re.search(r'^(\S+?):(\d+):(\d+): error: a parameter list without types is only allowed', txt, re.M)
        if not m:
            raise FrontEndError('clang cannot compile %s: %s' % (f, txt[-1500:]))
        path, ln, col = m.group(1), int(m.group(2)), int(m.group(3))
        lines = open(path).read().split('\n')
        line = lines[ln - 1]
        new = re.sub(r'\(\s*[A-Za-z_]\w*(\s*,\s*[A-Za-z_]\w*)*\s*\)', '()', line)
        if new == line:
            raise FrontEndError('cannot normalise %s:%d' % (path, ln))
        lines[ln - 1] = new
        open(path, 'w').write('\n'.join(lines))
        notes.append('%s:%d identifier list in declaration read as ()' % (os.path.relpath(path, src), ln))
    raise FrontEndError('cannot compile ' + f)


# ----------------------------------------------------------------------------------------------
# types

class Ty:
    __slots__ = ('k', 'a', 'b', 'mod', '_size', '_align', '_fields')

    def __init__(self, k, a=None, b=None, mod=None):
        self.k, self.a, self.b, self.mod = k, a, b, mod
        self._size = None

    def __repr__(self):
        return {'int': lambda: 'i%d' % self.a, 'arr': lambda: '[%d x %r]' % (self.a, self.b),
                'struct': lambda: '{%s}' % ', '.join(map(repr, self.a)), 'named': lambda: self.a}.get(
            self.k, lambda: self.k)()

    def resolve(self):
        if self.k == 'named':
            t = self.mod.structs.get(self.a)
            if t is None:
                raise FrontEndError('unknown type ' + self.a)
            return t
        return self

    def layout(self):
        if self._size is None:
            k = self.k
            if k == 'int':
                s = max(1, 1 << max(0, (self.a + 7) // 8 - 1).bit_length()) if self.a > 8 else 1
                self._size, self._align = s, s
            elif k in ('double', 'ptr'):
                self._size = self._align = 8
            elif k == 'float':
                self._size = self._align = 4
            elif k == 'x86_fp80':
                self._size = self._align = 16
            elif k == 'arr':
                s, a = self.b.layout()
                self._size, self._align = s * self.a, a
            elif k == 'named':
                t = self.resolve()
                self._size, self._align = t.layout()
            elif k == 'struct':
                off, al, fs = 0, 1, []
                for f in self.a:
                    s, a = f.layout()
                    if self.b:
                        a = 1
                    off = (off + a - 1) // a * a
                    fs.append(off)
                    off += s
                    al = max(al, a)
                self._size, self._align, self._fields = (off + al - 1) // al * al, al, fs
            elif k == 'void' or k == 'func':
                self._size, self._align = 1, 1
            else:
                raise FrontEndError('size of ' + k)
        return self._size, self._align

    @property
    def size(self):
        return self.layout()[0]

    def field_off(self, i):
        t = self.resolve()
        t.layout()
        return t._fields[i]


I1, I8, I16, I32, I64 = (Ty('int', n) for n in (1, 8, 16, 32, 64))
INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}
DOUBLE, PTR, VOID = Ty('double'), Ty('ptr'), Ty('void')

# ----------------------------------------------------------------------------------------------
# operands:  ('reg', name) ('int', n) ('fp', x) ('null',) ('undef',) ('global', name) ('zero',)
#            ('gep', basety, base operand, [(ty, operand)...]) ('str', bytes) ('agg', [(ty, op)...])
#            ('inttoptr', operand)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|0x[KLMH][0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<attr>\#\d+)
 | (?P<p>[()\[\]{}<>,=*:|])
 )''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise FrontEndError('cannot tokenise IR: ' + s[pos:pos + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned immarg inreg
  sret byval align dereferenceable dereferenceable_or_null allocptr noreturn nounwind writable dead_on_unwind initializes
  captures'''.split())


class P:
    """operand/type parser over a token list"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise FrontEndError('IR: expected %s at %s' % (v, ' '.join(x[1] for x in self.t[self.i:self.i + 8])))

    def type(self):
        v = self.next()
        if v[0] == 'i' and v[1:].isdigit():
            n = int(v[1:])
            t = INTS.get(n) or Ty('int', n)
        elif v == 'ptr':
            t = PTR
        elif v in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80'):
            t = {'double': DOUBLE, 'void': VOID}.get(v) or Ty(v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = Ty('struct', fs)
        elif v == '<':
            self.expect('{')
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            self.expect('>')
            t = Ty('struct', fs, True)
        elif v[0] == '%':
            t = Ty('named', v, None, self.mod)
        elif v == 'opaque':
            t = Ty('struct', [])
        else:
            raise FrontEndError('IR type: ' + v)
        if self.peek() == '(' and self.kind() == 'p':
            # function type
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = Ty('func', t)
        return t

    def skip_attrs(self):
        while self.peek() in ATTRS:
            a = self.next()
            if self.peek() == '(' and a not in ('align',):
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif a == 'align':
                self.next()

    def value(self, ty):
        k, v = self.kind(), self.next()
        if k == 'reg':
            return ('reg', v)
        if k == 'glob':
            return ('global', v[1:].strip('"'))
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'):
                    import struct
                    return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
                return ('fp', float(v))
            if v.startswith('0x'):
                return ('undef',)
            return ('int', int(v))
        if k == 'str':
            return ('str', unescape(v[2:-1]))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return (v, t, x)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            xs = []
            if v == '<':
                self.expect('{')
            while not self.accept('}' if v == '<' else close):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(',')
            if v == '<':
                self.expect('>')
            return ('agg', xs)
        raise FrontEndError('IR value: %s' % v)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1', 'replace')
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'loc', 'blk', 'fn', 'idx')

    def __repr__(self):
        return '%s%s %r %r' % (self.res + ' = ' if self.res else '', self.op, self.ty, self.a)


class Block:
    __slots__ = ('name', 'ins', 'succs', 'preds', 'phis', 'fn')


CAST = ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr',
        'bitcast')
BIN = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem')


class Func:
    def __init__(self, mod, name, params, ret, static, lines, dbg, variadic):
        self.mod, self.name, self.params, self.ret, self.static = mod, name, params, ret, static
        self._lines, self.dbg, self.variadic = lines, dbg, variadic
        self._blocks = None
        self.qname = name
        self._loops = None

    def __repr__(self):
        return '<%s>' % self.qname

    @property
    def file(self):
        return self.mod.path

    @property
    def line(self):
        d = self.mod.meta.get(self.dbg)
        m = re.search(r'\bline: (\d+)', d or '')
        return int(m.group(1)) if m else 0

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    @property
    def entry(self):
        self.blocks
        return self._entry

    def instrs(self):
        for b in self.blocks.values():
            for i in b.ins:
                yield i

    def _parse(self):
        mod = self.mod
        blocks = {}
        self.dbgvals = {}       # ssa name -> DI variable meta id
        cur = Block()
        cur.name, cur.ins, cur.fn = str(sum(1 for _, n in self.params)), [], self
        first = True
        self._entry = None
        n = 0
        lines = self._lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip():
                continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m and not ln.startswith(' '):
                if not first or cur.ins:
                    blocks[cur.name] = cur
                cur = Block()
                cur.name, cur.ins, cur.fn = m.group(1).strip('"'), [], self
                first = False
                if self._entry is None and not blocks:
                    self._entry = cur.name
                continue
            # switch spans several lines
            if re.match(r'\s*switch ', ln):
                while ']' not in ln:
                    ln += ' ' + lines[i]
                    i += 1
            ins = self._ins(ln)
            if ins is not None:
                ins.blk, ins.fn, ins.idx = cur, self, n
                n += 1
                cur.ins.append(ins)
            first = False
        blocks[cur.name] = cur
        if self._entry is None:
            self._entry = next(iter(blocks))
        for b in blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succs = [t.a[1], t.a[2]] if len(t.a) == 3 else [t.a[0]]
            elif t.op == 'switch':
                b.succs = [t.a[1]] + [x[1] for x in t.a[2]]
            else:
                b.succs = []
            b.preds = []
            b.phis = [x for x in b.ins if x.op == 'phi']
        for b in blocks.values():
            for s in dict.fromkeys(b.succs):
                blocks[s].preds.append(b.name)
        self._blocks = blocks

    def _ins(self, ln):
        mod = self.mod
        loc = None
        m = re.search(r', !dbg (!\d+)', ln)
        if m:
            loc = m.group(1)
        if 'llvm.dbg.value' in ln or 'llvm.dbg.declare' in ln:
            m = re.search(r'metadata (?:\w+|\[[^\]]*\]) (%[-\w.$]+), metadata (!\d+)', ln)
            if m:
                self.dbgvals.setdefault(m.group(1), m.group(2))
            m = re.search(r'metadata ptr (%[-\w.$]+), metadata (!\d+)', ln)
            if m and 'declare' in ln:
                self.dbgvals[m.group(1)] = m.group(2)
            return None
        s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', ln)
        s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+', '', s)
        p = P(tokenize(s), mod)
        ins = Ins()
        ins.loc = loc
        ins.res = None
        if p.kind() == 'reg' and p.peek(1) == '=':
            ins.res = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        ins.ty = None
        if op in BIN:
            flags = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'disjoint', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc',
                               'arcp', 'afn'):
                flags.add(p.next())
            ins.ty = p.type()
            a = p.value(ins.ty)
            p.expect(',')
            ins.a = (a, p.value(ins.ty), flags)
        elif op == 'fneg':
            ins.ty = p.type()
            ins.a = (p.value(ins.ty),)
        elif op in ('icmp', 'fcmp'):
            pred = p.next()
            ins.ty = p.type()
            a = p.value(ins.ty)
            p.expect(',')
            ins.a = (pred, a, p.value(ins.ty))
        elif op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t, v = p.tv()
            p.expect('to')
            ins.ty = p.type()
            ins.a = (t, v)
        elif op == 'load':
            p.accept('volatile')
            ins.ty = p.type()
            p.expect(',')
            ins.a = (p.tv()[1],)
        elif op == 'store':
            p.accept('volatile')
            t, v = p.tv()
            p.expect(',')
            ins.ty = t
            ins.a = (v, p.tv()[1])
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            base = p.tv()[1]
            idx = []
            while p.accept(','):
                idx.append(p.tv())
            ins.ty = PTR
            ins.a = (bt, base, idx)
        elif op == 'alloca':
            ins.ty = p.type()
            n = ('int', 1)
            while p.accept(','):
                if p.accept('align'):
                    p.next()
                else:
                    n = p.tv()[1]
            ins.a = (n,)
        elif op == 'br':
            if p.accept('label'):
                ins.a = (p.next()[1:].strip('"'),)
            else:
                t, c = p.tv()
                p.expect(',')
                p.expect('label')
                x = p.next()[1:].strip('"')
                p.expect(',')
                p.expect('label')
                ins.a = (c, x, p.next()[1:].strip('"'))
        elif op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                _, c = p.tv()
                p.expect(',')
                p.expect('label')
                cases.append((c[1], p.next()[1:].strip('"')))
            ins.ty = t
            ins.a = (v, d, cases)
        elif op == 'ret':
            t = p.type()
            ins.ty = t
            ins.a = () if t.k == 'void' else (p.value(t),)
        elif op == 'phi':
            ins.ty = p.type()
            inc = []
            while p.accept('['):
                v = p.value(ins.ty)
                p.expect(',')
                inc.append((v, p.next()[1:].strip('"')))
                p.expect(']')
                p.accept(',')
            ins.a = (inc,)
        elif op == 'select':
            _, c = p.tv()
            p.expect(',')
            ins.ty, a = p.tv()
            p.expect(',')
            ins.a = (c, a, p.tv()[1])
        elif op == 'unreachable':
            ins.a = ()
        elif op == 'freeze':
            ins.ty, v = p.tv()
            ins.a = (v,)
        elif op == 'call':
            while p.peek() in ('fast', 'fastcc', 'ccc') or p.peek() in ATTRS:
                p.skip_attrs()
                if p.peek() in ('fast', 'fastcc', 'ccc'):
                    p.next()
            rt = p.type()
            if rt.k == 'func':
                rt = rt.a
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.peek() == 'metadata':
                    return None
                args.append(p.tv())
                p.accept(',')
            ins.ty = rt
            ins.a = (callee, args)
        elif op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            ins.a = (t, v, tuple(idx))
            for i in idx:
                t = t.resolve()
                t = t.a[i] if t.k == 'struct' else t.b
            ins.ty = t
        elif op in ('va_arg', 'insertvalue', 'atomicrmw', 'cmpxchg', 'fence', 'indirectbr'):
            ins.a = ()
            ins.op = 'unsupported'
        else:
            raise FrontEndError('IR instruction: ' + ln.strip())
        return ins

    # -- loops ---------------------------------------------------------------------------------
    def loops(self):
        """{header: set(block names)} natural loops"""
        if self._loops is not None:
            return self._loops
        blocks = self.blocks
        order, seen = [], set()
        st = [(self._entry, iter(blocks[self._entry].succs))]
        seen.add(self._entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(blocks[s].succs)))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        self.rpo = {b: k for k, b in enumerate(rpo)}
        idom = {self._entry: self._entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in blocks[b].preds if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in blocks[b].succs:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w += [p for p in blocks[x].preds if p in seen]
        self._loops = loops
        self.reachable = seen
        return loops


class Module:
    def __init__(self, path, text):
        self.path = path
        self.structs, self.globals, self.funcs, self.meta, self.decls = {}, {}, {}, {}, {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%\S+) = type (.*)', ln)
                p = P(tokenize(m.group(2)), self)
                self.structs[m.group(1)] = p.type()
            elif c == '@':
                self._global(ln)
            elif c == '!':
                m = re.match(r'(!\S+) = (.*)', ln)
                self.meta[m.group(1)] = m.group(2)
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i:j])
                i = j + 1
            elif ln.startswith('declare'):
                m = re.match(r'declare .*?@([-\w.$]+)\((.*)\)', ln)
                if m:
                    self.decls[m.group(1)] = ln
        self._loc = {}
        self._enums = None

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        rest = re.sub(r', align \d+.*$', '', rest)
        rest = re.sub(r', !dbg !\d+.*$', '', rest)
        toks = rest.split(' ')
        static = False
        k = 0
        const = False
        external = False
        while True:
            w = toks[k]
            if w in ('private', 'internal'):
                static = True
            elif w in ('external', 'extern_weak'):
                external = True
            elif w == 'constant':
                const = True
                k += 1
                break
            elif w == 'global':
                k += 1
                break
            k += 1
        p = P(tokenize(' '.join(toks[k:])), self)
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        self.globals[name] = (t, init, const, static, external)

    def _define(self, ln, body):
        m = re.search(r'@([-\w.$]+)\(', ln)
        name = m.group(1)
        static = bool(re.match(r'define (dso_local )?(internal|private)', ln))
        dbg = re.search(r'!dbg (!\d+)', ln)
        pre = ln[len('define'):m.start()]
        pre = re.sub(r'\b(dso_local|internal|private|hidden|noundef|zeroext|signext|noalias|nonnull)\b', '', pre)
        ret = P(tokenize(pre), self).type()
        # parameter list
        d = 0
        j = m.end() - 1
        while True:
            if ln[j] == '(':
                d += 1
            elif ln[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        ps = P(tokenize(ln[m.end():j]), self)
        params = []
        var = False
        while ps.i < len(ps.t):
            if ps.accept('...'):
                var = True
                break
            t = ps.type()
            ps.skip_attrs()
            params.append((t, ps.next()))
            ps.accept(',')
        self.funcs[name] = Func(self, name, params, ret, static, body, dbg.group(1) if dbg else None, var)

    # -- debug info ----------------------------------------------------------------------------
    def loc(self, ref):
        """(file, line) for a !dbg reference"""
        if ref is None:
            return (self.path, 0)
        r = self._loc.get(ref)
        if r is None:
            m = re.search(r'line: (\d+)', self.meta.get(ref, ''))
            r = (self.path, int(m.group(1)) if m else 0)
            self._loc[ref] = r
        return r

    def enums(self):
        if self._enums is None:
            self._enums = {}
            for v in self.meta.values():
                if v.startswith('!DIEnumerator('):
                    m = re.search(r'name: "(\w+)", value: (-?\d+)', v)
                    self._enums[m.group(1)] = int(m.group(2))
        return self._enums

    def enum_types(self):
        """{first enumerator name: {name: value}} for each enumeration type"""
        out = []
        for v in self.meta.values():
            if v.startswith('distinct !DICompositeType(tag: DW_TAG_enumeration_type') or \
                    v.startswith('!DICompositeType(tag: DW_TAG_enumeration_type'):
                m = re.search(r'elements: (!\d+)', v)
                if m:
                    e = {}
                    for r in re.findall(r'!\d+', self.meta[m.group(1)]):
                        mm = re.search(r'name: "(\w+)", value: (-?\d+)', self.meta[r])
                        e[mm.group(1)] = int(mm.group(2))
                    out.append(e)
        return out

    def di_strip(self, ref):
        while ref and ref in self.meta:
            v = self.meta[ref]
            if 'DIDerivedType' in v and re.search(r'tag: DW_TAG_(typedef|const_type|volatile_type)', v):
                m = re.search(r'baseType: (!\d+)', v)
                ref = m.group(1) if m else None
            else:
                return ref
        return ref

    def di_signed(self, ref):
        """True/False/None: signedness of the DI type"""
        ref = self.di_strip(ref)
        v = self.meta.get(ref, '')
        if 'DIBasicType' in v:
            if 'DW_ATE_signed' in v:
                return True
            if 'DW_ATE_unsigned' in v or 'DW_ATE_boolean' in v:
                return False
        if 'DW_TAG_enumeration_type' in v:
            return False
        return None

    def struct_meta(self, name):
        """DI composite of struct tag or typedef `name`"""
        for r, v in self.meta.items():
            if 'DICompositeType' in v and 'DW_TAG_structure_type' in v and ('name: "%s"' % name) in v and 'elements:' in v:
                return r
        for r, v in self.meta.items():
            if 'DW_TAG_typedef' in v and ('name: "%s"' % name) in v:
                m = re.search(r'baseType: (!\d+)', v)
                if m:
                    b = self.di_strip(m.group(1))
                    if 'DICompositeType' in self.meta.get(b, '') and 'elements:' in self.meta[b]:
                        return b
        return None

    def fields(self, ref, base=0, prefix='', depth=0):
        """[(path, byte offset, byte size, di type ref, array count or None)] flattened members"""
        v = self.meta[ref]
        m = re.search(r'elements: (!\d+)', v)
        out = []
        if not m:
            return out
        for r in re.findall(r'!\d+', self.meta[m.group(1)]):
            mv = self.meta[r]
            if 'DW_TAG_member' not in mv:
                continue
            nm = re.search(r'name: "([^"]*)"', mv)
            nm = nm.group(1) if nm else ''
            off = re.search(r'offset: (\d+)', mv)
            off = base + (int(off.group(1)) // 8 if off else 0)
            sz = re.search(r'size: (\d+)', mv)
            sz = int(sz.group(1)) // 8 if sz else 0
            bt = re.search(r'baseType: (!\d+)', mv).group(1)
            path = prefix + ('.' if prefix and nm else '') + nm
            out.append((path, off, sz, bt, None))
            st = self.di_strip(bt)
            sv = self.meta.get(st, '')
            if 'DICompositeType' in sv and ('structure_type' in sv or 'union_type' in sv) and depth < 6:
                out += self.fields(st, off, path, depth + 1)
            elif 'DW_TAG_array_type' in sv:
                eb = self.di_strip(re.search(r'baseType: (!\d+)', sv).group(1))
                cnt = 1
                m2 = re.search(r'elements: (!\d+)', sv)
                for q in re.findall(r'!\d+', self.meta[m2.group(1)]):
                    mm = re.search(r'count: (\d+)', self.meta[q])
                    if mm:
                        cnt *= int(mm.group(1))
                out[-1] = (path, off, sz, bt, cnt)
                ev = self.meta.get(eb, '')
                if 'DICompositeType' in ev and ('structure_type' in ev or 'union_type' in ev) and depth < 6:
                    out += self.fields(eb, off, path + '[]', depth + 1)
        return out


class Field:
    __slots__ = ('path', 'off', 'size', 'di', 'count', 'mod', 'stride')

    def __init__(self, path, off, size, di, count, mod):
        self.path, self.off, self.size, self.di, self.count, self.mod = path, off, size, di, count, mod
        self.stride = size // count if count else None

    @property
    def signed(self):
        return self.mod.di_signed(self.di)

    @property
    def is_ptr(self):
        r = self.mod.di_strip(self.di)
        return 'DW_TAG_pointer_type' in self.mod.meta.get(r, '')

    @property
    def is_bool(self):
        r = self.mod.di_strip(self.di)
        return 'DW_ATE_boolean' in self.mod.meta.get(r, '')

    @property
    def pointee(self):
        r = self.mod.di_strip(self.di)
        v = self.mod.meta.get(r, '')
        m = re.search(r'baseType: (!\d+)', v)
        return self.mod.di_strip(m.group(1)) if m and 'pointer_type' in v else None


class Program:
    def __init__(self, repo=REPO, defines=(), texts=None):
        if texts is None:
            texts, self.notes = build_ir(repo, defines=defines)
        self.mods = {f: Module(f, t) for f, t in sorted(texts.items())}
        self.funcs = {}         # global name -> Func
        self.all = []
        self.by_q = {}
        for m in self.mods.values():
            for f in m.funcs.values():
                if f.static:
                    f.qname = os.path.basename(m.path) + ':' + f.name
                else:
                    self.funcs[f.name] = f
                self.all.append(f)
                self.by_q[f.qname] = f
        self.gdef = {}
        for m in self.mods.values():
            for n, g in m.globals.items():
                if not g[3] and not g[4]:
                    self.gdef[n] = m
        self._layouts = {}

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.funcs.get(name)

    def find(self, name, file=None):
        """functions called `name` (static or not)"""
        return [f for f in self.all if f.name == name and (file is None or os.path.basename(f.mod.path) == file)]

    def func(self, name, file=None):
        fs = self.find(name, file)
        if not fs:
            raise Anchor('function %s not found' % name)
        return fs[0]

    def enum(self, name):
        for m in self.mods.values():
            v = m.enums().get(name)
            if v is not None:
                return v
        raise Anchor('enumerator %s not found' % name)

    def layout(self, struct):
        """{member path: Field} of a struct (by tag or typedef name)"""
        r = self._layouts.get(struct)
        if r is None:
            for m in self.mods.values():
                ref = m.struct_meta(struct)
                if ref:
                    r = {p: Field(p, o, s, d, c, m) for p, o, s, d, c in m.fields(ref)}
                    break
            if r is None:
                raise Anchor('struct %s not found' % struct)
            self._layouts[struct] = r
        return r

    def off(self, struct, path):
        l = self.layout(struct)
        if path not in l:
            raise Anchor('member %s.%s not found' % (struct, path))
        return l[path].off

    # -- call graph --------------------------------------------------------------------------
    def callees(self, f):
        r = getattr(f, '_callees', None)
        if r is None:
            r = []
            for i in f.instrs():
                if i.op == 'call':
                    c = i.a[0]
                    if c[0] == 'global':
                        r.append((i, c[1], self.resolve(f.mod, c[1])))
                    else:
                        r.append((i, None, None))
            f._callees = r
        return r

    def address_taken(self):
        """functions whose address is used other than as a callee"""
        if hasattr(self, '_addr'):
            return self._addr
        out = set()

        def walk(mod, o):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == 'global' and isinstance(o[1], str):
                    f = self.resolve(mod, o[1])
                    if f:
                        out.add(f)
                else:
                    for x in o:
                        walk(mod, x)
            elif isinstance(o, list):
                for x in o:
                    walk(mod, x)
        for f in self.all:
            for i in f.instrs():
                if i.op == 'call':
                    walk(f.mod, i.a[1])
                    if i.a[0][0] != 'global':
                        walk(f.mod, i.a[0])
                else:
                    walk(f.mod, i.a)
        for m in self.mods.values():
            for g in m.globals.values():
                if g[1]:
                    walk(m, g[1])
        self._addr = out
        return out

    def written_types(self):
        """struct types some field or object of which is written through, anywhere in the program"""
        if getattr(self, '_wt', None) is None:
            wt = set()
            cache = {}

            def defs(f):
                if f not in cache:
                    cache[f] = {i.res: i for i in f.instrs() if i.res}
                return cache[f]

            def mark(f, o, depth=0):
                if not isinstance(o, tuple) or depth > 6:
                    return
                if o[0] == 'reg':
                    d = defs(f).get(o[1])
                    if d is None:
                        return
                    if d.op == 'getelementptr':
                        note(d.a[0])
                        mark(f, d.a[1], depth + 1)
                    elif d.op in ('phi', 'select', 'bitcast'):
                        for x in (d.a[0] if d.op == 'phi' else [(y, 0) for y in d.a]):
                            mark(f, x[0], depth + 1)
                    elif d.op == 'alloca':
                        pass
                elif o[0] == 'gep':
                    note(o[1])
                    mark(f, o[2], depth + 1)
                elif o[0] == 'global':
                    wt.add('@' + o[1])

            def note(t):
                while t.k == 'arr':
                    t = t.b
                if t.k in ('struct', 'named'):
                    wt.add(repr(t))
            for f in self.all:
                for i in f.instrs():
                    if i.op == 'store':
                        mark(f, i.a[1])
                    elif i.op == 'call' and i.a[0][0] == 'global' and i.a[0][1].startswith(('llvm.mem', 'mem', 'str', 'qsort', 'fread')):
                        for t, x in i.a[1][:1]:
                            mark(f, x)
            self._wt = wt
        return self._wt

    def table(self, g, name):
        """an initialised array of structures that nothing in the program writes to"""
        t = g[0]
        if g[1] is None or g[1][0] != 'agg' or t.k != 'arr':
            return False
        while t.k == 'arr':
            t = t.b
        if t.k not in ('struct', 'named'):
            return False
        return repr(t) not in self.written_types() and '@' + name not in self.written_types()

    def reach(self, roots, stop=()):
        """functions reachable through the call graph: {func: (caller, ins)}; externals as names"""
        seen = {}
        ext = {}
        work = []
        for r in roots:
            seen[r] = None
            work.append(r)
        while work:
            f = work.pop()
            for ins, name, g in self.callees(f):
                if g is not None:
                    if g not in seen and g not in stop:
                        seen[g] = (f, ins)
                        work.append(g)
                elif name is None:
                    for g in self.address_taken():
                        if len(g.params) == len(ins.a[1]) and g not in seen and g not in stop:
                            seen[g] = (f, ins)
                            work.append(g)
                    ext.setdefault('<indirect>', []).append((f, ins))
                else:
                    ext.setdefault(name, []).append((f, ins))
        return seen, ext

    def path_to(self, seen, f):
        out = []
        while f is not None:
            p = seen[f]
            out.append(f.name)
            f = p[0] if p else None
        return ' <- '.join(out)


class Anchor(Exception):
    """something the checker needs in order to find its subject is missing: no verdict"""


_cache = {}


def program(defines=()):
    k = tuple(defines)
    if k not in _cache:
        _cache[k] = Program(defines=defines)
    return _cache[k]


def at(ins):
    f, l = ins.fn.mod.loc(ins.loc)
    return '%s:%d (%s)' % (f, l, ins.fn.name)
