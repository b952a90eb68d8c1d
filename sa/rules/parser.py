"""What the compiler emits for every form of statement and expression of the language."""
from ..parsex import *
from ..parsex import ParseCase
from ..units import Unit

L0 = ('SOURCE_LINE', 0)


def bench(title):
    def deco(fn):
        TABLE.append((title, fn))
        return fn
    return deco


TABLE = []


def accept(b, name, props, build):
    """build(c) -> (tokens or list of token lines, expected code without the leading SOURCE_LINE)"""
    c = b.case(name, props, cls=ParseCase)
    toks, want = build(c)
    if toks and isinstance(toks[0], list):
        for l in toks:
            c.line(*l)
    else:
        c.line(*toks)
        want = [L0] + want
    c.code(want)
    b.go(c)
    return c


def reject(b, name, props, build):
    c = b.case(name, props, cls=ParseCase)
    toks = build(c)
    c.line(*toks)
    c.props |= {'C27'}
    c.rejected(sorted(set(props) | {'C27'}))
    b.go(c)


# ---- expressions -------------------------------------------------------------------------------
def N(c, k):
    """a numeric constant: token, code"""
    x = c.num(k)
    return ('num', x), ('PUSH_NUM', x)


def S(c, k):
    x = c.string(k)
    return ('str', x), ('PUSH_STR', x)


BIN = {'OR': (1, 'OR'), 'AND': (2, 'AND'), '=': (4, 'EQ'), '<': (4, 'LT'), '>': (4, 'GT'), '<>': (4, 'NE'), '<=': (4, 'LE'), '>=': (4, 'GE'),
       '+': (5, 'ADD'), '-': (5, 'SUB'), '*': (6, 'MUL'), '/': (6, 'DIV'), '^': (8, 'POW')}
UN = {'NOT': (3, 'NOT'), '-': (7, 'NEG')}
REL = ('=', '<', '>', '<>', '<=', '>=')


def ref_expr(toks):
    """reference compiler for numeric expressions over atoms (code lists), operators and parentheses: the manual's table.
    relational operators do not chain"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def level(p):
        if p > 8:
            return prim()
        t = peek()
        if p in (3, 7):
            u = 'NOT' if p == 3 else '-'
            n = 0
            while peek() == u:
                pos[0] += 1
                n += 1
            code = level(p + 1)
            # NOT NOT, one after the other, leaves its operand as it is
            return code + [(UN[u][1],)] * (n % 2)
        code = level(p + 1)
        if p == 8:
            if peek() == '^':
                pos[0] += 1
                code = code + level(8) + [('POW',)]
            return code
        while isinstance(peek(), str) and peek() in BIN and BIN[peek()][0] == p:
            o = peek()
            pos[0] += 1
            nm = BIN[o][1] + ('_NUM' if o in REL else '')
            code = code + level(p + 1) + [(nm,)]
            if p == 4:
                break
        return code

    def prim():
        t = peek()
        if t is None:
            raise SyntaxError
        pos[0] += 1
        if t == '(':
            code = level(1)
            if peek() != ')':
                raise SyntaxError
            pos[0] += 1
            return code
        if isinstance(t, list):
            return t
        raise SyntaxError
    code = level(1)
    if pos[0] != len(toks):
        raise SyntaxError
    return code


def expr_case(b, props, pattern):
    """pattern: list of operator strings and operand letters; the statement is X = <expression>"""
    name = ' '.join(pattern)
    c = b.case(name, props, cls=ParseCase)
    v = c.ident('x', plain=True)
    toks, ref = [v, '='], []
    for t in pattern:
        if len(t) == 1 and t.islower():
            tk, cd = N(c, t)
            toks.append(tk)
            ref.append([cd])
        else:
            toks.append(t)
            ref.append(t)
    c.line(*toks)
    try:
        code = ref_expr(ref)
    except SyntaxError:
        c.rejected(props)
    else:
        c.code([L0] + code + [('SET_SIMPLE_NUM', v)])
    b.go(c)


OPS = list(BIN)


@bench('binary operators')
def binary(b):
    for o in OPS:
        expr_case(b, ['C07'], ['a', o, 'b'])
    for o in UN:
        expr_case(b, ['C07'], [o, 'a'])
        expr_case(b, ['C07'], [o, o, 'a'])
        expr_case(b, ['C07'], [o, o, o, 'a'])
        # any number of them
        for n in range(4, 18):
            expr_case(b, ['C07', 'C08'], [o] * n + ['a'])
    for o in REL + ('+',):
        def build(c, o=o):
            v = c.ident('x', plain=True, string=o == '+')
            (t1, c1), (t2, c2) = S(c, 'a'), S(c, 'b')
            op = {'=': 'EQ_STR', '<': 'LT_STR', '>': 'GT_STR', '<>': 'NE_STR', '<=': 'LE_STR', '>=': 'GE_STR', '+': 'CONCAT'}[o]
            return [v, '=', t1, o, t2], [c1, c2, (op,), ('SET_SIMPLE_STR' if o == '+' else 'SET_SIMPLE_NUM', v)]
        accept(b, 'strings: a %s b' % o, ['C07'], build)

    def cat3(c):
        v = c.ident('x', plain=True, string=True)
        (t1, c1), (t2, c2), (t3, c3) = S(c, 'a'), S(c, 'b'), S(c, 'c')
        return [v, '=', t1, '+', t2, '+', t3], [c1, c2, ('CONCAT',), c3, ('CONCAT',), ('SET_SIMPLE_STR', v)]
    accept(b, 'strings: a + b + c', ['C07', 'C08'], cat3)

    def catrel(c):
        v = c.ident('x', plain=True)
        (t1, c1), (t2, c2), (t3, c3) = S(c, 'a'), S(c, 'b'), S(c, 'c')
        return [v, '=', t1, '+', t2, '=', t3], [c1, c2, ('CONCAT',), c3, ('EQ_STR',), ('SET_SIMPLE_NUM', v)]
    accept(b, 'strings: a + b = c', ['C07', 'C08'], catrel)

    def parens(c):
        v = c.ident('x', plain=True, string=True)
        (t1, c1), (t2, c2), (t3, c3) = S(c, 'a'), S(c, 'b'), S(c, 'c')
        return [v, '=', t1, '+', '(', t2, '+', t3, ')'], [c1, c2, c3, ('CONCAT',), ('CONCAT',), ('SET_SIMPLE_STR', v)]
    accept(b, 'strings: a + ( b + c )', ['C07', 'C08'], parens)

    def paren1(c):
        v = c.ident('x', plain=True, string=True)
        t1, c1 = S(c, 'a')
        return [v, '=', '(', t1, ')'], [c1, ('SET_SIMPLE_STR', v)]
    accept(b, 'strings: ( a )', ['C08'], paren1)

    def relval(c):
        v = c.ident('x', plain=True)
        (t1, c1), (t2, c2), (t3, c3) = S(c, 'a'), S(c, 'b'), N(c, 'c')
        return [v, '=', '(', t1, '<', t2, ')', '+', t3], [c1, c2, ('LT_STR',), c3, ('ADD',), ('SET_SIMPLE_NUM', v)]
    accept(b, 'strings: ( a < b ) + number', ['C07', 'C08', 'C32'], relval)
    reject(b, 'missing right parenthesis of a string', ['C08'],
           lambda c: [c.ident('x', string=True), '=', '(', S(c, 'a')[0], ('any', ['+', ')'] + list(REL))])


def pairs(o1):
    def run(b):
        for o2 in OPS:
            expr_case(b, ['C08'], ['a', o1, 'b', o2, 'c'])
            expr_case(b, ['C08'], ['(', 'a', o1, 'b', ')', o2, 'c'])
            expr_case(b, ['C08'], ['a', o1, '(', 'b', o2, 'c', ')'])
        for u in UN:
            expr_case(b, ['C08'], [u, 'a', o1, 'b'])
            expr_case(b, ['C08'], ['a', o1, u, 'b'])
            expr_case(b, ['C08'], [u, '(', 'a', o1, 'b', ')'])
            for u2 in UN:
                expr_case(b, ['C08'], [u, u2, 'a', o1, 'b'])
                expr_case(b, ['C08'], [u, 'a', o1, u2, 'b'])
    return run


def triples(o1):
    def run(b):
        for o2 in OPS:
            for o3 in OPS:
                expr_case(b, ['C08'], ['a', o1, 'b', o2, 'c', o3, 'd'])
    return run


@bench('long expressions')
def chains(b):
    letters = 'abcdefghijklmnopqrst'
    for o in OPS:
        for n in (4, 5, 8, 12, 16):
            if o in REL or o == '^':
                if n > 8:
                    continue
                # does not chain; parenthesised to the left it does
                pat = ['('] * (n - 2) + ['a', o, 'b']
                for ch in letters[2:n]:
                    pat += [')', o, ch]
                expr_case(b, ['C08'], pat)
                continue
            pat = ['a']
            for ch in letters[1:n]:
                pat += [o, ch]
            expr_case(b, ['C08'], pat)
            # parenthesised to the right
            if n > 5:
                continue
            pat = ['a']
            for ch in letters[1:n]:
                pat += [o, '(', ch]
            expr_case(b, ['C08'], pat + [')'] * (n - 1))
            for u in UN:
                if u == 'NOT' and o not in ('OR', 'AND'):
                    continue
                pat = [u, 'a']
                for ch in letters[1:n]:
                    pat += [o, u, ch]
                expr_case(b, ['C08'], pat)
    for n in (2, 4, 8):
        expr_case(b, ['C08'], ['('] * n + ['a'] + [')'] * n)
        if n > 5:
            continue
        expr_case(b, ['C08'], ['-', '('] * n + ['a'] + [')'] * n)
        expr_case(b, ['C08'], ['NOT', '('] * n + ['a'] + [')'] * n)
        expr_case(b, ['C08'], ['NOT', '-'] + ['(', 'NOT', '-'] * n + ['a'] + [')'] * n)
        for k in (1, 2, 3, 4):
            expr_case(b, ['C08'], ['NOT'] * n + ['-'] * k + ['a', '^', 'b'])
            expr_case(b, ['C08'], ['a', 'AND'] + ['NOT'] * n + ['b', '='] + ['-'] * k + ['c'])
            expr_case(b, ['C08'], ['a', '*'] + ['-'] * n + ['b', '^'] + ['c', '-'] + ['-'] * k + ['d'])
    # every level of the table in one expression, rising and falling
    up = ['a', 'OR', 'b', 'AND', 'c', '=', 'd', '+', 'e', '*', 'f', '^', 'g']
    down = ['a', '^', 'b', '*', 'c', '+', 'd', '=', 'e', 'AND', 'f', 'OR', 'g']
    expr_case(b, ['C08'], up)
    expr_case(b, ['C08'], down)
    expr_case(b, ['C08'], ['a', 'OR', 'NOT', 'b', '<', '-', 'c', '/', '-', 'd', '^', 'e', 'AND', 'f', '>=', 'g', '-', 'h'])
    expr_case(b, ['C08'], down + up[1:])


@bench('operand types')
def optypes(b):
    """every operator with an operand of a type it does not take is rejected"""
    for o in OPS:
        for ta, tb in (('n', 's'), ('s', 'n'), ('s', 's')):
            if (o in REL or o == '+') and ta == tb:
                continue

            def build(c, o=o, ta=ta, tb=tb):
                v = c.ident('x', plain=True)
                A = N(c, 'a') if ta == 'n' else S(c, 'a')
                B = N(c, 'b') if tb == 'n' else S(c, 'b')
                return [v, '=', A[0], o, B[0]]
            reject(b, '%s %s %s' % (ta, o, tb), ['C06', 'C32'], build)
    for u in UN:
        for k in (1, 2):
            reject(b, ' '.join([u] * k + ['s']), ['C06', 'C32'], lambda c, u=u, k=k: [c.ident('x', plain=True), '='] + [u] * k + [S(c, 'a')[0]])


@bench('operands')
def operands(b):
    P = ['C32', 'C06', 'C05']
    for st in (False, True):
        T = 'STR' if st else 'NUM'
        for known in (False, True):
            accept(b, '%s variable, %s' % (T, 'known' if known else 'new'), P,
                   lambda c: (lambda v, w: ([v, '=', w], [('GET_SIMPLE_' + T, w, 'var'), ('SET_SIMPLE_' + T, v, 'var')]))(
                       c.ident('x', st, plain=known), c.ident('y', st, plain=known)))
        for kind in (None, 'unknown', 'array', 'def'):
            for nd in (1, 2):
                def build(c, kind=kind, nd=nd):
                    v, w = c.ident('x', st), c.ident('y', st, paren=kind)
                    subs = [N(c, 's%d' % i) for i in range(nd)]
                    tk = [v, '=', w, '(']
                    for i, s in enumerate(subs):
                        tk += ([','] if i else []) + [s[0]]
                    return tk + [')'], [s[1] for s in subs] + [('GET_PAREN_' + T, w, nd, kind or 'unknown'), ('SET_SIMPLE_' + T, v)]
                accept(b, '%s name with %d parameters, %s' % (T, nd, kind or 'new'), P, build)
        reject(b, '%s name with 3 parameters' % T, ['C32', 'C03'],
               lambda c: [c.ident('x', st), '=', c.ident('y', st), '(', N(c, 'a')[0], ',', N(c, 'b')[0], ',', N(c, 'd')[0], ')'])
        reject(b, '%s name with a string parameter' % T, P,
               lambda c: [c.ident('x', st), '=', c.ident('y', st), '(', S(c, 'a')[0], ')'])
        reject(b, 'assigning the other type to a %s variable' % T, P,
               lambda c: [c.ident('x', st), '=', (N if st else S)(c, 'a')[0]])
        reject(b, 'assigning the other type to a %s element' % T, P,
               lambda c: [c.ident('x', st), '(', N(c, 'i')[0], ')', '=', (N if st else S)(c, 'a')[0]])
        for known in (False, True):
            accept(b, 'variable and array of one name, %s %s' % (T, 'known' if known else 'new'), P,
                   lambda c: (lambda v, n: ([v, '=', v, '(', n[0], ')'],
                                            [n[1], ('GET_PAREN_' + T, v, 1), ('SET_SIMPLE_' + T, v)]))(
                       c.ident('x', st, plain=known, paren='array' if known else None), N(c, 'a')))
    reject(b, 'missing operand', ['C27', 'C06'], lambda c: [c.ident('x'), '=', ('any', ['ID', 'NUM', 'STR', '(', '-', 'NOT'])])
    reject(b, 'missing right parenthesis', ['C08', 'C27'], lambda c: [c.ident('x'), '=', '(', N(c, 'a')[0], ('any', OPS + [')'])])
    reject(b, 'missing right parenthesis of subscripts', ['C32', 'C27'],
           lambda c: [c.ident('x'), '=', c.ident('y'), '(', N(c, 'a')[0], ('any', OPS + [')', ','])])


@bench('built-in functions')
def builtins(b):
    for nm, d in BUILTINS.items():
        if d is None:
            reject(b, nm + ' is not implemented', ['C09', 'C32'], lambda c: [c.ident('x', nm.endswith('$')), '=', ('fn', nm), '(', N(c, 'a')[0], ')'])
            continue
        args, res, op = d
        T = 'STR' if res == 's' else 'NUM'
        P = ['C09', 'C06', 'C32']
        if args == 'd':
            for form in ('', '()', '(n)', '(s)'):
                def build(c, form=form):
                    v = c.ident('x', res == 's')
                    tk, cd = [v, '=', ('fn', nm)], []
                    if form:
                        tk.append('(')
                        if 'n' in form:
                            t, k = N(c, 'a')
                            tk.append(t)
                            cd += [k, ('POP_NUM',)]
                        if 's' in form:
                            t, k = S(c, 'a')
                            tk.append(t)
                            cd += [k, ('POP_STR',)]
                        tk.append(')')
                    return tk, cd + [(op,), ('SET_SIMPLE_' + T, v)]
                accept(b, nm + form, P, build)
            continue
        for low in (False, True):
            def build(c, low=low):
                v = c.ident('x', res == 's')
                tk, cd = [v, '=', ('fn', nm.lower() if low else nm), '('], []
                for i, a in enumerate(args):
                    t, k = (N if a == 'n' else S)(c, 'a%d' % i)
                    tk += ([','] if i else []) + [t]
                    cd.append(k)
                return tk + [')'], cd + [(op,), ('SET_SIMPLE_' + T, v)]
            accept(b, nm + (' in lower case' if low else ''), P + (['C21'] if low else []), build)
        for i in range(len(args)):
            def wrong(c, i=i):
                tk = [c.ident('x', res == 's'), '=', ('fn', nm), '(']
                for j, a in enumerate(args):
                    tk += ([','] if j else []) + [(N if (a == 'n') != (i == j) else S)(c, 'a%d' % j)[0]]
                return tk + [')']
            reject(b, '%s with a wrong type of argument %d' % (nm, i + 1), P, wrong)

        def few(c):
            tk = [c.ident('x', res == 's'), '=', ('fn', nm), '(']
            for j, a in enumerate(args[:-1]):
                tk += ([','] if j else []) + [(N if a == 'n' else S)(c, 'a%d' % j)[0]]
            return tk + [')']
        reject(b, nm + ' with too few arguments', P, few)

        def many(c):
            tk = [c.ident('x', res == 's'), '=', ('fn', nm), '(']
            for j, a in enumerate(args + 'n'):
                tk += ([','] if j else []) + [(N if a == 'n' else S)(c, 'a%d' % j)[0]]
            return tk + [')']
        reject(b, nm + ' with too many arguments', P, many)
        reject(b, nm + ' without arguments', P, lambda c: [c.ident('x', res == 's'), '=', ('fn', nm)])
        reject(b, 'assignment to ' + nm, ['C32'], lambda c: [('fn', nm), '=', (S if nm.endswith('$') else N)(c, 'a')[0]])
        reject(b, 'assignment to element of ' + nm, ['C32'],
               lambda c: [('fn', nm), '(', N(c, 'i')[0], ')', '=', (S if nm.endswith('$') else N)(c, 'a')[0]])
        reject(b, 'DIM ' + nm, ['C32'], lambda c: ['DIM', ('fn', nm), '(', N(c, 'i')[0], ')'])
        reject(b, 'DEF ' + nm, ['C32'], lambda c: ['DEF', ('fn', nm), '(', c.ident('p'), ')', '=', (S if nm.endswith('$') else N)(c, 'a')[0]])


# ---- statements --------------------------------------------------------------------------------
@bench('assignment')
def assignment(b):
    for let in (False, True):
        for st in (False, True):
            T = 'STR' if st else 'NUM'
            V = S if st else N
            P = ['C31', 'C06', 'C32', 'C05']

            def simple(c):
                v, e = c.ident('x', st), V(c, 'a')
                return (['LET'] if let else []) + [v, '=', e[0]], [e[1], ('SET_SIMPLE_' + T, v, 'var')]
            accept(b, '%s%s variable' % ('LET ' if let else '', T), P, simple)
            for nd in (1, 2):
                for kind in (None, 'unknown', 'array'):
                    def elem(c):
                        v, e = c.ident('x', st, paren=kind), V(c, 'a')
                        subs = [N(c, 's%d' % i) for i in range(nd)]
                        tk = (['LET'] if let else []) + [v, '(']
                        for i, s in enumerate(subs):
                            tk += ([','] if i else []) + [s[0]]
                        return tk + [')', '=', e[0]], [s[1] for s in subs] + [e[1], ('SET_ARRAY_' + T, v, nd, 'array')]
                    accept(b, '%s%s element, %d subscripts, %s' % ('LET ' if let else '', T, nd, kind or 'new'), P, elem)
            reject(b, 'assigning to a function, %s' % T, ['C32'],
                   lambda c: [c.ident('x', st, paren='def'), '(', N(c, 'i')[0], ')', '=', V(c, 'a')[0]])
    reject(b, 'no equals sign', ['C27'], lambda c: [c.ident('x'), ('any', ['=', '('])])
    reject(b, 'no statement', ['C27'], lambda c: [('any', ['CLEAR', 'CLS', 'DATA', 'DEF', 'DIM', 'END', 'FOR', 'GOSUB', 'GOTO', 'IF', 'INPUT', 'LET',
           'LINE', 'NEXT', 'ON', 'PRINT', '?', 'RANDOMIZE', 'READ', 'REM', 'RESTORE', 'RETURN', 'STOP', 'ID', '\n', ':', 'ELSE'])])
    reject(b, 'trailing text', ['C27'], lambda c: [c.ident('x'), '=', N(c, 'a')[0], ('any', OPS + [':', '\n', 'ELSE'])])
    reject(b, 'trailing token after CLEAR', ['C27'], lambda c: ['CLEAR', ('any', [':', '\n', 'ELSE'])])


@bench('simple statements')
def simple(b):
    for kw, op, props in (('CLEAR', 'CLEAR', ['C31']), ('CLS', 'CLS', ['C20']), ('END', 'END', ['C15']), ('STOP', 'STOP', ['C15']),
                          ('RETURN', 'RETURN', ['C15']), ('RESTORE', 'RESTORE', ['C25']), ('RANDOMIZE', 'RAND', ['C33']),
                          ('NEXT', 'NEXT_IMP', ['C29'])):
        accept(b, kw, props + ['C05', 'C06'], lambda c: ([kw], [(op,)]))
        accept(b, kw + ' : ' + kw, props + ['C05', 'C06'], lambda c: ([kw, ':', kw], [(op,), (op,)]))
    accept(b, 'RANDOMIZE n', ['C33', 'C06'], lambda c: (lambda n: (['RANDOMIZE', n[0]], [n[1], ('SEED',)]))(N(c, 'a')))
    reject(b, 'RANDOMIZE with a string', ['C33', 'C06'], lambda c: ['RANDOMIZE', S(c, 'a')[0]])
    accept(b, 'REM', ['C05', 'C27'], lambda c: (['REM', ('any', [])], []))
    accept(b, 'an empty line', ['C05'], lambda c: (['\n'], []))
    accept(b, 'empty statements', ['C05'], lambda c: ([':', ':', 'CLS', ':'], [('CLS',)]))

    def two(c):
        n = N(c, 'a')
        v = c.ident('x')
        return [['CLS', ':', v, '=', n[0]], ['REM', ('any', [])], ['END']], [
            ('SOURCE_LINE', 0), ('CLS',), n[1], ('SET_SIMPLE_NUM', v), ('SOURCE_LINE', 1), ('SOURCE_LINE', 2), ('END',)]
    accept(b, 'three lines', ['C05', 'C15', 'C27'], two)
    accept(b, 'the same new name twice', ['C21', 'C31'], lambda c: (lambda v, n, m: (
        [v, '=', n[0], ':', v, '=', m[0]], [n[1], ('SET_SIMPLE_NUM', v), m[1], ('SET_SIMPLE_NUM', v)]))(c.ident('x'), N(c, 'a'), N(c, 'b')))


@bench('jumps')
def jumps(b):
    for kw, op in (('GOTO', 'GOTO'), ('GOSUB', 'GOSUB'), ('RESTORE', 'RESTORE_LINE')):
        P = ['C25'] if kw == 'RESTORE' else ['C15']
        accept(b, kw + ' line', P + ['C05', 'C23'], lambda c: (lambda n: ([kw, ('lineno', n)], [(op, n)]))(c.lineno('a')))
        if kw != 'RESTORE':
            reject(b, kw + ' without a number', P, lambda c: [kw, ('any', ['NUM'])])
        for bad, mk in (('0', lambda c: fc(0.0)), ('above 65535', lambda c: c.big()), ('with a fraction', lambda c: c.frac())):
            reject(b, '%s line number %s' % (kw, bad), P + ['C28'], lambda c: [kw, ('num', mk(c))])
    for kw, op in (('GOTO', 'ON_GOTO'), ('GOSUB', 'ON_GOSUB')):
        for k in (1, 2, 3, 5):
            def build(c, k=k):
                n = N(c, 'a')
                ls = [c.lineno('l%d' % i) for i in range(k)]
                tk = ['ON', n[0], kw]
                for i, l in enumerate(ls):
                    tk += ([','] if i else []) + [('lineno', l)]
                return tk, [n[1], (op, k)] + [('ON_LINE', l) for l in ls]
            accept(b, 'ON .. %s with %d lines' % (kw, k), ['C15', 'C05', 'C06', 'C23'], build)
        reject(b, 'ON .. %s without a line' % kw, ['C15'], lambda c: ['ON', N(c, 'a')[0], kw, ('any', ['NUM'])])
        reject(b, 'ON .. %s, a line missing' % kw, ['C15'], lambda c: ['ON', N(c, 'a')[0], kw, ('lineno', c.lineno('a')), ',', ('any', ['NUM'])])
        reject(b, 'ON string %s' % kw, ['C15', 'C06'], lambda c: ['ON', S(c, 'a')[0], kw, ('lineno', c.lineno('a'))])
    reject(b, 'ON without GOTO or GOSUB', ['C15'], lambda c: ['ON', N(c, 'a')[0], ('any', OPS + ['GOTO', 'GOSUB'])])


@bench('IF')
def ifs(b):
    P = ['C15', 'C05', 'C06']
    accept(b, 'IF THEN line', P + ['C23'], lambda c: (lambda n, l: (['IF', n[0], 'THEN', ('lineno', l)], [n[1], ('GOTRUE', l)]))(N(c, 'a'), c.lineno('a')))
    accept(b, 'IF THEN line ELSE line', P + ['C23'], lambda c: (lambda n, l, m: (
        ['IF', n[0], 'THEN', ('lineno', l), 'ELSE', ('lineno', m)], [n[1], ('GOTRUE', l), ('GOTO', m)]))(N(c, 'a'), c.lineno('a'), c.lineno('b')))
    accept(b, 'IF THEN line : statement', P, lambda c: (lambda n, l: (
        ['IF', n[0], 'THEN', ('lineno', l), ':', 'CLS'], [n[1], ('GOTRUE', l), ('CLS',)]))(N(c, 'a'), c.lineno('a')))
    accept(b, 'IF THEN statement', P, lambda c: (lambda n: (['IF', n[0], 'THEN', 'CLS'], [n[1], ('IF_THEN',), ('CLS',)]))(N(c, 'a')))
    accept(b, 'IF THEN statements', P, lambda c: (lambda n: (
        ['IF', n[0], 'THEN', 'CLS', ':', 'STOP'], [n[1], ('IF_THEN',), ('CLS',), ('STOP',)]))(N(c, 'a')))
    accept(b, 'IF THEN statement ELSE statement', P, lambda c: (lambda n: (
        ['IF', n[0], 'THEN', 'CLS', 'ELSE', 'STOP'], [n[1], ('IF_ELSE',), ('CLS',), ('ELSE',), ('STOP',)]))(N(c, 'a')))
    accept(b, 'IF THEN statements ELSE statements', P, lambda c: (lambda n: (
        ['IF', n[0], 'THEN', 'CLS', ':', 'CLEAR', 'ELSE', 'STOP', ':', 'END'],
        [n[1], ('IF_ELSE',), ('CLS',), ('CLEAR',), ('ELSE',), ('STOP',), ('END',)]))(N(c, 'a')))
    accept(b, 'IF THEN assignment ELSE PRINT', P + ['C20'], lambda c: (lambda n, v, m, s: (
        ['IF', n[0], 'THEN', v, '=', m[0], 'ELSE', 'PRINT', s[0]],
        [n[1], ('IF_ELSE',), m[1], ('SET_SIMPLE_NUM', v), ('ELSE',), s[1], ('PRINT_STR',), ('PRINT_LN',)]))(
            N(c, 'a'), c.ident('x'), N(c, 'b'), S(c, 's')))
    accept(b, 'IF THEN PRINT ELSE', P + ['C20'], lambda c: (lambda n: (
        ['IF', n[0], 'THEN', 'PRINT', 'ELSE', 'PRINT'], [n[1], ('IF_ELSE',), ('PRINT_LN',), ('ELSE',), ('PRINT_LN',)]))(N(c, 'a')))
    accept(b, 'nested IF', P, lambda c: (lambda n, m: (
        ['IF', n[0], 'THEN', 'IF', m[0], 'THEN', 'CLS'], [n[1], ('IF_THEN',), m[1], ('IF_THEN',), ('CLS',)]))(N(c, 'a'), N(c, 'b')))
    accept(b, 'IF in the ELSE branch', P, lambda c: (lambda n, m: (
        ['IF', n[0], 'THEN', 'CLS', 'ELSE', 'IF', m[0], 'THEN', 'STOP'],
        [n[1], ('IF_ELSE',), ('CLS',), ('ELSE',), m[1], ('IF_THEN',), ('STOP',)]))(N(c, 'a'), N(c, 'b')))
    accept(b, 'IF line, then IF THEN ELSE', P, lambda c: (lambda n, l, m: (
        ['IF', n[0], 'THEN', ('lineno', l), ':', 'IF', m[0], 'THEN', 'CLS', 'ELSE', 'STOP'],
        [n[1], ('GOTRUE', l), m[1], ('IF_ELSE',), ('CLS',), ('ELSE',), ('STOP',)]))(N(c, 'a'), c.lineno('a'), N(c, 'b')))

    accept(b, 'nested IF line ELSE line', P, lambda c: (lambda n, m, l, k: (
        ['IF', n[0], 'THEN', 'IF', m[0], 'THEN', ('lineno', l), 'ELSE', ('lineno', k)],
        [n[1], ('IF_THEN',), m[1], ('GOTRUE', l), ('GOTO', k)]))(N(c, 'a'), N(c, 'b'), c.lineno('a'), c.lineno('b')))
    accept(b, 'nested IF THEN ELSE', P, lambda c: (lambda n, m: (
        ['IF', n[0], 'THEN', 'IF', m[0], 'THEN', 'CLS', 'ELSE', 'STOP'],
        [n[1], ('IF_THEN',), m[1], ('IF_ELSE',), ('CLS',), ('ELSE',), ('STOP',)]))(N(c, 'a'), N(c, 'b')))
    reject(b, 'ELSE after IF line and a statement', P, lambda c: ['IF', N(c, 'a')[0], 'THEN', ('lineno', c.lineno('a')), ':', 'CLS', 'ELSE', 'STOP'])

    def lines(c):
        n = N(c, 'a')
        return [['IF', n[0], 'THEN', 'CLS'], ['STOP']], [('SOURCE_LINE', 0), n[1], ('IF_THEN',), ('CLS',), ('SOURCE_LINE', 1), ('STOP',)]
    accept(b, 'IF on a line of its own', P, lines)
    reject(b, 'IF with a string', P, lambda c: ['IF', S(c, 'a')[0], 'THEN', 'CLS'])
    reject(b, 'IF without THEN', ['C15'], lambda c: ['IF', N(c, 'a')[0], ('any', OPS + ['THEN'])])
    reject(b, 'ELSE without IF', ['C15'], lambda c: ['CLS', 'ELSE', 'STOP'])
    for nm, st in (('GOTO', lambda c: ['GOTO', ('lineno', c.lineno('g'))]), ('GOSUB', lambda c: ['GOSUB', ('lineno', c.lineno('g'))]),
                   ('RETURN', lambda c: ['RETURN']), ('STOP', lambda c: ['STOP']), ('END', lambda c: ['END']), ('PRINT', lambda c: ['PRINT']),
                   ('an assignment', lambda c: [c.ident('x'), '=', N(c, 'a')[0]]), ('RESTORE', lambda c: ['RESTORE']),
                   ('ON GOTO', lambda c: ['ON', N(c, 'a')[0], 'GOTO', ('lineno', c.lineno('g'))]), ('NEXT', lambda c: ['NEXT']),
                   ('IF line ELSE line', lambda c: ['IF', N(c, 'a')[0], 'THEN', ('lineno', c.lineno('g')), 'ELSE', ('lineno', c.lineno('h'))])):
        reject(b, 'ELSE line after %s' % nm, ['C15', 'C27'], lambda c, st=st: st(c) + ['ELSE', ('lineno', c.lineno('b'))])
        reject(b, 'ELSE statement after %s' % nm, ['C15', 'C27'], lambda c, st=st: st(c) + ['ELSE', 'STOP'])
        if nm != 'an assignment':
            reject(b, 'colon and ELSE line after %s' % nm, ['C15', 'C27'], lambda c, st=st: st(c) + [':', 'ELSE', ('lineno', c.lineno('b'))])
    reject(b, 'two ELSE', ['C15'], lambda c: ['IF', N(c, 'a')[0], 'THEN', 'CLS', 'ELSE', 'STOP', 'ELSE', 'CLS'])
    reject(b, 'IF THEN bad line', ['C15', 'C28'], lambda c: ['IF', N(c, 'a')[0], 'THEN', ('num', c.frac())])

    def stale(c):
        n = N(c, 'a')
        return [['IF', n[0], 'THEN', 'CLS'], ['STOP', 'ELSE', 'CLS']]
    c = b.case('ELSE on the next line', ['C15'], cls=ParseCase)
    for l in stale(c):
        c.line(*l)
    c.rejected(['C15'])
    b.go(c)


@bench('FOR and NEXT')
def fors(b):
    P = ['C29', 'C06', 'C05']
    accept(b, 'FOR TO', P, lambda c: (lambda v, n, m: (
        ['FOR', v, '=', n[0], 'TO', m[0]], [n[1], m[1], ('PUSH_NUM', fc(1.0)), ('FOR', v, 'var')]))(c.ident('i'), N(c, 'a'), N(c, 'b')))
    accept(b, 'FOR TO STEP', P, lambda c: (lambda v, n, m, s: (
        ['FOR', v, '=', n[0], 'TO', m[0], 'STEP', s[0]], [n[1], m[1], s[1], ('FOR', v, 'var')]))(c.ident('i'), N(c, 'a'), N(c, 'b'), N(c, 's')))
    accept(b, 'FOR with expressions', P, lambda c: (lambda v, n, m, s, t: (
        ['FOR', v, '=', n[0], '+', m[0], 'TO', '-', s[0], 'STEP', '-', t[0]],
        [n[1], m[1], ('ADD',), s[1], ('NEG',), t[1], ('NEG',), ('FOR', v)]))(c.ident('i'), N(c, 'a'), N(c, 'b'), N(c, 's'), N(c, 't')))
    for k in (1, 2, 3):
        def nx(c, k=k):
            vs = [c.ident('v%d' % i) for i in range(k)]
            tk = ['NEXT']
            for i, v in enumerate(vs):
                tk += ([','] if i else []) + [v]
            return tk, [('NEXT_VAR', v, 'var') for v in vs]
        accept(b, 'NEXT %d variables' % k, P, nx)
    reject(b, 'FOR with a string variable', P + ['C32'], lambda c: ['FOR', c.ident('i', True), '=', N(c, 'a')[0], 'TO', N(c, 'b')[0]])
    reject(b, 'FOR with an element', P + ['C32'], lambda c: ['FOR', c.ident('i'), '(', N(c, 'k')[0], ')', '=', N(c, 'a')[0], 'TO', N(c, 'b')[0]])
    for i in range(3):
        def bad(c, i=i):
            e = [(S if j == i else N)(c, 'e%d' % j)[0] for j in range(3)]
            return ['FOR', c.ident('i'), '=', e[0], 'TO', e[1], 'STEP', e[2]]
        reject(b, 'FOR with a string for value %d' % i, P, bad)
    reject(b, 'FOR without TO', P, lambda c: ['FOR', c.ident('i'), '=', N(c, 'a')[0], ('any', OPS + ['TO'])])
    reject(b, 'NEXT with a string variable', P + ['C32'], lambda c: ['NEXT', c.ident('i', True)])
    reject(b, 'NEXT with an element', P + ['C32'], lambda c: ['NEXT', c.ident('i'), '(', N(c, 'k')[0], ')'])


@bench('DEF')
def defs(b):
    P = ['C14', 'C06', 'C05', 'C32']
    for st in (False, True):
        T = 'STR' if st else 'NUM'
        for kind in (None, 'unknown', 'def'):
            def build(c, kind=kind):
                f, p, e = c.ident('f', st, paren=kind), c.ident('p'), (S if st else N)(c, 'a')
                return ['DEF', f, '(', p, ')', '=', e[0]], [('DEF', f, 1, 'def'), ('PARAM', p, 'var'), e[1], ('END_DEF',)]
            accept(b, '%s function, %s' % (T, kind or 'new'), P, build)
        reject(b, '%s function named as an array' % T, P,
               lambda c: ['DEF', c.ident('f', st, paren='array'), '(', c.ident('p'), ')', '=', (S if st else N)(c, 'a')[0]])
        reject(b, '%s function with a body of the other type' % T, P,
               lambda c: ['DEF', c.ident('f', st), '(', c.ident('p'), ')', '=', (N if st else S)(c, 'a')[0]])

        def call(c):
            f, p, v, a, e = c.ident('f', st), c.ident('p'), c.ident('v', st), N(c, 'arg'), (S if st else N)(c, 'a')
            return [v, '=', f, '(', a[0], ')', ':', 'DEF', f, '(', p, ')', '=', e[0]], [
                a[1], ('GET_PAREN_' + T, f, 1, 'def'), ('SET_SIMPLE_' + T, v), ('DEF', f, 1, 'def'), ('PARAM', p), e[1], ('END_DEF',)]
        accept(b, '%s function called before its definition' % T, P, call)
    accept(b, 'body using the parameter', P, lambda c: (lambda f, p, n: (
        ['DEF', f, '(', p, ')', '=', p, '*', n[0]],
        [('DEF', f, 1, 'def'), ('PARAM', p, 'var'), ('GET_SIMPLE_NUM', p), n[1], ('MUL',), ('END_DEF',)]))(c.ident('f'), c.ident('p'), N(c, 'a')))
    reject(b, 'string parameter', P, lambda c: ['DEF', c.ident('f'), '(', c.ident('p', True), ')', '=', N(c, 'a')[0]])
    reject(b, 'no parameter', P, lambda c: ['DEF', c.ident('f'), '=', N(c, 'a')[0]])
    reject(b, 'two parameters', P, lambda c: ['DEF', c.ident('f'), '(', c.ident('p'), ',', c.ident('q'), ')', '=', N(c, 'a')[0]])
    reject(b, 'no name', P, lambda c: ['DEF', ('any', ['ID'])])
    reject(b, 'DIM of a function name', ['C32'], lambda c: ['DIM', c.ident('f', paren='def'), '(', N(c, 'a')[0], ')'])


@bench('DIM')
def dims(b):
    P = ['C03', 'C06', 'C32', 'C05']
    for st in (False, True):
        T = 'STR' if st else 'NUM'
        for kind in (None, 'unknown', 'array'):
            for nd in (1, 2):
                def build(c, kind=kind, nd=nd):
                    v = c.ident('x', st, paren=kind)
                    subs = [N(c, 's%d' % i) for i in range(nd)]
                    tk = ['DIM', v, '(']
                    for i, s in enumerate(subs):
                        tk += ([','] if i else []) + [s[0]]
                    return tk + [')'], [s[1] for s in subs] + [('DIM_' + T, v, nd, 'array')]
                accept(b, '%s, %d dimensions, %s' % (T, nd, kind or 'new'), P, build)
        for known in (False, True):
            reject(b, 'DIM without dimensions %s %s' % (T, known), P, lambda c: ['DIM', c.ident('x', st, plain=known)])
    accept(b, 'two arrays', P, lambda c: (lambda v, w, n, m, k: (
        ['DIM', v, '(', n[0], ')', ',', w, '(', m[0], ',', k[0], ')'], [n[1], ('DIM_NUM', v, 1), m[1], k[1], ('DIM_STR', w, 2)]))(
            c.ident('x'), c.ident('y', True), N(c, 'a'), N(c, 'b'), N(c, 'd')))
    reject(b, 'three dimensions', P, lambda c: ['DIM', c.ident('x'), '(', N(c, 'a')[0], ',', N(c, 'b')[0], ',', N(c, 'd')[0], ')'])


@bench('DATA and READ')
def data(b):
    P = ['C25', 'C05', 'C06']
    for k in (1, 2, 4):
        def build(c, k=k):
            ds = [c.string('d%d' % i) for i in range(k)]
            tk = ['DATA']
            for i, d in enumerate(ds):
                tk += ([','] if i else []) + [('data', d)]
            return tk, [('DATA', d) for d in ds]
        accept(b, '%d DATA items' % k, P, build)
    accept(b, 'DATA, then a statement', P, lambda c: (lambda d: (['DATA', ('data', d), ':', 'CLS'], [('DATA', d), ('CLS',)]))(c.string('d')))
    reject(b, 'invalid DATA', P, lambda c: ['DATA', ('data', None)])
    reject(b, 'invalid second DATA', P, lambda c: ['DATA', ('data', c.string('d')), ',', ('data', None)])
    for nm, st, nd in (('numeric variable', False, 0), ('string variable', True, 0), ('numeric element', False, 1), ('string element', True, 2)):
        items(b, 'READ ' + nm, P, ['READ'], [], 'READ_', [], st, nd)
    accept(b, 'READ two', P, lambda c: (lambda v, w, n: (
        ['READ', v, ',', w, '(', n[0], ')'], [('READ_NUM', v, 0), n[1], ('READ_STR', w, 1, 'array')]))(c.ident('x'), c.ident('y', True), N(c, 'a')))
    reject(b, 'READ without a name', P, lambda c: ['READ', ('any', ['ID'])])
    reject(b, 'READ of a function', ['C32'], lambda c: ['READ', c.ident('f', paren='def'), '(', N(c, 'a')[0], ')'])


def items(b, name, P, before, pre, op, post, st, nd):
    for kind in ((None, 'unknown', 'array') if nd else (False, True)):
        def build(c, kind=kind):
            v = c.ident('x', st, paren=kind if nd else None, plain=bool(kind) if not nd else False)
            subs = [N(c, 's%d' % i) for i in range(nd)]
            tk = before + [v]
            if nd:
                tk.append('(')
                for i, s in enumerate(subs):
                    tk += ([','] if i else []) + [s[0]]
                tk.append(')')
            o = op + ('STR' if st else 'NUM') if op.endswith('_') else op
            return tk, pre + [s[1] for s in subs] + [(o, v, nd, 'array' if nd else 'var')] + post
        accept(b, '%s, %s' % (name, kind), P, build)


@bench('INPUT')
def inputs(b):
    P = ['C30', 'C05', 'C06']
    for nm, st, nd in (('numeric variable', False, 0), ('string variable', True, 0), ('numeric element', False, 1), ('string element', True, 2)):
        items(b, 'INPUT ' + nm, P, ['INPUT'], [('INPUT_BUF', None)], 'INPUT_', [('INPUT_END',)], st, nd)
    for sep in (';', ','):
        accept(b, 'INPUT with a prompt and ' + sep, P, lambda c: (lambda v, s: (
            ['INPUT', ('str', s), sep, v], [('INPUT_BUF', s), ('INPUT_NUM', v, 0), ('INPUT_END',)]))(c.ident('x'), c.string('p')))
        accept(b, 'LINE INPUT with a prompt and ' + sep, P, lambda c: (lambda v, s: (
            ['LINE', 'INPUT', ('str', s), sep, v], [('INPUT_BUF', s), ('INPUT_LINE', v, 0)]))(c.ident('x', True), c.string('p')))
    for k in (2, 3):
        def many(c, k=k):
            vs = [c.ident('v%d' % i, i % 2 == 1) for i in range(k)]
            tk, cd = ['INPUT'], [('INPUT_BUF', None)]
            for i, v in enumerate(vs):
                tk += ([','] if i else []) + [v]
                cd += ([('INPUT_SEP',)] if i else []) + [('INPUT_STR' if v.string else 'INPUT_NUM', v, 0)]
            return tk, cd + [('INPUT_END',)]
        accept(b, 'INPUT %d items' % k, P, many)
    for nd in (0, 1):
        items(b, 'LINE INPUT %d' % nd, P, ['LINE', 'INPUT'], [('INPUT_BUF', None)], 'INPUT_LINE', [], True, nd)
    reject(b, 'LINE INPUT of a number', P + ['C32'], lambda c: ['LINE', 'INPUT', c.ident('x')])
    reject(b, 'INPUT without a name', P, lambda c: ['INPUT', ('any', ['ID', 'STR'])])
    reject(b, 'INPUT of a function', ['C32'], lambda c: ['INPUT', c.ident('f', paren='def'), '(', N(c, 'a')[0], ')'])


@bench('PRINT')
def prints(b):
    P = ['C20', 'C05', 'C06']
    for kw in ('PRINT', '?'):
        accept(b, kw, P, lambda c: ([kw], [('PRINT_LN',)]))
        for st in (False, True):
            V, op = (S, 'PRINT_STR') if st else (N, 'PRINT_NUM')
            accept(b, '%s %s' % (kw, op), P, lambda c: (lambda e: ([kw, e[0]], [e[1], (op,), ('PRINT_LN',)]))(V(c, 'a')))
            accept(b, '%s %s ;' % (kw, op), P, lambda c: (lambda e: ([kw, e[0], ';'], [e[1], (op,)]))(V(c, 'a')))
            accept(b, '%s %s ,' % (kw, op), P, lambda c: (lambda e: ([kw, e[0], ','], [e[1], (op,), ('PRINT_COMMA',)]))(V(c, 'a')))
            for sep in (';', ','):
                accept(b, '%s %s %s s' % (kw, op, sep), P, lambda c: (lambda e, s: (
                    [kw, e[0], sep, s[0]], [e[1], (op,)] + ([('PRINT_COMMA',)] if sep == ',' else []) + [s[1], ('PRINT_STR',), ('PRINT_LN',)]))(
                        V(c, 'a'), S(c, 'b')))
            accept(b, '%s items without separator %s' % (kw, op), P, lambda c: (lambda e, s: (
                [kw, e[0], s[0]], [e[1], (op,), s[1], ('PRINT_STR',), ('PRINT_LN',)]))(V(c, 'a'), S(c, 'b')))
        accept(b, kw + ' ,,;', P, lambda c: ([kw, ',', ',', ';'], [('PRINT_COMMA',), ('PRINT_COMMA',)]))
        accept(b, kw + ' ;', P, lambda c: ([kw, ';'], []))
        for fn, op in (('SPC', 'PRINT_SPC'), ('TAB', 'PRINT_TAB'), ('tab', 'PRINT_TAB'), ('Spc', 'PRINT_SPC')):
            accept(b, '%s %s' % (kw, fn), P, lambda c: (lambda n: ([kw, ('fn', fn), '(', n[0], ')'], [n[1], (op,), ('PRINT_LN',)]))(N(c, 'a')))
            accept(b, '%s %s;' % (kw, fn), P, lambda c: (lambda n: ([kw, ('fn', fn), '(', n[0], ')', ';'], [n[1], (op,)]))(N(c, 'a')))
            accept(b, '%s s; %s' % (kw, fn), P, lambda c: (lambda n, s: (
                [kw, s[0], ';', ('fn', fn), '(', n[0], ')'], [s[1], ('PRINT_STR',), n[1], (op,), ('PRINT_LN',)]))(N(c, 'a'), S(c, 'b')))
            accept(b, '%s ; %s s' % (kw, fn), P, lambda c: (lambda n, s: (
                [kw, ';', ('fn', fn), '(', n[0], ')', s[0]], [n[1], (op,), s[1], ('PRINT_STR',), ('PRINT_LN',)]))(N(c, 'a'), S(c, 'b')))
            reject(b, '%s %s with a string' % (kw, fn), P, lambda c: [kw, ('fn', fn), '(', S(c, 'a')[0], ')'])
        accept(b, kw + ' then another statement', P, lambda c: (lambda n: (
            [kw, n[0], ';', ':', 'CLS'], [n[1], ('PRINT_NUM',), ('CLS',)]))(N(c, 'a')))
        accept(b, kw + ' of a comparison', ['C07', 'C06'], lambda c: (lambda s, t: (
            [kw, s[0], '=', t[0]], [s[1], t[1], ('EQ_STR',), ('PRINT_NUM',), ('PRINT_LN',)]))(S(c, 'a'), S(c, 'b')))


ALL = ['C17', 'C18', 'C02', 'C03', 'C04', 'C11', 'C05', 'C06', 'C07', 'C08', 'C09', 'C14', 'C15', 'C20', 'C21', 'C23', 'C25', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33']


def unit(title, fn):
    def run(prog, arg):
        b = FnBench(prog, title)
        b.attempt(fn)
        return b.result()
    return run


def units(prog):
    out = [Unit('compiling: ' + t, ALL, unit(t, fn), cost=2) for t, fn in TABLE]
    for o in OPS:
        out.append(Unit('compiling: pairs of operators, ' + o, ['C08', 'C06', 'C32', 'C27'], unit('operators after ' + o, pairs(o)), cost=3))
    return out


def thorough_units(prog):
    return [Unit('compiling: triples of operators, ' + o, ['C08'], unit('three operators from ' + o, triples(o)), cost=5) for o in OPS]
