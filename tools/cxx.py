"""Parser for the small C++ subset the shipped process classes are written in.

Used only by the authoring tool transcribe.py; no check reads /repo's code through it.
"""
import re

TOK = re.compile(r'''
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*)
 | (?P<num>(\d+\.\d*|\.\d+|\d+)([eE][-+]?\d+)?[fFlL]?)
 | (?P<str>"(\\.|[^"\\])*")
 | (?P<chr>'(\\.|[^'\\])')
 | (?P<id>[A-Za-z_]\w*(::~?[A-Za-z_]\w*)*)
 | (?P<op>\+=|-=|\*=|/=|\+\+|--|&&|\|\||==|!=|<=|>=|<<|>>|->|::|[-+*/%<>=!&|?:;,.(){}\[\]])
''', re.X | re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('lex: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if m.group('ws') is not None:
            continue
        for k in ('num', 'str', 'chr', 'id', 'op'):
            if m.group(k) is not None:
                out.append((k, m.group(k)))
                break
    out.append(('eof', ''))
    return out


TYPES = {'ldouble', 'cdouble', 'int', 'bool', 'void', 'double', 'particle', 'propagator', 'sproduct', 'char', 'std::string'}
QUAL = {'const', 'constexpr', 'static', 'inline', 'virtual'}
PREC = {'||': 1, '&&': 2, '|': 3, '&': 4, '==': 5, '!=': 5, '<': 6, '>': 6, '<=': 6, '>=': 6, '<<': 7, '>>': 7,
        '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def pk(self, k=0):
        return self.t[self.i + k]

    def at(self, v):
        return self.t[self.i][1] == v and self.t[self.i][0] in ('op', 'id')

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def ex(self, v):
        t = self.nx()
        if t[1] != v:
            raise SyntaxError('expected %r got %r near %s' % (v, t[1], ' '.join(x[1] for x in self.t[self.i - 12:self.i + 6])))
        return t

    # expressions -------------------------------------------------------
    def expr(self):
        return self.assign()

    def assign(self):
        l = self.tern()
        if self.pk()[1] in ('=', '+=', '-=', '*=', '/='):
            op = self.nx()[1]
            return ('assign', op, l, self.assign())
        return l

    def tern(self):
        c = self.binary(1)
        if self.at('?'):
            self.nx()
            a = self.assign()
            self.ex(':')
            return ('tern', c, a, self.assign())
        return c

    def binary(self, p):
        l = self.unary()
        while self.pk()[0] == 'op' and PREC.get(self.pk()[1], 0) >= p:
            op = self.nx()[1]
            r = self.binary(PREC[op] + 1)
            l = ('bin', op, l, r)
        return l

    def unary(self):
        if self.pk()[0] == 'op' and self.pk()[1] in ('-', '+', '!', '&', '*', '++', '--'):
            op = self.nx()[1]
            return ('un', op, self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.nx()
        if k == 'num':
            e = ('num', v)
        elif k == 'str':
            e = ('str', v)
        elif k == 'id':
            e = ('id', v)
        elif v == '(':
            e = self.expr()
            self.ex(')')
        elif v == '{':
            items = []
            while not self.at('}'):
                items.append(self.assign())
                if self.at(','):
                    self.nx()
            self.ex('}')
            e = ('list', items)
        else:
            raise SyntaxError('primary %r near %s' % (v, ' '.join(x[1] for x in self.t[self.i - 12:self.i + 6])))
        while True:
            if self.at('('):
                self.nx()
                args = []
                while not self.at(')'):
                    args.append(self.assign())
                    if self.at(','):
                        self.nx()
                self.ex(')')
                e = ('call', e, args)
            elif self.at('['):
                self.nx()
                ix = self.expr()
                self.ex(']')
                e = ('idx', e, ix)
            elif self.at('.') or self.at('->'):
                self.nx()
                e = ('mem', e, self.nx()[1])
            elif self.at('++') or self.at('--'):
                e = ('post', self.nx()[1], e)
            else:
                return e

    # statements ----------------------------------------------------------
    def block(self):
        self.ex('{')
        out = []
        while not self.at('}'):
            out.append(self.stmt())
        self.ex('}')
        return ('block', out)

    def isdecl(self):
        j = 0
        while self.pk(j)[1] in QUAL:
            j += 1
        return self.pk(j)[1] in TYPES and self.pk(j + 1)[0] == 'id' or (self.pk(j)[1] in TYPES and self.pk(j + 1)[1] in ('*', '&') and j > 0)

    def decl(self):
        quals = []
        while self.pk()[1] in QUAL:
            quals.append(self.nx()[1])
        ty = self.nx()[1]
        out = []
        while True:
            while self.pk()[1] in ('*', '&'):
                self.nx()
            name = self.nx()[1]
            dims = []
            while self.at('['):
                self.nx()
                dims.append(self.expr())
                self.ex(']')
            init = None
            if self.at('='):
                self.nx()
                init = self.assign()
            elif self.at('('):
                self.nx()
                args = []
                while not self.at(')'):
                    args.append(self.assign())
                    if self.at(','):
                        self.nx()
                self.ex(')')
                init = ('call', ('id', ty), args)
            out.append((name, dims, init))
            if self.at(','):
                self.nx()
                continue
            break
        return ('decl', ty, out)

    def stmt(self):
        if self.at('{'):
            return self.block()
        if self.at(';'):
            self.nx()
            return ('block', [])
        if self.at('for'):
            self.nx()
            self.ex('(')
            init = self.decl() if self.isdecl() else self.expr()
            self.ex(';')
            cond = self.expr()
            self.ex(';')
            inc = self.expr()
            self.ex(')')
            return ('for', init, cond, inc, self.stmt())
        if self.at('if'):
            self.nx()
            self.ex('(')
            c = self.expr()
            self.ex(')')
            a = self.stmt()
            b = None
            if self.at('else'):
                self.nx()
                b = self.stmt()
            return ('if', c, a, b)
        if self.at('return'):
            self.nx()
            e = None if self.at(';') else self.expr()
            self.ex(';')
            return ('return', e)
        if self.at('throw'):
            self.nx()
            e = self.expr()
            self.ex(';')
            return ('throw', e)
        if self.isdecl():
            d = self.decl()
            self.ex(';')
            return d
        e = self.expr()
        self.ex(';')
        return ('expr', e)

    # file: returns list of functions of class `cls`
    def functions(self):
        out = []
        while self.pk()[0] != 'eof':
            if self.pk()[1] == 'namespace':
                self.nx(); self.nx(); self.ex('{')
                continue
            if self.at('}') or self.at(';'):
                self.nx()
                continue
            if self.pk()[1] == 'using':
                while not self.at(';'):
                    self.nx()
                continue
            start = self.i
            while self.pk()[0] == 'id' and self.pk(1)[1] != '(':
                self.nx()
            name = self.nx()[1]
            ret = ' '.join(t[1] for t in self.t[start:self.i - 1])
            self.ex('(')
            params = []
            depth, cur = 0, []
            while not (depth == 0 and self.at(')')):
                if self.at(',') and depth == 0:
                    params.append(cur); cur = []
                    self.nx()
                    continue
                t = self.nx()
                if t[1] in '([': depth += 1
                if t[1] in ')]': depth -= 1
                cur.append(t[1])
            if cur:
                params.append(cur)
            self.ex(')')
            pn = []
            for c in params:
                ids = [x for x in c if re.match(r'[A-Za-z_]', x)]
                pn.append(ids[-1])
            inits = []
            if self.at(':'):
                self.nx()
                while True:
                    n = self.nx()[1]
                    self.ex('(')
                    args = []
                    while not self.at(')'):
                        args.append(self.assign())
                        if self.at(','):
                            self.nx()
                    self.ex(')')
                    inits.append((n, args))
                    if self.at(','):
                        self.nx()
                        continue
                    break
            if name.startswith('test_') or not self.at('{'):
                # skip test functions: brace matching
                if self.at('{'):
                    d = 0
                    while True:
                        t = self.nx()
                        if t == ('op', '{'): d += 1
                        if t == ('op', '}'):
                            d -= 1
                            if d == 0:
                                break
                continue
            body = self.block()
            out.append(dict(name=name, ret=ret, params=pn, inits=inits, body=body))
        return out


def parse_file(path):
    return P(lex(open(path).read())).functions()
