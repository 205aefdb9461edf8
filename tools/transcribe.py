#!/usr/bin/env python3
"""Authoring tool: write a TLA+ module for each shipped process from its C++ source.

Run by hand once (and again if a process is added); its output is committed under
spec/sm and reviewed there.  No check runs it: a change of the code must not change
the specification.

    tools/transcribe.py /repo spec/sm drivers
"""
import glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxx


class Unsupported(Exception):
    pass


def flat(st):
    if st[0] == 'block':
        for s in st[1]:
            yield from flat(s)
    else:
        yield st


# ---------------------------------------------------------------- expressions
# TLA+ operator precedence classes used when printing
ADD, SUB, NEG, MUL, ATOM = 10, 11, 12, 13, 20


class Emit:
    """Prints a C++ arithmetic expression in TLA+.  `env` maps a local name to TLA+ text with its precedence."""

    def __init__(self, proc, env, member):
        self.p, self.env, self.member = proc, env, member

    def par(self, tp, need):
        t, p = tp
        return t if p > need else '(' + t + ')'

    def __call__(self, e):
        return self.go(e)[0]

    def atom(self, e):
        return self.par(self.go(e), ATOM - 1)

    def go(self, e):
        k = e[0]
        if k == 'num':
            v = e[1].rstrip('fFlL')
            if re.fullmatch(r'\d+', v):
                return v, ATOM
            if re.fullmatch(r'\d+\.0*', v):
                return v.split('.')[0], ATOM
            return 'Num("%s")' % v, ATOM
        if k == 'id':
            n = e[1]
            if n in self.env:
                v = self.env[n]
                if v is None:
                    raise Unsupported('uninitialised ' + n)
                return v
            return self.member(n)
        if k == 'un':
            if e[1] == '+':
                return self.go(e[2])
            if e[1] == '-':
                return '-' + self.par(self.go(e[2]), NEG), NEG
            raise Unsupported(str(e))
        if k == 'bin':
            op = e[1]
            l, r = self.go(e[2]), self.go(e[3])
            if op == '+':
                return self.par(l, ADD - 1) + ' + ' + self.par(r, ADD), ADD
            if op == '-':
                return self.par(l, SUB - 1) + ' - ' + self.par(r, SUB), SUB
            if op == '*':
                # a product is a left-nested chain; a division inside needs parentheses
                lt = l[0] if l[1] == MUL and not self.isdiv(e[2]) else self.par(l, MUL)
                return lt + ' * ' + self.par(r, MUL), MUL
            if op == '/':
                return self.par(l, MUL) + ' / ' + self.par(r, MUL), MUL
            raise Unsupported(op)
        if k == 'call':
            f = e[1]
            if f[0] == 'id':
                n = f[1].replace('std::', '')
                if n == 'sqrt':
                    return 'Sqrt(' + self(e[2][0]) + ')', ATOM
                if n in ('cdouble', 'ldouble'):
                    if len(e[2]) == 1:
                        return self.go(e[2][0])
                    a, b = e[2]
                    if b == ('num', '0'):
                        return self.go(a)
                    return 'Cx(%s, %s)' % (self(a), self(b)), ATOM
                if n == 'pow':
                    b, x = e[2]
                    if x != ('num', '2'):
                        raise Unsupported('pow')
                    if b[0] == 'call' and b[1] == ('id', 'std::abs'):
                        return 'AbsSq(' + self(b[2][0]) + ')', ATOM
                    return 'Sq(' + self(b) + ')', ATOM
                if n == 'abs':
                    return 'Abs(' + self(e[2][0]) + ')', ATOM
                if n == 'real':
                    return 'Re(' + self(e[2][0]) + ')', ATOM
                if n == 'conj':
                    return 'Conj(' + self(e[2][0]) + ')', ATOM
                if n == 'get_num_spin_loops':
                    return 'NumSpinLoops(<<' + ', '.join(self(a) for a in e[2]) + '>>)', ATOM
                if n == 'get_spin_normalization':
                    return 'SpinNorm(<<' + ', '.join(self(a) for a in e[2]) + '>>)', ATOM
                if n in self.p.methods:
                    return n + '(c' + ''.join(', ' + self(a) for a in e[2]) + ')', ATOM
                raise Unsupported('call ' + n)
            if f[0] == 'mem' and f[2] == 'v':
                return self.p.bracket(f[1][1], [self(a) for a in e[2]]), ATOM
            if f[0] == 'mem' and f[2] == 'denominator':
                return self.p.den(f[1][1], e[2][0], self), ATOM
            raise Unsupported(str(f))
        raise Unsupported(str(e))

    def isdiv(self, e):
        return e[0] == 'bin' and e[1] == '/'

    def cond(self, e):
        if e[0] == 'bin':
            op = e[1]
            if op == '&&':
                return self.cond(e[2]) + ' /\\ ' + self.cond(e[3])
            if op == '||':
                def side(x):
                    t = self.cond(x)
                    return '(' + t + ')' if x[0] == 'bin' and x[1] == '&&' else t[1:-1] if x[0] == 'bin' and x[1] == '||' else t
                return '(' + side(e[2]) + ' \\/ ' + side(e[3]) + ')'
            if op == '>' and e[3] == ('num', '0'):
                return 'Plus(' + self(e[2]) + ')'
            if op == '<' and e[3] == ('num', '0'):
                return 'Minus(' + self(e[2]) + ')'
            if op == '==':
                return self(e[2]) + ' = ' + self(e[3])
        raise Unsupported('cond ' + str(e))


def assigned(st, plus, plain):
    """Variables a statement modifies: accumulated with += and assigned."""
    for s in ([st] if st[0] != 'block' else st[1]):
        k = s[0]
        if k == 'block':
            assigned(s, plus, plain)
        elif k == 'for':
            assigned(s[4], plus, plain)
        elif k == 'if':
            assigned(s[2], plus, plain)
            if s[3]:
                assigned(s[3], plus, plain)
        elif k == 'expr' and s[1][0] == 'assign':
            t = s[1][2]
            n = t[1] if t[0] == 'id' else None
            (plus if s[1][1] in ('+=', '-=') else plain).add(n)
        elif k == 'expr' and s[1][0] == 'call' and s[1][1] == ('id', 'get_spinor_spins'):
            for j, a in enumerate(s[1][2][:-1]):
                if j % 3:
                    plain.add(a[1])
        elif k == 'decl':
            for n, d, i in s[2]:
                plain.add(n)


def hasret(st):
    k = st[0]
    if k in ('return', 'throw'):
        return True
    if k == 'block':
        return any(hasret(s) for s in st[1])
    if k == 'for':
        return hasret(st[4])
    if k == 'if':
        return hasret(st[2]) or (st[3] is not None and hasret(st[3]))
    return False


class Proc:
    def __init__(self, path):
        self.cls = os.path.basename(path)[:-4]
        fs = cxx.parse_file(path)
        self.f = {}
        for x in fs:
            n = x['name'].split('::')[-1]
            if n == 'amp2' and x['params']:
                n = 'amp2_at'
            if x['params'] and x['params'] == ['params']:
                continue
            if n.startswith('score'):
                continue
            self.f[n] = x
        self.ctor = self.f[self.cls]
        self.methods = {n for n in self.f if n.startswith('amp')}
        self.n = 0
        self.analyse()

    RESERVED = {'c', 'q', 'k', 'p', 'I', 'e', 'amp', 'amp2'}

    def fresh(self, base):
        base = {'amplitude': 'A', 'amp2': 'tot', 'nCombs': 'n', 'normFactor': 'norm'}.get(base, base)
        self.used[base] = self.used.get(base, 0) + 1
        n = self.used[base]
        if base not in self.RESERVED and n == 1:
            return base
        return '%s_%d' % (base, n)

    # -------------------------------------------------------------- constructor
    def analyse(self):
        self.scalars, self.parts, self.props, self.sps = {}, {}, {}, {}
        consts = {}

        def put(n, args):
            e = args[0] if len(args) == 1 else None
            if e is not None and e[0] == 'call' and e[1][0] == 'id' and e[1][1] in ('particle', 'propagator', 'sproduct'):
                kind, a = e[1][1], e[2]
            elif n.startswith('prop'):
                kind, a = 'propagator', args
            else:
                kind, a = None, None
            if kind == 'particle':
                self.parts[n] = a[0]
            elif kind == 'propagator':
                self.props[n] = [a[0], a[1]] if len(a) == 2 else [('num', '0'), ('num', '0')]
            elif kind == 'sproduct':
                self.sps[n] = (a[0][1], [x[2][1] for x in a[1:]])
            else:
                self.scalars.pop(n, None)
                self.scalars[n] = e
        for n, a in self.ctor['inits']:
            put(n, a)
        for s in flat(self.ctor['body']):
            if s[0] == 'decl':
                for n, d, i in s[2]:
                    consts[n] = i
            elif s[0] == 'expr' and s[1][0] == 'assign' and s[1][1] == '=':
                put(s[1][2][1], [s[1][3]])
            elif s[0] == 'expr' and s[1][0] == 'call' and s[1][1][0] == 'mem':
                o, m = s[1][1][1][1], s[1][1][2]
                if m == 'set_mass' and o in self.props or o.startswith('prop') and m == 'set_mass':
                    self.props.setdefault(o, [('num', '0'), ('num', '0')])[0] = s[1][2][0]
                elif m == 'set_width':
                    self.props.setdefault(o, [('num', '0'), ('num', '0')])[1] = s[1][2][0]
                else:
                    raise Unsupported('ctor ' + str(s))
            else:
                raise Unsupported('ctor ' + str(s))
        self.consts = consts
        # momenta
        self.momloc, self.dens, self.momconst = {}, {}, {}
        for s in flat(self.f['set_momenta']['body']):
            if s[0] == 'for':
                for b in flat(s[4]):
                    t = b[1]
                    self.momloc[t[2][1][1]] = t[3]
            elif s[0] == 'expr':
                e = s[1]
                if e[0] == 'assign':
                    self.dens[e[2][1]] = e[3]
                elif e[0] == 'call' and e[1][0] == 'mem' and e[1][2] in ('set_momentum', 'update'):
                    pass
                else:
                    raise Unsupported('mom ' + str(e))
            elif s[0] == 'decl':
                for n, d, i in s[2]:
                    if i is not None:
                        self.momconst[n] = i
            else:
                raise Unsupported('mom ' + str(s))

    def member(self, n):
        if n in self.scalars or n in self.dens:
            return 'c.' + n, ATOM
        raise Unsupported('%s: unknown name %s' % (self.cls, n))

    def massless(self, part):
        return self.parts[part] == ('num', '0')

    def bracket(self, n, args):
        kind, ps = self.sps[n]
        l, r = self.massless(ps[0]), self.massless(ps[-1])
        want = (not l) + (not r)
        if want != len(args):
            raise Unsupported('%s.v arity' % n)
        a = list(args)
        li = '0' if l else a.pop(0)
        ri = '0' if r else a.pop(0)
        return 'c.%s[%s][%s]' % (n, li, ri)

    def mom(self, e):
        """coefficients of mom1..mom4 in a linear combination"""
        co = {}

        def go(x, s):
            if x[0] == 'bin' and x[1] in '+-':
                go(x[2], s)
                go(x[3], s if x[1] == '+' else -s)
            elif x[0] == 'un':
                go(x[2], -s if x[1] == '-' else s)
            elif x[0] == 'idx' and x[1][0] == 'id' and re.fullmatch(r'mom\d', x[1][1]):
                k = int(x[1][1][3:])
                co[k] = co.get(k, 0) + s
            else:
                raise Unsupported('mom comb ' + str(x))
        go(e, 1)
        return co

    def den(self, prop, arg, em):
        m, w = self.props[prop]
        co = self.mom(self.momloc[arg[1]])
        return 'Den(%s, %s, Comb(mom, <<%s>>))' % (em(m), em(w), ', '.join(str(co.get(k, 0)) for k in (1, 2, 3, 4)))

    # ------------------------------------------------------------------- output
    def ctx(self):
        """LET definitions of couplings, and the record of everything the amplitudes read."""
        used = set()
        out = []
        params = self.ctor['params']
        defs = {}

        def mem(n):
            if n in params:
                return 'q.' + n, ATOM
            if n in self.scalars:
                return n, ATOM
            raise Unsupported('ctor name ' + n)
        env = {}
        for n, i in self.consts.items():
            if i is not None:
                env[n] = Emit(self, env, mem).go(i)
        em = Emit(self, env, mem)
        order, seen = [], set()

        def names(e, acc):
            if isinstance(e, tuple):
                if e[0] == 'id' and e[1] in self.scalars:
                    acc.append(e[1])
                for x in e[1:]:
                    names(x, acc)
            elif isinstance(e, list):
                for x in e:
                    names(x, acc)
            return acc

        def visit(n, stack=()):
            if n in seen:
                return
            if n in stack:
                raise Unsupported('cycle ' + n)
            for d in names(self.scalars[n], []):
                if d != n:
                    visit(d, stack + (n,))
            seen.add(n)
            order.append(n)
        for n in self.scalars:
            visit(n)
        lets = ['%s == %s' % (n, em(self.scalars[n])) for n in order]
        legs = [em(self.parts['p%d' % k]) for k in (1, 2, 3, 4)]
        rec = [(n, n) for n in order]
        brs = []
        for n, (kind, ps) in self.sps.items():
            brs.append((n, 'Bracket("%s", <<%s>>, p)' % (kind.lower(), ', '.join(x[1:] for x in ps))))
        dens = []
        env = dict(env)
        for n, i in self.momconst.items():
            env[n] = em.go(i)

        def dmem(n):
            if n in self.dens:
                return n, ATOM
            return mem(n)
        em = Emit(self, env, dmem)
        for n, e in self.dens.items():
            dens.append((n, em(e)))
        return lets, legs, rec, brs, dens

    # --------------------------------------------------------------- statements
    def body(self, fn):
        f = self.f[fn]
        self.used = {p: 1 for p in f['params']}
        env = {p: (p, ATOM) for p in f['params']}
        return self.block(list(f['body'][1]), env, None, 1)

    def block(self, sts, env, final, ind):
        """Text of the value of the statement list; `final(env)` gives the value when it runs off the end."""
        pad = '  ' * ind
        if not sts:
            if final is None:
                raise Unsupported('no return')
            return final(env)
        s, rest = sts[0], sts[1:]
        em = Emit(self, env, self.member)
        k = s[0]
        if k == 'block':
            return self.block(list(s[1]) + rest, env, final, ind)
        if k == 'decl':
            env = dict(env)
            text = ''
            for n, d, i in s[2]:
                if i is None:
                    env[n] = None
                    continue
                tp = Emit(self, env, self.member).go(i)
                if re.fullmatch(r'[\d/ .]+', tp[0]):
                    env[n] = tp
                else:
                    nn = self.fresh(n)
                    text += 'LET %s == %s IN\n%s' % (nn, tp[0], pad)
                    env[n] = (nn, ATOM)
            return text + self.block(rest, env, final, ind)
        if k == 'return':
            return em(s[1])
        if k == 'throw':
            return 'Undefined'
        if k == 'expr':
            e = s[1]
            if e[0] == 'bin' and e[1] == '<<':
                return self.block(rest, env, final, ind)
            if e[0] == 'call' and e[1] == ('id', 'get_spinor_spins'):
                a = e[2]
                it = em(a[-1])
                ds = [em(x) for x in a[0:-1:3]]
                nn = self.fresh('sp')
                env = dict(env)
                lets = ['%s == SpinorSpins(<<%s>>, %s)' % (nn, ', '.join(ds), it)]
                for q in range(len(ds)):
                    for o, ab in ((1, 'a'), (2, 'b')):
                        v = self.fresh(a[3 * q + o][1])
                        lets.append('%s == %s[%d].%s' % (v, nn, q + 1, ab))
                        env[a[3 * q + o][1]] = (v, ATOM)
                return 'LET %s IN\n%s' % (('\n' + pad + '    ').join(lets), pad) + self.block(rest, env, final, ind)
            if e[0] == 'assign' and e[2][0] == 'id':
                n = e[2][1]
                if e[1] == '=':
                    v = e[3]
                elif e[1] in ('+=', '-=', '*=', '/='):
                    v = ('bin', e[1][0], e[2], e[3])
                    if e[1] == '+=' and env.get(n) == ('0', ATOM):
                        v = e[3]
                else:
                    raise Unsupported(e[1])
                tp = em.go(v)
                env = dict(env)
                if re.fullmatch(r'-?\d+', tp[0]):
                    env[n] = tp if tp[0][0] != '-' else ('(' + tp[0] + ')', ATOM)
                    return self.block(rest, env, final, ind)
                # the last accumulation before the end needs no name
                nn = self.fresh(n)
                env[n] = (nn, ATOM)
                tail = self.block(rest, env, final, ind)
                if tail.strip() == nn:
                    return tp[0]
                return 'LET %s == %s IN\n%s' % (nn, tp[0], pad) + tail
            raise Unsupported('stmt ' + str(e))
        if k == 'if':
            then, els = s[2], s[3] or ('block', [])
            if hasret(then) or hasret(els):
                # the branches end the function
                a = self.block([then] + rest, env, final, ind + 1)
                b = self.block([els] + rest, env, final, ind + 1)
                return 'IF %s\n%sTHEN %s\n%sELSE %s' % (em.cond(s[1]), pad, a, pad, b)
            plus, plain = set(), set()
            assigned(then, plus, plain)
            assigned(els, plus, plain)
            env2 = dict(env)
            text = ''
            for n in sorted((plus | plain) & set(env)):
                def fin(ev, n=n):
                    if ev[n] is None:
                        raise Unsupported('unset ' + n)
                    return ev[n][0]
                try:
                    a = self.block([then], env, fin, ind + 2)
                    b = self.block([els], env, fin, ind + 2)
                except Unsupported as x:
                    if str(x).startswith('unset'):
                        env2[n] = None
                        continue
                    raise
                nn = self.fresh(n)
                env2[n] = (nn, ATOM)
                text += 'LET %s == IF %s\n%s    THEN %s\n%s    ELSE %s IN\n%s' % (nn, em.cond(s[1]), pad, a, pad, b, pad)
            return text + self.block(rest, env2, final, ind)
        if k == 'for':
            init, cond, inc, bd = s[1], s[2], s[3], s[4]
            n, d, i0 = init[2][0]
            rng = self.range(i0, cond, inc, em)
            plus, plain = set(), set()
            assigned(bd, plus, plain)
            accs = sorted((plus - plain) & set(env))
            env2 = dict(env)
            text = ''
            for a in accs:
                v = self.fresh(n)
                e3 = dict(env)
                for x in plain:
                    e3[x] = None
                e3[a] = ('0', ATOM)
                e3[n] = (v, ATOM)
                val = self.block([bd], e3, lambda ev, a=a: ev[a][0], ind + 1)
                sm = 'Sum(%s, LAMBDA %s:\n%s  %s)' % (rng, v, pad, val)
                if env[a] != ('0', ATOM):
                    sm = env[a][0] + ' + ' + sm
                if len(accs) == 1 and rest and rest[0][0] == 'return' and rest[0][1] == ('id', a):
                    return sm
                nn = self.fresh(a)
                env2[a] = (nn, ATOM)
                tail = None
                text += 'LET %s == %s IN\n%s' % (nn, sm, pad)
            tail = self.block(rest, env2, final, ind)
            if len(accs) == 1 and tail.strip() == env2[accs[0]][0]:
                return sm
            return text + tail
        raise Unsupported('stmt ' + str(s))

    def range(self, i0, cond, inc, em):
        lo = em(i0)
        step = 1 if inc[0] in ('post', 'un') else int(inc[3][1])
        hi = em(cond[3])
        if re.fullmatch(r'-?\d+', lo) and re.fullmatch(r'-?\d+', hi):
            a, b = int(lo), int(hi) + (1 if cond[1] == '<=' else 0)
            return '<<' + ', '.join(str(x) for x in range(a, b, step)) + '>>'
        if lo == '0' and step == 1 and cond[1] == '<':
            return 'UpTo(' + hi + ')'
        raise Unsupported('range')

    def module(self):
        name = 'P_' + self.cls
        o = []
        dash = '-' * max(4, (77 - len(name) - 8) // 2)
        o.append('%s MODULE %s %s' % (dash, name, dash))
        o.append('(* Tree-level amplitude of the process class %s: see Amplitude.tla for how to read it. *)' % self.cls)
        o.append('EXTENDS Amplitude')
        o.append('')
        lets, legs, rec, brs, dens = self.ctx()
        o.append('\\* Couplings and masses from the parameters q of the process.')
        o.append('Model(q) ==')
        o.append('  LET ' + '\n      '.join(lets))
        o.append('  IN [' + ',\n      '.join('%s |-> %s' % r for r in rec) + ']')
        o.append('')
        need = lambda t: [n for n in self.scalars if re.search(r'\b%s\b' % re.escape(n), t)]
        o.append('\\* Masses of the four external particles.')
        lt = '<<' + ', '.join(legs) + '>>'
        o.append('Legs(q) == LET k == Model(q) IN ' + re.sub(r'(?<![\w.])([A-Za-z]\w*)', lambda m: 'k.' + m.group(1) if m.group(1) in self.scalars else m.group(1), lt))
        o.append('')
        o.append('\\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.')
        o.append('Context(q, mom) ==')
        o.append('  LET k == Model(q)')
        o.append('      p == Externals(Legs(q), mom)')

        def kk(t):
            return re.sub(r'(?<![\w."])([A-Za-z]\w*)', lambda m: 'k.' + m.group(1) if m.group(1) in self.scalars else m.group(1), t)
        for n, t in dens:
            o.append('      %s == %s' % (n, kk(t)))
        o.append('  IN k @@ [' + ',\n      '.join(['%s |-> %s' % (n, t) for n, t in brs] + ['%s |-> %s' % (n, n) for n, t in dens]) + ']')
        o.append('')
        sigs = {}
        order = sorted((n for n in self.methods if n != 'amp2_at'), key=lambda n: (n.startswith('amp2'), n))
        # operators must be defined before use
        for n in order:
            ps = self.f[n]['params']
            o.append('%s(c%s) ==' % (n, ''.join(', ' + p for p in ps)))
            o.append('  ' + self.body(n))
            o.append('')
            sigs[n] = ps
        o.append('=' * 77)
        return '\n'.join(o) + '\n', sigs


# ------------------------------------------------------------------ tables
def spins(p, i):
    """Twice-spins of external particle i, or None for a particle without spin label."""
    leg = p.legs[i]
    if leg in ('MW', 'MZ'):
        return [-2, 0, 2]
    if leg in ('mh',):
        return [0]
    if leg == '0':
        return [-2, 2]
    return [-1, 1]


def tla_str(x):
    return '"%s"' % x


def seq(xs):
    return '<<' + ', '.join(xs) + '>>'


def sig(p, sigs):
    amps = ['[f |-> %s, args |-> %s]' % (tla_str(n), seq('<<%s>>' % ', '.join(map(str, spins(p, int(a[2]) - 1))) for a in sigs[n]))
            for n in sigs if not n.startswith('amp2')]
    return '\n'.join([
        '\\* What the class is made of (see SMAll.tla).',
        'Sig == [ctor |-> %s,' % seq(map(tla_str, p.ctor['params'])),
        '        setm |-> %s,' % seq(map(tla_str, p.f['set_masses']['params'] if 'set_masses' in p.f else [])),
        '        setv |-> %s, at |-> %s,' % ('TRUE' if 'set_v' in p.f else 'FALSE', 'TRUE' if 'amp2_at' in p.f else 'FALSE'),
        '        amps |-> %s,' % seq(amps),
        '        squares |-> %s]' % seq(tla_str(n) for n in sigs if n.startswith('amp2')), '', ''])


def dispatch(procs):
    o = ['-------------------------------- MODULE SMAll --------------------------------',
         '(****************************************************************************)',
         '(* The process modules under one roof: what each class is made of, its      *)',
         '(* external masses, context, amplitudes and squares, by class and method.   *)',
         '(*                                                                          *)',
         '(* Sig(cls).ctor and .setm are the parameters of the constructor and of     *)',
         '(* set_masses, in order; .amps the amplitude methods with the twice-spins   *)',
         '(* each argument ranges over; .squares the methods giving a squared         *)',
         '(* amplitude; .setv whether the class has set_v; .at whether it has an amp2 *)',
         '(* taking momenta.  A run that needs few classes keeps only their lines.    *)',
         '(****************************************************************************)',
         'EXTENDS Amplitude', '']
    for p, sigs in procs:
        o.append('M_%s == INSTANCE P_%s' % (p.cls, p.cls))
    for name, args, call in (('Sig', '', 'Sig'), ('LegsOf', ', q', 'Legs(q)'), ('ContextOf', ', q, mom', 'Context(q, mom)')):
        o += ['', '%s(cls%s) ==' % (name, args), '  CASE cls = "" -> <<>>']
        for p, sigs in procs:
            o.append('    [] cls = %s -> M_%s!%s' % (tla_str(p.cls), p.cls, call))
    o += ['', '\\* The value of method f of class cls in context c; ds are its spin arguments.', 'ValueOf(cls, f, c, ds) ==', '  CASE cls = "" -> <<>>']
    for p, sigs in procs:
        cs = []
        for n in sigs:
            cs.append('f = %s -> M_%s!%s(c%s)' % (tla_str(n), p.cls, n, ''.join(', ds[%d]' % (j + 1) for j in range(len(sigs[n])))))
        o.append('    [] cls = %s -> (CASE %s)' % (tla_str(p.cls), ' [] '.join(cs)))
    o.append('=' * 78)
    return '\n'.join(o) + '\n'


def driver(procs):
    o = ['// Written by tools/transcribe.py.  One adaptor per process class.']
    for p, sigs in procs:
        c = p.cls
        nc = len(p.ctor['params'])
        sm = p.f['set_masses']['params'] if 'set_masses' in p.f else None
        a = lambda n, v='a': ','.join('%s[%d]' % (v, j) for j in range(n))
        o.append('struct A_%s : public Adaptor { spinas::%s x;' % (c, c))
        o.append('  A_%s(const Args& a):x(%s){ (void)a; }' % (c, a(nc)))
        if sm is not None:
            o.append('  void set_masses(const Args& a){ (void)a; x.set_masses(%s); }' % a(len(sm)))
        if 'set_v' in p.f:
            o.append('  void set_v(const ldouble& v){ x.set_v(v); }')
        o.append('  void set_momenta(const ldouble* p){ x.set_momenta(p,p+4,p+8,p+12); }')
        if 'amp2_at' in p.f:
            o.append('  ldouble amp2_at(const ldouble* p){ return x.amp2(p,p+4,p+8,p+12); }')
        o.append('  cdouble amp(const std::string& f,const std::vector<int>& d){ (void)d;')
        for n in sigs:
            if not n.startswith('amp2'):
                o.append('    if(f=="%s") return x.%s(%s);' % (n, n, a(len(sigs[n]), 'd')))
        o.append('    return nosuch(f); }')
        o.append('  ldouble amp2(const std::string& f){')
        for n in sigs:
            if n.startswith('amp2'):
                o.append('    if(f=="%s") return x.%s();' % (n, n))
        o.append('    return std::real(nosuch(f)); } };')
    o.append('static const Maker MAKERS[] = {')
    for p, sigs in procs:
        o.append('  {"%s",%d,make<A_%s>,copy<A_%s>},' % (p.cls, len(p.ctor['params']), p.cls, p.cls))
    o.append('};')
    return '\n'.join(o) + '\n'


def main():
    repo, out, drv = sys.argv[1], sys.argv[2], sys.argv[3]
    bad = 0
    procs = []
    for f in sorted(glob.glob(repo + '/SM/*.cpp')):
        if f.endswith('/test.cpp'):
            continue
        try:
            p = Proc(f)
            t, sigs = p.module()
        except Unsupported as e:
            print('UNSUPPORTED', f, e)
            bad += 1
            continue
        p.legs = re.search(r'^Legs\(q\) == .*<<(.*)>>', t, re.M).group(1).replace('k.', '').split(', ')
        t = t.replace('\\* Couplings and masses from', sig(p, sigs) + '\\* Couplings and masses from', 1)
        open(os.path.join(out, 'P_%s.tla' % p.cls), 'w').write(t)
        procs.append((p, sigs))
    open(os.path.join(out, 'SMAll.tla'), 'w').write(dispatch(procs))
    open(os.path.join(drv, 'sm_table.inc'), 'w').write(driver(procs))
    open(os.path.join(drv, 'sm_headers.inc'), 'w').write('#include <iostream>\n#include <string>\n#include "spinas.h"\n' + ''.join('#include "include/%s.h"\n' % p.cls for p, s in procs))
    print(len(procs), 'modules,', bad, 'unsupported')
    return procs


if __name__ == '__main__':
    main()
