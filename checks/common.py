'''Shared vocabulary of the specifications: program templates, literals, fields.'''
from absint.harness import *
from absint.values import CTX

W64 = 1 << 64
BIG = 1 << 70


class Reject(Exception):
    '''the specification refuses this program'''


class Lit:
    def __init__(self, text, v, kind):
        self.text, self.v, self.kind = text, v, kind


class Prog:
    '''One abstract program:   opaque prefix / .org P / preface / <line> / postface'''

    def __init__(self, org=True, incbin=True, pmax=(1 << 32) - 1, palign=1):
        self.inputs = {}
        self.pre, self.post = [], []
        self.org = org
        self.L0 = self.sym('L0', 0, 1 << 20) if incbin else 0
        if org:
            p = self.sym('P', 0, pmax // palign)
            self.pc = binop('*', p, palign)
        else:
            self.pc = 0
        self.head = [opq('pre', self.L0)] if incbin else []

    def sym(self, name, lo, hi):
        self.inputs[name] = (lo, hi)
        return sym(name, lo, hi)

    def fin(self, name, elems):
        '''finite choice of spellings -> text'''
        fs = FinSym(name, list(elems))
        self.inputs[name] = fs
        return fin_text(fs), fs

    def choice(self, name, mapping):
        '''spelling -> value: (text, value)'''
        fs = FinSym(name, list(mapping))
        self.inputs[name] = fs
        return fin_text(fs), Fin(fs, dict(mapping)).as_int()

    def lit(self, kind, name='N', hexp='0x', lo=0, hi=BIG, sc=1, off=0):
        if kind == 'dec':
            n = self.sym(name, lo, hi)
            return Lit(S(num(n)), n, kind)
        if kind == 'neg':
            n = self.sym(name, 1, hi)
            return Lit(S('-', num(n)), binop('-', 0, n), kind)
        if kind == 'hex':
            n = self.sym(name, lo, hi)
            pre, suf = hexp if isinstance(hexp, tuple) else (hexp, '')
            return Lit(S(pre, NumPiece(n, 16, digits_only=True) if suf else num(n, 16), suf), n, kind)
        if kind in ('lab', 'blab'):
            a = self.sym(name, 0, (W64 - 1) // sc - 1)
            adr = binop('+', binop('*', a, sc), off)
            t = NamePiece('lab' + name)
            block = S('.org ', num(adr), '\n', t, ':\n')
            if kind == 'lab':
                self.post.append(block)
            else:
                self.pre.append(block)
            return Lit(S(t), adr, kind)
        raise ValueError(kind)

    def text(self, line):
        parts = []
        if self.head:
            parts.append('.incbin "pre"\n')
        parts += self.pre
        if self.org:
            parts += ['.org ', num(self.pc), '\n']
        parts += [line, '\n'] if not isinstance(line, list) else line + ['\n']
        parts += self.post
        return S(*parts)

    def files(self):
        return {'pre': {'bytes': AbsBytes(self.head) if self.head else b''}}


PRE_FILES = {'pre': {'bytes': AbsBytes([opq('pre', sym('L0', 0, 1 << 20))])}}


def ufield(l, n):
    '''value of a literal or label in an unsigned n-bit field'''
    v = l.v
    if l.kind == 'neg':
        if not inr(v, -(1 << (n - 1)), -1):
            raise Reject()
        return binop('+', v, 1 << n)
    if not inr(v, 0, (1 << n) - 1):
        raise Reject()
    return v


def sfield(l, n):
    '''two's complement pattern of a literal in a signed n-bit field'''
    v = l.v
    if l.kind == 'hex':
        if not inr(v, 0, (1 << n) - 1):
            raise Reject()
        return v
    if not inr(v, -(1 << (n - 1)), (1 << (n - 1)) - 1):
        raise Reject()
    return bits(v, 0, n)


def islab(l):
    return l.kind in ('lab', 'blab')


def case(key, asm, line, enc, prog=None, **kw):
    '''line(p) -> (text, state); enc(p, state) -> list of byte segments or raises Reject'''

    def build():
        p = (prog or Prog)()
        text, st = line(p)
        full = p.text(text)

        def expect(r):
            try:
                out = enc(p, st)
            except Reject:
                return ('reject',)
            if isinstance(out, tuple):
                return out
            return ('bytes', p.head + list(out))
        return full, p.inputs, expect
    return Case(key, asm, build, files=PRE_FILES, **kw)


def mixed(word):
    '''spellings of a mnemonic or register that must be equivalent'''
    out = [word.upper(), word.lower()]
    c = word.capitalize()
    if c not in out and len(word) > 1:
        out.append(c)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


class Registered(Case):
    '''the set of mnemonics the class registers is exactly the specified one'''

    def __init__(self, asm, names, extra=()):
        self.key, self.asm, self.names, self.extra = 'registered mnemonics', asm, set(names), set(extra)

    def describe(self):
        return 'instruction table of %s' % self.asm[1]

    def decide(self):
        it = interp()
        a = fresh(*self.asm)
        have = set(it.getattr(a, 'instructions'))
        out = []
        for n in sorted(self.names - have):
            out.append(Verdict(self.key, 'violation', 'mnemonic %s is not accepted' % n, n, self.asm[1]))
        if not self.extra:
            for n in sorted(have - self.names):
                out.append(Verdict(self.key, 'violation', 'mnemonic %s is accepted but does not exist' % n, n, self.asm[1]))
        return out or [Verdict(self.key, 'proved')]


def registered(asm, names, extra=()):
    return Registered(asm, names, extra)


class Deviates(Case):
    '''A case whose documented outcome the current tree does not reach, in an exactly known way.

    The source is first compared with the recorded deviation: when it behaves exactly so everywhere, the one violation reported
    carries the text of the recorded finding; otherwise the documented outcome decides.'''

    def __init__(self, good, deviant, what):
        self.key, self.good, self.deviant, self.what = good.key, good, deviant, what

    def describe(self):
        return self.good.describe()

    def decide(self):
        out = self.deviant.decide()
        if any(v.kind != 'proved' for v in out) or not out:
            return self.good.decide()
        bad = [v for v in self.good.decide() if v.kind == 'violation']
        w = bad[0] if bad else out[0]
        return [Verdict(self.key, 'violation', 'recorded deviation: ' + self.what, w.witness, w.construct, w.trace)]
