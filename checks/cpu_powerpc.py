'''PowerPC encodings against a table produced with an independent assembler.'''
from .common import *
from .ppc_table import FORMS, POWER

ASM = ('cpu.powerpc', 'AssemblerPowerPC')
RULE = 'for every mnemonic x operand form, the word the source can emit equals the PowerPC instruction format (opcode, register fields, immediate, branch distance or address), big endian; any other combination of operands, unaligned and out of range operands are refused'
EXPLANATION = '''Abstract interpretation of the PowerPC assembler over every mnemonic whose operands the repository implements, every register name
in every position and unknown immediates, bit numbers, branch distances, label addresses and program counters. Opcodes and field
positions come from the LLVM assembler (and the POWER manual for the mnemonics LLVM does not know).'''
ASSUMPTIONS = ['literals below 2**70, program counter a multiple of four below 2**32, label addresses below 2**64',
               'the mnemonics with special register, condition register, displacement and vector operands have no implementation and are refused: they belong to C41',
               'numbers given as branch targets are byte distances; negative numbers in unsigned fields and labels above the positive range of signed immediates may be refused']
MIN_OBLIGATIONS = 3000

REG = {c + str(i): i for i in range(32) for c in 'rR'}
FREG = {c + str(i): i for i in range(32) for c in 'fF'}
SETS = {'r': REG, 'z': dict(REG, **{'0': 0}), 'f': FREG}
FIXED = {'r': (('r9', 9), ('R18', 18), ('r30', 30), ('r5', 5)), 'f': (('f9', 9), ('F18', 18), ('f30', 30), ('f5', 5))}
FIXED['z'] = FIXED['r']
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')

T = {}
for kinds, shifts, widths, names in FORMS + POWER:
    for x in names.split():
        mn, base = x.split(':')
        T.setdefault(mn, []).append((kinds, shifts, widths, int(base, 16)))


class P4(Prog):
    def __init__(self):
        super().__init__(palign=4)


class Bare(Prog):
    def __init__(self):
        super().__init__(org=False, incbin=False)


def value(p, l, kind, width):
    '''-> (value in place, may be refused)'''
    if kind in 'nu':
        return ufield(l, width), l.kind == 'neg'
    if kind == 's':
        if islab(l):
            return ufield(l, width), not le(l.v, (1 << (width - 1)) - 1)
        return sfield(l, width), False
    n = width + 2
    if islab(l):
        d = binop('-', l.v, p.pc) if kind == 'p' else l.v
        if not inr(d, -(1 << (n - 1)), (1 << (n - 1)) - 1):
            raise Reject()
    else:
        d = sfield(l, n)
    return binop('*', bits(d, 2, width), 4), False


def aligned(p, kind, off, name):
    '''a number that is 4N + off'''
    n = p.sym(name, 1, BIG)
    v = binop('+', binop('*', n, 4), off)
    if kind == 'neg':
        v = binop('-', binop('*', n, 4), off)
        return Lit(S('-', num(v)), binop('-', 0, v), kind)
    if kind == 'hex':
        return Lit(S('0x', num(v, 16)), v, kind)
    return Lit(S(num(v)), v, kind)


def build(mn, form, full, lit, lk, off=0):
    '''full: the register operand that takes every name; lit: the literal operand that takes the kind lk, the others are decimal'''
    kinds, shifts, widths, base = form

    def line(p):
        parts, st = [], []
        for i, k in enumerate(kinds):
            parts.append(', ' if i else ' ')
            if k in SETS:
                t, v = p.choice('R%d' % i, SETS[k]) if full == i else FIXED[k][i]
                parts.append(t)
                st.append(v)
                continue
            kind = lk if lit == i else 'dec'
            if k in 'pa' and lit == i:
                l = p.lit(kind, name='N%d' % i, sc=4, off=off) if kind in ('lab', 'blab') else aligned(p, kind, off, 'N%d' % i)
            elif lit == i:
                l = p.lit(kind, name='N%d' % i, hexp='0x')
            else:
                l = Lit(S('8'), 8, 'dec') if k in 'pa' else Lit(S('1'), 1, 'dec')
            parts.append(l.text)
            st.append(l)
        return S(p.fin('mn', mixed(mn))[0], *parts), st

    def enc(p, st):
        w, free = base, False
        for k, s, n, v in zip(kinds, shifts, widths, st):
            if isinstance(v, Lit):
                if off and k in 'pa':
                    raise Reject()
                v, fr = value(p, v, k, n)
                free |= fr
            w = binop('+', w, binop('*', v, 1 << s))
        out = be_bytes(w, 4)
        return ('bytes_or_reject', p.head + out) if free else out
    return line, enc


def accepts(kind, word):
    if kind in SETS:
        return word in SETS[kind]
    return word not in REG and word not in FREG


GOOD = {'r': 'r4', 'z': 'r4', 'f': 'f4', 's': '1', 'u': '1', 'n': '1', 'p': '8', 'a': '8'}
NAME = {'r': 'rN', 'z': 'rN|0', 'f': 'fN', 's': 'simm', 'u': 'uimm', 'n': 'num', 'p': 'target', 'a': 'address'}


def cases(tier):
    for mn in sorted(T):
        for form in T[mn]:
            kinds = form[0]
            regs = [i for i, k in enumerate(kinds) if k in SETS]
            lits = [i for i, k in enumerate(kinds) if k not in SETS]
            name = ' '.join([mn] + [NAME[k] for k in kinds])
            for i in regs:
                line, enc = build(mn, form, i, lits[0] if lits else None, 'dec')
                yield case('%s every register %d' % (name, i + 1), ASM, line, enc, prog=P4)
            for i in lits:
                for k in KINDS:
                    line, enc = build(mn, form, None, i, k)
                    yield case('%s %s in %d' % (name, k, i + 1), ASM, line, enc, prog=P4)
                if kinds[i] in 'pa':
                    for k in KINDS:
                        for off in (1, 2, 3) if tier != 'quick' or k == 'lab' else (2,):
                            line, enc = build(mn, form, None, i, k, off)
                            yield case('%s %s unaligned by %d' % (name, k, off), ASM, line, enc, prog=P4)
            if not kinds:
                line, enc = build(mn, form, None, None, None)
                yield case(name, ASM, line, enc, prog=P4)
            good = [GOOD[k] for k in kinds]
            tries = [(good[:i] + [w] + good[i + 1:]) for i in range(len(kinds))
                     for w in (('r32', 'f4', 'r', 'r-1', '5') if kinds[i] in 'rz' else ('f32', 'r4', '5') if kinds[i] == 'f' else ('r4', 'R31', 'f4', 'F31'))]
            tries += [good[:i] + good[i + 1:] for i in range(len(kinds))] + [good + [w] for w in ('r4', '1', 'f4')]
            for words in tries:
                if any(len(f[0]) == len(words) and all(accepts(k, w) for k, w in zip(f[0], words)) for f in T[mn]):
                    continue
                s = ' '.join([mn] + words)
                yield case('%s refuses %s' % (name, s), ASM, lambda p, s=s: (S(s), None), _rej, prog=Bare)
    yield registered(ASM, [x.upper() for x in T], extra=('any',))


def _rej(p, st):
    raise Reject()
