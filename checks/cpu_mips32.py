'''MIPS32 encodings against the instruction formats of the architecture manual.'''
from .common import *

BE = ('cpu.mips32', 'AssemblerMIPS32')
LE = ('platforms.psx', 'AssemberPSX')
RULE = 'for every mnemonic, the word the source can emit equals the MIPS instruction format (opcode, register fields, immediate, branch distance or jump target) in the byte order of the class; any other combination of operands is refused'
EXPLANATION = '''Abstract interpretation of the MIPS assembler, big endian and little endian (PlayStation), over every mnemonic, every register name
in every position, and unknown immediates, offsets, shift counts, label addresses and program counters. Expected words are built from
the R, I and J formats of the manual.'''
ASSUMPTIONS = ['literals below 2**70, program counter a multiple of four below 2**32, label addresses below 2**64',
               'lui, lhi and llo take a 32 bit value and keep its high or low half, as the repository tests specify',
               'jump targets outside the current 256 MB region or unaligned, labels in load and store offsets, labels above the positive range of signed immediates and negative jump targets or shift counts are not specified beyond their field']
MIN_OBLIGATIONS = 900

ALIAS = 'zero at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra'.split()
REGS = {'$%d' % i: i for i in range(32)}
REGS.update({'$' + a: i for i, a in enumerate(ALIAS)})
REGS.update({'$' + a.upper(): i for i, a in enumerate(ALIAS)})
FIXED = (('$9', 9), ('$s2', 18), ('$30', 30), ('$A1', 5))
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')

# R format: mnemonic -> (function, fields of the operands)
R = {}
for mn, f in (('add', 32), ('addu', 33), ('sub', 34), ('subu', 35), ('and', 36), ('or', 37), ('xor', 38), ('nor', 39), ('slt', 42), ('sltu', 43)):
    R[mn] = f, ('rd', 'rs', 'rt')
for mn, f in (('sllv', 4), ('srlv', 6), ('srav', 7)):
    R[mn] = f, ('rd', 'rt', 'rs')
for mn, f in (('sll', 0), ('srl', 2), ('sra', 3)):
    R[mn] = f, ('rd', 'rt', 'sa')
for mn, f in (('mult', 24), ('multu', 25), ('div', 26), ('divu', 27)):
    R[mn] = f, ('rs', 'rt')
for mn, f in (('mfhi', 16), ('mflo', 18)):
    R[mn] = f, ('rd',)
for mn, f in (('mthi', 17), ('mtlo', 19), ('jr', 8)):
    R[mn] = f, ('rs',)
R['jalr'] = 9 | 31 << 11, ('rs',)
R['syscall'] = 12, ()
R['break'] = 13, ()
# I and J formats
I = {}
for mn, op, kind in (('addi', 8, 'simm'), ('addiu', 9, 'uimm'), ('slti', 10, 'simm'), ('sltiu', 11, 'uimm'), ('andi', 12, 'uimm'), ('ori', 13, 'uimm'), ('xori', 14, 'uimm')):
    I[mn] = op, ('rt', 'rs', kind)
for mn, op, kind in (('lui', 15, 'high'), ('lhi', 25, 'high'), ('llo', 24, 'low')):
    I[mn] = op, ('rt', kind)
for mn, op in (('beq', 4), ('bne', 5)):
    I[mn] = op, ('rs', 'rt', 'rel')
for mn, op in (('blez', 6), ('bgtz', 7)):
    I[mn] = op, ('rs', 'rel')
for mn, op in (('j', 2), ('jal', 3), ('trap', 26)):
    I[mn] = op, ('target',)
for mn, op in (('lb', 32), ('lh', 33), ('lw', 35), ('lbu', 36), ('lhu', 37), ('sb', 40), ('sh', 41), ('sw', 43)):
    I[mn] = op, ('rt', 'offset')
SHIFT = {'rs': 21, 'rt': 16, 'rd': 11, 'sa': 6}


class P4(Prog):
    def __init__(self):
        super().__init__(palign=4)


class Bare(Prog):
    def __init__(self):
        super().__init__(org=False, incbin=False)


def forms(mn):
    if mn in R:
        return R[mn][1]
    f = I[mn][1]
    return f[:-1] + ('offset', '(', 'rs', ')') if f[-1] == 'offset' else f


def value(p, l, kind):
    '''-> (position, value, may be refused)'''
    v = l.v
    if kind == 'sa':
        return ufield(l, 5), l.kind == 'neg'
    if kind == 'uimm':
        return ufield(l, 16), l.kind == 'neg'
    if kind in ('simm', 'offset'):
        if islab(l):
            return ufield(l, 16), kind == 'offset' or not le(v, 0x7fff)
        return sfield(l, 16), False
    if kind in ('high', 'low'):
        return bits(ufield(l, 32), 16 if kind == 'high' else 0, 16), l.kind == 'neg'
    if kind == 'target':
        v = ufield(l, 32)
        return bits(v, 2, 26), l.kind == 'neg' or not le(v, 0xfffffff)
    if kind == 'rel':
        if islab(l):
            d = binop('-', v, binop('+', p.pc, 4))
            if not inr(d, -(1 << 17), (1 << 17) - 1):
                raise Reject()
        else:
            d = sfield(l, 18)
        return bits(d, 2, 16), False
    raise KeyError(kind)


def build(mn, full, lk, little, spell=True, off=0):
    ops = forms(mn)

    def line(p):
        parts, st = [], []
        sep = ' '
        for i, o in enumerate(ops):
            if o in '()':
                parts.append(o)
                sep = ''
                continue
            if o in ('rs', 'rt', 'rd'):
                t, v = p.choice(o, REGS) if full == o else FIXED[i]
                parts += [sep, t]
                st.append((o, v))
            else:
                l = p.lit(lk, hexp='0x', **(dict(sc=4, off=off) if o in ('rel', 'target') else {})) if lk != 'odd' else p.lit('dec')
                if o in ('rel', 'target') and lk in ('dec', 'neg', 'hex'):
                    l = aligned(p, lk, off)
                parts += [sep, l.text]
                st.append((o, l))
            sep = ', '
        return S(p.fin('mn', mixed(mn))[0] if spell else mn, *parts), st

    def enc(p, st):
        w = (R[mn][0] if mn in R else I[mn][0] << 26)
        free = False
        for o, v in st:
            if isinstance(v, Lit):
                if o == 'rel' and off:
                    raise Reject()
                free |= bool(o == 'target' and off)
                v, fr = value(p, v, o)
                free |= fr
            w = binop('+', w, binop('*', v, 1 << SHIFT.get(o, 0)))
        out = (le_bytes if little else be_bytes)(w, 4)
        return ('bytes_or_reject', p.head + out) if free else out
    return line, enc


def aligned(p, kind, off):
    '''a number that is 4N + off'''
    n = p.sym('Q', 1, BIG)
    v = binop('+', binop('*', n, 4), off)
    if kind == 'neg':
        v = binop('-', binop('*', n, 4), off)
        return Lit(S('-', num(v)), binop('-', 0, v), kind)
    if kind == 'hex':
        return Lit(S('0x', num(v, 16)), v, kind)
    return Lit(S(num(v)), v, kind)


def cases(tier):
    for little, asm in ((0, BE), (1, LE)):
        tag = 'little ' if little else ''
        for mn in sorted(R) + sorted(I):
            ops = forms(mn)
            regs = [o for o in ops if o in ('rs', 'rt', 'rd')]
            lits = [o for o in ops if o not in ('rs', 'rt', 'rd', '(', ')')]
            kinds = KINDS if lits else (None,)
            for k in kinds:
                for full in regs or [None]:
                    if full and k not in (None, 'dec') and not (tier != 'quick' and k == 'lab') and full != regs[0]:
                        continue
                    if little and tier == 'quick' and (full and full != regs[0]):
                        continue
                    f = full if k in (None, 'dec') or (tier != 'quick' and k == 'lab') else None
                    if little and tier == 'quick':
                        f = None
                    line, enc = build(mn, f, k, little)
                    yield case(' '.join(x for x in (tag + mn, ', '.join(ops), k, ('all ' + f) if f else None) if x), asm, line, enc, prog=P4)
            if 'rel' in ops or 'target' in ops:
                for k in KINDS:
                    for off in (1, 2, 3) if tier != 'quick' or k == 'lab' else (2,):
                        line, enc = build(mn, None, k, little, off=off)
                        yield case('%s%s %s unaligned by %d' % (tag, mn, k, off), asm, line, enc, prog=P4)
        if little:
            yield registered(asm, [x.upper() for x in list(R) + list(I)], extra=('any',))
            break
        # wrong operands
        text = {'rs': '$4', 'rt': '$t1', 'rd': '$ra', '(': '(', ')': ')'}
        for mn in sorted(R) + sorted(I):
            ops = forms(mn)
            good = [text.get(o, '8') for o in ops]

            def bad(name, toks):
                return case('%s refuses %s' % (mn, name), asm, lambda p, s=mn + ' ' + ' '.join(toks): (S(s.strip()), None), _rej, prog=Bare)
            for i, o in enumerate(ops):
                if o in '()':
                    continue
                for w in ('$32', '$x', '$', 'lab', '5', '(', '$-1') if o in text else ('$4', '$t0', '$ra'):
                    yield bad('%s as operand %d' % (w, i + 1), good[:i] + [w] + good[i + 1:])
                yield bad('a missing operand %d' % (i + 1), good[:i] + good[i + 1:])
            for w in ('$4', '5', 'lab', '('):
                yield bad('%s as an extra operand' % w, good + [w])
            if 'offset' in ops:
                for s in ('$4 8 $5', '$4 8 ( $5', '$4 ( $5 )', '$4 8 ( 8 )', '$4 8 ( $32 )', '$4 8 ( )', '$4 8', '$4 ( 8 ) $5', '8 8 ( $5 )'):
                    yield bad(s, [s])
    yield registered(BE, [x.upper() for x in list(R) + list(I)], extra=('any',))


def _rej(p, st):
    raise Reject()
