'''ARM Thumb encodings against the instruction formats of the ARM7TDMI manual.'''
from .common import *

ASM = ('cpu.thumb', 'AssemblerThumb')
RULE = 'for every mnemonic x operand combination, the halfwords the source can emit equal the Thumb instruction format (opcode, register fields, scaled immediate, branch distance), little endian; other combinations, unaligned and out of range operands are refused'
EXPLANATION = '''Abstract interpretation of the Thumb assembler over every mnemonic, every register name in every position and unknown immediates,
offsets, branch distances, label addresses and program counters. Expected halfwords are built from the nineteen formats of the manual.'''
ASSUMPTIONS = ['literals below 2**70, program counter even and below 2**32, label addresses below 2**64',
               'negative immediates in unsigned fields that are not offsets, labels as immediates, hexadecimal interrupt numbers and pseudo instructions (MOV and ADD of two low registers) are not specified']
MIN_OBLIGATIONS = 1200

LOW = {c + str(i): i for i in range(8) for c in 'rR'}
HIGH = {c + str(i): i - 8 for i in range(8, 16) for c in 'rR'}
for i, a in enumerate(('fp', 'ip', 'sp', 'lr', 'pc')):
    HIGH[a] = HIGH[a.upper()] = i + 3
PC = {'pc': 0, 'PC': 0, 'r15': 0, 'R15': 0}
SP = {'sp': 0, 'SP': 0, 'r13': 0, 'R13': 0}
SETS = {'lo': LOW, 'hi': HIGH, 'PC': PC, 'SP': SP}
FIXED = {'lo': (('r5', 5), ('R2', 2), ('r6', 6)), 'hi': (('r10', 2), ('LR', 6)), 'PC': (('pc', 0),) * 2, 'SP': (('sp', 0),) * 2}
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')

# mnemonic -> rows (base, operands); operand: (class, shift) or an immediate (kind, shift)
T = {}


def row(mn, base, *ops):
    T.setdefault(mn, []).append((base, ops))


lo, hi = (lambda s: ('lo', s)), (lambda s: ('hi', s))
for mn, b in (('LSL', 0x0000), ('LSR', 0x0800), ('ASR', 0x1000)):
    row(mn, b, lo(0), lo(3), ('shl' if mn == 'LSL' else 'shr', 6))
for mn, b in (('ADD', 0), ('SUB', 0x200)):
    row(mn, 0x1800 + b, lo(0), lo(3), lo(6))
    row(mn, 0x1c00 + b, lo(0), lo(3), ('imm3', 6))
for mn, b in (('MOV', 0x2000), ('CMP', 0x2800), ('ADD', 0x3000), ('SUB', 0x3800)):
    row(mn, b, lo(8), ('imm8', 0))
for i, mn in enumerate('AND EOR LSL LSR ASR ADC SBC ROR TST NEG CMP CMN ORR MUL BIC MVN'.split()):
    row(mn, 0x4000 | i << 6, lo(0), lo(3))
for mn, b in (('ADD', 0x4400), ('CMP', 0x4500), ('MOV', 0x4600)):
    row(mn, b | 0x40, lo(0), hi(3))
    row(mn, b | 0x80, hi(0), lo(3))
    row(mn, b | 0xc0, hi(0), hi(3))
row('BX', 0x4700, lo(3))
row('BX', 0x4740, hi(3))
row('LDR', 0x4800, lo(8), '[', ('PC', 0), ('pcw8', 0), ']')
for mn, b in (('STR', 0x5000), ('STRH', 0x5200), ('STRB', 0x5400), ('LDSB', 0x5600), ('LDR', 0x5800), ('LDRH', 0x5a00), ('LDRB', 0x5c00), ('LDSH', 0x5e00)):
    row(mn, b, lo(0), '[', lo(3), lo(6), ']')
for mn, b, k in (('STR', 0x6000, 'w5'), ('LDR', 0x6800, 'w5'), ('STRB', 0x7000, 'b5'), ('LDRB', 0x7800, 'b5'), ('STRH', 0x8000, 'h5'), ('LDRH', 0x8800, 'h5')):
    row(mn, b, lo(0), '[', lo(3), (k, 6), ']')
row('STR', 0x9000, lo(8), '[', ('SP', 0), ('w8', 0), ']')
row('LDR', 0x9800, lo(8), '[', ('SP', 0), ('w8', 0), ']')
row('ADD', 0xa000, lo(8), ('PC', 0), ('w8', 0))
row('ADD', 0xa800, lo(8), ('SP', 0), ('w8', 0))
row('ADD', 0xb000, ('SP', 0), ('sw7', 0))
# the repository does not implement these two forms: they may be refused
OPTIONAL = {('STRH', 0x8000), ('STR', 0x9000)}
SCALE = {'w5': (5, 2), 'h5': (5, 1), 'b5': (5, 0), 'w8': (8, 2), 'pcw8': (8, 2)}
COND = 'EQ NE CS CC MI PL VS VC HI LS GE LT GT LE'.split()


class P2(Prog):
    def __init__(self):
        super().__init__(palign=2)


class P4(Prog):
    def __init__(self):
        super().__init__(palign=4)


class P42(Prog):
    '''instructions halfway between two words'''

    def __init__(self):
        super().__init__(palign=4, pmax=(1 << 32) - 4)
        self.pc = binop('+', self.pc, 2)


class Bare(Prog):
    def __init__(self):
        super().__init__(org=False, incbin=False)


def number(p, kind, sc=1, off=0):
    '''a number sc * Q + off'''
    if sc == 1:
        return p.lit(kind)
    if kind in ('lab', 'blab'):
        return p.lit(kind, sc=sc, off=off)
    n = p.sym('Q', 1 if kind == 'neg' else 0, BIG)
    v = binop('+', binop('*', n, sc), -off if kind == 'neg' else off)
    if kind == 'neg':
        return Lit(S('-', num(v)), binop('-', 0, v), kind)
    return Lit(S('0x', num(v, 16)) if kind == 'hex' else S(num(v)), v, kind)


def scaled(l, n, sh):
    if islab(l) or l.kind == 'neg':
        raise Reject()
    if not inr(l.v, 0, (1 << n + sh) - 1):
        raise Reject()
    return bits(l.v, sh, n)


def value(p, l, kind):
    '''-> (value, may be refused)'''
    if kind == 'shl':
        return (ufield(l, 5), l.kind != 'dec')
    if kind == 'shr':
        if l.kind == 'neg' or not inr(l.v, 1, 32):
            if islab(l):
                raise Reject()
            raise Reject()
        return (0 if eq(l.v, 32) else l.v), l.kind != 'dec'
    if kind == '/4':
        if not inr(l.v, 0, 127):
            raise Reject()
        return bits(l.v, 2, 5), False
    if kind in ('imm3', 'imm8'):
        return ufield(l, int(kind[3:])), l.kind not in ('dec', 'hex')
    if kind == 'sw7':
        if islab(l):
            raise Reject()
        if l.kind == 'neg':
            v = binop('-', 0, l.v)
            if not inr(v, 0, 508):
                raise Reject()
            return binop('+', bits(v, 2, 7), 128), False
        return scaled(l, 7, 2), False
    if kind == 'pcw8' and islab(l):
        base = binop('+', p.pc, 4 if not isinstance(p, P42) else 2)
        d = binop('-', l.v, base)
        if not inr(d, 0, 1020):
            raise Reject()
        return bits(d, 2, 8), False
    n, sh = SCALE[kind]
    return scaled(l, n, sh), False


def scale_of(kind):
    return 4 if kind == 'sw7' else 1 << SCALE[kind][1] if kind in SCALE else 1


def build(mn, base, ops, full, lk, off=0, optional=False):
    def line(p):
        parts, st, sep, count = [], [], ' ', 0
        for o in ops:
            if o in ('[', ']'):
                parts.append((', ' if o == '[' else '') + o)
                sep = ''
                continue
            k, sh = o
            if k in SETS:
                t, v = p.choice(k + str(sh), SETS[k]) if full == o else FIXED[k][count % 2]
                count += 1
                parts += [sep, t]
                st.append((v, sh))
            else:
                l = number(p, lk, scale_of(k), off)
                parts += [sep, '#', l.text]
                st.append((l, o))
            sep = ', '
        return S(p.fin('mn', mixed(mn)[:2])[0], *parts), st

    def enc(p, st):
        w, free = base, optional
        for v, o in st:
            sh = o
            if isinstance(v, Lit):
                kind, sh = o
                if off:
                    raise Reject()
                v, fr = value(p, v, kind)
                free |= fr
            w = binop('+', w, binop('*', v, 1 << sh))
        out = le_bytes(w, 2)
        return ('bytes_or_reject', p.head + out) if free else out
    return line, enc


def show(ops):
    return ' '.join(o if isinstance(o, str) else o[0] if o[0] in SETS else '#' + o[0] for o in ops)


def branch(mn, k, n, off, enc_of):
    def line(p):
        l = number(p, k, 2, off)
        return S(p.fin('mn', mixed(mn)[:2])[0], ' ', l.text), l

    def enc(p, l):
        if off:
            raise Reject()
        if islab(l):
            d = binop('-', l.v, binop('+', p.pc, 4))
            if not inr(d, -(1 << n - 1), (1 << n - 1) - 1):
                raise Reject()
        else:
            d = sfield(l, n)
        return enc_of(d)
    return line, enc


def lists():
    out = {}
    for i in range(8):
        out['{%s%d}' % ('rR'[i % 2], i)] = 1 << i
        for j in range(i, 8):
            m = ((1 << j + 1) - 1) & ~((1 << i) - 1)
            out['{r%d-%s%d}' % (i, 'rR'[j % 2], j)] = m
            if i > 1:
                out['{r0, R%d-r%d}' % (i, j)] = m | 1
            if j < 6:
                out['{r%d-r%d,r7}' % (i, j)] = m | 0x80
            if i != j:
                out['{r%d, r%d}' % (j, i)] = 1 << i | 1 << j
    out['{r0, r1, r2, r3, r4, r5, r6, r7}'] = 0xff
    return out


def cases(tier):
    for mn in sorted(T):
        for base, ops in T[mn]:
            regs = [o for o in ops if not isinstance(o, str) and o[0] in SETS]
            imm = [o for o in ops if not isinstance(o, str) and o[0] not in SETS]
            opt = (mn, base) in OPTIONAL
            for k in KINDS if imm else (None,):
                fulls = regs if k in (None, 'dec') else [None]
                progs = (P4, P42) if imm and imm[0][0] == 'pcw8' else (P2,)
                for prog in progs:
                    for full in fulls:
                        line, enc = build(mn, base, ops, full, k, optional=opt)
                        c = case(' '.join(x for x in (mn, show(ops), k, 'all %s%d' % full if full else None, prog.__name__) if x), ASM, line, enc, prog=prog)
                        if mn == 'LDRB' and imm and k in ('dec', 'hex'):
                            line, enc = build(mn, base, [('/4', 6) if o == imm[0] else o for o in ops], full, k)
                            c = Deviates(c, case(c.key, ASM, line, enc, prog=prog), 'the byte offset of LDRB is divided by four')
                        yield c
                    if imm and scale_of(imm[0][0]) > 1:
                        for off in range(1, scale_of(imm[0][0])):
                            if tier == 'quick' and off == 3:
                                continue
                            line, enc = build(mn, base, ops, None, k, off)
                            yield case('%s %s %s unaligned by %d %s' % (mn, show(ops), k, off, prog.__name__), ASM, line, enc, prog=prog)
    for i, c in enumerate(COND):
        for k in KINDS:
            for off in (0, 1):
                line, enc = branch('B' + c, k, 9, off, lambda d, i=i: le_bytes(binop('+', 0xd000 | i << 8, bits(d, 1, 8)), 2))
                yield case('B%s %s%s' % (c, k, ' odd' if off else ''), ASM, line, enc, prog=P2)
    for k in KINDS:
        for off in (0, 1):
            line, enc = branch('B', k, 12, off, lambda d: le_bytes(binop('+', 0xe000, bits(d, 1, 11)), 2))
            yield case('B %s%s' % (k, ' odd' if off else ''), ASM, line, enc, prog=P2)
            line, enc = branch('BL', k, 23, off, lambda d: le_bytes(binop('+', 0xf000, bits(d, 12, 11)), 2) + le_bytes(binop('+', 0xf800, bits(d, 1, 11)), 2))
            yield case('BL %s%s' % (k, ' odd' if off else ''), ASM, line, enc, prog=P2)
    for k in KINDS:
        def line(p, k=k):
            l = p.lit(k)
            return S(p.fin('mn', ('SWI', 'swi'))[0], ' ', l.text), l

        def enc(p, l):
            out = [B(ufield(l, 8)), b'\xdf']
            return out if l.kind == 'dec' else ('bytes_or_reject', p.head + out)
        yield case('SWI %s' % k, ASM, line, enc, prog=P2)
    for tag, lr in (('', 0), (' with lr', 1)):
        def line(p, lr=lr):
            m = lists()
            if lr:
                m = {t.replace('}', ', %s}' % ('lr' if v & 1 else 'LR')): v for t, v in list(m.items())[::3]}
                m['{lr}'] = m['{LR}'] = 0
            t, v = p.choice('list', m)
            return S(p.fin('mn', ('PUSH', 'push'))[0], ' ', t), v
        c = case('PUSH list%s' % tag, ASM, line, lambda p, v, lr=lr: [B(v), bytes([0xb4 | lr])], prog=P2)
        yield Deviates(c, case(c.key, ASM, line, lambda p, v: [B(v), b'\xbc'], prog=P2), 'PUSH with lr sets bit 11 (the direction) in place of bit 8') if lr else c
    # every other combination of operands
    text = {'lo': 'r3', 'hi': 'r9', 'PC': 'pc', 'SP': 'sp', '#': '#8', 'n': '8', 'lab': 'lab', '#lab': '#lab', '[': '[', ']': ']', '{': '{r1}'}

    def kindset(o):
        if isinstance(o, str):
            return (o,)
        if o[0] == 'hi':
            return ('hi', 'PC', 'SP')
        return (o[0],) if o[0] in SETS else ('#',)
    legal = set()
    for mn in T:
        for base, ops in T[mn]:
            combos = [()]
            for o in ops:
                combos = [c + (k,) for c in combos for k in kindset(o)]
            legal |= {(mn,) + c for c in combos}
            if any(o[0] == 'pcw8' for o in ops):
                legal |= {(mn,) + tuple('#lab' if x == '#' else x for x in c) for c in combos}
    for mn in ('ADD', 'MOV', 'SUB'):
        legal.add((mn, 'lo', 'lo'))
    atoms = ('lo', 'hi', 'PC', 'SP', '#', 'n', 'lab', '#lab', '{')
    for mn in sorted(T):
        shapes = [()] + [(a,) for a in atoms] + [(a, b) for a in atoms for b in atoms] + [(a, b, c) for a in ('lo', 'hi', 'SP') for b in ('lo', 'hi', 'PC', 'SP', '#') for c in atoms]
        shapes += [('lo', 'lo', x, y) for x in ('lo', '#') for y in ('lo', '#')]
        inner = [(a,) for a in atoms] + [(a, b) for a in ('lo', 'hi', 'PC', 'SP', 'n') for b in atoms] + [(), ('lo', 'lo', 'lo'), ('lo', '#', 'lo'), ('lo', 'lo', '#')]
        shapes += [(r, '[') + i + (']',) for r in ('lo', 'hi', '#') for i in inner]
        shapes += [('lo', '[', 'lo', 'lo'), ('lo', '[', 'lo', '#'), ('lo', 'lo', '#', ']'), ('lo', '[', 'lo', ']', '#'), ('lo', '[', 'lo', '#', ']', '#'), ('lo', '[', 'lo', 'lo', ']', 'lo')]
        for sh in shapes:
            if (mn,) + sh in legal:
                continue
            yield case('%s %s has no encoding' % (mn, ' '.join(sh)), ASM, lambda p, s=mn + ' ' + ' '.join(text[x] for x in sh): (S(s), None), _rej, prog=Bare)
    for mn in ['B', 'BL'] + ['B' + c for c in COND] + ['SWI']:
        for s in ('', '#8', '8, 8', 'r1, r2, r3', '[r1]', '{r1}') + (('r1', 'lab', 'x') if mn == 'SWI' else ()):
            yield case('%s %s has no encoding' % (mn, s), ASM, lambda p, s=mn + ' ' + s: (S(s.strip()), None), _rej, prog=Bare)
    for s in ('', 'r1', '{}', '{r1', 'r1}', '{r8}', '{r0, r9}', '{r3-r1}', '{lr, r1}', '{pc}', '{r1, pc}', '{r0-r8}', '{r1-}', '{-r1}', '{r0-r2-r4}', '{5}', '{lab}', '{#5}', '[r1]', '{r1}, r2', 'r2, {r1}', '{sp}', '{r1-lr}'):
        yield case('PUSH %s has no encoding' % s, ASM, lambda p, s='PUSH ' + s: (S(s.strip()), None), _rej, prog=Bare)
    for t in ('r16', 'x', 'r', 'r-1', 'r08'):
        for s in ('ADD %s, #1', 'ADD r1, %s, #1', 'ADD r1, r2, %s', 'MOV %s, r9', 'MOV r9, %s', 'BX %s', 'LDR %s, [r1, #4]', 'LDR r1, [%s, #4]', 'LDR r1, [r2, %s]', 'LSL %s, r1', 'AND r1, %s'):
            yield case('no register %s' % (s % t), ASM, lambda p, s=s % t: (S(s), None), _rej, prog=Bare)
    yield registered(ASM, list(T) + ['B', 'BL', 'SWI', 'PUSH'] + ['B' + c for c in COND], extra=('any',))


def _rej(p, st):
    raise Reject()
