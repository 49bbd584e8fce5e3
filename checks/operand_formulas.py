'''C40: a formula in an operand of an instruction encodes like its value.'''
from .common import *
from . import cpu_mos6502, cpu_lr35902, cpu_z80, cpu_intel8086, cpu_mc68000, cpu_mips32, cpu_thumb, cpu_powerpc, cpu_x86

RULE = 'for every instruction and operand form that takes a number or a label: assembling it with a formula gives exactly the bytes (or the refusal) of assembling it with the value of the formula'
EXPLANATION = '''Relational abstract interpretation: each obligation assembles the same instruction twice, on fresh assemblers, once with a formula on
labels or numbers and once with one label or literal that has the value of the formula, under the same unknown addresses, numbers and
program counter, and compares the two abstract outputs in every partition. The operand forms come from the encoding tables of the other checks.'''
ASSUMPTIONS = ['label addresses below 2**40, distances and literals below 2**34',
               'formulas with a multiplication, mask or byte selection on the target of a relative branch are not specified',
               'operands in which an operator or a sign is part of the syntax are not specified: LR35902 SP+n and ($FF00+n), Z80 index displacements, negative sums in Thumb ADD sp; Thumb SWI takes a decimal number']
MIN_OBLIGATIONS = 2500
H = 1 << 40


class Tmpl:
    '''one instruction with one operand replaced by {}'''

    def __init__(self, asm, name, text, hexp='0x', palign=1, sc=1, rel=False, labels=True, positive=False, hexa=True, not_value=None):
        self.asm, self.name, self.text, self.hexp, self.palign, self.sc, self.rel = asm, name, text, hexp, palign, sc, rel
        self.labels, self.positive, self.hexa, self.not_value = labels, positive, hexa, not_value


def templates():
    out = []

    def put(*a, **kw):
        out.append(Tmpl(*a, **kw))
    # MOS 6502
    x = cpu_mos6502
    F = {'imm': '#{}', 'mem': '{}', 'memx': '{},X', 'memy': '{}, Y', 'ind': '({})', 'indx': '({},X)', 'indy': '({}),Y'}
    rows = {'imm': ('imm',), 'mem': ('zp', 'abs'), 'memx': ('zpx', 'absx'), 'memy': ('zpy', 'absy'), 'ind': ('ind',), 'indx': ('indx',), 'indy': ('indy',)}
    for mn in sorted(x.T):
        for f, t in F.items():
            if any(r in x.T[mn] for r in rows[f]):
                put(x.ASM, '6502 %s %s' % (mn, t), '%s %s' % (mn, t), '$')
    for mn in sorted(x.BRANCH):
        put(x.ASM, '6502 %s {}' % mn, mn + ' {}', '$', rel=True)
    # LR35902
    x = cpu_lr35902
    for key, (k, op) in sorted(x.T.items()):
        if not any(o in ('n', '(n)') for o in key[1:]):
            continue
        ops = ', '.join({'n': '{}', '(n)': '({})'}.get(o, o) for o in key[1:])
        put(x.ASM, 'LR35902 %s %s' % (key[0], ops), '%s %s' % (key[0], ops), '$', rel=k == 'r8', labels=k != 's8',
            hexa=(key[0], ops) not in (('LD', '({}), A'), ('LD', 'A, ({})')))        # ($FF00+n) is another instruction
    # Z80
    x = cpu_z80
    for key, code in sorted(x.T.items()):
        ops = list(key[1:])
        if not any(o in ('n', '(n)') for o in ops):
            continue
        t = ', '.join({'n': '{}', '(n)': '({})', '(IX+d)': '(IX+3)', '(IY+d)': '(IY+3)'}.get(o, o) for o in ops)
        put(x.ASM, 'Z80 %s %s' % (key[0], t), '%s %s' % (key[0], t), '$', rel='e' in code)
    # 8086
    x = cpu_intel8086
    for key in sorted(x.T):
        ops = key[1:]
        if not x.T[key][1] or any(o == 'Sd' for o in ops):
            continue
        n = [i for i, o in enumerate(ops) if o in ('n', x.DIR) or (o in x.MEMD and o[-3] == '+')]
        if not n:
            continue
        memd = [o for o in ops if o in x.MEMD]
        # every base once, every instruction with one base
        if memd and memd[0][1:-3] not in ('BX', 'BP+SI') and not (key[0] == 'ADD' and 'CX' in ops):
            continue
        if memd and key[0] in x.ARITH + ('MOV', 'TEST', 'XCHG', 'LEA') and not ({'CX', 'DH', 'DS'} & set(ops)):
            continue
        for i in n:
            parts = []
            for j, o in enumerate(ops):
                v = '{}' if j == i else '5'
                if o == 'n':
                    parts.append(v)
                elif o == x.DIR:
                    parts.append('[%s]' % v)
                elif o in x.MEMD:
                    parts.append('[%s + %s]' % (o[1:-3].replace('+', ' + '), v))
                else:
                    parts.append(o)
            t = ', '.join(parts)
            put(x.ASM, '8086 %s %s' % (key[0], t), '%s %s' % (key[0], t), '0x', rel='e' in x.T[key][0][0] or 'e16' in x.T[key][0][0],
                not_value=3 if key[0] == 'INT' else None)        # INT 3 has an opcode of its own
    # 68000
    x = cpu_mc68000
    EA = {'#n': '#{}', '(d,An)': '({}, a3)', '(d,An,Xn)': '({}, a3, d5.l)', '(d,PC)': '({}, pc)', '(d,PC,Xn)': '({}, pc, a2)', '(n).W': '({}).w', '(n).L': '({}).l',
          'n.w': '{}.w', 'n.l': '{}.l', 'n': '{}'}
    SIMPLE = {'Dn': 'd4', 'An': 'a4', '(An)': '(a4)', '(An)+': '(a4)+', '-(An)': '-(a4)'}

    def ea68(mn, first, second, sizes=('', '.b', '.l')):
        for s in sizes:
            put(x.ASM, '68000 %s%s %s' % (mn, s, (first + ', ' + second) if second else first), '%s%s %s' % (mn, s, (first + ', ' + second) if second else first), '$',
                rel='pc' in first + second and '{}' in (first if 'pc' in first else second))
    for f, t in EA.items():
        ea68('move', t, 'd2')
        ea68('movea', t, 'a2', ('', '.l'))
        if f not in x.NOT_ALTERABLE:
            ea68('move', 'd2', t)
            ea68('move', '#5', t, ('', '.l'))
            ea68('move', '(7, a1)', t, ('',))
            ea68('move', t, '(7, a1)', ('',))
            for mn in ('ori', 'andi', 'subi', 'addi', 'eori', 'cmpi'):
                ea68(mn, '#7', t, ('', '.l'))
        else:
            ea68('move', t, '1000.l', ('', '.b'))
        if f in x.CONTROL or f in x.CLASS:
            for mn in ('jmp', 'jsr'):
                ea68(mn, t, '', ('',))
            ea68('lea', t, 'a1', ('',))
    for mn in ('ori', 'andi', 'subi', 'addi', 'eori', 'cmpi'):
        for d in ('d3', '(a3)+', '(9, a3)', '300.w'):
            ea68(mn, '#{}', d, ('', '.b', '.l') if d == 'd3' else ('',))
    for mn in ('ori', 'andi', 'eori'):
        ea68(mn, '#{}', 'ccr', ('',))
        ea68(mn, '#{}', 'sr', ('',))
    for i, c in enumerate(x.COND):
        if i > 1:
            for s in ('', '.w', '.b'):
                put(x.ASM, '68000 b%s%s {}' % (c, s), 'b%s%s {}' % (c.lower(), s), '$', 2, 2, True)
        put(x.ASM, '68000 db%s {}' % c, 'db%s d1, {}' % c.lower(), '$', 2, 2, True)
    put(x.ASM, '68000 dbra {}', 'dbra d1, {}', '$', 2, 2, True)
    # MIPS, both byte orders
    x = cpu_mips32
    for asm, tag in ((x.BE, 'MIPS'), (x.LE, 'PlayStation')):
        for mn in sorted(x.R) + sorted(x.I):
            ops = x.forms(mn)
            lits = [o for o in ops if o not in ('rs', 'rt', 'rd', '(', ')')]
            if not lits:
                continue
            words = {'rs': '$4', 'rt': '$t1', 'rd': '$ra', '(': '(', ')': ')'}
            t = ', '.join(words.get(o, '{}') for o in ops).replace(', (, ', '(').replace(', )', ')')
            r = lits[0] in ('rel', 'target')
            put(asm, '%s %s %s' % (tag, mn, t), '%s %s' % (mn, t), '0x', 4, 4 if r else 1, lits[0] == 'rel')
    # Thumb
    x = cpu_thumb
    for mn in sorted(x.T):
        for base, ops in x.T[mn]:
            imm = [o for o in ops if not isinstance(o, str) and o[0] not in x.SETS]
            if not imm or (mn, base) in x.OPTIONAL:
                continue
            words = []
            for o in ops:
                if isinstance(o, str):
                    words.append(o)
                else:
                    words.append({'lo': 'r3', 'hi': 'r9', 'PC': 'pc', 'SP': 'sp'}.get(o[0], '#{}'))
            t = ', '.join(words).replace('[, ', '[').replace(', ]', ']')
            pcw = imm[0][0] == 'pcw8'
            put(x.ASM, 'Thumb %s %s' % (mn, t), '%s %s' % (mn, t), '0x', 4 if pcw else 2, x.scale_of(imm[0][0]), pcw, labels=pcw, positive=imm[0][0] == 'sw7')
    for mn in ['B' + c for c in x.COND] + ['B', 'BL']:
        put(x.ASM, 'Thumb %s {}' % mn, mn + ' {}', '0x', 2, 2, True)
    # PowerPC
    x = cpu_powerpc
    for mn in sorted(x.T):
        for form in x.T[mn]:
            kinds = form[0]
            for i, k in enumerate(kinds):
                if k in x.SETS:
                    continue
                words = ['{}' if j == i else x.GOOD[q] for j, q in enumerate(kinds)]
                t = ', '.join(words)
                put(x.ASM, 'PowerPC %s %s' % (mn, t), '%s %s' % (mn, t), '0x', 4, 4 if k in 'pa' else 1, k in 'pa')
    # x86
    x = cpu_x86
    for mode in x.MODES:
        lines = ['%s %s, {}' % (n, r) for n in x.ARITH + ('MOV', 'TEST') for r in ('AX', 'CX', 'EAX', 'EDX')]
        lines += ['IMUL SI, DI, {}', 'IMUL ESI, EDI, {}', 'LGDT [{}]', 'SIDT [{}]']
        if mode == 64:
            lines += ['MOV RAX, {}', 'MOV RDI, {}']
        else:
            lines += ['MOV AX, [BX + {}]', 'ADD [BP + SI + {}], ECX', 'LEA EDX, [DI + {}]', 'IMUL EAX, [BX + {}], 7', 'IMUL EAX, [BX + 7], {}', 'XSAVE [SI + {}]']
        for t in lines:
            put(x.ASM, 'x86 %d %s' % (mode, t), '.bits %d\n%s' % (mode, t), '0x')
        for mn in ('JMP', 'CALL', 'JZ', 'JNLE'):
            put(x.ASM, 'x86 %d %s {}' % (mode, mn), '.bits %d\n%s {}' % (mode, mn), '0x', rel=True)
    return out


class Ctx:
    def __init__(self, t):
        self.t, self.inputs = t, {}

    def sym(self, name, lo, hi):
        self.inputs[name] = (lo, hi)
        return sym(name, lo, hi)


def mul(x, k):
    return x if k == 1 else binop('*', x, k)


def at(a, name):
    return ['.org ', num(a), '\n', name, ':\n']


# relation -> operand of the first program, labels of both, operand of the second: (formula, reference, blocks of the first, blocks of the second, backward)
def r_plus(op, back=False):
    def f(c):
        a, k = mul(c.sym('A', 0, H // c.t.sc), c.t.sc), mul(c.sym('K', 0, (1 << 20) // c.t.sc), c.t.sc)
        v = binop(op, a, k)
        if not le(0, v):
            return None
        return ['lab', op, num(k)], ['ref'], at(a, 'lab'), at(v, 'ref'), back
    return f


def r_diff(back):
    def f(c):
        a, d = c.sym('A', 1, H), mul(c.sym('K', 0, (1 << 34) // c.t.sc), c.t.sc)
        return ['end-start'], ['ref'], at(a, 'start') + at(binop('+', a, d), 'end'), at(d, 'ref'), back
    return f


def r_byte(pre):
    def f(c):
        a = c.sym('A', 0, H)
        v = bits(a, 0, 8) if pre == '<' else bits(a, 8, None)
        return [pre, 'lab'], ['ref'], at(a, 'lab'), at(v, 'ref'), False
    return f


def r_dir(c):
    a = mul(c.sym('A', 0, H // c.t.sc), c.t.sc)
    if c.t.asm == cpu_mos6502.ASM and not c.t.rel and not le(256, a):
        return None
    return ['lab'], ['lab'], at(a, 'lab'), at(a, 'lab'), 'both'


def r_num(op, hexa=False, fixed=None):
    def f(c):
        n = mul(c.sym('N', 0, (1 << 34) // c.t.sc), c.t.sc)
        k = fixed if fixed is not None else mul(c.sym('K', 0, (1 << 20) // c.t.sc), c.t.sc)
        v = binop(op, n, k)
        if c.t.not_value is not None and eq(v, c.t.not_value):
            return None
        if hexa or c.t.positive:
            if not le(0, v):
                return None
        if hexa:
            return [c.t.hexp, num(n, 16), op, num(k)], [c.t.hexp, num(v, 16)], [], [], False
        if le(0, v):
            return [num(n), op, num(k)], [num(v)], [], [], False
        return [num(n), op, num(k)], ['-', num(binop('-', 0, v))], [], [], False
    return f


def r_numlab(c):
    '''a number plus a label already known'''
    a, n = mul(c.sym('A', 0, (1 << 34) // c.t.sc), c.t.sc), mul(c.sym('N', 0, (1 << 20) // c.t.sc), c.t.sc)
    v = binop('+', n, a)
    if c.t.not_value is not None and eq(v, c.t.not_value):
        return None
    return [num(n), '+lab'], [num(v)], at(a, 'lab'), [], True


LABELS = [('label plus distance', r_plus('+')), ('label minus distance', r_plus('-')), ('known label plus distance', r_plus('+', True)), ('forward like backward label', r_dir)]
ABSOLUTE = [('difference of labels', r_diff(False)), ('low byte', r_byte('<')), ('high byte', r_byte('>')), ('difference of known labels', r_diff(True))]
NUMBERS = [('sum', r_num('+')), ('difference', r_num('-')), ('hexadecimal sum', r_num('+', True)), ('product', r_num('*', fixed=3)), ('sum with a label', r_numlab)]


def relation(t, name, f):
    def build():
        c = Ctx(t)
        r = f(c)
        if r is None:
            raise Infeasible()
        one, two, blk1, blk2, back = r
        p = mul(c.sym('P', 0, ((1 << 32) - 4) // t.palign), t.palign)
        pre, post = t.text.split('{}')

        def text(opnd, blk, before):
            return S(*((blk if before else []) + ['.org ', num(p), '\n', pre] + opnd + [post, '\n'] + ([] if before else blk)))
        first = text(one, blk1, bool(back) and back != 'both')
        second = text(two, blk2, back)

        def expect(r1):
            r2 = run(fresh(*t.asm, which=1), second, {})
            if r2.ok:
                return ('bytes', r2.segs)
            return ('reject',)
        return first, c.inputs, expect
    return Case('%s: %s' % (t.name, name), t.asm, build)


def cases(tier):
    for t in templates():
        rels = (LABELS + ([] if t.rel else ABSOLUTE) if t.labels else []) + NUMBERS
        for name, f in rels:
            if name == 'hexadecimal sum' and not t.hexa:
                continue
            yield relation(t, name, f)
