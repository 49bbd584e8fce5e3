'''Intel 8086 encodings against the instruction formats of the processor manual.'''
from .common import *

ASM = ('cpu.intel8086', 'AssemblerIntel8086')
RULE = 'for every mnemonic x operand-form combination, the bytes the source can emit equal the 8086 instruction format (opcode, modrm, displacement, immediate); combinations outside the formats are refused'
EXPLANATION = '''Abstract interpretation of the 8086 assembler over every mnemonic and every combination of operand forms (8 and 16 bit registers,
segment registers, the eight based and indexed memory forms with and without displacement, direct memory, immediates, branch targets),
with unknown immediates, displacements, addresses, label addresses and program counter. The expected encodings are generated
from the formats of the manual, not from the table of the source.'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64',
               'forms the assembler does not support may be refused, but must not be encoded differently from the manual']
MIN_OBLIGATIONS = 2000

R8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
R16 = ('AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI')
SEG = ('ES', 'CS', 'SS', 'DS')
BASES = ('BX+SI', 'BX+DI', 'BP+SI', 'BP+DI', 'SI', 'DI', 'BP', 'BX')
ARITH = ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')
COND = (('JO',), ('JNO',), ('JB', 'JC', 'JNAE'), ('JNB', 'JAE', 'JNC'), ('JZ', 'JE'), ('JNZ', 'JNE'), ('JBE', 'JNA'), ('JA', 'JNBE'),
        ('JS',), ('JNS',), ('JPE', 'JP'), ('JPO', 'JNP'), ('JL', 'JNGE'), ('JGE', 'JNL'), ('JLE', 'JNG'), ('JG', 'JNLE'))
SIMPLE = dict(DAA=0x27, DAS=0x2f, AAA=0x37, AAS=0x3f, NOP=0x90, CBW=0x98, CWD=0x99, WAIT=0x9b, PUSHF=0x9c, POPF=0x9d, SAHF=0x9e, LAHF=0x9f,
              MOVSB=0xa4, MOVSW=0xa5, CMPSB=0xa6, CMPSW=0xa7, STOSB=0xaa, STOSW=0xab, LODSB=0xac, LODSW=0xad, SCASB=0xae, SCASW=0xaf,
              RET=0xc3, RETF=0xcb, INTO=0xce, IRET=0xcf, XLAT=0xd7, LOCK=0xf0, REPNZ=0xf2, REPZ=0xf3, HLT=0xf4, CMC=0xf5, CLC=0xf8, STC=0xf9,
              CLI=0xfa, STI=0xfb, CLD=0xfc, STD=0xfd)
MEMD = tuple('[%s%sd]' % (b, s) for b in BASES for s in '+-')
MEMS = tuple('[%s]' % b for b in BASES) + MEMD
DIR = '[n]'
OPERANDS = R8 + R16 + SEG + MEMS + (DIR, 'n')


def rm_of(x, regs):
    '''operand -> (mod, rm) or None'''
    if x in regs:
        return 3, regs.index(x)
    if x in MEMD:
        return 2, BASES.index(x[1:-3])
    if x in MEMS:
        return (2, 6) if x == '[BP]' else (0, BASES.index(x[1:-1]))
    return None


def ea(reg, rm, x):
    return [rm[0] << 6 | reg << 3 | rm[1]] + (['d'] if x in MEMD else [0, 0] if x == '[BP]' else [])


def forms():
    '''(mnemonic, operands) -> (code, required): the encodings the assembler supports (required) or might (optional)'''
    t = {}

    def put(key, code, req=True):
        old = t.setdefault(key, ([], req))
        if code not in old[0]:
            old[0].append(code)
    for n, b in SIMPLE.items():
        put((n,), [b])
    for i, names in enumerate(COND):
        for k, n in enumerate(names):
            if k == 0:
                put((n, 'n'), [0x70 + i, 'e'])
    for i, n in enumerate(('LOOPNZ', 'LOOPZ', 'LOOP', 'JCXZ')):
        put((n, 'n'), [0xe0 + i, 'e'])
    put(('CALL', 'n'), [0xe8, 'e16'])
    put(('JMP', 'n'), [0xe9, 'e16'])
    put(('RET', 'n'), [0xc2, 'n16'])
    put(('RETF', 'n'), [0xca, 'n16'])
    put(('INT', '3'), [0xcc])
    put(('INT', 'n'), [0xcd, 'n8'])
    put(('AAM',), [0xd4, 0x0a])
    put(('AAD',), [0xd5, 0x0a])
    put(('AAM', 'n'), [0xd4, 'n8'], False)
    put(('AAD', 'n'), [0xd5, 'n8'], False)
    for w, regs in ((0, R8), (1, R16)):
        acc = regs[0]
        imm = 'n16' if w else 'n8'
        for x in regs + MEMS:
            rm = rm_of(x, regs)
            for r in range(8):
                for i, n in enumerate(ARITH):
                    put((n, x, regs[r]), [8 * i + w] + ea(r, rm, x))
                    put((n, regs[r], x), [8 * i + 2 + w] + ea(r, rm, x))
                put(('MOV', x, regs[r]), [0x88 + w] + ea(r, rm, x))
                put(('MOV', regs[r], x), [0x8a + w] + ea(r, rm, x))
                put(('TEST', regs[r], x), [0x84 + w] + ea(r, rm, x))
                put(('TEST', x, regs[r]), [0x84 + w] + ea(r, rm, x), False)
                put(('XCHG', regs[r], x), [0x86 + w] + ea(r, rm, x))
                put(('XCHG', x, regs[r]), [0x86 + w] + ea(r, rm, x), False)
            if x in regs or w == 0:            # the operand size of memory is a byte unless a register says otherwise
                put(('SHL', x), [0xd0 + w] + ea(4, rm, x), x in regs)
                put(('SHR', x), [0xd0 + w] + ea(5, rm, x), x in regs)
                put(('SHL', x, '1'), [0xd0 + w] + ea(4, rm, x), x in regs)
                put(('SHR', x, '1'), [0xd0 + w] + ea(5, rm, x), x in regs)
            if w == 0 and x in MEMS:
                put(('MOV', x, 'n'), [0xc6] + ea(0, rm, x) + ['n8'], False)
            if w == 1:
                put(('MUL', x), [0xf7] + ea(4, rm, x), x in regs)
                put(('DIV', x), [0xf7] + ea(6, rm, x), x in regs)
        for i, n in enumerate(ARITH):
            put((n, acc, 'n'), [8 * i + 4 + w, imm])
        put(('TEST', acc, 'n'), [0xa8 + w, imm])
        put(('MOV', acc, DIR), [0xa0 + w, 'n16'])
        put(('MOV', DIR, acc), [0xa2 + w, 'n16'])
        for r in range(8):
            put(('MOV', regs[r], 'n'), [0xb0 + 8 * w + r, imm])
            for key in (('MOV', regs[r], DIR), ('MOV', DIR, regs[r])):
                if r == 0:
                    continue
                put(key, [0x8a + w - 2 * (key[1] == DIR), r << 3 | 6, 'n16'], False)
        put(('IN', acc, 'n'), [0xe4 + w, 'n8'])
        put(('OUT', 'n', acc), [0xe6 + w, 'n8'])
        put(('IN', acc, 'DX'), [0xec + w])
        put(('OUT', 'DX', acc), [0xee + w])
    for r in range(8):
        put(('INC', R16[r]), [0x40 + r])
        put(('DEC', R16[r]), [0x48 + r])
        put(('PUSH', R16[r]), [0x50 + r])
        put(('POP', R16[r]), [0x58 + r])
    for s in range(4):
        put(('PUSH', SEG[s]), [6 + 8 * s])
        if SEG[s] != 'CS':
            put(('POP', SEG[s]), [7 + 8 * s])
        for x in R16 + MEMS:
            rm = rm_of(x, R16)
            put(('MOV', x, SEG[s]), [0x8c] + ea(s, rm, x))
            put(('MOV', SEG[s], x), [0x8e] + ea(s, rm, x), SEG[s] != 'CS')
    for x in MEMS:
        put(('POP', x), [0x8f] + ea(0, rm_of(x, ()), x))
        put(('PUSH', x), [0xff] + ea(6, rm_of(x, ()), x), False)
        put(('INC', x), [0xfe] + ea(0, rm_of(x, ()), x), False)
        put(('DEC', x), [0xfe] + ea(1, rm_of(x, ()), x), False)
        for r in range(8):
            put(('LEA', R16[r], x), [0x8d] + ea(r, rm_of(x, ()), x))
            put(('LES', R16[r], x), [0xc4] + ea(r, rm_of(x, ()), x), False)
            put(('LDS', R16[r], x), [0xc5] + ea(r, rm_of(x, ()), x), False)
    for r in range(8):
        put(('LES', R16[r], DIR), [0xc4, r << 3 | 6, 'n16'])
        put(('LDS', R16[r], DIR), [0xc5, r << 3 | 6, 'n16'])
        put(('LEA', R16[r], DIR), [0x8d, r << 3 | 6, 'n16'], False)
    return t


T = forms()
MNEMONICS = sorted({k[0] for k in T})


class St:
    l = d = None


def operand(p, form, idx, st, plain):
    if form == 'n':
        return st.l.text
    if form == '1' or form == '3':
        return form
    if form == DIR:
        return S('[', st.l.text, ']')
    def word(w, k):
        return w if plain else p.fin('op%d%s' % (idx, k), [w.upper(), w.lower()])[0]
    if form in MEMS:
        body = form[1:-1]
        disp = body[-2:] if body[-1] == 'd' else ''
        names = (body[:-2] if disp else body).split('+')
        parts = ['[']
        for k, n in enumerate(names):
            parts += ([' + '] if k else []) + [word(n, k)]
        if disp:
            parts += [' %s ' % disp[0], st.d.text]
        return S(*(parts + [']']))
    return word(form, 0)


def line_of(mn, fs, kind, dkind, plain=False):
    def line(p):
        st = St()
        if kind:
            st.l = p.lit(kind, hexp='0x', lo=4 if (mn, fs) == ('INT', ('n',)) else 2 if mn in ('SHL', 'SHR') else 0)
        if dkind:
            st.d = p.lit(dkind, 'D', hexp='0x')
        m = mn if plain else p.fin('mn', mixed(mn)[:2])[0]
        parts = [m]
        for i, f in enumerate(fs):
            parts += [' ' if i == 0 else ', ', operand(p, f, i, st, plain)]
        return S(*parts), st
    return line


def rel(p, l, bits_, size, code):
    if islab(l):
        d = binop('-', l.v, binop('+', p.pc, size))
        if not inr(d, -(1 << bits_ - 1), (1 << bits_ - 1) - 1):
            raise Reject()
        return d, False
    if l.kind == 'hex' or l.kind == 'dec' and bits_ == 16:
        if not inr(l.v, 0, (1 << bits_) - 1):
            raise Reject()
        return l.v, not le(l.v, (1 << bits_ - 1) - 1)
    return sfield(l, bits_), False


def disp(st, sign):
    '''displacement literal -> (value of the two byte field, may be refused)'''
    l = st.d
    if sign == '-':
        if l.kind != 'dec':
            # only decimal numbers can be negated
            if l.kind == 'neg':
                raise Reject()
            if islab(l) or l.kind == 'hex':
                raise Reject()
        v = binop('-', 0, l.v)
        if not inr(v, -0x8000, 0x7fff):
            raise Reject()
        return bits(v, 0, 16), False
    if l.kind == 'neg':
        if not inr(l.v, -0x8000, -1):
            raise Reject()
        return bits(l.v, 0, 16), True
    if not inr(l.v, 0, 0xffff):
        raise Reject()
    return l.v, not le(l.v, 0x7fff)


def enc_of(mn, fs):
    key = (mn,) + tuple(fs)

    def enc(p, st):
        if key not in T:
            raise Reject()
        alts = [one(p, st, fs, c) for c in T[key][0]]
        if len(alts) > 1:
            return ('bytes_in', [p.head + out for out, free in alts])
        out, free = alts[0]
        return ('bytes_or_reject', p.head + out) if free or not T[key][1] else out
    return enc


def one(p, st, fs, code):
    out, free = [], False
    for c in code:
        if isinstance(c, int):
            out.append(bytes([c]))
        elif c == 'n8':
            out.append(B(ufield(st.l, 8)))
        elif c == 'n16':
            out += le_bytes(ufield(st.l, 16), 2)
        elif c == 'e':
            v, f = rel(p, st.l, 8, 2, code)
            free |= f
            out.append(B(bits(v, 0, 8)))
        elif c == 'e16':
            v, f = rel(p, st.l, 16, 3, code)
            free |= f
            out += le_bytes(bits(v, 0, 16), 2)
        elif c == 'd':
            m = [f for f in fs if f in MEMD][0]
            v, f = disp(st, m[-3])
            free |= f
            out += le_bytes(v, 2)
    return out, free


KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')
DKINDS = ('dec', 'neg', 'hex', 'lab')
SHORT = ('AL', 'BH', 'AX', 'BX', 'CX', 'DX', 'DS', '[BX+SI]', '[BP]', '[DI+d]', '[n]', 'n')


def combos(mn, tier):
    yield ()
    ops = OPERANDS + (('1',) if mn in ('SHL', 'SHR') else ('3',) if mn == 'INT' else ())
    for a in ops:
        yield (a,)
    for a in ops:
        for b in ops:
            yield (a, b)


def bare():
    return Prog(org=False, incbin=False)


def cases(tier):
    for mn in MNEMONICS:
        for i, fs in enumerate(combos(mn, tier)):
            known = (mn,) + fs in T
            if sum(f in ('n', DIR) for f in fs) > 1 or sum(f in MEMD for f in fs) > 1:
                continue
            if tier == 'quick' and not known and len(fs) == 2 and not all(f in SHORT or f in ('1', '3') for f in fs):
                continue
            if tier == 'quick' and mn in ARITH and mn not in ('ADD', 'CMP', 'XOR') and known and len(fs) == 2 and i % 3:
                continue
            kinds = (KINDS if known else ('dec',)) if any(f in ('n', DIR) for f in fs) else (None,)
            dkinds = (DKINDS if known else ('dec',)) if any(f in MEMD for f in fs) else (None,)
            if tier == 'quick' and known and dkinds != (None,) and kinds == (None,) and fs[0] not in ('BX', 'CL') and fs[-1] not in ('AX', 'DH', 'ES'):
                dkinds = ('dec',)
            for kind in kinds:
                for dk in dkinds:
                    if kind in ('hex', 'blab') and dk not in (None, 'dec') and tier == 'quick':
                        continue
                    if mn == 'INT' and kind in ('dec',) and fs == ('n',):
                        pass
                    yield case(' '.join(x for x in (mn,) + fs + (kind, dk) if x), ASM, line_of(mn, fs, kind, dk, not known),
                               enc_of(mn, fs), prog=None if known else bare)
    for i, n in ((0, 'INT 0'), (1, 'INT 1'), (2, 'INT 2')):
        yield case(n, ASM, lambda p, n=n: (S(n), None), lambda p, st, i=i: [b'\xcd', bytes([i])])
    yield case('INT 0x3', ASM, lambda p: (S('INT 0x3'), None), lambda p, st: [b'\xcd\x03'])
    # an operand too many
    for key in T:
        for more in ('AX', '5', 'lab', '[BX]'):
            f = more if more in OPERANDS else 'n'
            if key + (f,) in T or key + (more,) in T:
                continue
            if tier == 'quick' and len(key) == 3 and not (key[1] in SHORT and key[2] in SHORT):
                continue

            def line(p, key=key, more=more):
                st = St()
                if any(f in ('n', DIR) for f in key):
                    st.l = p.lit('dec', hexp='$')
                if any(f in MEMD for f in key):
                    st.d = p.lit('dec', 'D', hexp='$')
                parts = [key[0]]
                for i, f in enumerate(list(key[1:])):
                    parts += [' ' if i == 0 else ', ', operand(p, f, i, st, True)]
                parts += [', ' if len(key) > 1 else ' ', more]
                return S(*parts), None
            yield case('%s with an operand too many %s' % (' '.join(key), more), ASM, line, _rej, prog=bare)
    # far transfers
    for n, b in (('CALL', 0x9a), ('JMP', 0xea)):
        yield case('%s far' % n, ASM, lambda p, n=n: (S(n, ' 0x1234:0x5678'), None),
                   lambda p, st, b=b: [bytes([b, 0x78, 0x56, 0x34, 0x12])], prog=bare)
    for src in ('MOV AX, [', 'MOV AX, []', 'MOV AX, [BX', 'MOV AX, BX]', 'MOV [BX + AX], CX', 'MOV AX, [BX + BX]', 'MOV AX, [SI + DI]', 'MOV AX, [BX + BP]',
                'MOV AL, [BX +]', 'MOV AX, [CX]', 'MOV AX, [BX + 5 + 6]', 'MOV AX, [BX * 2]', 'LEA AX', 'ADD', 'PUSH', 'MOV', 'MOV AX', 'ADD ,AX', 'JZ', 'JZ [', 'INT'):
        yield case('malformed ' + src, ASM, lambda p, src=src: (S(src), None), _rej, prog=bare)
    yield registered(ASM, MNEMONICS, extra=('any',))


def _rej(p, st):
    raise Reject()
