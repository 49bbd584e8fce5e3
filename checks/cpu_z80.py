'''Zilog Z80 encodings against the opcode decoding algorithm.'''
from .common import *

ASM = ('cpu.z80', 'AssemblerZ80')
RULE = 'for every mnemonic x operand-form combination, the bytes the source can emit equal the Z80 instruction tables (generated from the decoding algorithm of the processor); combinations outside the tables are refused'
EXPLANATION = '''Abstract interpretation of the Z80 assembler over every mnemonic and every combination of operand forms (registers, index register halves,
pairs, indirect and indexed forms, immediates, addresses, labels), with unknown numeric values, displacements, label addresses
and program counter. The expected encodings are generated from the regular structure of the opcode space (prefix, x, y, z fields).'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64',
               'undocumented three operand forms (result copied to a register) are not specified']
MIN_OBLIGATIONS = 5000

R8 = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
CC = ('NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M')
ALU = ('ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP')
ROT = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL')
ACC = ('ADD', 'ADC', 'SBC')
D = 'd'


def build_table():
    '''(mnemonic, operand forms) -> list of bytes and fields (n8, n16, e, d)'''
    t = {}

    def put(code, *key):
        assert key not in t, key
        t[key] = code

    def alu(y, x):
        return (ALU[y], 'A', x) if ALU[y] in ACC else (ALU[y], x)
    for b, n in ((0, 'NOP'), (7, 'RLCA'), (0xf, 'RRCA'), (0x17, 'RLA'), (0x1f, 'RRA'), (0x27, 'DAA'), (0x2f, 'CPL'), (0x37, 'SCF'), (0x3f, 'CCF'),
                 (0x76, 'HALT'), (0xc9, 'RET'), (0xd9, 'EXX'), (0xf3, 'DI'), (0xfb, 'EI')):
        put([b], n)
    put([0x10, 'e'], 'DJNZ', 'n')
    put([0x18, 'e'], 'JR', 'n')
    for y in range(4):
        put([0x20 + 8 * y, 'e'], 'JR', CC[y], 'n')
    for i, x in enumerate(('(BC)', '(DE)')):
        put([2 + 16 * i], 'LD', x, 'A')
        put([0xa + 16 * i], 'LD', 'A', x)
    put([0x32, 'n16'], 'LD', '(n)', 'A')
    put([0x3a, 'n16'], 'LD', 'A', '(n)')
    for y in range(8):
        put([0xc0 + 8 * y], 'RET', CC[y])
        put([0xc2 + 8 * y, 'n16'], 'JP', CC[y], 'n')
        put([0xc4 + 8 * y, 'n16'], 'CALL', CC[y], 'n')
        put([0xc7 + 8 * y], 'RST', '%XH' % (8 * y))
        put([0xc6 + 8 * y, 'n8'], *alu(y, 'n'))
    put([0xc3, 'n16'], 'JP', 'n')
    put([0xcd, 'n16'], 'CALL', 'n')
    put([0xd3, 'n8'], 'OUT', '(n)', 'A')
    put([0xdb, 'n8'], 'IN', 'A', '(n)')
    put([0xeb], 'EX', 'DE', 'HL')
    for pre, hl, h, l, m in (([], 'HL', 'H', 'L', '(HL)'), ([0xdd], 'IX', 'IXH', 'IXL', '(IX+d)'), ([0xfd], 'IY', 'IYH', 'IYL', '(IY+d)')):
        r = ('B', 'C', 'D', 'E', h, l, m, 'A')
        rp = ('BC', 'DE', hl, 'SP')
        rp2 = ('BC', 'DE', hl, 'AF')
        disp = [D] if pre else []
        for p in range(4):
            if not pre or p == 2:
                put(pre + [1 + 16 * p, 'n16'], 'LD', rp[p], 'n')
                put(pre + [3 + 16 * p], 'INC', rp[p])
                put(pre + [0xb + 16 * p], 'DEC', rp[p])
                put(pre + [0xc1 + 16 * p], 'POP', rp2[p])
                put(pre + [0xc5 + 16 * p], 'PUSH', rp2[p])
            put(pre + [9 + 16 * p], 'ADD', hl, rp[p])
        put(pre + [0x22, 'n16'], 'LD', '(n)', hl)
        put(pre + [0x2a, 'n16'], 'LD', hl, '(n)')
        put(pre + [0xe9], 'JP', '(%s)' % hl)
        put(pre + [0xe3], 'EX', '(SP)', hl)
        put(pre + [0xf9], 'LD', 'SP', hl)
        for y in range(8):
            if pre and y not in (4, 5, 6):
                continue
            d = disp if y == 6 else []
            put(pre + [4 + 8 * y] + d, 'INC', r[y])
            put(pre + [5 + 8 * y] + d, 'DEC', r[y])
            put(pre + [6 + 8 * y] + d + ['n8'], 'LD', r[y], 'n')
            for k in range(8):
                put(pre + [0x80 + 8 * k + y] + d, *alu(k, r[y]))
        for y in range(8):
            for z in range(8):
                if y == z == 6:
                    continue
                if 6 in (y, z):
                    put(pre + [0x40 + 8 * y + z] + disp, 'LD', m if y == 6 else R8[y], m if z == 6 else R8[z])
                elif not pre or {y, z} & {4, 5}:
                    put(pre + [0x40 + 8 * y + z], 'LD', r[y], r[z])
        cb = pre + [0xcb]
        for z in ((6,) if pre else range(8)):
            x = m if z == 6 else R8[z]
            d = disp if z == 6 else []
            for y in range(8):
                put(cb + d + [8 * y + z], ROT[y], x)
                for k, n in enumerate(('BIT', 'RES', 'SET')):
                    put(cb + d + [0x40 * (k + 1) + 8 * y + z], n, str(y), x)
    for y in range(8):
        if y != 6:
            put([0xed, 0x40 + 8 * y], 'IN', R8[y], '(C)')
            put([0xed, 0x41 + 8 * y], 'OUT', '(C)', R8[y])
    for p, rr in enumerate(('BC', 'DE', 'HL', 'SP')):
        put([0xed, 0x42 + 16 * p], 'SBC', 'HL', rr)
        put([0xed, 0x4a + 16 * p], 'ADC', 'HL', rr)
        if rr != 'HL':
            put([0xed, 0x43 + 16 * p, 'n16'], 'LD', '(n)', rr)
            put([0xed, 0x4b + 16 * p, 'n16'], 'LD', rr, '(n)')
    for b, n in ((0x44, 'NEG'), (0x45, 'RETN'), (0x4d, 'RETI'), (0x67, 'RRD'), (0x6f, 'RLD')):
        put([0xed, b], n)
    for i, b in enumerate((0x46, 0x56, 0x5e)):
        put([0xed, b], 'IM', str(i))
    put([0xed, 0x47], 'LD', 'I', 'A')
    put([0xed, 0x4f], 'LD', 'R', 'A')
    put([0xed, 0x57], 'LD', 'A', 'I')
    put([0xed, 0x5f], 'LD', 'A', 'R')
    for i, s in enumerate(('I', 'D', 'IR', 'DR')):
        for j, n in enumerate(('LD', 'CP', 'IN', 'OT' if len(s) > 1 else 'OUT')):
            put([0xed, 0xa0 + 8 * i + j], n + s)
    return t


T = build_table()
# equivalent spellings: refused, or encoded exactly like the canonical form (None: any outcome)
OPTIONAL = {}
for _k in list(T):
    if _k[0] in ('SUB', 'AND', 'XOR', 'OR', 'CP'):
        OPTIONAL[_k[0], 'A', _k[1]] = T[_k]
    elif _k[0] in ACC and _k[1] == 'A':
        OPTIONAL[_k[0], _k[2]] = T[_k]
for _h, _c in (('HL', [0xe9]), ('IX', [0xdd, 0xe9]), ('IY', [0xfd, 0xe9])):
    OPTIONAL['JP', _h] = _c
OPTIONAL['EX', 'HL', 'DE'] = [0xeb]
OPTIONAL['IN', 'F', '(C)'] = OPTIONAL['IN', '(C)'] = [0xed, 0x70]
OPTIONAL['OUT', '(C)', '0'] = [0xed, 0x71]
OPTIONAL['RST', 'n'] = None
OPTIONAL['EX', 'AF', "AF'"] = [8]

MNEMONICS = sorted({k[0] for k in T})
REGS = ('A', 'B', 'C', 'D', 'E', 'F', 'H', 'L', 'I', 'R', 'IXH', 'IXL', 'IYH', 'IYL')
REG16 = ('AF', 'BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'PC')
INDS = ('(BC)', '(DE)', '(HL)', '(SP)', '(C)', '(IX)', '(IY)', '(AF)', '(A)')
IDX = ('(IX+d)', '(IY+d)')
OPERANDS = REGS + REG16 + INDS + IDX + ('n', '(n)') + ('NZ', 'Z', 'NC', 'PO', 'PE', 'P', 'M')
NUMBERED = ('BIT', 'RES', 'SET')
REPR = ('A', 'n', '(HL)', 'HL', '(IX+d)', 'C')
COND = {'NZ', 'Z', 'NC', 'PO', 'PE', 'P', 'M'}


class St:
    l = d = None


def operand(p, form, idx, brackets, st, plain):
    if form == 'n':
        return st.l.text
    if form == '(n)':
        return S(brackets[0], st.l.text, brackets[1])
    if form in IDX:
        name = form[1:3]
        t = name if plain else p.fin('op%d' % idx, [name.upper(), name.lower()])[0]
        return S(brackets[0], t, '' if st.d.kind == 'neg' else '+', st.d.text, brackets[1])
    ind = form.startswith('(')
    name = form.strip('()') if ind else form
    t = name if plain else p.fin('op%d' % idx, mixed(name)[:2])[0]
    return S(brackets[0], t, brackets[1]) if ind else t


def line_of(mn, forms, kind, dkind, brackets, plain=False):
    def line(p):
        st = St()
        if kind:
            st.l = p.lit(kind, hexp='$', lo=8 if mn in NUMBERED and forms[0] == 'n' else 1 if (mn, forms[0]) == ('OUT', '(C)') else 0)
        if dkind:
            st.d = p.lit(dkind, 'D', hexp='$')
        m = mn if plain else p.fin('mn', mixed(mn)[:2])[0]
        parts = [m]
        for i, f in enumerate(forms):
            parts += [' ' if i == 0 else ', ', operand(p, f, i, brackets, st, plain)]
        return S(*parts), st
    return line


def fields(code, p, st):
    '''-> (segments, strict): the specified bytes'''
    out, free = [], False
    for i, c in enumerate(code):
        if isinstance(c, int):
            out.append(bytes([c]))
        elif c == 'n8':
            out.append(B(ufield(st.l, 8)))
        elif c == 'n16':
            out += le_bytes(ufield(st.l, 16), 2)
        elif c == 'e':
            l = st.l
            if islab(l):
                d = binop('-', l.v, binop('+', p.pc, 2))
                if not inr(d, -128, 127):
                    raise Reject()
                out.append(B(d))
            else:
                if l.kind == 'hex' and not le(l.v, 127):
                    free = True
                out.append(B(sfield(l, 8)))
        elif c == D:
            l = st.d
            if l.kind in ('hex', 'lab', 'blab'):
                if not inr(l.v, 0, 255):
                    raise Reject()
                if not le(l.v, 127):
                    free = True
                out.append(B(l.v))
            else:
                out.append(B(sfield(l, 8)))
    return out, free


def enc_of(mn, forms):
    key = (mn,) + tuple(forms)

    def enc(p, st):
        row, opt = T.get(key), False
        if row is None:
            if key not in OPTIONAL:
                raise Reject()
            row, opt = OPTIONAL[key], True
            if row is None:
                return ('any',)
        out, free = fields(row, p, st)
        if opt or free:
            return ('bytes_or_reject', p.head + out)
        return out
    return enc


KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')
DKINDS = ('dec', 'neg', 'hex', 'lab')


def combos(mn):
    yield ()
    if mn in NUMBERED:
        for b in '01234567':
            for r in OPERANDS:
                yield (b, r)
        for b in ('8', '-1', 'A', 'n'):
            yield (b, 'A')
        yield ('A',)
        yield ('0',)
        return
    if mn == 'RST':
        for i in range(8):
            yield ('%XH' % (8 * i),)
        for x in ('1H', '40H', 'n', 'A', '(HL)'):
            yield (x,)
        return
    if mn == 'IM':
        for x in ('0', '1', '2', '3', 'A', '(HL)', '-1'):
            yield (x,)
        return
    for a in OPERANDS:
        yield (a,)
    for a in OPERANDS:
        for b in OPERANDS:
            yield (a, b)


def bare():
    return Prog(org=False, incbin=False)


def cases(tier):
    for mn in MNEMONICS:
        for i, forms in enumerate(combos(mn)):
            key = (mn,) + forms
            known = key in T or key in OPTIONAL
            vals = sum(f in ('n', '(n)') for f in forms)
            idx = sum(f in IDX for f in forms)
            if vals > 1 or idx > 1:
                continue
            if tier == 'quick' and not known and len(forms) == 2 and mn not in ('LD', 'ADD') and mn not in NUMBERED and forms[1] not in REPR:
                continue
            if tier == 'quick' and not known and mn in NUMBERED and len(forms) == 2 and forms[0] not in '07' and i % 5:
                continue
            if not known and len(forms) == 1 and forms[0] in COND and (mn, 'n') in T:
                continue            # a name that is a condition elsewhere may be a label here
            kinds = (KINDS if known else ('dec', 'lab') if tier == 'thorough' else ('dec',)) if vals else (None,)
            dkinds = (DKINDS if known else ('dec',)) if idx else (None,)
            for kind in kinds:
                for dk in dkinds:
                    if kind and dk and kind in ('hex', 'blab') and dk != 'dec' and tier == 'quick':
                        continue
                    if dk == 'lab' and kind in ('lab', 'blab'):
                        pass
                    yield case(' '.join(x for x in (mn,) + forms + (kind, dk) if x), ASM,
                               line_of(mn, forms, kind, dk, '()', tier == 'quick' and not known), enc_of(mn, forms),
                               prog=None if known or tier != 'quick' else bare)
    # displacement spelled with a sign and a prefix
    for r in ('IX', 'IY'):
        def line(p, r=r):
            l = p.lit('hex', 'D', hexp='$')
            return S('LD A,(', r, '-', l.text, ')'), l

        def enc(p, l, r=r):
            if not inr(l.v, 0, 128):
                raise Reject()
            return ('bytes_or_reject', p.head + [bytes([0xdd if r == 'IX' else 0xfd, 0x7e]), B(bits(binop('-', 0, l.v), 0, 8))])
        yield case('negative hex displacement ' + r, ASM, line, enc)
        for src in ('LD A,(%s+)', 'LD A,(%s', 'LD A,%s+5)', 'BIT 3,(%s+)', 'LD (%s+5)', 'LD (%s+1),(%s+1)', 'LD A,B,(%s+5)'):
            yield case('malformed ' + src % ((r,) * src.count('%s')), ASM, lambda p, src=src, r=r: (S(src % ((r,) * src.count('%s'))), None), _rej)
    # an operand too many
    for key in T:
        for more in ('A', '5', 'lab'):
            f = more.replace('5', 'n').replace('lab', 'n')
            if any(key + (x,) in t for x in (more, f) for t in (T, OPTIONAL)):
                continue
            if 'n' in key[-1:] and len(key) == 2 and key[0] in ('JP', 'CALL', 'JR'):
                pass
            if tier == 'quick' and more == 'lab' and len(key) == 3:
                continue
            if more == '5' and key[-1] in COND | {'C'}:
                continue

            def line(p, key=key, more=more):
                st = St()
                if any(f in ('n', '(n)') for f in key):
                    st.l = p.lit('dec', hexp='$')
                if any(f in IDX for f in key):
                    st.d = p.lit('dec', 'D', hexp='$')
                parts = [key[0]]
                for i, f in enumerate(list(key[1:])):
                    parts += [' ' if i == 0 else ', ', operand(p, f, i, '()', st, True)]
                parts += [', ' if len(key) > 1 else ' ', more]
                return S(*parts), None
            yield case('%s with an operand too many %s' % (' '.join(key), more), ASM, line, _rej, prog=bare)
    yield registered(ASM, MNEMONICS, extra=('any',))


def _rej(p, st):
    raise Reject()
