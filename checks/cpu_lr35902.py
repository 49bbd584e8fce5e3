'''Sharp LR35902 (Game Boy) encodings against the documented opcode matrix.'''
from .common import *

ASM = ('cpu.lr35902', 'AssemblerLR35902')
RULE = 'for every mnemonic x operand-form pair, the bytes the source can emit equal the LR35902 opcode matrix; pairs outside the matrix are refused'
EXPLANATION = '''Abstract interpretation of the Game Boy CPU assembler over every mnemonic and every combination of operand
forms (registers, pairs, indirect forms in both bracket styles, immediates, addresses, labels), with unknown numeric values,
label addresses and program counter. One obligation per combination; discharged when every partition emits exactly the
specified abstract bytes, or refuses when the specification has no such instruction.'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64']
MIN_OBLIGATIONS = 700

R8 = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
PAIRS = ('BC', 'DE', 'HL', 'SP')
CC = ('NZ', 'Z', 'NC', 'C')
ALU = ('ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP')
CB = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL')
IMPLIED = dict(NOP=[0], RLCA=[7], RRCA=[0xf], RLA=[0x17], RRA=[0x1f], DAA=[0x27], CPL=[0x2f], SCF=[0x37], CCF=[0x3f],
               HALT=[0x76], DI=[0xf3], EI=[0xfb], RETI=[0xd9], RET=[0xc9], STOP=[0x10, 0])

# operand forms: name -> ('reg'|'ind'|'val'|'mem', spelling)
REGS = ('A', 'F', 'B', 'C', 'D', 'E', 'H', 'L')
REG16 = ('AF', 'BC', 'DE', 'HL', 'SP')
INDS = ('(BC)', '(DE)', '(HL)', '(HL+)', '(HL-)', '(C)')


def build_table():
    '''(mnemonic, operand forms) -> (kind, opcode bytes)
    kind: None | d8 | d16 | r8 (relative) | s8 (signed) | a8'''
    t = {}
    for i, r in enumerate(R8):
        for j, s in enumerate(R8):
            if not (r == s == '(HL)'):
                t['LD', r, s] = (None, [0x40 + 8 * i + j])
        t['LD', r, 'n'] = ('d8', [0x06 + 8 * i])
        t['INC', r] = (None, [0x04 + 8 * i])
        t['DEC', r] = (None, [0x05 + 8 * i])
        for k, m in enumerate(ALU):
            t[(m, 'A', r) if m in ('ADD', 'ADC', 'SBC') else (m, r)] = (None, [0x80 + 8 * k + i])
        for k, m in enumerate(CB):
            t[m, r] = (None, [0xcb, 8 * k + i])
        for b in range(8):
            for k, m in enumerate(('BIT', 'RES', 'SET')):
                t[m, str(b), r] = (None, [0xcb, 0x40 * (k + 1) + 8 * b + i])
    for k, m in enumerate(ALU):
        t[(m, 'A', 'n') if m in ('ADD', 'ADC', 'SBC') else (m, 'n')] = ('d8', [0xc6 + 8 * k])
    for i, rr in enumerate(PAIRS):
        t['LD', rr, 'n'] = ('d16', [0x01 + 16 * i])
        t['INC', rr] = (None, [0x03 + 16 * i])
        t['DEC', rr] = (None, [0x0b + 16 * i])
        t['ADD', 'HL', rr] = (None, [0x09 + 16 * i])
    for i, rr in enumerate(('BC', 'DE', 'HL', 'AF')):
        t['PUSH', rr] = (None, [0xc5 + 16 * i])
        t['POP', rr] = (None, [0xc1 + 16 * i])
    for i, x in enumerate(('(BC)', '(DE)', '(HL+)', '(HL-)')):
        t['LD', x, 'A'] = (None, [0x02 + 16 * i])
        t['LD', 'A', x] = (None, [0x0a + 16 * i])
    t['LD', '(n)', 'SP'] = ('d16', [0x08])
    t['LD', '(n)', 'A'] = ('d16', [0xea])
    t['LD', 'A', '(n)'] = ('d16', [0xfa])
    t['LDH', '(n)', 'A'] = ('d8', [0xe0])
    t['LDH', 'A', '(n)'] = ('d8', [0xf0])
    t['LD', 'SP', 'HL'] = (None, [0xf9])
    t['LD', 'A', '(C)'] = (None, [0xf2])
    t['ADD', 'SP', 'n'] = ('s8', [0xe8])
    t['JP', '(HL)'] = (None, [0xe9])
    t['JP', 'n'] = ('d16', [0xc3])
    t['CALL', 'n'] = ('d16', [0xcd])
    t['JR', 'n'] = ('r8', [0x18])
    for i, c in enumerate(CC):
        t['JP', c, 'n'] = ('d16', [0xc2 + 8 * i])
        t['CALL', c, 'n'] = ('d16', [0xc4 + 8 * i])
        t['JR', c, 'n'] = ('r8', [0x20 + 8 * i])
        t['RET', c] = (None, [0xc0 + 8 * i])
    for i in range(8):
        t['RST', '%02XH' % (8 * i)] = (None, [0xc7 + 8 * i])
    return t


T = build_table()
# equivalent spellings: refused or encoded exactly like the canonical form
OPTIONAL = {}
for r in R8 + ('n',):
    for m in ('SUB', 'AND', 'XOR', 'OR', 'CP'):
        OPTIONAL[m, 'A', r] = T[m, r]
    for m in ('ADD', 'ADC', 'SBC'):
        OPTIONAL[m, r] = T[m, 'A', r]
OPTIONAL['LD', '(C)', 'A'] = (None, [0xe2])
OPTIONAL['LDH', 'A', '(C)'] = (None, [0xf2])
OPTIONAL['LDH', '(C)', 'A'] = (None, [0xe2])
OPTIONAL['JP', 'HL'] = (None, [0xe9])
OPTIONAL['STOP', 'n'] = None
OPTIONAL['RST', 'n'] = None

MNEMONICS = sorted(set(k[0] for k in T) | set(IMPLIED))
OPERANDS = REGS + REG16 + INDS + ('n', '(n)') + ('NZ', 'Z', 'NC')
NUMBERED = ('BIT', 'RES', 'SET')


def operand(p, form, idx, brackets, l, plain):
    '''text of one operand'''
    if form == 'n':
        return l.text
    if form == '(n)':
        return S(brackets[0], l.text, brackets[1])
    ind = form.startswith('(')
    name = form.strip('()') if ind else form
    t = name if plain else p.fin('op%d' % idx, mixed(name)[:2])[0]
    return S(brackets[0], t, brackets[1]) if ind else t


def line_of(mn, forms, kind, brackets, plain=False):
    def line(p):
        l = p.lit(kind, hexp='$') if kind else None
        m = mn if plain else p.fin('mn', mixed(mn)[:2])[0]
        parts = [m]
        for i, f in enumerate(forms):
            parts += [' ' if i == 0 else ', ', operand(p, f, i, brackets, l, plain)]
        return S(*parts), l
    return line


def enc_of(mn, forms, kind):
    key = (mn,) + tuple(forms)

    def enc(p, l):
        row, opt = T.get(key), False
        if row is None:
            if key not in OPTIONAL:
                raise Reject()
            row, opt = OPTIONAL[key], True
            if row is None:
                return ('any',)
        k, op = row
        out = [bytes(op)]
        if k == 'd8':
            out.append(B(ufield(l, 8)))
        elif k == 'd16':
            out += le_bytes(ufield(l, 16), 2)
        elif k == 's8':
            if islab(l):
                return ('any',)
            out.append(B(sfield(l, 8)))
        elif k == 'r8':
            if islab(l):
                d = binop('-', l.v, binop('+', p.pc, 2))
                if not inr(d, -128, 127):
                    raise Reject()
                out.append(B(d))
            else:
                out.append(B(sfield(l, 8)))
        if opt:
            return ('bytes_or_reject', p.head + out)
        return out
    return enc


KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')


def combos(mn):
    yield ()
    if mn in NUMBERED:
        for b in '01234567':
            for r in REGS + ('(HL)', '(DE)', 'BC'):
                yield (b, r)
        yield ('8', 'A')
        yield ('A',)
        return
    if mn == 'RST':
        for i in range(8):
            yield ('%02XH' % (8 * i),)
        yield ('01H',)
        yield ('40H',)
        yield ('n',)
        return
    for a in OPERANDS:
        yield (a,)
    for a in OPERANDS:
        for b in OPERANDS:
            yield (a, b)


def bare():
    return Prog(org=False, incbin=False)


def group_cases(tier):
    for mn in MNEMONICS:
        for forms in combos(mn):
            key = (mn,) + forms
            known = key in T or key in OPTIONAL
            if not forms and mn in IMPLIED:
                yield case('%s' % mn, ASM, line_of(mn, (), None, '()'), lambda p, st, mn=mn: [bytes(IMPLIED[mn])])
                continue
            hasval = 'n' in forms or '(n)' in forms
            kinds = KINDS if hasval and known else (('dec', 'lab') if hasval and tier == 'thorough' else ('dec',) if hasval else (None,))
            for kind in kinds:
                styles = ('()', '[]') if any('(' in f for f in forms) and (known or tier == 'thorough') else ('()',)
                for br in styles:
                    if tier == 'quick' and not known and len(forms) == 2 and mn not in ('LD', 'ADD', 'LDH', 'JP', 'INC'):
                        # outside the matrix: one representative second operand is enough in the quick tier
                        if forms[1] not in ('A', 'n', '(HL)', 'HL'):
                            continue
                    if forms.count('n') + forms.count('(n)') > 1:
                        continue
                    yield case(' '.join((mn,) + forms + (kind or '', br)), ASM, line_of(mn, forms, kind, br, tier == 'quick' and not known),
                               enc_of(mn, forms, kind), prog=None if known or tier != 'quick' else bare)


def cases(tier):
    yield from group_cases(tier)
    # SP-relative load and high-page forms
    for kind in ('dec', 'neg', 'hex'):
        for dst in ('HL', 'BC', 'SP', 'A'):
            def line(p, kind=kind, dst=dst):
                l = p.lit(kind, hexp='$')
                sep = '' if kind == 'neg' else '+'
                return S('LD ', dst, ',SP', sep, l.text), l

            def enc(p, l, dst=dst, kind=kind):
                if dst != 'HL':
                    raise Reject()
                return [b'\xf8', B(sfield(l, 8))]
            yield case('LD %s SP+%s' % (dst, kind), ASM, line, enc)
    for br in ('()', '[]'):
        for kind in ('dec', 'hex', 'lab', 'blab'):
            for store in (0, 1):
                def line(p, kind=kind, br=br, store=store):
                    l = p.lit(kind, hexp='$')
                    m = S(br[0], '$FF00+', l.text, br[1])
                    return (S('LD ', m, ',A') if store else S('LD A,', m)), l

                def enc(p, l, store=store):
                    return [bytes([0xe0 if store else 0xf0]), B(ufield(l, 8))]
                yield case('LD high page %s %s %s' % (kind, br, store), ASM, line, enc)
        yield case('LD (FF00+C) A ' + br, ASM, lambda p, br=br: (S('LD ', br[0], '$FF00+C', br[1], ',A'), None),
                   lambda p, st: [b'\xe2'])
    yield case('LD HL SP+n extra operand', ASM, lambda p: (S('LD HL, SP+', p.lit('dec').text, ', A'), None), _rej)
    # bit numbers
    for mn in NUMBERED:
        for r in ('A', 'E', '(HL)', '[HL]'):
            for kind in ('dec', 'neg', 'hex', 'lab'):
                def line(p, mn=mn, r=r, kind=kind):
                    l = p.lit(kind, hexp='$', lo=8) if kind != 'lab' else Lit(S(NamePiece('labN')), 0, 'lab')
                    return S(mn, ' ', l.text, ', ', r), l
                yield case('%s bit number %s, %s' % (mn, kind, r), ASM, line, _rej)
    # an operand too many
    for key in list(T) + [(m,) for m in IMPLIED]:
        for more in ('A', '5', 'lab'):
            if key + (more,) in T or key + (more.replace('5', 'n').replace('lab', 'n'),) in T:
                continue
            if key[-1] in ('SP',) and key[:2] == ('LD', 'HL') or key + ('n',) in OPTIONAL and more != 'A' or key + (more,) in OPTIONAL:
                continue
            if tier == 'quick' and more == 'lab' and len(key) == 3:
                continue

            def line(p, key=key, more=more):
                ops = [p.lit('dec', hexp='$').text if f == 'n' else S('(', p.lit('dec', hexp='$').text, ')') if f == '(n)' else f for f in key[1:]]
                parts = [key[0]]
                for i, f in enumerate(ops + [more]):
                    parts += [' ' if i == 0 else ', ', f]
                return S(*parts), None
            yield case('%s with an operand too many %s' % (' '.join(key), more), ASM, line, _rej, prog=bare)
    yield registered(ASM, MNEMONICS, extra=('BRA',))


def _rej(p, st):
    raise Reject()
