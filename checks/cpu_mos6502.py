'''MOS 6502 encodings against the documented opcode matrix.'''
from .common import *

ASM = ('cpu.mos6502', 'AssemblerMOS6502')
RULE = 'for every mnemonic x addressing mode x operand class, the bytes the source can emit equal the 6502 opcode matrix, and combinations outside the matrix are refused'
EXPLANATION = '''Abstract interpretation of necroassembler's 6502 path (tokenizer, statement dispatch, handler, label
resolution, linker) over programs whose operand values, label addresses, program counter and output offset are unknown
(interval/linear-form/bit-slice domains, trace partitioning). One obligation per mnemonic x operand form x literal class;
discharged when the emitted abstract bytes are identical to the specification in every partition.'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64',
               'instruction embedded after an arbitrary prefix of output of unknown length']
MIN_OBLIGATIONS = 700

IMPLIED = dict(BRK=0x00, CLC=0x18, SEC=0x38, CLI=0x58, SEI=0x78, CLV=0xb8, CLD=0xd8, SED=0xf8, NOP=0xea, TAX=0xaa, TXA=0x8a,
               DEX=0xca, INX=0xe8, TAY=0xa8, TYA=0x98, DEY=0x88, INY=0xc8, RTI=0x40, RTS=0x60, TXS=0x9a, TSX=0xba,
               PHA=0x48, PLA=0x68, PHP=0x08, PLP=0x28)
BRANCH = dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xb0, BNE=0xd0, BEQ=0xf0)
# imm acc zp zpx zpy abs absx absy ind indx indy
MODES = ('imm', 'acc', 'zp', 'zpx', 'zpy', 'abs', 'absx', 'absy', 'ind', 'indx', 'indy')
T = {}


def row(mn, **kw):
    T[mn] = kw


for mn, a in (('ORA', 0x00), ('AND', 0x20), ('EOR', 0x40), ('ADC', 0x60), ('LDA', 0xa0), ('CMP', 0xc0), ('SBC', 0xe0)):
    row(mn, imm=a + 9, zp=a + 5, zpx=a + 0x15, abs=a + 0xd, absx=a + 0x1d, absy=a + 0x19, indx=a + 1, indy=a + 0x11)
row('STA', zp=0x85, zpx=0x95, abs=0x8d, absx=0x9d, absy=0x99, indx=0x81, indy=0x91)
for mn, a in (('ASL', 0x00), ('ROL', 0x20), ('LSR', 0x40), ('ROR', 0x60)):
    row(mn, acc=a + 0xa, zp=a + 6, zpx=a + 0x16, abs=a + 0xe, absx=a + 0x1e)
row('DEC', zp=0xc6, zpx=0xd6, abs=0xce, absx=0xde)
row('INC', zp=0xe6, zpx=0xf6, abs=0xee, absx=0xfe)
row('LDX', imm=0xa2, zp=0xa6, zpy=0xb6, abs=0xae, absy=0xbe)
row('LDY', imm=0xa0, zp=0xa4, zpx=0xb4, abs=0xac, absx=0xbc)
row('STX', zp=0x86, zpy=0x96, abs=0x8e)
row('STY', zp=0x84, zpx=0x94, abs=0x8c)
row('CPX', imm=0xe0, zp=0xe4, abs=0xec)
row('CPY', imm=0xc0, zp=0xc4, abs=0xcc)
row('BIT', zp=0x24, abs=0x2c)
row('JMP', abs=0x4c, ind=0x6c)
row('JSR', abs=0x20)

FORMS = ('imm', 'acc', 'mem', 'memx', 'memy', 'ind', 'indx', 'indy')
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')


def form_line(mn, form, kind):
    def line(p):
        m, _ = p.fin('mn', mixed(mn))
        if form == 'acc':
            a, _ = p.fin('acc', ('A', 'a'))
            return S(m, ' ', a), None
        l = p.lit(kind, hexp='$')
        x, _ = p.fin('x', ('X', 'x'))
        y, _ = p.fin('y', ('Y', 'y'))
        t = {'imm': ['#', l.text], 'mem': [l.text], 'memx': [l.text, ',', x], 'memy': [l.text, ', ', y],
             'ind': ['(', l.text, ')'], 'indx': ['(', l.text, ',', x, ')'], 'indy': ['(', l.text, '),', y]}[form]
        return S(m, ' ', *t), l
    return line


def encoder(mn, form):
    row_ = T.get(mn, {})

    def enc(p, l):
        if form == 'acc':
            if 'acc' not in row_:
                raise Reject()
            return [B(row_['acc'])]
        if form == 'imm':
            if 'imm' not in row_:
                raise Reject()
            return [B(row_['imm']), B(ufield(l, 8))]
        zp, ab = {'mem': ('zp', 'abs'), 'memx': ('zpx', 'absx'), 'memy': ('zpy', 'absy'), 'ind': (None, 'ind'),
                  'indx': ('indx', None), 'indy': ('indy', None)}[form]
        zp, ab = row_.get(zp), row_.get(ab)
        if zp is None and ab is None:
            raise Reject()
        if l.kind == 'lab':
            # unknown at this point: the absolute form, never the zero page form
            if ab is None:
                raise Reject()
            return [B(ab)] + le_bytes(ufield(l, 16), 2)
        v = ufield(l, 16)
        if zp is not None and le(v, 255):
            return [B(zp), B(v)]
        if ab is None:
            raise Reject()
        return [B(ab)] + le_bytes(v, 2)
    return enc


def cases(tier):
    for mn in sorted(T):
        for form in FORMS:
            for kind in ((None,) if form == 'acc' else KINDS):
                if tier == 'quick' and kind in ('hex', 'neg') and mn not in ('LDA', 'STX', 'JMP', 'ASL', 'LDX', 'CPY') and form not in ('imm', 'mem'):
                    continue
                yield case('%s %s %s' % (mn, form, kind), ASM, form_line(mn, form, kind), encoder(mn, form))
    for mn, op in sorted(IMPLIED.items()):
        yield case('%s implied' % mn, ASM, lambda p, mn=mn: (p.fin('mn', mixed(mn))[0], None), lambda p, st, op=op: [B(op)])
        yield case('%s with operand' % mn, ASM, lambda p, mn=mn: (S(mn, ' ', p.lit('dec').text), None),
                   lambda p, st: _reject())
    for mn, op in sorted(BRANCH.items()):
        for kind in KINDS:
            def line(p, mn=mn, kind=kind):
                l = p.lit(kind, hexp='$')
                return S(p.fin('mn', mixed(mn))[0], ' ', l.text), l

            def enc(p, l, op=op, kind=kind):
                if islab(l):
                    d = binop('-', l.v, binop('+', p.pc, 2))
                    if not inr(d, -128, 127):
                        raise Reject()
                    return [B(op), B(d)]
                out = [B(op), B(sfield(l, 8))]
                if kind == 'hex':
                    # a raw displacement pattern above 0x7f may be refused, never altered
                    return ('bytes_or_reject', p.head + out)
                return out
            yield case('%s %s' % (mn, kind), ASM, line, enc)
    yield registered(ASM, sorted(T) + sorted(IMPLIED) + sorted(BRANCH))


def _reject():
    raise Reject()
