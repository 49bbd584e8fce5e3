'''C05: a label operand is patched with the label address, in the declared field, or the program is refused.'''
from .model import *

RULE = 'resolved bytes = (address or address - start), range-checked, aligned, shifted into the declared bits, in the assembler byte order; forward and backward references agree'
EXPLANATION = '''Abstract interpretation of label reference and resolution for symbolic label addresses and positions, through the data
directives and client instructions that use every parameter of the documented reference API (size, width, offset, alignment, bits,
filter, relative), in both byte orders.'''
ASSUMPTIONS = ['label addresses below 2**64']
MIN_OBLIGATIONS = 200


def place(m, way, key='L', sc=1):
    '''defines label `key` at an unconstrained address before or after the reference'''
    a = m.sym('A' + key, 0, (1 << 63) // sc)
    a = binop('*', a, sc)
    m.labels[key] = a
    return ['.org ', num(a), '\n', NamePiece('lab' + key), ':\n'], a


def refcase(ins, way, enc):
    def body(m):
        blk, a = place(m, way)
        m.files['pre'] = {'bytes': AbsBytes([opq('pre', m.sym('L0', 0, 1 << 16))])}
        m.w('.incbin "pre"')
        m.segs.append(opq('pre', sym('L0', 0, 1 << 16)))
        if way == 'back':
            m.out += blk
        p = m.sym('P', 0, 1 << 48)
        m.w('.org ', num(p))
        m.org, m.cnt = p, 0
        m.w(ins, ' ', NamePiece('labL'))
        if way == 'fwd':
            m.out += blk
        m.emit(*enc(m, p, a))
    return body


def need(c):
    if not c:
        raise Refused()


def word(m, v):
    return m.num(v, 2)


def e_db(m, p, a):
    need(inr(a, 0, 255))
    return [B(a)]


def e_dw(m, p, a):
    need(inr(a, 0, 65535))
    return m.num(a, 2)


def e_dd(m, p, a):
    need(inr(a, 0, (1 << 32) - 1))
    return m.num(a, 4)


def e_load8(m, p, a):
    return [b'\x18'] + e_db(m, p, a)


def e_rel8(m, p, a):
    d = binop('-', a, binop('+', p, 2))
    need(inr(d, -128, 127))
    return [b'\x70', B(d)]


def e_rel12(m, p, a):
    need(eq(bits(a, 0, 1), 0))
    d = binop('-', a, binop('+', p, 4))
    need(inr(d, -4096, 4095))
    return word(m, binop('+', 0xa000, bits(d, 1, 12)))


def e_abs24(m, p, a):
    need(inr(a, 0, (1 << 24) - 1))
    return [b'\x71'] + m.num(a, 3)


def e_field(m, p, a):
    need(inr(a, 0, 31))
    return word(m, binop('+', 0x8001, binop('*', a, 32)))


def e_aligned(m, p, a):
    need(eq(bits(a, 0, 3), 0))
    need(inr(a, 0, 65535))
    return word(m, a)


def e_hi(m, p, a):
    need(inr(a, 0, (1 << 32) - 1))
    return word(m, bits(a, 16, 16))


def gen(m, p, a, size, width, fld, alignment, offset, shift, rel, base):
    if alignment != 1:
        need(eq(bits(a, 0, alignment.bit_length() - 1), 0))
    v = a
    if rel:
        start = binop('+', p, rel) if rel > 0 else p
        if eq(start, 0):
            raise Infeasible()      # a start of 0 means an absolute reference
        v = binop('-', a, start)
        need(inr(v, -(1 << (width - 1)), (1 << (width - 1)) - 1))
    else:
        need(inr(v, 0, (1 << width) - 1))
    w = binop('>>', v, shift)
    if fld:
        n = fld[0] - fld[1] + 1
        need(inr(w, -(1 << (n - 1)), (1 << n) - 1))
        total = binop('+', base, binop('*', bits(w, 0, n), 1 << fld[1]))
    elif rel:
        total = binop('+', base, bits(w, 0, 8 * size))
    else:
        total = binop('+', base, w)
    return [b'\xee' * offset] + m.num(total, size) + [b'\xdd']


def cases(tier):
    encs = dict(db=e_db, dw=e_dw, dd=e_dd)
    encs = {'.' + k: v for k, v in encs.items()}
    encs.update({'.byte': e_db, '.word': e_dw, '.dl': e_dd, '.dword': e_dd, 'LOAD8': e_load8, 'REL8': e_rel8, 'REL12': e_rel12, 'ABS24': e_abs24,
                 'FIELD': e_field, 'ALIGNED': e_aligned, 'HI': e_hi})
    for ins, enc in encs.items():
        for way in ('fwd', 'back'):
            for big in (False, True):
                yield case('%s %s%s' % (ins, way, ' be' if big else ''), refcase(ins, way, enc), big, reject_any=False)
    # every combination of the parameters of a reference
    from .clients import gen_params
    for i, ps in enumerate(gen_params()):
        for big in (False, True):
            if tier == 'quick' and (i + big) % 2:
                continue
            way = 'fwd' if (i // 3) % 2 else 'back'
            yield case('reference size %d width %d bits %s align %d offset %d shift %d relative %d%s' % (ps[:7] + (' be' if big else '',)),
                       refcase('G%d' % i, way, lambda m, p, a, ps=ps: gen(m, p, a, *ps)), big,
                       asm=('client:gen', 'BE' if big else 'LE'), reject_any=False)
    # two references in one instruction
    for big in (False, True):
        def two(m):
            m.prefix()
            b1, a1 = place(m, 'fwd', 'L')
            b2, a2 = place(m, 'fwd', 'M')
            m.w('TWO ', NamePiece('labL'), ' ', NamePiece('labM'))
            m.out += b1 + b2
            need(inr(a1, 0, 255) and inr(a2, 0, 65535))
            m.emit(b'\x72', B(a1), *m.num(a2, 2))
        yield case('two references%s' % (' be' if big else ''), two, big, reject_any=False)

        def many(m):
            m.prefix()
            b1, a1 = place(m, 'fwd', 'L')
            m.out += b1
            m.w('.org 0')
            m.w('.dw ', NamePiece('labL'), ' ', NamePiece('labL'), ' 5 ', NamePiece('labL'))
            m.w('.dd ', NamePiece('labL'))
            m.w('LOAD8 ', NamePiece('labL'))
            need(inr(a1, 0, 255))
            m.emit(*(m.num(a1, 2) * 2 + m.num(5, 2) + m.num(a1, 2) + m.num(a1, 4) + [b'\x18', B(a1)]))
        yield case('many references%s' % (' be' if big else ''), many, big, reject_any=False)
    # a reference is patched in place wherever it is emitted
    for fr in ('fill1', 'align', 'incbin', 'include', 'repeat', 'macro', 'section', 'ram'):
        def later(m, fr=fr):
            m.prefix()
            m.w('.dw tgt')
            m.ref('tgt', 2, 16)
            FRAGS[fr](m)
            m.w('LOAD8 tgt')
            m.emit(b'\x18')
            m.ref('tgt', 1, 8)
            FRAGS[fr](m)
            m.w('.org ', num(m.sym('A', 0, 1 << 20)))
            m.set_org(sym('A', 0, 1 << 20))
            m.label('tgt', 'tgt')
        yield case('references around %s' % fr, later)
