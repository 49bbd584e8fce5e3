'''C09: data directives emit their operands in order, at their width, in the assembler byte order.'''
from itertools import product
from .model import *
from .model import case as strict


def case(*a, **k):
    '''contents that cannot be read are refused by whatever error the reader raises'''
    k.setdefault('reject_any', True)
    return strict(*a, **k)


RULE = 'the output of a data directive is the concatenation of the encodings of its operands; the text conversions emit the decimal digits (labels: zero padded to the reserved digits)'
EXPLANATION = '''Abstract interpretation of the data directives over operand lists: every sequence of operand kinds up to a bound (literals with
unknown value, texts of unknown length and content, escaped quotes, labels before and after, formulas), in both byte orders, after an
arbitrary earlier output. The text conversions are analysed for every value and every label address.'''
ASSUMPTIONS = ['texts are ascii without quotes and backslashes (escapes are separate cases)']
MIN_OBLIGATIONS = 400
WIDTH = dict(db=1, byte=1, dw=2, word=2, dd=4, dl=4, dword=4)
ENC = {1: 'text(%s)', 2: 'utf16%s(%s)', 4: 'utf32%s(%s)'}


def string_bytes(m, chars, n):
    '''chars: list of one-character strings / CharPieces'''
    out = []
    for c in chars:
        v = ord(c) if isinstance(c, str) else c.code
        out += m.num(v, n) if n > 1 else [B(v)]
    return out


def text_seg(m, t, n):
    if n == 1:
        return opq('text(%s)' % t.key, t.length)
    return opq(ENC[n] % ('be' if m.big else 'le', t.key), binop('*', n, t.length))


def operand(m, k, n):
    '''-> source text; appends the meaning'''
    top = (1 << 8 * n) - 1
    if k in ('dec', 'hex', 'bin'):
        v = m.sym(m.uid('N'), 0, top)
        m.emit(*m.num(v, n))
        return S({'dec': '', 'hex': '0x', 'bin': '0b'}[k], NumPiece(v, {'dec': 10, 'hex': 16, 'bin': 2}[k]))
    if k == 'neg':
        v = m.sym(m.uid('N'), 1, 1 << (8 * n - 1))
        m.emit(*m.num(binop('-', 1 << 8 * n, v), n))
        return S('-', num(v))
    if k == 'str':
        t = text(m)
        m.emit(text_seg(m, t, n))
        return S('"', t, '"')
    if k == 'sq':
        t = text(m)
        m.emit(text_seg(m, t, n))
        return S("'", t, "'")
    if k == 'esc':          # a quote, a backslash and a semicolon inside a string
        m.emit(*string_bytes(m, 'a";\\\'b', n))
        return '"a\\";\\\\\'b"'
    if k == 'chr':
        v = m.sym(m.uid('C'), 32, 126)
        if any(eq(v, q) for q in (34, 39, 92)):
            raise Infeasible()
        c = CharPiece(v, chars=set(map(chr, range(32, 127))) - set('"\'\\'))
        m.emit(*string_bytes(m, [c], n))
        return S("'", c, "'")
    if k == 'back':
        m.ref('lback', n, 8 * n)
        return 'lback'
    if k == 'fwd':
        m.ref('lfwd', n, 8 * n)
        return 'lfwd'
    if k == 'form':
        m.ref('lfwd', n, 8 * n, 3)
        return 'lfwd+3'
    raise ValueError(k)


KINDS = ('dec', 'hex', 'bin', 'neg', 'str', 'sq', 'esc', 'chr', 'back', 'fwd', 'form')
SHORT = ('dec', 'str', 'fwd')


def listcase(d, ks, big, sep=', '):
    n = WIDTH[d]

    def body(m):
        m.prefix(L=200, P=1 << (8 * n + 4))
        m.label('lback', 'lback')
        f_insn(m)
        texts = [operand(m, k, n) for k in ks]
        parts = ['.', d]
        for i, t in enumerate(texts):
            parts += [sep if i else ' ', t]
        m.w(*parts)
        f_insn2(m)
        m.label('lfwd', 'lfwd')
    return case('%s %s%s%s' % (d, ' '.join(ks), ' be' if big else '', '' if sep == ', ' else ' [%s]' % sep), body, big)


def digits(v, n):
    return [B(binop('+', 48, binop('%', binop('//', v, 10 ** i), 10))) for i in reversed(range(n))]


def ndigits(v):
    n = 1
    while not lt(v, 10 ** n):
        n += 1
    return n


def cases(tier):
    for d in WIDTH:
        for big in (False, True):
            for k in KINDS:
                yield listcase(d, (k,), big)
            if d in ('db', 'dw', 'dd') or tier == 'thorough':
                for ks in product(KINDS, repeat=2):
                    yield listcase(d, ks, big)
                for ks in product(SHORT, repeat=3):
                    yield listcase(d, ks, big)
                for sep in (' ', ',', ' , ', '\t'):
                    yield listcase(d, ('dec', 'str', 'fwd', 'hex'), big, sep)
            # values that do not fit
            n = WIDTH[d]
            for k in ('dec', 'hex', 'fwd', 'neg'):
                def big_(m, k=k, n=n, d=d):
                    m.prefix()
                    v = m.sym('N', (1 << 8 * n) if k != 'neg' else (1 << 8 * n - 1) + 1, 1 << 70)
                    t = {'dec': S(num(v)), 'hex': S('0x', NumPiece(v, 16)), 'neg': S('-', num(v)), 'fwd': 'far'}[k]
                    m.w('.%s 1, ' % d, t)
                    if k == 'fwd':
                        w = m.sym('A', 1 << 8 * n, (1 << 64) - 1)
                        m.w('.org ', num(w))
                        m.w('far:')
                    raise Refused()
                yield case('%s %s too big%s' % (d, k, ' be' if big else ''), big_, big)
    # text conversions
    for d, n, top in (('db_to_ascii', 3, 255), ('dw_to_ascii', 5, 65535), ('db_to_asciiz', 3, 255), ('dw_to_asciiz', 5, 65535)):
        z = b'\0' if d.endswith('z') else b''
        for k in ('dec', 'hex'):
            def conv(m, d=d, n=n, top=top, k=k, z=z):
                m.prefix()
                v = m.sym('N', 0, 1 << 40)
                m.w('.%s ' % d, S('' if k == 'dec' else '0x', NumPiece(v, 10 if k == 'dec' else 16)))
                if not le(v, top):
                    raise Refused()
                m.emit(*digits(v, ndigits(v)))
                m.emit(z)
                f_load(m)
                m.label('x', 'x')
                m.w('.dd x')
                m.ref('x', 4, 32)
            yield case('%s %s' % (d, k), conv)
        for way in ('fwd', 'back'):
            for add in ('', '+7'):
                for big in (False, True):
                    def convl(m, d=d, n=n, top=top, way=way, add=add, z=z):
                        a = m.sym('A', 0, 1 << 40)
                        m.files['pre'] = {'bytes': AbsBytes([opq('pre', m.sym('L0', 0, 1 << 16))])}
                        m.w('.incbin "pre"')
                        m.segs.append(opq('pre', sym('L0', 0, 1 << 16)))
                        blk = ['.org ', num(a), '\nlab:\n']
                        if way == 'back':
                            m.out += blk
                        m.w('.org 0')
                        m.cnt = 0
                        m.w('.%s lab%s 7' % (d, add))
                        if way == 'fwd':
                            m.out += blk
                        m.w('nop')
                        v = binop('+', a, 7) if add else a
                        if not le(v, top):
                            raise Refused()
                        m.emit(*digits(v, n))
                        m.emit(b'7' + z + b'\x90')
                    yield case('%s label %s%s%s' % (d, way, add, ' be' if big else ''), convl, big)

        def several(m, d=d, z=z):
            m.prefix()
            v, w = m.sym('N', 0, 9), m.sym('M', 10, 99)
            m.w('.%s ' % d, num(v), ', "42" ', num(w))
            m.emit(*digits(v, 1))
            m.emit(b'42')
            m.emit(*digits(w, 2))
            m.emit(z)
        yield case('%s several operands' % d, several)

        def unk(m, d=d):
            m.prefix()
            m.w('.%s nolabel' % d)
            raise Refused()
        yield case('%s unknown label' % d, unk)
    # characters outside ascii
    for d in ('db', 'byte'):
        def na(m, d=d):
            m.prefix()
            m.w('.%s "caf\xe9"' % d)
            raise Refused()
        yield case('%s with a character outside ascii' % d, na)
    for d, big in product(('dw', 'dd'), (False, True)):
        def na2(m, d=d):
            m.prefix()
            m.w('.%s "a\xe9\u20ac"' % d)
            m.emit(*string_bytes(m, 'a\xe9\u20ac', WIDTH[d]))
        yield case('%s with a character outside ascii%s' % (d, ' be' if big else ''), na2, big)
