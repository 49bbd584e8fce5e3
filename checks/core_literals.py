'''C04: an integer literal contributes exactly its value, or is refused when it does not fit.'''
from .model import *
from .common import ufield, Lit, Reject

RULE = 'for every notation and width, the emitted field is the literal value (two\'s complement for negative decimals) and every out-of-range literal is refused'
EXPLANATION = '''Abstract interpretation of literal parsing for every notation an assembler can declare (prefixes and suffixes of the
four radixes, character literals, negative decimals) over unbounded symbolic values, observed through the data directives and a
client instruction, in both byte orders.'''
ASSUMPTIONS = ['values below 2**70', 'suffixed hexadecimal literals with letters are enumerated, those with decimal digits are symbolic']
MIN_OBLIGATIONS = 80

NOTATIONS = dict(dec=('', '', 10), d0=('0t', '', 10), dd=('', 'd', 10), x0=('0x', '', 16), dollar=('$', '', 16), hs=('', 'h', 16),
                 b0=('0b', '', 2), pct=('%', '', 2), ys=('', 'y', 2), o0=('0o', '', 8), qs=('', 'q', 8))


def literal(m, nt, hi=BIG, name='N'):
    if nt == 'neg':
        n = m.sym(name, 1, hi)
        return Lit(S('-', num(n)), binop('-', 0, n), 'neg')
    pre, suf, base = NOTATIONS[nt]
    n = m.sym(name, 0, hi)
    return Lit(S(pre, NumPiece(n, base, digits_only=True) if suf and base == 16 else NumPiece(n, base), suf), n, nt)


def field(l, n):
    try:
        return ufield(l, n)
    except Reject:
        raise Refused()


def cases(tier):
    for big in (False, True):
        for nt in list(NOTATIONS) + ['neg']:
            for d, n in (('db', 1), ('byte', 1), ('dw', 2), ('word', 2), ('dd', 4), ('dl', 4), ('dword', 4)):
                if tier == 'quick' and d in ('byte', 'word', 'dl', 'dword') and nt not in ('dec', 'x0'):
                    continue

                def lit(m, nt=nt, d=d, n=n):
                    m.prefix()
                    l = literal(m, nt)
                    m.w('.%s ' % d, l.text)
                    m.emit(*m.num(field(l, 8 * n), n))
                yield case('%s %s%s' % (d, nt, ' be' if big else ''), lit, big)

            def insn(m, nt=nt):
                m.prefix()
                l = literal(m, nt)
                m.w('LOAD8 ', l.text)
                m.emit(b'\x18', B(field(l, 8)))
            yield case('instruction operand %s%s' % (nt, ' be' if big else ''), insn, big, reject_any=False)
            if nt == 'neg':
                continue

            def sign(m, nt=nt):
                m.prefix()
                l = literal(m, nt, hi=127)
                m.w('REL8 ', l.text)
                m.emit(b'\x70', B(l.v))
            yield case('small relative operand %s%s' % (nt, ' be' if big else ''), sign, big)
    # a signed operand: negative decimals in range are two's complement, others refused
    def rel(m):
        m.prefix()
        l = literal(m, 'neg')
        m.w('REL8 ', l.text)
        if not le(-128, l.v):
            raise Refused()
        m.emit(b'\x70', B(l.v))
    yield case('negative relative operand', rel, reject_any=False)

    def rel2(m):
        m.prefix()
        l = literal(m, 'dec')
        m.w('REL8 ', l.text)
        if not le(l.v, 127):
            raise Refused()
        m.emit(b'\x70', B(l.v))
    yield case('positive relative operand', rel2, reject_any=False)
    # a sign in front of a non decimal literal is never silently dropped
    for nt in ('x0', 'dollar', 'b0', 'pct', 'o0', 'hs', 'ys', 'qs', 'd0', 'dd'):
        def negx(m, nt=nt):
            m.prefix()
            l = literal(m, nt, hi=100)
            m.w('LOAD8 -', l.text)
            raise Refused()
        yield case('negative %s' % nt, negx)
    # character literals
    for c in ("fill", "insn"):
        def ch(m, c=c):
            m.prefix()
            k = m.sym('C', 32, 126)
            if eq(k, 39) or eq(k, 92):
                raise Infeasible()
            t = S("'", CharPiece(k, chars=set(map(chr, range(32, 127))) - set("'\\")), "'")
            if c == 'fill':
                m.w('.fill 2 ', t)
                m.emit(RepSeg(k, 2))
            else:
                m.w('LOAD8 ', t)
                m.emit(b'\x18', B(k))
        yield case('character literal %s' % c, ch)
    # hexadecimal letters with a suffix need a leading digit
    for t in ('0ah', '1Fh', '0ffh', '9aBh', '0C0deh', '0ffffh', '00abcdh', '7fffh'):
        v = int(t[:-1], 16)
        for d, n in (('db', 1), ('dw', 2), ('dd', 4)):
            def hs(m, t=t, v=v, d=d, n=n):
                m.prefix()
                m.w('.%s ' % d, t)
                if v >= 1 << 8 * n:
                    raise Refused()
                m.emit(*m.num(v, n))
            yield case('%s %s' % (d, t), hs)
    for t in ('ah', 'ffh', 'Abh', '0gh', '1fgh'):
        def nohex(m, t=t):
            m.prefix()
            m.w('.dw ', t)
            raise Refused()
        yield case('no literal %s' % t, nohex)
    # words that are no literal in any declared notation are label references
    for t in ('0x', '$', '%', '0b', '0xZZ', '$G1', '%2', '0o8', '0b12', '12z', '1.5', '1e3'):
        def bad(m, t=t):
            m.prefix()
            m.w('.dw ', t)
            raise Refused()
        yield case('not a literal %s' % t, bad)
