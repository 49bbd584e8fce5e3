'''C02: padding directives emit exactly the bytes that reach the requested position.'''
from .model import *

RULE = 'fill/align/goto/upto/ram and the end of a bounded region emit exactly the missing bytes, with the requested or default fill value, or refuse to go back'
EXPLANATION = '''Abstract interpretation of the padding directives, for every current position, size, target and fill value
(symbolic integers), for either byte order. The emitted bytes are compared with the reference semantics in every partition.'''
ASSUMPTIONS = ['sizes and targets below 2**24', 'origin and earlier output below 2**24 bytes']
MIN_OBLIGATIONS = 60
BIGN = 1 << 24


def lit(m, kind, name, lo, hi):
    v = m.sym(name, lo, hi)
    return (S('$', num(v, 16)) if kind == 'hex' else S(num(v))), v


def tail(m):
    m.label('after', 'after')
    m.w('.dd after')
    m.ref('after', 4, 32)


def cases(tier):
    for kind in ('dec', 'hex'):
        def fill(m, kind=kind):
            m.prefix()
            t, n = lit(m, kind, 'N', 0, BIGN)
            m.w('.fill ', t)
            if not eq(n, 0):
                m.fill(n)
            tail(m)
        yield case('fill %s' % kind, fill)

        def fill2(m, kind=kind):
            m.prefix()
            t, n = lit(m, kind, 'N', 0, BIGN)
            tv, v = lit(m, kind, 'V', 0, BIG)
            m.w('.fill ', t, ', ', tv)
            if not le(v, 255):
                raise Refused()
            if not eq(n, 0):
                m.emit(RepSeg(v, n))
            tail(m)
        yield case('fill %s value' % kind, fill2)

        def goto(m, kind=kind, val=False):
            m.prefix()
            f_load(m)
            t, n = lit(m, kind, 'N', 0, BIGN)
            v = FILL
            tv = ''
            if val:
                tv, v = lit(m, kind, 'V', 0, BIG)
            m.w('.goto ', t, ' ', tv)
            if lt(n, m.pc):
                raise Refused()
            if val and not le(v, 255):
                raise Refused()
            if lt(m.pc, n):
                m.emit(RepSeg(v, binop('-', n, m.pc)))
            tail(m)
        yield case('goto %s' % kind, goto)
        yield case('goto %s value' % kind, lambda m, g=goto, k=kind: g(m, k, True))

        def upto(m, kind=kind, val=False):
            m.prefix()
            f_fill1(m)
            t, n = lit(m, kind, 'M', 0, BIGN)
            v = FILL
            tv = ''
            if val:
                tv, v = lit(m, kind, 'V', 0, BIG)
            m.w('.upto ', t, ' ', tv)
            if lt(n, m.cnt):
                raise Refused()
            if val and not le(v, 255):
                raise Refused()
            if lt(m.cnt, n):
                m.emit(RepSeg(v, binop('-', n, m.cnt)))
            tail(m)
        yield case('upto %s' % kind, upto)
        yield case('upto %s value' % kind, lambda m, g=upto, k=kind: g(m, k, True))

        def ram(m, kind=kind):
            m.prefix()
            t, n = lit(m, kind, 'N', 0, BIGN)
            m.w('.ram ', t)
            if le(n, 0):
                raise Refused()
            m.cnt = binop('+', m.cnt, n)
            tail(m)
        yield case('ram %s' % kind, ram)

        def align(m, kind=kind):
            m.prefix()
            t, n = lit(m, kind, 'N', 1, BIGN)
            m.w('.align ', t)
            r = binop('%', m.pc, n)
            if not eq(r, 0):
                m.fill(binop('-', n, r))
            tail(m)
        yield case('align %s any size' % kind, align)
    for a in (1, 2, 3, 4, 5, 8, 10, 16, 32, 48, 64, 100, 128, 256, 512, 1024, 2048, 4096, 8192, 0x8000, 0x10000):
        def al(m, a=a):
            m.prefix()
            f_fill1(m)
            f_align(m, a)
            m.label('after', 'after')
            f_load(m)
            f_align(m, a)
            m.w('.dd after')
            m.ref('after', 4, 32)
        yield case('align %d' % a, al)
    # a position counted after reserved space is the address, not the output offset
    for nm in ('goto', 'upto', 'align'):
        def afterram(m, nm=nm):
            m.prefix()
            f_ram(m)
            f_load(m)
            FRAGS[nm](m)
            tail(m)
        yield case('%s after ram' % nm, afterram)
    # bounded regions are completed at the end of the source
    for fr in (None, 'load', 'fill', 'ram', 'incbin', 'align', 'include', 'repeat'):
        def end(m, fr=fr):
            m.prefix(org=False)
            p, k = m.sym('P', 0, BIGN), m.sym('K', 1, BIGN)
            m.w('.org ', num(p), ' ', num(binop('+', p, k)))
            m.set_org(p, binop('+', p, k))
            if fr:
                FRAGS[fr](m)
        yield case('end of source in a bounded region, %s' % fr, end)
    # the default fill value is the one the assembler declares
    for v in (0, 0xff):
        def dflt(m, v=v):
            it = interp()
            it.setattr(fresh(*LE), 'fill_value', v)
            n = m.sym('N', 1, BIGN)
            m.w('.fill ', num(n))
            m.emit(RepSeg(v, n))
            m.w('.org 0 ', num(n))
            m.set_org(0, n)
            m.segs.append(RepSeg(v, binop('+', n, 1)))
            m.end = None
        yield case('declared fill value %d' % v, dflt, finish=False)
    # malformed arguments are refused
    for d in ('fill', 'goto', 'upto', 'ram', 'align'):
        for args in ('', ' nolabel', ' 1 2 3', ' nolabel 1', ' "x"'):
            def bad(m, d=d, args=args):
                m.prefix()
                m.w('.%s%s' % (d, args))
                raise Refused()
            yield case('malformed %s%s' % (d, args), bad)
        if d in ('fill', 'goto', 'upto'):
            def bad2(m, d=d):
                m.prefix()
                m.w('.%s ' % d, num(m.sym('N', 1 << 40, 1 << 41)), ' nolabel')
                raise Refused()
            yield case('malformed %s value' % d, bad2)
    def negram(m):
        m.prefix()
        m.w('.ram -', num(m.sym('N', 0, 1 << 70)))
        raise Refused()
    yield case('negative ram', negram)
