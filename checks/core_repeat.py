'''C12: a repeated block is the block written that many times.'''
from itertools import product
from .model import *

RULE = 'the output of a repeated block is the output of the block written that many times, with every label reference resolved in each copy'
EXPLANATION = '''Abstract interpretation of repeated blocks: every ordered pair of statement kinds in the block, references to labels before, inside and
after the block (absolute, field, aligned, filtered, relative), counts up to a bound, origins and earlier output unknown, both byte orders,
histories of several blocks.'''
ASSUMPTIONS = ['blocks hold instructions, data, fills, includes and macro calls (not position dependent padding or origin changes)']
MIN_OBLIGATIONS = 300


def b_ref(ins, size, n, back=True):
    def f(m):
        name = 'lback' if back else 'lfwd'
        if ins.startswith('.'):
            m.w(ins, ' ', name)
            m.ref(name, size, n)
        elif ins == 'ABS24':
            m.w('ABS24 ', name)
            m.emit(b'\x71')
            m.ref(name, 3, 24)
        elif ins == 'LOAD8':
            m.w('LOAD8 ', name)
            m.emit(b'\x18')
            m.ref(name, 1, 8)
        elif ins == 'TWO':
            m.w('TWO ', name, ' ', name)
            m.emit(b'\x72')
            m.ref(name, 1, 8)
            m.ref(name, 2, 16)
    return f


def b_rel(m):
    m.w('REL8 lback')
    d = binop('-', m.labels['lback'], binop('+', m.pc, 2))
    if not inr(d, -128, 127):
        raise Infeasible()
    m.emit(b'p', B(d))


def b_relin(m):
    '''relative reference to a label defined just before the block'''
    b_rel(m)


def b_mac(m):
    n = m.sym(m.uid('N'), 0, 255)
    m.w('mm ', num(n), ' lfwd')
    m.emit(b'\x18', B(n), b'\x18')
    m.ref('lfwd', 1, 8)


def b_ascii(m):
    n = m.sym(m.uid('N'), 100, 255)
    m.w('.db_to_ascii ', num(n))
    m.emit(*[B(binop('+', 48, binop('%', binop('//', n, 10 ** i), 10))) for i in (2, 1, 0)])


def b_asciilab(m):
    m.w('.dw_to_ascii lback')
    v = m.labels['lback']
    if not le(v, 65535):
        raise Infeasible()
    m.emit(*[B(binop('+', 48, binop('%', binop('//', v, 10 ** i), 10))) for i in (4, 3, 2, 1, 0)])


def b_aligned(m):
    m.w('ALIGNED lal')
    m.ref('lal', 2, 16)


def b_field(m):
    m.w('FIELD 21')
    m.emit(*m.num(0x8001 | 21 << 5, 2))


def b_expr(m):
    m.w('.dd lfwd+3, lback-lback')
    m.ref('lfwd', 4, 32, 3)
    m.emit(b'\0\0\0\0')


BLOCK = dict(insn=f_insn, insn2=f_insn2, load=f_load, db=f_db, dw=f_dw, dws=f_dws, fill=f_fill, incbin=f_incbin, inccsv=f_inccsv,
             incjson=f_incjson, include=f_include, mac=b_mac, dbl=b_ref('.db', 1, 8), dwl=b_ref('.dw', 2, 16, False),
             ddl=b_ref('.dd', 4, 32), abs24=b_ref('ABS24', 3, 24, False), load8l=b_ref('LOAD8', 1, 8), two=b_ref('TWO', 0, 0),
             rel=b_rel, ascii=b_ascii, asciilab=b_asciilab, aligned=b_aligned, field=b_field, expr=b_expr)
PAIRS = ('insn', 'load', 'db', 'dwl', 'ddl', 'rel', 'mac', 'fill', 'asciilab', 'two', 'expr', 'incbin')


class Rep:
    '''the block is written once; its meaning is applied n times'''

    def __init__(self, m, n, names, head=None):
        m.w(head if head is not None else '.repeat %d' % n)
        inputs, n0 = m.inputs, m.n
        for i in range(n):
            m.n = n0
            out, m.out = m.out, [] if i else m.out
            for f in names:
                BLOCK[f](m)
            if i:
                m.out = out
        m.w('.endrepeat')


def start(m, P=300):
    m.prefix(L=200, P=P)
    m.w('.macro mm p q\nLOAD8 p\nLOAD8 q\n.endmacro')
    m.label('lback', 'lback')
    m.labels['lal'] = 0x1230


def finish(m):
    m.label('lfwd', 'lfwd')
    m.w('.dd lfwd')
    m.ref('lfwd', 4, 32)
    m.label('Z9', 'Z9')
    m.w('.org $1230\nlal:')


def blockcase(names, n, big=False, before=None, P=300):
    def body(m):
        start(m, P)
        if before:
            BLOCK[before](m)
        Rep(m, n, names)
        f_insn2(m)
        finish(m)
    return case('%s x%d%s%s' % (' '.join(names), n, ' after %s' % before if before else '', ' be' if big else ''), body, big)


def cases(tier):
    for f in BLOCK:
        for n in (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 9, 16):
            for big in (False, True):
                yield blockcase((f,), n, big)
        yield blockcase((f,), 2, False, 'load')
        yield blockcase((f,), 2, True, 'dwl')
    for a, b in product(PAIRS, repeat=2):
        yield blockcase((a, b), 2)
        yield blockcase((a, b), 3, True)
        if tier == 'thorough':
            for c in PAIRS:
                yield blockcase((a, b, c), 3)
    yield blockcase((), 4)
    yield blockcase(('load', 'dwl'), 40)
    yield blockcase(('dwl',), 100)
    # written counts
    for t, n in (('.repeat 3', 3), ('.repeat $3', 3), ('.repeat 2+1', 3), ('.repeat 0b11', 3), ('.REPEAT 2', 2), ('.repeat 3 ; x', 3)):
        def cnt(m, t=t, n=n):
            start(m)
            Rep(m, n, ('load', 'dwl'), t)
            finish(m)
        yield case('count written as %s' % t, cnt)

    def dfn(m):
        start(m)
        m.w('.define COUNT 4')
        Rep(m, 4, ('load', 'dwl'), '.repeat COUNT')
        finish(m)
    yield case('count from a define', dfn)
    # several blocks
    for (a, b), (x, y) in product(product(('load', 'dwl', 'rel'), repeat=2), ((2, 3), (3, 1))):
        def two(m, a=a, b=b, x=x, y=y):
            start(m)
            Rep(m, x, (a, 'insn'))
            BLOCK[b](m)
            Rep(m, y, (b,))
            Rep(m, 2, (a, b))
            finish(m)
        yield case('three blocks %s %s %d %d' % (a, b, x, y), two)
    # a label defined inside the block names the first copy; labels after the block are right
    for f in ('load', 'dwl', 'db'):
        def inner(m, f=f):
            start(m)
            m.w('.repeat 3')
            at, n0 = m.pc, m.n
            m.labels['lin'] = at
            m.w('lin:')
            for i in range(3):
                m.n = n0
                out, m.out = m.out, [] if i else m.out
                BLOCK[f](m)
                m.w('.dd lin')
                m.ref('lin', 4, 32)
                if i:
                    m.out = out
            m.w('.endrepeat')
            finish(m)
        # defining one label in each copy would be a duplicate definition: not specified
    # blocks inside regions
    for f in ('load', 'dwl', 'rel'):
        def region(m, f=f):
            m.w('.macro mm p q\nLOAD8 p\nLOAD8 q\n.endmacro')
            p = m.sym('P', 1, 200)
            m.w('.org ', num(p), ' ', num(binop('+', p, 99)))
            m.set_org(p, binop('+', p, 99))
            m.label('lback', 'lback')
            Rep(m, 4, (f, 'insn'))
            m.label('lfwd', 'lfwd')
        yield case('block in a bounded region %s' % f, region)

        def included(m, f=f):
            start(m)
            saved, m.out = m.out, []
            Rep(m, 3, (f, 'insn'))
            out, m.out = m.out, saved
            m.files['rep'] = {'text': S(*out)}
            m.w('.include "rep"')
            finish(m)
        yield case('block in an include %s' % f, included)

        def sectioned(m, f=f):
            start(m)
            m.w('.section "ss" RX')
            Rep(m, 3, (f, 'insn'))
            finish(m)
        yield case('block in a section %s' % f, sectioned)
    # an unknown label or a bad statement in the block
    for bad in ('.dw nolab', 'LOAD8 nolab', 'LOAD8 256', 'nosuch', 'REL8 nolab'):
        def unk(m, bad=bad):
            start(m)
            m.w('.repeat 2\n', bad, '\n.endrepeat')
            raise Refused()
        yield case('block with %s' % bad, unk, reject_any=False)
    # a reference fits in the first copy only
    for n in (2, 3, 4):
        def far(m, n=n):
            m.prefix(L=200, P=300)
            m.label('lback', 'lback')
            k = m.sym('K', 1, 130)
            m.w('.repeat %d' % n)
            m.w('.fill ', num(k), ' 7')
            m.w('REL8 lback')
            m.w('.endrepeat')
            fits = le(binop('*', n, binop('+', k, 2)), 128)
            if not fits:
                raise Refused()
            for _ in range(n):
                m.emit(RepSeg(7, k))
                d = binop('-', m.labels['lback'], binop('+', m.pc, 2))
                m.emit(b'p', B(d))
        yield case('relative distance grows with the copies x%d' % n, far)
    for bad in ('.repeat', '.repeat 1 2', '.repeat lback', '.repeat nolab', '.repeat "2"', '.endrepeat', '.repeat 2\n.repeat 2\nnop\n.endrepeat\n.endrepeat',
                '.repeat 2\nnop\n.endrepeat\n.endrepeat', '.repeat 0'):
        def refused(m, bad=bad):
            start(m)
            m.w(bad)
            m.w('nop')
            if bad.startswith('.repeat') and 'end' not in bad:
                m.w('.endrepeat')
            raise Refused()
        yield case('refused %r' % bad, refused)

    def neg(m):
        start(m)
        m.w('.repeat -', num(m.sym('N', 0, 1 << 70)), '\nnop\n.endrepeat')
        raise Refused()
    yield case('refused negative count', neg)
