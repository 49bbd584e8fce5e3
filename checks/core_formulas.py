'''C07: formulas on numbers and labels are evaluated exactly.'''
from .model import *

RULE = 'a formula denotes byte-select prefix first, then the operators from left to right, over exact integers; the result must fit the field or the program is refused'
EXPLANATION = '''Abstract interpretation of formula parsing and evaluation with symbolic literals and label addresses for every operator,
every pair of operators and every byte-select prefix.'''
ASSUMPTIONS = ['operands below 2**40']
MIN_OBLIGATIONS = 120
H = 1 << 40
OPS = '+-*/&|'


def term(m, kind, name):
    '''-> (text, value)'''
    if kind == 'dec':
        v = m.sym(name, 0, H)
        return S(num(v)), v
    if kind == 'hex':
        v = m.sym(name, 0, H)
        return S('0x', num(v, 16)), v
    if kind in ('lab', 'fwd'):
        v = m.sym(name, 0, H)
        t = NamePiece('lab' + name)
        blk = ['.org ', num(v), '\n', t, ':\n']
        if kind == 'lab':
            m.out += blk
        else:
            m.post += blk
        return S(t), v
    return S(kind), int(kind)


def prefix_value(pre, v):
    low, out = 0, None
    for c in pre:
        if c == '>':
            v = bits(v, 8, None)
        else:
            part = binop('*', bits(v, 8 * low, 8), 1 << (8 * low))
            out = part if out is None else binop('+', out, part)
            low += 1
    return v if out is None else out


def apply(op, a, b):
    if op == '/':
        if eq(b, 0):
            raise Refused()
        return binop('//', a, b)
    return binop(op, a, b)


def run_case(pre, kinds, ops, size=4):
    def body(m):
        m.post = []
        terms = [term(m, k, 'abcdef'[i]) for i, k in enumerate(kinds)]
        m.prefix()
        parts = [pre, terms[0][0]]
        v = prefix_value(pre, terms[0][1])
        for op, (t, x) in zip(ops, terms[1:]):
            parts += [op, t]
        m.w({1: '.db ', 2: '.dw ', 4: '.dd '}[size], *parts)
        m.out += m.post
        for op, (t, x) in zip(ops, terms[1:]):
            v = apply(op, v, x)
        if len(ops) >= len(kinds):
            m.out[m.out.index('.dd ')] = '.dd '
        label_first = kinds[0] in ('lab', 'fwd')
        lo = 0 if label_first or kinds[0] == 'hex' else -(1 << (8 * size - 1))
        if not inr(v, lo, (1 << (8 * size)) - 1):
            raise Refused()
        m.emit(*m.num(v, size))
    return body


def cases(tier):
    firsts = ('dec', 'hex', 'lab', 'fwd')
    for f in firsts:
        for op in OPS:
            for s in ('dec', 'hex', 'lab', 'fwd'):
                if s == 'fwd' and f in ('dec', 'hex'):
                    continue
                if op in '*/&|' and tier == 'quick' and s == 'hex':
                    continue
                small = op in '&|'
                yield case('%s%s%s' % (f, op, s), run_case('', (f, s), op))
                for size in (1, 2):
                    if op in '+-':
                        yield case('%s%s%s size %d' % (f, op, s, size), run_case('', (f, s), op, size))
        for pre in ('<', '>', '<<', '>>', '><', '>>>', '<<<', '>><', '><<', '>>>>'):
            for size in (1, 2, 4):
                if size == 2 and tier == 'quick' and len(pre) > 2:
                    continue
                yield case('%s%s size %d' % (pre, f, size), run_case(pre, (f,), '', size))
            for op in '+-':
                yield case('%s%s%s3' % (pre, f, op), run_case(pre, (f, '3'), op))
        for op in OPS:
            for c in ('1', '2', '16', '255', '256', '65535'):
                yield case('%s%s%s' % (f, op, c), run_case('', (f, c), op))
        for o1 in OPS:
            for o2 in OPS:
                yield case('%s%s6%s4' % (f, o1, o2), run_case('', (f, '6', '4'), o1 + o2))
                if o1 in '+-' and o2 in '+-':
                    yield case('%s%slab%sdec' % (f, o1, o2), run_case('', (f, 'lab', 'dec'), o1 + o2))
                    for o3 in '+-':
                        yield case('%s%slab%sdec%slab' % (f, o1, o2, o3), run_case('', (f, 'lab', 'dec', 'lab'), o1 + o2 + o3))
    # the distance between two labels is the number of bytes between them
    for fr in ('insn', 'db', 'fill', 'align', 'incbin', 'include', 'repeat', 'macro', 'ram', 'dws', 'dd'):
        def dist(m, fr=fr):
            m.prefix()
            m.label('Z9', 'Z9')
            a = m.pc
            FRAGS[fr](m)
            m.label('end', 'end')
            b = m.pc
            m.w('.dd end-Z9')
            d = binop('-', b, a)
            if not inr(d, 0, (1 << 32) - 1):
                raise Refused()
            m.emit(*m.num(d, 4))
        yield case('size of %s as a label difference' % fr, dist)
    # relative references with a formula
    def rel(m):
        m.prefix()
        a, k = m.sym('A', 0, H), m.sym('K', 0, 1000)
        m.w('REL8 tgt+', num(k))
        p = m.pc
        m.w('.org ', num(a), '\ntgt:')
        d = binop('-', binop('+', a, k), binop('+', p, 2))
        if not inr(d, -128, 127):
            raise Refused()
        m.emit(b'\x70', B(d))
    yield case('relative reference with an offset', rel)
