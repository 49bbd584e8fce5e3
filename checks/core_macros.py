'''C11: a macro call is the substitution of its arguments.'''
from itertools import product
from .model import *

RULE = 'a macro call assembles the recorded statements with the arguments of that call, and leaves the recorded statements as they were'
EXPLANATION = '''Abstract interpretation of macro definitions and calls: every parameter count up to a bound, every use pattern of the parameters in
the body (order, repetition, inside formulas and brackets, adjacent to other words), argument kinds with unknown values, histories of calls
that succeed and fail, nested calls, and calls from other sources, includes and repeated blocks.'''
ASSUMPTIONS = ['directives are not recorded (they act while the macro is being recorded)']
MIN_OBLIGATIONS = 250
KINDS = ('dec', 'hex', 'back', 'fwd', 'form', 'chr', 'neg')


def arg(m, k):
    '''-> text, emit() of the one byte operand'''
    if k in ('dec', 'hex'):
        v = m.sym(m.uid('N'), 0, 255)
        return S('' if k == 'dec' else '$', NumPiece(v, 10 if k == 'dec' else 16)), lambda: m.emit(B(v))
    if k == 'neg':
        v = m.sym(m.uid('N'), 1, 128)
        return S('-', num(v)), lambda: m.emit(B(binop('-', 256, v)))
    if k == 'back':
        return 'lback', lambda: m.ref('lback', 1, 8)
    if k == 'fwd':
        return 'lfwd', lambda: m.ref('lfwd', 1, 8)
    if k == 'form':
        return 'lfwd+5', lambda: m.ref('lfwd', 1, 8, 5)
    if k == 'chr':
        return "'A'", lambda: m.emit(b'A')
    raise ValueError(k)


def start(m):
    m.prefix(L=200, P=300)
    m.label('lback', 'lback')


def finish(m):
    m.label('lfwd', 'lfwd')
    m.w('.dd lfwd')
    m.ref('lfwd', 4, 32)


PARAMS = ('p', 'q', 'r')
BODIES = {0: [()], 1: [(), (0,), (0, 0)], 2: [(0, 1), (1, 0), (1,), (0, 1, 0)], 3: [(0, 1, 2), (2, 1, 0), (2, 2, 0)]}


def cases(tier):
    # every parameter count, use pattern and argument kinds
    for n, bodies in BODIES.items():
        for bi, body in enumerate(bodies):
            for ki in range(len(KINDS)):
                for calls in (1, 2):
                    def one(m, n=n, body=body, ki=ki, calls=calls):
                        start(m)
                        m.w('.macro mm ', ' '.join(PARAMS[:n]))
                        m.w('nop')
                        for b in body:
                            m.w('LOAD8 ', PARAMS[b])
                        m.w('.endmacro')
                        m.label('ldef', 'ldef')
                        i = ki
                        for _ in range(calls):
                            args = []
                            for _ in range(n):
                                args.append(arg(m, KINDS[i % len(KINDS)]))
                                i += 2
                            m.w(*['mm'] + [x for a, _ in args for x in (' ', a)])
                            m.emit(b'\x90')
                            for b in body:
                                m.emit(b'\x18')
                                args[b][1]()
                            f_insn2(m)
                        m.w('.dd ldef')
                        m.ref('ldef', 4, 32)
                        finish(m)
                    yield case('%d parameters used %s, arguments from %s, %d calls' % (n, body, KINDS[ki], calls), one)
            for big in ((True,) if tier == 'quick' else (True, False)):
                def words(m, n=n, body=body):
                    start(m)
                    m.w('.macro mm ', ', '.join(PARAMS[:n]))
                    for b in body:
                        m.w('ABS24 ', PARAMS[b])
                    m.w('.endmacro')
                    vs = [m.sym(m.uid('N'), 0, (1 << 24) - 1) for _ in range(n)]
                    m.w(*['mm'] + [x for v in vs for x in (' ', num(v))])
                    for b in body:
                        m.emit(b'\x71', *m.num(vs[b], 3))
                    finish(m)
                yield case('%d parameters used %s, words%s' % (n, body, ' be' if big else ''), words, big=big)
    # too few arguments
    for n, have in ((1, 0), (2, 0), (2, 1), (3, 2)):
        def few(m, n=n, have=have):
            start(m)
            m.w('.macro mm ', ' '.join(PARAMS[:n]))
            m.w('nop')
            m.w('.endmacro')
            m.w(*['mm'] + [' 1'] * have)
            raise Refused()
        yield case('%d parameters, %d arguments' % (n, have), few, reject_any=False)
    # the position of a parameter inside a token
    for tok, add in (('p+1', 1), ('p+p', 'p'), ('1+p', 1), ('p-1', -1), ('p*3', '*'), ('<p', '<'), ('>p', '>')):
        def inside(m, tok=tok, add=add):
            start(m)
            m.w('.macro mm p')
            m.w('LOAD8 ', tok)
            m.w('.endmacro')
            v = m.sym('N', 1, 80) if add not in ('<', '>') else m.sym('N', 0, 65535)
            m.w('mm ', num(v))
            r = binop('+', v, v) if add == 'p' else binop('*', v, 3) if add == '*' else bits(v, 0, 8) if add == '<' else \
                bits(v, 8, 8) if add == '>' else binop('+', v, add)
            if add == '<':
                pass
            m.emit(b'\x18', B(r))
            finish(m)
        yield case('parameter in %s' % tok, inside)
    for tok, exp in (('pp', 'pp'), ('p1', 'p1'), ('_p', '_p'), ('p.x', 'p.x'), ('xp', 'xp'), ('P', 'P')):
        def whole(m, tok=tok, exp=exp):
            start(m)
            m.label(exp, exp)
            m.w('.macro mm p')
            m.w('LOAD8 ', tok)
            m.w('LOAD8 p')
            m.w('.endmacro')
            v = m.sym('N', 0, 255)
            m.w('mm ', num(v))
            m.emit(b'\x18')
            m.ref(exp, 1, 8)
            m.emit(b'\x18', B(v))
            finish(m)
        yield case('word %s is not the parameter p' % tok, whole)

    def opname(m):
        start(m)
        m.w('.macro mm op p')
        m.w('op p')
        m.w('.endmacro')
        v = m.sym('N', 0, 255)
        m.w('mm LOAD8 ', num(v))
        m.emit(b'\x18', B(v))
        m.w('mm BYTES ', num(v))
        m.emit(b'\xe0', B(v))
        finish(m)
    yield case('parameter as a mnemonic', opname)
    # the argument is a word that is also a parameter
    for a0, a1 in (('q', 'p'), ('q', '5'), ('7', 'p')):
        def cross(m, a0=a0, a1=a1):
            start(m)
            m.label('p', 'p')
            m.label('q', 'q')
            m.w('.macro mm p q')
            m.w('LOAD8 p')
            m.w('LOAD8 q')
            m.w('.endmacro')
            m.w('mm %s %s' % (a0, a1))
            for a in (a0, a1):
                m.emit(b'\x18')
                if a.isdigit():
                    m.emit(bytes([int(a)]))
                else:
                    m.ref(a, 1, 8)
            finish(m)
        yield case('argument %s,%s named like a parameter' % (a0, a1), cross)
    # nested calls
    for perm in (('p', 'q'), ('q', 'p'), ('q', 'q')):
        for inner in (('p', 'q'), ('q', 'p'), ('x', 'y')):
            for late in (0, 1):
                def nested(m, perm=perm, inner=inner, late=late):
                    start(m)
                    i = ['.macro in ', ' '.join(inner), '\nLOAD8 ', inner[0], '\nTWO ', inner[1], ' ', inner[0], '\n.endmacro']
                    o = ['.macro out p q\nnop\nin ', perm[0], ' ', perm[1], '\nLOAD8 q\n.endmacro']
                    for x in ((o, i) if late else (i, o)):
                        m.w(*x)
                    for k in range(2):
                        v = dict(p=m.sym(m.uid('N'), 0, 255), q=m.sym(m.uid('N'), 0, 255))
                        m.w('out ', num(v['p']), ' ', num(v['q']))
                        a, b = v[perm[0]], v[perm[1]]
                        m.emit(b'\x90\x18', B(a), b'\x72', B(b), *m.num(a, 2))
                        m.emit(b'\x18', B(v['q']))
                    finish(m)
                yield case('nested call %s with %s%s' % (perm, inner, ' defined later' if late else ''), nested)

    def deep(m):
        start(m)
        m.w('.macro m1 a\nLOAD8 a\n.endmacro\n.macro m2 a\nm1 a\nm1 a+1\n.endmacro\n.macro m3 a b\nm2 b\nm1 a\n.endmacro')
        v, w = m.sym('V', 0, 255), m.sym('W', 0, 250)
        m.w('m3 ', num(v), ' ', num(w))
        for x in (w, binop('+', w, 1), v):
            m.emit(b'\x18', B(x))
        finish(m)
    yield case('three levels', deep)
    # definitions emit nothing, wherever they are
    for f in ('load', 'fill', 'ram', 'org', 'orgb', 'section', 'db'):
        def silent(m, f=f):
            start(m)
            FRAGS[f](m)
            m.w('.macro mm p q\nnop\nLOAD8 p\nTWO p q\n.endmacro')
            m.label('lx', 'lx')
            m.w('.dd lx')
            m.ref('lx', 4, 32)
            m.label('Z9', 'Z9')
            finish(m)
        yield case('definition after %s emits nothing' % f, silent)
    for bad in ('.macro mm p\n.macro nn\n', '.endmacro', '.macro mm p\nnop\n.endmacro\n.endmacro', '.macro mm\nlab:\n', '.macro mm\nnop\nlab: nop\n.endmacro',
                '.macro', 'mm 1\n.macro mm p\nLOAD8 p\n.endmacro', '.macro mm p\nnosuch p\n.endmacro\nmm 1'):
        def refused(m, bad=bad):
            start(m)
            m.w(bad)
            raise Refused()
        yield case('refused %r' % bad, refused, reject_any=bad == '.macro')
    # names
    for d, u in product(('mac', 'Mac', 'MAC'), repeat=2):
        for cs in (0, 1):
            def names(m, d=d, u=u, cs=cs):
                start(m)
                m.w('.macro %s p\nLOAD8 p\n.endmacro' % d)
                v = m.sym('N', 0, 255)
                m.w(u, ' ', num(v))
                if cs and d != u:
                    raise Refused()
                m.emit(b'\x18', B(v))
                finish(m)
            yield case('defined as %s called as %s%s' % (d, u, ' case sensitive' if cs else ''), names, asm=CS if cs else None)
    # relative operands, repeats, defines, other sources
    for d in (0, 1, 2):
        def rel(m, d=d):
            start(m)
            m.w('.macro mm p\nnop\nREL8 p\n.endmacro')
            m.label('lt', 'lt')
            for _ in range(d):
                f_insn2(m)
            for _ in range(2):
                m.w('mm lt')
                m.emit(b'\x90')
                m.emit(b'p', B(binop('-', m.labels['lt'], binop('+', m.pc, 2))))
            finish(m)
        yield case('relative operand %d' % d, rel)
    for order in product((0, 1), repeat=2):
        def rep(m, order=order):
            start(m)
            v = m.sym('N', 0, 255)
            m.w('.macro mm p q\nLOAD8 p\nTWO q p\n.endmacro')
            args = (num(v), 'lfwd') if order[0] else ('lfwd', num(v))
            m.w('.repeat 3')
            m.w('mm ', args[0], ' ', args[1])
            m.w('.endrepeat')
            for _ in range(3):
                m.emit(b'\x18')
                if order[0]:
                    m.emit(B(v), b'\x72')
                    m.ref('lfwd', 1, 8)
                    m.emit(*m.num(v, 2))
                else:
                    m.ref('lfwd', 1, 8)
                    m.emit(b'\x72', B(v))
                    m.ref('lfwd', 2, 16)
            finish(m)
        yield case('call in a repeat %s' % (order,), rep)

    def dfn(m):
        start(m)
        v, w = m.sym('V', 0, 255), m.sym('W', 0, 255)
        m.w('.macro mm p\nLOAD8 p\nLOAD8 KK\n.endmacro\n.define KK ', num(v), '\n.define JJ ', num(w), '\nmm JJ\nmm KK\nmm 3')
        for x in (w, v, 3):
            m.emit(b'\x18', B(x), b'\x18', B(v))
        finish(m)
    yield case('defines in the body and in the arguments', dfn)
    # characters and strings of the body are not parameters
    for body, args, want in (("LOAD8 'p'", ['3'], b'\x18p'), ("LOAD8 'p'\nLOAD8 p", ['3'], b'\x18p\x18\3'), ("TWO 'q' p", ['3', '4'], b'\x72q\3\0'),
                             ("LOAD8 p", ["'p'"], b'\x18p'), ("LOAD8 q", ["'p'", "'q'"], b'\x18q')):
        def quoted(m, body=body, args=args, want=want):
            start(m)
            m.w('.macro mm %s\n%s\n.endmacro' % (' '.join('pqr'[:len(args)]), body))
            for _ in range(2):
                m.w('mm ' + ' '.join(args))
                m.emit(want)
            finish(m)
        yield case('characters: %s with %s' % (body.replace('\n', '; '), ' '.join(args)), quoted)
    for hist in product('gbfs', repeat=3):
        yield History(''.join(hist))
    if tier == 'thorough':
        for hist in product('gbfs', repeat=4):
            yield History(''.join(hist))


class History(FnCase):
    '''calls on one assembler: g good, b bad operand (the second statement fails), f too few arguments, s another macro'''

    def __init__(self, hist):
        FnCase.__init__(self, 'history %s' % hist, self.go, 'calls %s of two macros on one assembler, each source separate' % hist)
        self.hist = hist

    def go(self, c):
        it = interp()
        asm = fresh(*LE)
        a = it.getattr(asm, 'assemble')
        r = c.call(a, '.macro mm p q\nLOAD8 p\nLOAD8 q\nTWO q p\n.endmacro\n.macro ss q\nmm q 9\n.endmacro\n')
        if not r.ok:
            return 'bad', 'the definition is refused with %s' % r.exc
        exp, src = [], []
        for i, h in enumerate(self.hist + 'g'):
            v, w = c.sym('V%d' % i, 0, 255), c.sym('W%d' % i, 0, 255)
            t = {'g': S('mm ', num(v), ' ', num(w)), 'b': S('mm ', num(v), ' 300'), 'f': S('mm ', num(v)), 's': S('ss ', num(v))}[h]
            src.append(t)
            c.show(*[y for x in src for y in (x, '/')])
            r = c.call(a, t)
            if h in 'bf':
                if r.ok:
                    return 'bad', 'call %d is accepted' % i
                if not r.is_asm:
                    return 'bad', 'call %d raises %s' % (i, r.exc)
                if h == 'b':
                    exp += [b'\x18', B(v)]
                continue
            if not r.ok:
                return 'bad', 'call %d is refused with %s %s' % (i, r.exc, r.msg)
            x, y = (v, w) if h == 'g' else (v, 9)
            exp += [b'\x18', B(x), b'\x18', B(y), b'\x72', B(y), *le_bytes(x, 2)]
        return 'value', it.getattr(asm, 'assembled_bytes'), AbsBytes(exp)
