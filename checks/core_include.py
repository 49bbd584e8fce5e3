'''C10: included data and sources behave as if written in place.'''
from itertools import product
from .model import *
from .model import case as strict


def case(*a, **k):
    '''contents that cannot be read are refused by whatever error the reader raises'''
    k.setdefault('reject_any', True)
    return strict(*a, **k)


RULE = 'an included source is equivalent to its text written in place; an included data file emits exactly its bytes or values in order'
EXPLANATION = '''Abstract interpretation of programs whose sources are split over included files at every statement kind (before, inside, after), with
symbolic operands, positions and origins, nested includes, and of the data includes over files of unknown content and length, table shapes
up to a bound with unknown values in every notation.'''
ASSUMPTIONS = ['file contents are handed over by the operating system unchanged; the csv and json readers are the standard ones']
MIN_OBLIGATIONS = 300
CHOICE = ('insn', 'load', 'loadlab', 'db', 'dw', 'fill', 'align', 'goto', 'upto', 'ram', 'incbin', 'inccsv', 'repeat', 'macro', 'org', 'orgb',
          'section', 'define', 'export')
FEW = ('load', 'dw', 'ram', 'align', 'org', 'orgb')


def include(m, body, nl=True, quote='"'):
    u = m.uid('inc')
    saved, m.out = m.out, []
    try:
        body(m)
    finally:
        out, m.out = m.out, saved
        if not nl and out and out[-1] == '\n':
            out = out[:-1]
        m.files[u] = {'text': S(*out)}
        m.w('.include ', quote, u, quote)


def around(a, ins, b, nest=0):
    def inside(m):
        if nest:
            f_load(m)
            include(m, lambda m: [FRAGS[f](m) for f in ins])
            m.label('lmid', 'lmid')
        else:
            for f in ins:
                FRAGS[f](m)

    def body(m):
        m.prefix(L=200, P=1 << 16)
        if a:
            FRAGS[a](m)
        m.label('lbef', 'lbef')
        include(m, inside)
        m.label('laft', 'laft')
        if b:
            FRAGS[b](m)
        m.w('.dd laft lbef')
        m.ref('laft', 4, 32)
        m.ref('lbef', 4, 32)
        m.label('Z9', 'Z9')
    return body


def cases(tier):
    for f in CHOICE:
        for a in FEW + ('',):
            yield case('include %s after %s' % (f, a), around(a, (f,), ''))
        for b in FEW:
            yield case('include %s before %s' % (f, b), around('', (f,), b))
        yield case('include %s nested' % f, around('', (f,), '', 1))
        yield case('include %s be' % f, around('dw', (f,), 'dw'), big=True)
    for x, y in product(FEW, repeat=2):
        yield case('include %s,%s' % (x, y), around('orgb', (x, y), 'load'))
        if tier == 'thorough':
            for a, b in product(FEW, repeat=2):
                yield case('include %s,%s between %s and %s' % (x, y, a, b), around(a, (x, y), b))

    # what an included file declares is visible afterwards and vice versa
    def macro_in(m):
        m.prefix()
        include(m, lambda m: m.w('.macro mm p\nLOAD8 p\nnop\n.endmacro'))
        n = m.sym('N', 0, 255)
        m.w('mm ', num(n))
        m.emit(b'\x18', B(n), b'\x90')
    yield case('macro from an include', macro_in)

    def macro_out(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        m.w('.macro mm p\nLOAD8 p\n.endmacro')

        def ins(m):
            m.w('mm ', num(n))
            m.emit(b'\x18', B(n))
        include(m, ins)
        ins(m)
    yield case('macro used by an include', macro_out)

    def macro_split(m):
        m.prefix()
        m.w('.macro mm p')
        include(m, lambda m: m.w('LOAD8 p'))
        m.w('.endmacro\nmm 7')
        m.emit(b'\x18\7')

    def define_in(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        include(m, lambda m: m.w('.define KK ', num(n)))
        m.w('LOAD8 KK')
        m.emit(b'\x18', B(n))
    yield case('define from an include', define_in)

    def define_out(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        m.w('.define KK ', num(n))

        def ins(m):
            m.w('LOAD8 KK')
            m.emit(b'\x18', B(n))
        include(m, ins)
    yield case('define used by an include', define_out)

    def repeat_split(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        include(m, lambda m: m.w('.repeat 3\nLOAD8 ', num(n)))
        m.w('nop\n.endrepeat')
        for _ in range(3):
            m.emit(b'\x18', B(n), b'\x90')
    yield case('repeat opened by an include', repeat_split)

    def repeat_around(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        m.w('.repeat 3')
        include(m, lambda m: m.w('LOAD8 ', num(n)))
        m.w('.endrepeat')
        for _ in range(3):
            m.emit(b'\x18', B(n))
    yield case('repeat around an include', repeat_around)
    for ways in product((0, 1), repeat=2):
        def labels(m, ways=ways):
            m.prefix()

            def use(m):
                m.w('.dd lx+1')
                m.ref('lx', 4, 32, 1)

            def dfn(m):
                m.label('lx', 'lx')
                f_load(m)
            f_fill(m)
            for w, f in ((ways[0], use), (ways[1], dfn)):
                include(m, f) if w else f(m)
        yield case('labels across includes %d%d' % ways, labels)

    def dup(m):
        m.prefix()
        m.label('lx', 'lx')
        include(m, lambda m: m.w('lx:'))
        raise Refused()
    yield case('label defined in both', dup)

    def twice(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        m.files['same'] = {'text': S('LOAD8 ', num(n), '\n')}
        for _ in range(2):
            m.w('.include "same"')
            m.emit(b'\x18', B(n))
    yield case('same file twice', twice)

    def twicel(m):
        m.prefix()
        m.files['same'] = {'text': 'lx: nop\n'}
        m.w('.include "same"\n.include "same"')
        raise Refused()
    yield case('same file with a label twice', twicel)
    for k, txt in (('empty', ''), ('blank', '\n\n'), ('comment', '; nothing'), ('spaces', '  \t')):
        def empty(m, txt=txt):
            m.prefix()
            f_load(m)
            m.files['emptyfile'] = {'text': txt}
            m.w('.include "emptyfile"')
            f_load(m)
            m.label('Z9', 'Z9')
        yield case('include %s file' % k, empty)
    for q in ('"', "'", ''):
        def quote(m, q=q):
            m.prefix()
            include(m, f_load, quote=q)
            f_insn(m)
        yield case('file name quoted by %s' % (q or 'nothing'), quote)

    def nonl(m):
        m.prefix()
        include(m, f_load, nl=False)
        f_insn(m)
    yield case('include without a final newline', nonl)

    def inreg(m):
        m.prefix(org=False)
        p, k = m.sym('P', 0, 1 << 16), m.sym('K', 16, 1 << 12)
        m.w('.org ', num(p), ' ', num(binop('+', p, k)))
        m.set_org(p, binop('+', p, k))
        f_load(m)
        include(m, f_load)
        f_load(m)
    yield case('include in a bounded origin', inreg)

    def inreg2(m):
        m.prefix(org=False)
        p, k, q = m.sym('P', 0, 1 << 16), m.sym('K', 0, 1 << 12), m.sym('Q', 0, 1 << 17)

        def ins(m):
            m.w('.org ', num(p), ' ', num(binop('+', p, k)))
            if eq(binop('+', p, k), 0):
                raise Infeasible()
            m.set_org(p, binop('+', p, k))
            f_insn(m)
        include(m, ins)
        f_insn2(m)
        if not le(binop('-', m.pc, m.org), binop('+', k, 1)):
            raise Infeasible()          # more than the region holds: not specified
        m.w('.org ', num(q))
        m.set_org(q)
        f_insn(m)
    yield case('bounded origin opened by an include', inreg2)

    def section(m):
        m.prefix()
        include(m, lambda m: m.w('.section "aa" RX'))
        m.w('.section "aa" RX')
        raise Refused()
    yield case('section declared in both', section)
    for bad in ('.include', '.include "x" "y"', '.include "missing"', '.incbin', '.incbin "pre" 1', '.incbin "missing"', '.inccsv',
                '.inccsv "missing"', '.inccsv_le16', '.inccsv_le16 "missing"', '.incjson "missing" "x"', '.incjson "pre"', '.incjson'):
        def err(m, bad=bad):
            m.prefix()
            m.w(bad)
            raise Refused()
        yield case('refused %s' % bad, err)

    # binary files
    for a in FEW + ('section', 'repeat', ''):
        for cuts in (1, 2):
            def binf(m, a=a, cuts=cuts):
                m.prefix()
                if a:
                    FRAGS[a](m)
                for _ in range(cuts):
                    f_incbin(m)
                m.label('lx', 'lx')
                m.w('.dd lx')
                m.ref('lx', 4, 32)
                m.label('Z9', 'Z9')
            yield case('binary x%d after %s' % (cuts, a), binf)

    def binu(m):
        m.prefix()
        n = m.sym('len', 0, 1 << 20)
        m.files['b.bin'] = {'bytes': AbsBytes([opq('b.bin', n)])}
        m.w('.incbin b.bin')
        m.emit(opq('b.bin', n))
    yield case('binary with a bare name', binu)

    # tables
    KINDS = ('dec', 'hex', 'hexs', 'bin', 'neg')

    def cell(m, k, n):
        top = (1 << 8 * n) - 1
        if k == 'neg':
            v = m.sym(m.uid('N'), 1, 1 << (8 * n - 1))
            return S('-', num(v)), binop('-', 1 << 8 * n, v)
        v = m.sym(m.uid('N'), 0, top)
        return S({'hex': '$', 'bin': '%'}.get(k, ''), NumPiece(v, {'hex': 16, 'bin': 2}.get(k, 10)), 'd' if k == 'hexs' else ''), v
    shapes = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (0, 1), (3, 3), (1, 0, 2), (2, 2, 2)]
    for d, n in (('inccsv', 1), ('inccsv_le16', 2)):
        for big in (False, True):
            for shape in shapes:
                for kk in range(len(KINDS)):
                    def table(m, d=d, n=n, shape=shape, kk=kk):
                        m.prefix()
                        rows, i = [], kk
                        for cols in shape:
                            row = []
                            for _ in range(cols):
                                t, v = cell(m, KINDS[i % len(KINDS)], n)
                                i += 1
                                row.append(t)
                                m.emit(*le_bytes(v, n))
                            rows.append(row)
                        m.files['tab'] = {'rows': rows}
                        m.w('.', d, ' "tab"')
                        m.label('lx', 'lx')
                        m.w('.dd lx')
                        m.ref('lx', 4, 32)
                    yield case('%s %s %s%s' % (d, shape, KINDS[kk], ' be' if big else ''), table, big)
        for pos in range(3):
            for why in ('big', 'hexbig', 'neg', 'label', 'word', 'empty', 'hexneg'):
                def bad(m, d=d, n=n, pos=pos, why=why):
                    m.prefix()
                    m.label('lx', 'lx')
                    v = m.sym('N', 1 << 8 * n, 1 << 70)
                    u = m.sym('U', 1, 255)
                    w = m.sym('W', (1 << 8 * n - 1) + 1, 1 << 70)
                    c = {'big': S(num(v)), 'hexbig': S('$', NumPiece(v, 16)), 'neg': S('-', num(w)), 'label': 'lx', 'word': NamePiece('labW'),
                         'empty': '', 'hexneg': S('$-', NumPiece(u, 16))}[why]
                    row = ['1', '2', '3']
                    row[pos] = c
                    m.files['tab'] = {'rows': [row]}
                    m.w('.', d, ' "tab"')
                    raise Refused()
                yield case('%s %s at %d' % (d, why, pos), bad)
    # structured data
    for path, wrap in (('a', lambda x: {'a': x, 'b': [9]}), ('a.b', lambda x: {'a': {'b': x, 'c': [9]}, 'b': [8]}),
                       ('a.b.c', lambda x: {'a': {'b': {'c': x}}, 'c': [7]})):
        for ks in [(k,) for k in ('int',) + KINDS] + [('int', 'dec'), ('dec', 'int', 'int'), ('hex', 'int'), (), ('int',) * 4]:
            for big in (False, True):
                def js(m, path=path, wrap=wrap, ks=ks):
                    m.prefix()
                    items = []
                    for k in ks:
                        if k == 'int':
                            v = t = m.sym(m.uid('N'), 0, 255)
                        else:
                            t, v = cell(m, k, 1)
                        items.append(t)
                        m.emit(B(v))
                    m.files['js'] = {'json': wrap(items)}
                    m.w('.incjson "js" "%s"' % path)
                    m.label('lx', 'lx')
                    m.w('.dd lx')
                    m.ref('lx', 4, 32)
                yield case('incjson %s %s%s' % (path, ' '.join(ks), ' be' if big else ''), js, big)
    for why in ('big', 'negint', 'strbig', 'strneg', 'label', 'nokey', 'nokey2', 'none', 'float', 'list'):
        def jbad(m, why=why):
            m.prefix()
            m.label('lx', 'lx')
            v, w = m.sym('N', 256, 1 << 70), m.sym('W', 129, 1 << 70)
            it = {'big': v, 'negint': binop('-', 0, w), 'strbig': S(num(v)), 'strneg': S('-', num(w)), 'label': 'lx', 'none': None,
                  'float': 1.5, 'list': [1]}.get(why, 1)
            m.files['js'] = {'json': {'a': {'b': [1, it, 2]}}}
            m.w('.incjson "js" "%s"' % {'nokey': 'b', 'nokey2': 'a.c'}.get(why, 'a.b'))
            raise Refused()
        yield case('incjson refused %s' % why, jbad)
