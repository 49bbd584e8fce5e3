'''C13: names are compared as the assembler declares; defines replace whole words.'''
import re
from itertools import product
from .model import *
from .common import mixed

RULE = 'mnemonics, directives and macro names match in any case when the assembler is case insensitive and exactly otherwise; labels and defines match exactly; a define replaces whole words only'
EXPLANATION = '''Abstract interpretation of dispatch and substitution. Spellings are finite sets of case patterns of every registered name; words next to
a define are symbolic characters, so that every neighbour of the defined word is covered.'''
ASSUMPTIONS = []
MIN_OBLIGATIONS = 150
PATS = 12


def patterns(w, n=PATS):
    '''case patterns of a word: systematic, then pseudo random'''
    k = sum(c.isalpha() for c in w)
    out = []

    def put(bits):
        s, i = '', 0
        for c in w:
            if c.isalpha():
                s += c.upper() if bits >> i & 1 else c.lower()
                i += 1
            else:
                s += c
        if s not in out:
            out.append(s)
    full = (1 << k) - 1
    put(full), put(0), put(1), put(full ^ 1), put(1 << (k - 1)), put(full ^ (1 << (k - 1))), put(0x5555 & full), put(0xaaaa & full)
    x = 12345
    while len(out) < min(n, 1 << k):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        put(x >> 8 & full)
    return out


# directive -> (arguments, effect)
def d_num(d, n):
    def f(m, t):
        v = m.sym('N', 0, (1 << 8 * n) - 1)
        m.w('.', t, ' ', num(v))
        m.emit(*m.num(v, n))
    return f


def d_line(args, eff=None, after=None):
    def f(m, t):
        m.w('.', t, args)
        if eff:
            eff(m)
        if after:
            m.w(after)
    return f


def d_ram(m):
    m.cnt = binop('+', m.cnt, 5)


def d_org(m):
    m.set_org(0x40)


def d_align(m):
    r = binop('%', m.pc, 4)
    if not eq(r, 0):
        m.fill(binop('-', 4, r))


def d_bin(m):
    n = m.sym('len', 0, 99)
    m.files['bb'] = {'bytes': AbsBytes([opq('bb', n)])}
    m.emit(opq('bb', n))


def d_csv(n):
    def f(m):
        v = m.sym('N', 0, (1 << 8 * n) - 1)
        m.files['cc'] = {'rows': [[S(num(v))]]}
        m.emit(*le_bytes(v, n))
    return f


def d_json(m):
    v = m.sym('N', 0, 255)
    m.files['jj'] = {'json': {'a': [v]}}
    m.emit(B(v))


def d_inc(m):
    v = m.sym('N', 0, 255)
    m.files['ii'] = {'text': S('LOAD8 ', num(v))}
    m.emit(b'\x18', B(v))


def d_goto(m):
    v = m.pc


DIRS = dict(db=d_num('db', 1), byte=d_num('byte', 1), dw=d_num('dw', 2), word=d_num('word', 2), dd=d_num('dd', 4), dl=d_num('dl', 4),
            dword=d_num('dword', 4), org=d_line(' 64', d_org), ram=d_line(' 5', d_ram), align=d_line(' 4', d_align),
            fill=d_line(' 3 1', lambda m: m.emit(b'\1\1\1')), incbin=d_line(' "bb"', d_bin), inccsv=d_line(' "cc"', d_csv(1)),
            inccsv_le16=d_line(' "cc"', d_csv(2)), incjson=d_line(' "jj" "a"', d_json), include=d_line(' "ii"', d_inc),
            define=d_line(' KK 7', None), db_to_ascii=d_line(' 42', lambda m: m.emit(b'42')), dw_to_ascii=d_line(' 4242', lambda m: m.emit(b'4242')),
            db_to_asciiz=d_line(' 42', lambda m: m.emit(b'42\0')), dw_to_asciiz=d_line(' 42', lambda m: m.emit(b'42\0')),
            log=d_line(' off'), section=d_line(' "ss" RX'), export=d_line(' "ee"'), upto=d_line(' 99', lambda m: up(m)), goto=d_line(' 9999', lambda m: goto(m)))


def up(m):
    if lt(99, m.cnt):
        raise Refused()
    if lt(m.cnt, 99):
        m.fill(binop('-', 99, m.cnt))


def goto(m):
    if lt(9999, m.pc):
        raise Refused()
    if lt(m.pc, 9999):
        m.fill(binop('-', 9999, m.pc))


def ends(m):
    m.label('lz', 'lz')
    m.w('.dd lz')
    m.ref('lz', 4, 32)


def cases(tier):
    n = PATS if tier == 'quick' else 200
    for d, f in DIRS.items():
        def anyd(m, d=d, f=f):
            m.prefix(P=99)
            t, _ = m.fin('W', patterns(d, n))
            f(m, t)
            ends_(m)

        def ends_(m):
            m.label('lz', 'lz')
            m.w('NOP')
            m.emit(b'\x90')
            m.w('.dd lz')
            m.ref('lz', 4, 32)
        yield case('directive %s in any case' % d, anyd)

        def exact(m, d=d, f=f):
            m.prefix(P=99)
            t, fs = m.fin('W', patterns(d, n))
            f(m, t)
            if fs_is(t) != d:
                raise Refused()
            ends_(m)
        yield case('directive %s, case sensitive' % d, exact, asm=CS)
    for d, e in (('macro', 'endmacro'), ('repeat', 'endrepeat')):
        for cs in (0, 1):
            def pair(m, d=d, e=e, cs=cs):
                m.prefix(P=99)
                a, _ = m.fin('W', patterns(d, 6))
                b, _ = m.fin('X', patterns(e, 6))
                v = m.sym('N', 0, 255)
                m.w('.', a, ' mm' if d == 'macro' else ' 2')
                m.w('LOAD8 ', num(v))
                m.w('.', b)
                if d == 'macro':
                    m.w('mm\nmm')
                if cs and (fs_is(a) != d or fs_is(b) != e):
                    if d == 'repeat' and fs_is(a) == d:
                        raise Refused()
                    raise Refused()
                for _ in range(2):
                    m.emit(b'\x18', B(v))
            yield case('%s and %s%s' % (d, e, ' case sensitive' if cs else ' in any case'), pair, asm=CS if cs else None)
    for w, f in (('NOP', lambda m, t: (m.w(t), m.emit(b'\x90'))), ('RET2', lambda m, t: (m.w(t), m.emit(b'\xc3\xc4'))),
                 ('LOAD8', lambda m, t: (m.w(t, ' 7'), m.emit(b'\x18\7'))), ('ABS24', lambda m, t: (m.w(t, ' 7'), m.emit(b'\x71', *m.num(7, 3))))):
        def ins(m, w=w, f=f):
            m.prefix()
            t, _ = m.fin('W', patterns(w, n))
            f(m, t)
            ends(m)
        yield case('mnemonic %s in any case' % w, ins, reject_any=False)

        def inscs(m, w=w, f=f):
            m.prefix()
            t, _ = m.fin('W', patterns(w, n))
            f(m, t)
            if fs_is(t) != w:
                raise Refused()
            ends(m)
        yield case('mnemonic %s, case sensitive' % w, inscs, asm=CS, reject_any=False)
    for cs in (0, 1):
        for w in ('mac', 'DoIt', 'PUSH_ALL', 'nop2'):
            def mac(m, w=w, cs=cs):
                m.prefix()
                a, _ = m.fin('W', patterns(w, 8))
                b, _ = m.fin('X', patterns(w, 8))
                m.w('.macro ', a, ' p\nLOAD8 p\n.endmacro')
                m.w(b, ' 7')
                if cs and fs_is(a) != fs_is(b):
                    raise Refused()
                m.emit(b'\x18\7')
                ends(m) if not cs else None
            yield case('macro %s%s' % (w, ' case sensitive' if cs else ' in any case'), mac, asm=CS if cs else None, reject_any=False)

        def labels(m, cs=cs):
            m.prefix()
            a, _ = m.fin('W', patterns('label', 8))
            b, _ = m.fin('X', patterns('label', 8))
            m.w('LOAD8 1' if not cs else 'NOP')
            m.emit(b'\x18\1' if not cs else b'\x90')
            m.labels['x'] = m.pc
            m.w(a, ':')
            m.w('.dd ', b)
            if fs_is(a) != fs_is(b):
                raise Refused()
            m.ref('x', 4, 32)
        yield case('labels match exactly%s' % (' (case sensitive)' if cs else ''), labels, asm=CS if cs else None, reject_any=False)

        def defs(m, cs=cs):
            m.prefix()
            a, _ = m.fin('W', patterns('konst', 8))
            b, _ = m.fin('X', patterns('konst', 8))
            v = m.sym('N', 0, 255)
            m.w('.define ', a, ' ', num(v))
            m.w('.db ', b)
            if fs_is(a) != fs_is(b):
                raise Refused()
            m.emit(B(v))
        yield case('defines match exactly%s' % (' (case sensitive)' if cs else ''), defs, asm=CS if cs else None, reject_any=False)
        def both(m, cs=cs):
            m.prefix()
            a, _ = m.fin('W', patterns('label', 8))
            b, _ = m.fin('X', patterns('label', 8))
            m.labels['x'] = m.pc
            m.w(a, ':')
            m.w('NOP')
            m.emit(b'\x90')
            if fs_is(a) == fs_is(b):
                raise Infeasible()
            m.labels['y'] = m.pc
            m.w(b, ':')
            m.w('.dd ', b, ' ', a)
            m.ref('y', 4, 32)
            m.ref('x', 4, 32)
        yield case('two labels that differ in case%s' % (' (case sensitive)' if cs else ''), both, asm=CS if cs else None, reject_any=False)

        def bothdefs(m, cs=cs):
            m.prefix()
            a, _ = m.fin('W', patterns('konst', 8))
            b, _ = m.fin('X', patterns('konst', 8))
            if fs_is(a) == fs_is(b):
                raise Infeasible()
            v, w = m.sym('N', 0, 255), m.sym('V', 0, 255)
            m.w('.define ', a, ' ', num(v))
            m.w('.define ', b, ' ', num(w))
            m.w('.db ', a, ' ', b, ' ', a)
            m.emit(B(v), B(w), B(v))
        yield case('two defines that differ in case%s' % (' (case sensitive)' if cs else ''), bothdefs, asm=CS if cs else None, reject_any=False)
    # prefixes and suffixes of registered names are not names
    for w in ('NO', 'NOPP', 'RET', 'RET22', 'LOAD', 'LOAD88', '.NOP', 'db', '.dbb', '.d', '.', '.incb', '.define2', '.endrep', '.mac'):
        def near(m, w=w):
            m.prefix()
            m.w(w, ' 7')
            raise Refused()
        yield case('%s is not a name' % w, near, reject_any=False)
    # ---- defines
    for pos in ('only', 'first', 'last'):
        def anychar(m, pos=pos):
            m.prefix()
            k = m.sym('C', 33, 126)
            for c in ' ,;:"\'()[]{}\\$%':
                if eq(k, ord(c)):
                    raise Infeasible()
            cp = CharPiece(k, chars=set(map(chr, range(33, 127))) - set(' ,;:"\'()[]{}\\$%'))
            v = m.sym('N', 1, 99)
            m.w('.define KK ', num(v))
            # ECHO emits the text of its operand: observed through the instruction that records it
            w = {'only': ('KK', cp), 'first': (cp, 'KK'), 'last': (cp, 'KK', cp)}[pos]
            m.w('ECHO ', *w)
            name = inr(k, 48, 57) or inr(k, 65, 90) or inr(k, 97, 122) or eq(k, 95) or eq(k, 46)
            for x in w:
                if x == 'KK':
                    if name:
                        m.emit(b'KK')
                    else:
                        emit_dec(m, v)
                else:
                    m.emit(B(k))
            m.emit(b'\n')
        yield case('character %s the defined word' % {'only': 'after', 'first': 'before', 'last': 'around'}[pos], anychar, asm=ECHO)
    for tok, exp in (('KK', 'V'), ('KK+KK', 'V+V'), ('<KK', '<V'), ('>>KK', '>>V'), ('KK+1', 'V+1'), ('KK.x', 'KK.x'), ('#KK', '#V'), ('KKK', 'KKK'),
                     ('aKK', 'aKK'), ('KK_', 'KK_'), ('KK-KKK', 'V-KKK'), ('JJ', 'W'), ('KK&JJ', 'V&W'), ('JJ|KK', 'W|V'), ('KK*JJ+KK', 'V*W+V'),
                     ('(KK)', '(\nV\n)'), ('[KK+2]', '[\nV+2\n]'), ('kk', 'kk'), ('1KK', '1KK'), ('KK/2', 'V/2')):
        def at(m, tok=tok, exp=exp):
            m.prefix()
            v, w = m.sym('N', 0, 99), m.sym('W', 0, 99)
            m.w('.define KK ', num(v))
            m.w('.define JJ ', num(w))
            m.w('ECHO ', tok)
            for c in exp:
                if c in 'VW':
                    emit_dec(m, v if c == 'V' else w)
                else:
                    m.emit(c.encode())
            m.emit(b'\n')
        yield case('defines in %s' % tok, at, asm=ECHO)

        def before(m, tok=tok):
            m.prefix()
            m.w('ECHO ', tok)
            for x in tok.replace('(', '(\n').replace(')', '\n)').replace('[', '[\n').replace(']', '\n]'):
                m.emit(x.encode())
            m.emit(b'\n')
            m.w('.define KK 1')
        yield case('%s before the define' % tok, before, asm=ECHO)
    for d, n in (('db', 1), ('dw', 2), ('dd', 4), ('word', 2)):
        for k, t in enumerate(('KK', 'KK, KK', '1, KK', 'KK+1')):
            def data(m, d=d, n=n, t=t):
                m.prefix()
                v = m.sym('N', 0, 254)
                m.w('.define KK ', num(v))
                m.w('.%s %s' % (d, t))
                for x in t.split(', '):
                    m.emit(*m.num({'KK': v, '1': 1, 'KK+1': binop('+', v, 1)}[x], n))
            yield case('define in .%s %s' % (d, t), data, big=k % 2 == 1)
    for d, eff in (('org KK', 'org'), ('fill KK', 'fill'), ('ram KK', 'ram'), ('repeat KK', 'rep')):
        def dire(m, d=d, eff=eff):
            m.prefix()
            m.w('.define KK 3')
            m.w('.' + d)
            if eff == 'org':
                m.set_org(3)
            elif eff == 'fill':
                m.fill(3)
            elif eff == 'ram':
                m.cnt = binop('+', m.cnt, 3)
            else:
                m.w('nop\n.endrepeat')
                m.emit(b'\x90\x90\x90')
            ends(m)
        yield case('define in .%s' % d, dire)

    def tolabel(m):
        m.prefix()
        m.w('.define KK lz')
        m.w('.dd KK KK+2')
        m.ref('lz', 4, 32)
        m.ref('lz', 4, 32, 2)
        ends(m)
    yield case('define of a label', tolabel)

    def tomnem(m):
        m.prefix()
        m.w('.define GO LOAD8')
        m.w('GO 9')
        m.emit(b'\x18\x09')
        ends(m)
    yield case('define of a mnemonic', tomnem)

    def notdir(m):
        m.prefix()
        m.w('.define db 7')
        m.w('.db 5')
        m.emit(b'\5')
        m.w('.define .dw 7')
        m.w('.dw 5')
        m.emit(*m.num(5, 2))
    yield case('the name of a directive is not replaced', notdir)
    # strings and characters are not words
    for d, big in product(('db', 'byte', 'dw', 'dd'), (False, True)):
        for t in ('"KK"', '"a KK b"', '"KK+1" KK', "KK 'K'", '"KK" "JJ,KK"', '"a;KK"'):
            if "'" in t and d not in ('db', 'byte'):
                continue

            def quoted(m, d=d, t=t):
                m.prefix()
                v = m.sym('N', 0, 255)
                m.w('.define KK ', num(v))
                m.w('.define K 7')
                m.w('.define JJ "x"')
                m.w('.%s %s' % (d, t))
                n = {'db': 1, 'byte': 1, 'dw': 2, 'dd': 4}[d]
                for k, part in enumerate(re.split(r'("[^"]*"|\'.\')', t)):
                    if k % 2:
                        m.emit(part[1:-1].encode({1: 'ascii', 2: 'utf-16-be' if m.big else 'utf-16-le', 4: 'utf-32-be' if m.big else 'utf-32-le'}[n]))
                    elif part.strip():
                        m.emit(*m.num(v, n))
                ends(m)
            yield case('quoted words in .%s %s%s' % (d, t, ' be' if big else ''), quoted, big)

    def anytext(m):
        m.prefix()
        m.w('.define KK 3\n.define JJ 4\n.define K 5')
        t = TextPiece('T', chars=TEXTCHARS | {'K'}, length=m.sym('len', 1, 200))
        m.w('.db "', t, '" KK')
        m.emit(opq('text(%s)' % t.key, t.length), b'\3')
        ends(m)
    yield case('any text with defines', anytext)
    for f, spec in (('incbin', {'bytes': b'abc'}), ('include', {'text': '.db 97 98 99'}), ('inccsv', {'rows': [['97', '98', '99']]}), ('incjson', {'json': {'KK': [97, 98, 99], '3': [1]}})):
        def named(m, f=f, spec=spec):
            m.prefix()
            m.files['KK'] = spec
            m.files['3'] = {'text': '.db 1', 'bytes': b'\1', 'rows': [['1']], 'json': {'KK': [1]}}
            m.w('.define KK 3')
            m.w('.%s "KK"%s' % (f, ' "KK"' if f == 'incjson' else ''))
            m.emit(b'abc')
            ends(m)
        yield case('the file name of .%s' % f, named)
    # a later definition
    for k in range(3):
        def again(m, k=k):
            m.prefix()
            v, w = m.sym('V', 0, 99), m.sym('W', 0, 99)
            m.w('.define KK ', num(v))
            m.w('.dw KK')
            m.emit(*m.num(v, 2))
            m.w('.define KK ', num(w) if k != 1 else 'lz')
            m.w('.dw KK ', num(v), ' KK+1')
            if k == 1:
                m.ref('lz', 2, 16)
            else:
                m.emit(*m.num(w, 2))
            m.emit(*m.num(v, 2))
            if k == 1:
                m.ref('lz', 2, 16, 1)
            else:
                m.emit(*m.num(binop('+', w, 1), 2))
            if k == 2:
                m.w('.define kk 1\n.define KK ', num(v), '\n.dw KK kk')
                m.emit(*m.num(v, 2), *m.num(1, 2))
            ends(m)
        yield case('a define defined again %d' % k, again)

    def chain(m):
        m.prefix()
        v, w = m.sym('V', 0, 99), m.sym('W', 0, 99)
        m.w('.define KK ', num(v), '\n.define JJ KK\n.define KK ', num(w), '\n.dw JJ KK')
        m.emit(*m.num(v, 2), *m.num(w, 2))
        ends(m)
    yield case('a define of a define', chain)
    for bad in ('.define', '.define KK', '.define KK 1 2'):
        def dbad(m, bad=bad):
            m.prefix()
            m.w(bad)
            raise Refused()
        yield case('refused %s' % bad, dbad)


def emit_dec(m, v):
    n = 1
    while not lt(v, 10 ** n):
        n += 1
    m.emit(*[B(binop('+', 48, binop('%', binop('//', v, 10 ** i), 10))) for i in reversed(range(n))])


def fs_is(piece):
    return piece.fin.force()


ECHO = ('client:echo', 'Echo')
