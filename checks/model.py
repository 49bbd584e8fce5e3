'''Reference semantics of the core: a source fragment advances a position and appends known bytes.'''
from absint.harness import *
from absint.values import CTX

FILL = 0x5a
BIG = 1 << 70
TEXTCHARS = set(map(chr, range(32, 127))) - set('"\\\'K')
LE = ('client:core', 'LE')
BE = ('client:core', 'BE')
CS = ('client:core', 'CS')


class Refused(Exception):
    pass


class M:
    '''reference machine: origin, position counter, output, labels'''

    def __init__(self, big=False):
        self.big = big
        self.inputs, self.files = {}, {}
        self.out = []           # source text parts
        self.segs = []          # specified output; ('ref', name, size, lo, hi, relative) items resolved at the end
        self.org, self.end, self.cnt = 0, None, 0
        self.labels = {}
        self.n = 0
        self.refused = None
        self.files_used = False

    # ---- inputs
    def sym(self, name, lo, hi):
        self.inputs[name] = (lo, hi)
        return sym(name, lo, hi)

    def fin(self, name, elems):
        fs = FinSym(name, list(elems))
        self.inputs[name] = fs
        return fin_text(fs), fs

    def uid(self, s):
        self.n += 1
        return '%s%d' % (s, self.n)

    # ---- text
    def w(self, *parts):
        self.out += list(parts)
        self.out.append('\n')

    # ---- meaning
    @property
    def pc(self):
        return binop('+', self.org, self.cnt)

    def emit(self, *segs):
        for s in segs:
            self.segs.append(s)
            self.cnt = binop('+', self.cnt, seg_len(s))

    def ref(self, name, size, bits_, add=0):
        self.segs.append(('ref', name, size, bits_, add))
        self.cnt = binop('+', self.cnt, size)

    def num(self, v, n):
        return le_bytes(v, n) if not self.big else be_bytes(v, n)

    def label(self, name, key):
        self.w(name, ':')
        self.labels[key] = self.pc

    filler = FILL

    def fill(self, n, v=None):
        '''n > 0 decided by the caller'''
        self.emit(RepSeg(self.filler if v is None else v, n))

    def set_org(self, start, end=None):
        '''end None: unbounded'''
        if end is not None and lt(end, start):
            raise Refused('inverted region')
        if self.end is not None:
            here = self.pc
            if lt(start, here) or le(start, self.org):
                raise Refused('overlap')
            upto = binop('+', self.end, 1) if lt(self.end, start) else start
            if lt(here, upto):
                self.fill(binop('-', upto, here))
        self.org, self.end, self.cnt = start, end, 0

    def finish(self):
        if self.end is not None and le(self.pc, self.end):
            self.fill(binop('-', binop('+', self.end, 1), self.pc))

    def resolve(self):
        out = []
        for s in self.segs:
            if isinstance(s, tuple):
                _, name, size, bits_, add = s
                if name not in self.labels:
                    raise Refused('unknown label')
                v = binop('+', self.labels[name], add)
                if not inr(v, 0, (1 << bits_) - 1):
                    raise Refused('label value does not fit')
                out += self.num(v, size)
            else:
                out.append(s)
        return out

    def prefix(self, org=True, L=1 << 16, P=1 << 24):
        '''arbitrary earlier output and an arbitrary origin'''
        self.files['pre'] = {'bytes': AbsBytes([opq('pre', self.sym('L0', 0, L))])}
        self.w('.incbin "pre"')
        self.segs.append(opq('pre', sym('L0', 0, L)))
        self.cnt = sym('L0', 0, L)
        if org:
            p = self.sym('P', 0, P)
            self.w('.org ', num(p))
            self.org, self.cnt, self.end = p, 0, None


def case(key, body, big=False, asm=None, finish=True, reject_any=False, ok_only=False):
    '''body(m) writes source and meaning; raises Refused when the program must be refused'''

    holder = {}

    def build():
        m = M(big)
        refused = False
        try:
            body(m)
            if finish:
                m.finish()
        except Refused:
            refused = True
        holder.clear()
        holder.update(m.files)

        def expect(r):
            if refused:
                return ('reject',)
            try:
                return ('bytes', m.resolve())
            except Refused:
                return ('reject',)
        return S(*m.out), m.inputs, expect
    return Case(key, asm or (BE if big else LE), build, files=holder, reject_any=reject_any)


# --------------------------------------------------------------------- fragments
def f_insn(m):
    m.w('nop')
    m.emit(b'\x90')


def f_insn2(m):
    m.w('RET2')
    m.emit(b'\xc3\xc4')


def f_load(m):
    n = m.sym(m.uid('N'), 0, 255)
    m.w('LOAD8 ', num(n))
    m.emit(b'\x18', B(n))


def f_loadlab(m):
    m.w('LOAD8 Z9')
    m.emit(b'\x18')
    m.ref('Z9', 1, 8)


def text(m, L=1 << 12):
    u = m.uid('T')
    return TextPiece(u, chars=TEXTCHARS, length=m.sym('len' + u, 1, L))


def f_db(m):
    a, b = m.sym(m.uid('N'), 0, 255), m.sym(m.uid('N'), 0, 255)
    t = text(m)
    m.w('.db ', num(a), ' "', t, '", $', num(b, 16), ' Z9')
    m.emit(B(a), opq('text(%s)' % t.key, t.length), B(b))
    m.ref('Z9', 1, 8)


def f_dw(m):
    a = m.sym(m.uid('N'), 0, 65535)
    m.w('.dw ', num(a), ', Z9')
    m.emit(*m.num(a, 2))
    m.ref('Z9', 2, 16)


def f_dws(m):
    t = text(m)
    m.w('.dw "', t, '" 7')
    m.emit(opq('utf16%s(%s)' % ('be' if m.big else 'le', t.key), binop('*', 2, t.length)), *m.num(7, 2))


def f_dd(m):
    a = m.sym(m.uid('N'), 0, (1 << 32) - 1)
    m.w('.dd ', num(a), ', Z9')
    m.emit(*m.num(a, 4))
    m.ref('Z9', 4, 32)


def f_dds(m):
    t = text(m)
    m.w('.dd "', t, '"')
    m.emit(opq('utf32%s(%s)' % ('be' if m.big else 'le', t.key), binop('*', 4, t.length)))


def f_fill(m):
    n, v = m.sym(m.uid('N'), 1, 1 << 12), m.sym(m.uid('N'), 0, 255)
    m.w('.fill ', num(n), ' ', num(v))
    m.emit(RepSeg(v, n))


def f_fill1(m):
    n = m.sym(m.uid('N'), 1, 1 << 12)
    m.w('.fill ', num(n))
    m.fill(n)


def f_align(m, a=16):
    m.w('.align %d' % a)
    r = binop('%', m.pc, a)
    if not eq(r, 0):
        m.fill(binop('-', a, r))


def f_goto(m):
    k = m.sym(m.uid('N'), 0, 1 << 12)
    m.w('.goto ', num(binop('+', m.pc, k)))
    if not eq(k, 0):
        m.fill(k)


def f_upto(m):
    k = m.sym(m.uid('N'), 0, 1 << 12)
    m.w('.upto ', num(binop('+', m.cnt, k)))
    if not eq(k, 0):
        m.fill(k)


def f_ram(m):
    k = m.sym(m.uid('N'), 1, 1 << 12)
    m.w('.ram ', num(k))
    m.cnt = binop('+', m.cnt, k)


def f_incbin(m):
    u = m.uid('bin')
    n = m.sym('len' + u, 0, 1 << 12)
    m.files[u] = {'bytes': AbsBytes([opq(u, n)])}
    m.w('.incbin "', u, '"')
    m.emit(opq(u, n))


def f_inccsv(m):
    u = m.uid('csv')
    a, b, c = (m.sym(m.uid('N'), 0, 255) for _ in range(3))
    m.files[u] = {'rows': [[S(num(a)), S('$', num(b, 16))], [S(num(c))]]}
    m.w('.inccsv "', u, '"')
    m.emit(B(a), B(b), B(c))


def f_inccsv16(m):
    u = m.uid('csv')
    a, b = (m.sym(m.uid('N'), 0, 65535) for _ in range(2))
    m.files[u] = {'rows': [[S(num(a))], [S(num(b))]]}
    m.w('.inccsv_le16 "', u, '"')
    m.emit(*(le_bytes(a, 2) + le_bytes(b, 2)))


def f_incjson(m):
    u = m.uid('json')
    a, b = m.sym(m.uid('N'), 0, 255), m.sym(m.uid('N'), 0, 255)
    m.files[u] = {'json': {'x': {'y': [a, S(num(b)), 3, '0x41'], 'z': [1]}}}
    m.w('.incjson "', u, '" "x.y"')
    m.emit(B(a), B(b), b'\x03A')


def f_include(m):
    u = m.uid('inc')
    n = m.sym(m.uid('N'), 0, 255)
    m.files[u] = {'text': S('LOAD8 ', num(n), '\n.fill 3 4')}
    m.w('.include "', u, '"')
    m.emit(b'\x18', B(n), b'\4\4\4')


def f_repeat(m):
    n = m.sym(m.uid('N'), 0, 255)
    m.w('.repeat 3')
    m.w('LOAD8 ', num(n))
    m.w('.endrepeat')
    for _ in range(3):
        m.emit(b'\x18', B(n))


def f_macro(m):
    u = m.uid('mac')
    n = m.sym(m.uid('N'), 0, 255)
    m.w('.macro ', u, ' p q')
    m.w('LOAD8 q')
    m.w('LOAD8 p')
    m.w('.endmacro')
    m.w(u, ' 1 ', num(n))
    m.emit(b'\x18', B(n), b'\x18\1')


def f_define(m):
    m.w('.define K%d 5' % (m.n + 1))
    m.n += 1


def f_export(m):
    m.w('.export "e%d"' % (m.n + 1))
    m.n += 1


def f_ascii(m):
    n = m.sym(m.uid('N'), 100, 255)
    m.w('.db_to_ascii ', num(n))
    segs = []
    for d in (100, 10, 1):
        segs.append(('digit', n, d))
    m.emit(B(binop('+', 48, binop('//', n, 100))))
    raise NotImplementedError


def f_section(m):
    m.w('.section "s%d" RX' % (m.n + 1))
    m.n += 1


def f_org(m):
    '''unbounded origin: addresses restart, nothing is padded when the previous region was unbounded'''
    p = m.sym(m.uid('P'), 0, 1 << 20)
    m.w('.org ', num(p))
    m.set_org(p)


def f_orgb(m):
    p = m.sym(m.uid('P'), 0, 1 << 20)
    k = m.sym(m.uid('N'), 0, 1 << 12)
    m.w('.org ', num(p), ' ', num(binop('+', p, k)))
    if eq(binop('+', p, k), 0):
        raise Infeasible()
    m.set_org(p, binop('+', p, k))


FRAGS = dict(insn=f_insn, insn2=f_insn2, load=f_load, loadlab=f_loadlab, db=f_db, dw=f_dw, dws=f_dws, dd=f_dd, dds=f_dds,
             fill=f_fill, fill1=f_fill1, align=f_align, goto=f_goto, upto=f_upto, ram=f_ram, incbin=f_incbin,
             inccsv=f_inccsv, inccsv16=f_inccsv16, incjson=f_incjson, include=f_include, repeat=f_repeat, macro=f_macro,
             define=f_define, export=f_export, section=f_section, org=f_org, orgb=f_orgb)
