'''C19: every processor and console class reads the numbers of its language, emits data in its byte order and has every core statement.'''
from .model import *
from . import model

RULE = ('for every processor and console class: every number notation of its assembler language gives the value (or the refusal) in data of its byte order, and every '
        'core statement means the same as in any other class')
EXPLANATION = '''Abstract interpretation of every assembler class of the library (nine processors, four consoles) over the core statements with unknown values,
addresses, lengths and earlier output, and over every number notation of the class with an unbounded value, compared with the reference semantics of the core for
the byte order of the processor.'''
ASSUMPTIONS = ['values below 2**70', 'suffixed hexadecimal literals with letters are enumerated', 'notations of other assembler languages are not specified']
MIN_OBLIGATIONS = 600

INTEL = [('hex', '0x', '', 16), ('hex', '0h', '', 16), ('hex', '$0', '', 16), ('hex', '', 'h', 16), ('bin', '0b', '', 2), ('bin', '0y', '', 2), ('bin', '', 'b', 2), ('bin', '', 'y', 2),
         ('oct', '0o', '', 8), ('oct', '0q', '', 8), ('oct', '', 'o', 8), ('oct', '', 'q', 8), ('dec', '0d', '', 10), ('dec', '', 'd', 10)]
DOLLAR = [('hex', '$', '', 16), ('bin', '%', '', 2)]
AT = [('oct', '@', '', 8)]
CX = [('hex', '0x', '', 16), ('bin', '0b', '', 2)]
LDA = ('LDA #', '', b'\xa9', b'')
LD = ('LD A, ', '', b'\x3e', b'')
# module, class, big endian, notations besides plain decimals, an instruction with a byte (text before, after, code before, after)
CLASSES = [
    ('cpu.mos6502', 'AssemblerMOS6502', False, DOLLAR + AT, LDA),
    ('cpu.lr35902', 'AssemblerLR35902', False, DOLLAR + AT, LD),
    ('cpu.z80', 'AssemblerZ80', False, DOLLAR, LD),
    ('cpu.intel8086', 'AssemblerIntel8086', False, INTEL, ('MOV AL, ', '', b'\xb0', b'')),
    ('cpu.x86', 'AssemblerX86', False, INTEL, ('MOV EAX, ', '', b'\xb8', b'\0\0\0')),
    ('cpu.mc68000', 'AssemblerMC68000', True, DOLLAR, ('ANDI.W #', ', D0', b'\2\x40\0', b'')),
    ('cpu.mips32', 'AssemblerMIPS32', True, CX, ('ori $t0, $t0, ', '', b'\x35\x08\0', b'')),
    ('cpu.thumb', 'AssemblerThumb', False, CX + [('bin', '0y', '', 2)], ('MOV r0, #', '', b'', b'\x20')),
    ('cpu.powerpc', 'AssemblerPowerPC', True, [('hex', '0x', '', 16)], ('addi r1, r2, ', '', b'\x38\x22\0', b'')),
    ('platforms.gameboy', 'AssemblerGameboy', False, DOLLAR + AT, LD),
    ('platforms.nes', 'AssemblerNES', False, DOLLAR + AT, LDA),
    ('platforms.sms', 'AssemblerSegaMasterSystem', False, DOLLAR, LD),
    ('platforms.psx', 'AssemberPSX', False, CX, ('ori $t0, $t0, ', '', b'', b'\0\x08\x35')),
]


def literal(m, nt, hi=BIG):
    kind, pre, suf, base = nt
    n = m.sym('N', 0, hi)
    return n, S(pre, NumPiece(n, base, digits_only=True) if suf and base == 16 else NumPiece(n, base), suf)


def insn(m, n, operand=None):
    before, after, pre, post = m.insn
    m.w(before, num(n) if operand is None else operand, after)
    m.emit(*([pre] if pre else []), B(n), *([post] if post else []))


# fragments: meaning over the reference machine, spelled without instructions
def plain(m):
    insn(m, m.sym(m.uid('N'), 0, 255))


def db(m):
    a, b = m.sym(m.uid('N'), 0, 255), m.sym(m.uid('N'), 0, 255)
    t = text(m)
    m.w('.db ', num(a), ' "', t, '", ', m.hexp, NumPiece(b, 16), ' Z9')
    m.emit(B(a), opq('text(%s)' % t.key, t.length), B(b))
    m.ref('Z9', 1, 8)


def byte(m):
    a = m.sym(m.uid('N'), 0, 255)
    m.w('.byte ', num(a))
    m.emit(B(a))


def word(m):
    a = m.sym(m.uid('N'), 0, 65535)
    m.w('.word ', num(a), ' Z9')
    m.emit(*m.num(a, 2))
    m.ref('Z9', 2, 16)


def dword(m):
    a = m.sym(m.uid('N'), 0, (1 << 32) - 1)
    m.w('.dword ', num(a), ' Z9')
    m.emit(*m.num(a, 4))
    m.ref('Z9', 4, 32)


def dl(m):
    a = m.sym(m.uid('N'), 0, (1 << 32) - 1)
    m.w('.dl ', num(a))
    m.emit(*m.num(a, 4))


def inccsv(m):
    u = m.uid('csv')
    a, b, c = (m.sym(m.uid('N'), 0, 255) for _ in range(3))
    m.files[u] = {'rows': [[S(num(a)), S(m.hexp, NumPiece(b, 16))], [S(num(c))]]}
    m.w('.inccsv "', u, '"')
    m.emit(B(a), B(b), B(c))


def incjson(m):
    u = m.uid('json')
    a, b = m.sym(m.uid('N'), 0, 255), m.sym(m.uid('N'), 0, 255)
    m.files[u] = {'json': {'x': {'y': [a, S(num(b)), 3], 'z': [1]}}}
    m.w('.incjson "', u, '" "x.y"')
    m.emit(B(a), B(b), b'\x03')


def include(m):
    u = m.uid('inc')
    n = m.sym(m.uid('N'), 0, 255)
    m.files[u] = {'text': S('.db ', num(n), '\n.fill 3 4\n', m.insn[0], num(n), m.insn[1])}
    m.w('.include "', u, '"')
    m.emit(B(n), b'\4\4\4')
    out, m.out = m.out, []
    insn(m, n)
    m.out = out


def repeat(m):
    n = m.sym(m.uid('N'), 0, 255)
    m.w('.repeat 3')
    insn(m, n)
    m.w('.endrepeat')
    out, m.out = m.out, []
    insn(m, n)
    insn(m, n)
    m.out = out


def macro(m):
    u = m.uid('mac')
    n = m.sym(m.uid('N'), 0, 255)
    m.w('.macro ', u, ' p q')
    m.w(m.insn[0], 'q', m.insn[1])
    m.w(m.insn[0], 'p', m.insn[1])
    m.w('.endmacro')
    m.w(u, ' 1 ', num(n))
    out, m.out = m.out, []
    insn(m, n)
    insn(m, 1)
    m.out = out


def define(m):
    n = m.sym(m.uid('N'), 0, 255)
    u = m.uid('Kd')
    m.w('.define ', u, ' ', num(n))
    m.w('.db ', u)
    m.emit(B(n))


def math(m):
    a, b = m.sym(m.uid('N'), 0, 100), m.sym(m.uid('N'), 0, 100)
    m.w('.db ', num(a), '+', num(b))
    m.emit(B(binop('+', a, b)))
    m.w('.dw ', num(binop('+', a, b)), '-', num(a))
    m.emit(*m.num(b, 2))


def size(m):
    m.w('.dw Z8-Z7')
    m.ref('Z7', 2, 16)
    m.segs[-1] = ('lit', None)
    n = m.sym(m.uid('N'), 1, 1 << 10)
    m.w('Z7:')
    i = len(m.segs) - 1
    m.w('.ram ', num(n))
    m.cnt = binop('+', m.cnt, n)
    m.w('Z8:')
    m.segs[i:i + 1] = m.num(n, 2)


def neg(m):
    n = m.sym(m.uid('N'), 1, 128)
    m.w('.db -', num(n))
    m.emit(B(binop('-', 256, n)))


def log(m):
    n = m.sym(m.uid('N'), 0, 255)
    m.w('.log')
    insn(m, n)
    m.w('.log off')
    m.w('.log on')
    m.w('.db ', num(n), ' Z9')
    m.emit(B(n))
    m.ref('Z9', 1, 8)


FRAGS = dict(insn=plain, log=log, db=db, byte=byte, word=word, dword=dword, dl=dl, inccsv=inccsv, incjson=incjson, include=include, repeat=repeat, macro=macro, define=define, math=math, size=size, neg=neg,
             dw=model.f_dw, dws=model.f_dws, dd=model.f_dd, dds=model.f_dds, fill=model.f_fill, fill1=model.f_fill1, align=model.f_align, goto=model.f_goto, upto=model.f_upto, ram=model.f_ram,
             incbin=model.f_incbin, export=model.f_export, section=model.f_section, org=model.f_org, orgb=model.f_orgb)
NAMES = sorted(FRAGS)


class Known(M):
    '''lengths and counts are known, values are not: the checksums of a cartridge go over all its bytes'''
    counts = False

    def sym(self, name, lo, hi):
        if self.counts or name.startswith(('L', 'P', 'len')):
            self.n += 1
            return min(hi, lo + 5 + self.n % 3)
        return M.sym(self, name, lo, hi)

    def prefix(self, **kw):
        self.w('.fill 5 7')
        self.segs.append(RepSeg(7, 5))
        self.w('.org 700')
        self.org, self.cnt, self.end = 700, 0, None


COUNTS = ('fill', 'fill1', 'goto', 'upto', 'ram', 'size', 'org', 'orgb', 'align')


def cartridge(key, asm, prep, body):
    '''the same program behind the header of a cartridge, whose checksums are not looked at'''
    def fn(c):
        it = interp()
        m = Known()
        m.counts = any(w.strip() in COUNTS for w in key.split('.')[1:]) or key.endswith(' org')
        refused = False
        m.w('.fill %d' % HEADER)
        try:
            prep(m)
            body(m)
            m.finish()
            want = m.resolve()
        except Refused:
            refused = True
        c.inputs.update(m.inputs)
        it.files = m.files
        a = construct(*asm)
        text = S(*m.out)
        c.show(text)
        r = c.call(it.getattr(a, 'assemble'), text)
        if r.ok:
            r = c.call(it.getattr(a, 'link'))
        if refused:
            return ('reject', r)
        if not r.ok:
            return ('value', r, b'')
        return ('value', it.getitem(it.getattr(a, 'assembled_bytes'), slice(HEADER, None, None)), AbsBytes(want))
    return FnCase(key, fn)


HEADER = 0x150


def cases(tier):
    for mod, cls, big, notes, ins in CLASSES:
        who = cls.replace('Assembler', '').replace('Assember', '')
        asm = (mod, cls)
        hexp = notes[0][1]
        console = who == 'Gameboy'

        def prep(m, hexp=hexp, ins=ins):
            m.filler, m.hexp, m.insn = 0, hexp, ins
            m.prefix(P=1 << 16)

        def one(key, body, **kw):
            def full(m, prep=prep, body=body):
                prep(m)
                body(m)
            if console:
                return cartridge('%s: %s' % (who, key), asm, prep, body)
            return case('%s: %s' % (who, key), full, big, asm=asm, **kw)
        for nt in [('dec', '', '', 10)] + notes:
            spell = '%s%s' % (nt[1], nt[2]) or 'plain'
            for d, n in (('db', 1), ('dw', 2), ('dd', 4)):
                def lit(m, nt=nt, d=d, n=n):
                    v, t = literal(m, nt)
                    m.w('.%s ' % d, t)
                    if not lt(v, 1 << 8 * n):
                        raise Refused()
                    m.emit(*m.num(v, n))
                yield one('%s %s %s' % (nt[0], spell, d), lit)

            def fl(m, nt=nt):
                v, t = literal(m, nt, 255)
                m.w('.fill 2 ', t)
                m.emit(RepSeg(v, 2))
            yield one('%s %s fill' % (nt[0], spell), fl)

            def og(m, nt=nt):
                v, t = literal(m, nt, 1 << 16)
                m.w('.org ', t)
                m.set_org(v)
                m.label('Z9', 'Z9')
                m.w('.dd Z9')
                m.ref('Z9', 4, 32)
            yield one('%s %s org' % (nt[0], spell), og)

            def op(m, nt=nt):
                v, t = literal(m, nt, 255)
                insn(m, v, t)
            yield one('%s %s operand' % (nt[0], spell), op)
        if ('hex', '', 'h', 16) in notes:
            for t in ('0ah', '1Fh', '0ffh', '9aBh', '0C0deh', '0ffffh', '1bh', '1dh', '0b1h', '0d1h', '10h', '11b', '11d', '11o', '17q', '101y', '0h', '0b', '0y', '0o', '0q', '0d', '0b1h', '0dh', '0bh', '0d0h'):
                v = int(t[:-1], {'h': 16, 'b': 2, 'd': 10, 'o': 8, 'q': 8, 'y': 2}[t[-1]])

                def hs(m, t=t, v=v):
                    m.w('.dw ', t)
                    m.emit(*m.num(v, 2))
                yield one('literal %s' % t, hs)
        names = [f for f in NAMES if not console or f not in ('db', 'dws', 'dds', 'incbin')]      # the checksums go over every byte
        for f in names:
            def single(m, f=f):
                FRAGS[f](m)
                m.label('Z9', 'Z9')
                m.w('.dd Z9')
                m.ref('Z9', 4, 32)
            yield one('.%s' % f, single, ok_only=False)
            if tier == 'quick':
                continue
            for g in names:
                def pair(m, f=f, g=g):
                    FRAGS[f](m)
                    FRAGS[g](m)
                    m.label('Z9', 'Z9')
                    m.w('.dd Z9')
                    m.ref('Z9', 4, 32)
                if 'size' in (f, g):
                    continue
                yield one('.%s .%s' % (f, g), pair)
