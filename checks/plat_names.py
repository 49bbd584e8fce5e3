'''C36: the named registers and areas of a console stand for their addresses.'''
from .plat import *
from .model import *

RULE = 'the register and memory names a console class defines mean the hardware address of that register in every operand, alone and in formulas, unless the program defines the name itself'
EXPLANATION = '''Abstract interpretation of the console classes over every documented register name in data and in the instructions that use it, with unknown
offsets and, for programs that define a name again, unknown values.'''
ASSUMPTIONS = []
MIN_OBLIGATIONS = 250

# hardware manuals
GB = dict(VRAM=0x8000, LCDC=0xff40, STAT=0xff41, SCY=0xff42, SCX=0xff43, LY=0xff44, LYC=0xff45, WY=0xff4a, WX=0xff4b, TMAP0=0x9800, TMAP1=0x9c00, WRAM=0xc000, WRAM0=0xc000,
          WRAM1=0xd000, HRAM=0xff80)
NES = dict(PPUCTRL=0x2000, PPUMASK=0x2001, PPUSTATUS=0x2002, OAMADDR=0x2003, OAMDATA=0x2004, PPUSCROLL=0x2005, PPUADDR=0x2006, PPUDATA=0x2007, OAMDMA=0x4014)
SMS = dict(RAM=0xc000, JOY1=0xdc, JOY2=0xdd, PSG=0x7f, VDPDATA=0xbe, VDPADDR=0xbf, CMD_VRAM=0x40, CMD_REG=0x80, CMD_CRAM=0xc0)
WORD = ((b'\x21', 'LD HL, {}'), (b'\xc3', 'JP {}'))
# names, instructions with a 16 bit address, instructions with a byte
CONSOLES = {
    'Game Boy': (('platforms.gameboy', 'AssemblerGameboy'), GB, WORD + ((b'\xea', 'LD ({}), A'), (b'\xfa', 'LD A, ({})')), ()),
    'NES': (('platforms.nes', 'AssemblerNES'), NES, ((b'\x8d', 'STA {}'), (b'\xad', 'LDA {}'), (b'\x2c', 'BIT {}'), (b'\x9d', 'STA {},X')), ()),
    'Master System': (('platforms.sms', 'AssemblerSegaMasterSystem'), SMS, WORD + ((b'\x32', 'LD ({}), A'),), ((b'\xd3', 'OUT ({}), A'), (b'\xdb', 'IN A, ({})'), (b'\x3e', 'LD A, {}'))),
}
HEADER = 0x150


def program(console, key, body, **kw):
    asm = CONSOLES[console][0]

    def fn(c):
        it = interp()
        a = construct(*asm)
        text, want = body(c)
        head = '.fill %d\n' % HEADER if console == 'Game Boy' else ''
        c.show(S(head, *text))
        r = c.call(it.getattr(a, 'assemble'), S(head, *text))
        if r.ok:
            r = c.call(it.getattr(a, 'link'))
        if want is None:
            return ('reject', r)
        if not r.ok:
            return ('value', r, b'')
        got = it.getattr(a, 'assembled_bytes')
        if head:
            got = it.getitem(got, slice(HEADER, None, None))
        return ('value', got, AbsBytes(list(want)))
    return FnCase('%s: %s' % (console, key), fn)


def cases(tier):
    for console, (asm, names, words, bytes_) in CONSOLES.items():
        for n, v in sorted(names.items()):
            def data(c, n=n, v=v):
                k = c.sym('K', 0, 60000 - v)
                out = [v.to_bytes(2, 'little')] * 2 + le_bytes(binop('+', v, k), 2) + [v.to_bytes(4, 'little'), bytes([v >> 8, v & 255])]
                return ['.dw ', n, ', ', n, '\n.dw ', n, '+', num(k), '\n.dd ', n, '\n.db ', '>', n, ' <', n, '\n'], out
            if v < 60000:
                yield program(console, n + ' in data', data)
            else:
                def high(c, n=n, v=v):
                    k = c.sym('K', 0, v)
                    return ['.dw ', n, ' ', n, '-', num(k), '\n.db >', n, ' <', n], [v.to_bytes(2, 'little')] + le_bytes(binop('-', v, k), 2) + [bytes([v >> 8, v & 255])]
                yield program(console, n + ' in data', high)
            for code, t in words:
                def use(c, n=n, v=v, t=t, code=code, at=HEADER if console == 'Game Boy' else 0):
                    return [t.format(n), '\nlab:\n.dw lab\n'], [code + v.to_bytes(2, 'little'), (3 + at).to_bytes(2, 'little')]
                yield program(console, t.format(n), use)
            if v < 256:
                for code, t in bytes_:
                    def useb(c, n=n, v=v, t=t, code=code):
                        return [t.format(n)], [code + bytes([v])]
                    yield program(console, t.format(n), useb)

            def own(c, n=n, v=v):
                w = c.sym('W', 0, 65535)
                return ['.dw ', n, '\n.define ', n, ' ', num(w), '\n.dw ', n, '\n'], [v.to_bytes(2, 'little')] + le_bytes(w, 2)
            yield program(console, n + ' defined by the program', own)

            def text(c, n=n, v=v):
                return ['.db "', n, ' x', n, '" "', n, '"\n'], [(n + ' x' + n + n).encode()]
            yield program(console, n + ' in a string', text)

            def part(c, n=n, v=v):
                a = c.sym('A', 0, 65535)
                return ['.org ', num(a), '\nx', n, ':\n', n, '_2:\n.dw x', n, ' ', n, '_2\n'], le_bytes(a, 2) + le_bytes(a, 2)
            yield program(console, n + ' inside other names', part)

            def other(c, n=n, v=v):
                return ['.dw ', n.lower(), '\n'], None
            yield program(console, n.lower() + ' is no register', other)
