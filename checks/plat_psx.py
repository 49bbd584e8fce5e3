'''C34: PlayStation executables.'''
from .plat import *

RULE = ('the file is PS-X EXE, zeros, entry and load address 80010000, the size of the padded program, the stack pointer at 30, the region marker at 4C, zeros up to '
        '800 and the program padded with zeros to a multiple of 2048')
EXPLANATION = '''Abstract interpretation of the entry point with a program of unknown content and length: sizes and padding are decided for every length.'''
ASSUMPTIONS = ['programs below 16 MB', 'the global pointer (unused by the start code) is not specified']
MIN_OBLIGATIONS = 8
MARKER = b'Sony Computer Entertainment Inc. for Europe area'


def header(size, gp):
    h = b'PS-X EXE' + bytes(8)
    out = [h, b'\0\0\1\x80', gp, b'\0\0\1\x80'] + le_bytes(size, 4) + [bytes(16), b'\xf0\xff\x1f\x80', bytes(0x4c - 0x34), MARKER]
    return out + [bytes(0x800 - 0x4c - len(MARKER))]


def exe(key, lo, hi, text=None):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.psx', 'in.S', 'out.exe')
        it = interp()
        if text is None:
            L = c.sym('L', lo, hi)
            it.files['prog'] = {'bytes': AbsBytes([opq('prog', L)])}
            f.put('in.S', '.incbin "prog"\n')
            prog = [opq('prog', L)]
        else:
            prog, parts = text(c)
            L = blen(prog)
            f.put('in.S', *parts)
        r = binop('%', L, 2048)
        size = L
        if not eq(r, 0):
            prog = prog + [RepSeg(0, binop('-', 2048, r))]
            size = binop('-', binop('+', L, 2048), r)
        c.show('psx program ' + key)
        r = c.call(main)
        if not r.ok:
            return ('value', r, b'')
        w = f.written()
        if len(w) != 1 or w[0].name != 'out.exe' or 'b' not in w[0].mode:
            return ('bad', 'writes %s' % [x.name for x in w])
        got = AbsBytes([s for x in w[0].written for s in segs_of(x)])
        head = it.bytes_slice(segs_of(got), slice(0, 0x18))
        gp = it.bytes_slice(segs_of(head), slice(0x14, 0x18))
        return ('value', got, AbsBytes(header(size, gp) + prog))
    return FnCase(key, body)


def code(c):
    n = c.sym('N', 0, 0x7fff)
    prog = [b'\x04\x00\x01\x08\x00\x00\x00\x00'] + le_bytes(binop('+', 0x34010000, n), 4) + [b'\x00\x00\x01\x80']
    prog = [b'\x02\x40\x00\x08\x00\x00\x00\x00'] + le_bytes(binop('+', 0x34010000, n), 4) + [b'\x00\x00\x01\x80']
    return prog, ['.org 0x80010000\nstart: j next\nsll $0, $0, 0\nnext: ori $1, $0, ', num(n), '\n.dd start\n']


def fails(text):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.psx', 'in.S', 'out.exe')
        f.put('in.S', text)
        c.show(text)
        return f.nothing(c.call(main))
    return FnCase('nothing is written for a refused program: ' + ' '.join(text.split()), body, reject_any=True)


def cases(tier):
    interp().load('necroassembler.platforms.psx')
    yield exe('of any length', 1, 1 << 24)
    yield exe('of length zero', 0, 0)
    for n in (1, 2047, 2048, 2049, 4096):
        yield exe('of length %d' % n, n, n)
    yield exe('with labels', 0, 0, code)
    for t in ('BOGUS\n', 'j nowhere\n', '.incbin "missing"\n'):
        yield fails(t)
