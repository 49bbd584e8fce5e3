'''C31: the header of a NES image and its debugger symbols.'''
from .plat import *

RULE = ('.cartridge at the start emits NES, $1A, the bank counts (bytes 4 and 5) and zeros; the bank directives change exactly their byte; the entry point writes '
        'the linked image and one symbol line per label of the ROM ($8000-$FFFF) and of the RAM ($0-$7FF)')
EXPLANATION = '''Abstract interpretation of the NES assembler and of its entry point on programs with unknown bank counts, contents and label addresses.'''
ASSUMPTIONS = ['the symbol files of the entry point are compared at the listed label addresses']
MIN_OBLIGATIONS = 40

NES = ('platforms.nes', 'AssemblerNES')
BANKS = {'cartridge_prg_roms': 4, 'cartridge_chr_roms': 5}


def header():
    return list(b'NES\x1a\2\0') + [0] * 10


def asm_case(key, body):
    def fn(c):
        it = interp()
        it.files = {}
        a = construct(*NES)
        text, exp = body(c)
        c.show(text)
        r = c.call(it.getattr(a, 'assemble'), text)
        if r.ok:
            r = c.call(it.getattr(a, 'link'))
        if exp is None:
            return ('reject', r)
        if not r.ok:
            return ('value', r, b'')
        return ('value', blob_of(a), AbsBytes(exp))
    return FnCase(key, fn)


def banks(sets, where):
    '''sets: directive, operand kind; where: before or after the program'''
    def body(c):
        h = header()
        lines = []
        for k, (d, o) in enumerate(sets):
            if o in ('dec', 'hex', 'bin'):
                n = c.sym('N%d' % k, 0, 255)
                lines += ['.', d, ' ', *({'dec': [num(n)], 'hex': ['$', num(n, 16)], 'bin': ['%', num(n, 2)]}[o]), '\n']
                h[BANKS[d]] = n
            else:
                lines += ['.%s "%s"\n' % (d, o)]
                h[BANKS[d]] = ord(o)
        m = c.sym('M', 0, 255)
        L = c.sym('L', 0, 1 << 20)
        interp().files['prg'] = {'bytes': AbsBytes([opq('prg', L)])}
        prog = ['.org $8000\nstart: LDA #', num(m), '\nJMP start\n.incbin "prg"\n']
        exp = segs(h) + [b'\xa9', B(m), b'\x4c\x00\x80', opq('prg', L)]
        text = ['.cartridge\n'] + (lines + prog if where == 'before' else prog + lines)
        return S(*text), exp
    return asm_case('%s %s the program' % (' '.join('%s %s' % s for s in sets), where), body)


def refused(key, *text):
    def body(c):
        n = c.sym('N', 256, BIG)
        return S(*[num(n) if x is None else x for x in text]), None
    return asm_case('refused: ' + key, body)


def late(first, n0):
    '''a header after any output'''
    def body(c):
        n = c.sym('N', n0, 1 << 20)
        interp().files['pre'] = {'bytes': AbsBytes([opq('pre', n)])}
        return S(first), None
    return asm_case('refused: header after output', body)


ADDRESSES = (0, 1, 0x7fe, 0x7ff, 0x800, 0x7fff, 0x8000, 0x8001, 0xc123, 0xfffe, 0xffff, 0x10000)


def symbols(addresses, key):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.nes', 'in.S', 'out.nes')
        it = interp()
        text, rom, ram = [], [], []
        n = c.sym('N', 0, 255)
        for k, a in enumerate(addresses):
            name = 'L%d_%s' % (k, 'xyz'[k % 3])
            text.append('.org $%x\n%s:\n' % (a, name))
            if 0x8000 <= a <= 0xffff:
                rom.append('$%04X#%s#\r\n' % (a, name))
            if a <= 0x7ff:
                ram.append('$%04X#%s#\r\n' % (a, name))
        f.put('in.S', '.cartridge\n.db ', num(n), '\n', *text)
        c.show('main', *addresses)
        r = c.call(main)
        if not r.ok:
            return ('value', r, b'')
        got = {}
        for w in f.written():
            if w.name in got or 'b' not in w.mode:
                return ('bad', 'file written twice or as text')
            got[w.name] = AbsBytes([s for x in w.written for s in segs_of(x)])
        if sorted(got) != ['out.nes', 'out.nes.0.nl', 'out.nes.ram.nl']:
            return ('bad', 'writes %s' % sorted(got))
        order = ('out.nes', 'out.nes.0.nl', 'out.nes.ram.nl')
        return ('value', [got[x] for x in order], [AbsBytes(segs(header()) + [B(n)]), ''.join(rom).encode(), ''.join(ram).encode()])
    return FnCase('symbol files of ' + key, body)


def fails():
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.nes', 'in.S', 'out.nes')
        f.put('in.S', '.cartridge\nJMP nowhere\n')
        c.show('main with an unknown label')
        return f.nothing(c.call(main))
    return FnCase('nothing is written for a refused program', body, reject_any=True)


def cases(tier):
    load_class(*NES)
    kinds = ('dec', 'hex', 'bin', 'A')
    for where in ('before', 'after'):
        yield banks([], where)
        for d in BANKS:
            for o in kinds:
                yield banks([(d, o)], where)
            yield banks([(d, 'dec'), (d, 'hex')], where)
        yield banks([('cartridge_prg_roms', 'dec'), ('cartridge_chr_roms', 'dec')], where)
        yield banks([('cartridge_chr_roms', 'hex'), ('cartridge_prg_roms', 'dec')], where)
    for d in BANKS:
        yield refused(d + ' with two values', '.cartridge\n.%s 1 2\n' % d)
        yield refused(d + ' with two characters', '.cartridge\n.%s "AB"\n' % d)
        yield refused(d + ' without a value', '.cartridge\n.%s\n' % d)
        yield refused(d + ' with a value above 255', '.cartridge\n.%s ' % d, None, '\n')
        yield refused(d + ' with a label', '.cartridge\nx:\n.%s x\n' % d)
        yield refused(d + ' before the header', '.%s 1\n.cartridge\n' % d)
        yield refused(d + ' without a header', '.fill 32\n.%s 1\n' % d)
    yield refused('a second header', '.cartridge\n.cartridge\n')
    yield refused('a header after an instruction', 'NOP\n.cartridge\n')
    yield late('.incbin "pre"\n.cartridge\n', 1)
    yield symbols(ADDRESSES, 'every bound')
    yield symbols(tuple(reversed(ADDRESSES)), 'every bound, backwards')
    yield symbols((), 'no label')
    for a in ADDRESSES:
        yield symbols((a,), '%x' % a)
    yield fails()
