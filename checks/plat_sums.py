'''C33: the checksums of Game Boy Advance and Mega Drive images.'''
from .plat import *

RULE = ('the image written is the linked program except the checksum field: GBA $BD = -(sum of $A0..$BC + $19) mod 256; Mega Drive $18E/$18F = big endian sum of '
        'the words from $200 mod 65536')
EXPLANATION = '''Abstract interpretation of the two entry points on images with unknown bytes, unknown values of instructions and resolved labels; the expected
checksum is computed from the console documentation over the same unknowns.'''
ASSUMPTIONS = ['images at the listed sizes, with unknown bytes at the listed positions and fixed content elsewhere', 'images shorter than a header are not specified (nothing is written for them)',
               'the last word of an image with an odd size has a zero low byte']
MIN_OBLIGATIONS = 20


def gba(v):
    v = list(v)
    h = -0x19
    for x in v[0xa0:0xbd]:
        h = binop('-', h, x)
    v[0xbd] = byte(h)
    return v


def genesis(v):
    v = list(v)
    w = v[0x200:] + [0] * (len(v) % 2)
    total = binop('+', binop('*', plus(w[::2]), 256), plus(w[1::2]))
    v[0x18e], v[0x18f] = bits(total, 8, 8), bits(total, 0, 8)
    return v


SUM = {'gba': gba, 'genesis': genesis}


def image_case(platform, n, unknown):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.' + platform, 'in.S', 'out.bin')
        v = image(c, n, unknown)
        interp().files['all'] = {'bytes': AbsBytes(segs(v))}
        f.put('in.S', '.incbin "all"\n')
        c.show('%s image of %d bytes' % (platform, n))
        return f.result(c.call(main), 'out.bin', segs(SUM[platform](v)))
    return FnCase('%s image of %d bytes, unknown %s' % (platform, n, ' '.join('%x' % x for x in list(unknown)[:4])), body)


def program(platform):
    '''the checksum covers resolved labels'''
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.' + platform, 'in.S', 'out.bin')
        n = c.sym('N', 0, 255)
        k = c.sym('K', 0, 0x3000)
        v = image(c, 0xa0 if platform == 'gba' else 0x200, (4,))
        interp().files['head'] = {'bytes': AbsBytes(segs(v))}
        adr = binop('+', 0x4000, k)
        if platform == 'gba':
            v = v + [byte(adr), bits(adr, 8, 8), 0, 0, n] + [7] * 40
            f.put('in.S', '.incbin "head"\n.dd far\n.db ', num(n), '\n.fill 40 7\n.org ', num(adr), '\nfar:\n')
        else:
            v = v + [0, 0, bits(adr, 8, 8), byte(adr), 0x4e, 0x71, n, 7, 9, 9]
            f.put('in.S', '.incbin "head"\n.dd far\nNOP\n.db ', num(n), ' 7\n.fill 2 9\n.org ', num(adr), '\nfar:\n')
        c.show(platform + ' program')
        return f.result(c.call(main), 'out.bin', segs(SUM[platform](v)))
    return FnCase(platform + ' program with a forward label', body)


def fails(platform, text):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.' + platform, 'in.S', 'out.bin')
        f.put('in.S', text)
        c.show(platform, text)
        return f.nothing(c.call(main))
    return FnCase('%s writes nothing for a refused program: %s' % (platform, ' '.join(text.split())), body, reject_any=True)


def cases(tier):
    for m in SUM:
        interp().load('necroassembler.platforms.' + m)
    for n, u in ((0xc0, range(0xa0, 0xbe)), (0xbe, (0xa0, 0xbc, 0xbd)), (0xbf, (0x9f, 0xbe)), (0x100, (0, 0x9f, 0xa0, 0xbc, 0xbd, 0xbe, 0xff)), (0x4000, (0xb2, 0x3fff))):
        yield image_case('gba', n, u)
    for n, u in ((0x200, (0x18d, 0x18e, 0x18f, 0x190, 0x1ff)), (0x202, (0x200, 0x201)), (0x201, (0x200,)), (0x203, (0x201, 0x202)), (0x240, range(0x1f8, 0x218)),
                 (0x800, (0x18e, 0x200, 0x3ff, 0x7fe, 0x7ff)), (0x8002, (0x8000, 0x8001))):
        yield image_case('genesis', n, u)
    if tier != 'quick':
        yield image_case('genesis', 0x20000, (0x1fffe, 0x1ffff))
    for p in SUM:
        yield program(p)
        for t in ('.fill 4096\nBOGUS\n', '.fill 4096\n.dd nowhere\n', '.fill 4096\n.incbin "missing"\n'):
            yield fails(p, t)
