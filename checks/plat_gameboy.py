'''C30: the header and the checksums of a Game Boy cartridge.'''
from .plat import *

RULE = ('.cartridge at $100 emits the entry jump, the logo and the default fields; every cartridge directive changes exactly its header bytes; after the link '
        '$14D holds the header checksum and $14E/$14F the big endian sum of every other byte')
EXPLANATION = '''Abstract interpretation of the Game Boy assembler on programs with an unknown prefix, unknown header values and images with unknown bytes and
resolved labels; the expected header and checksums are computed from the Pan Docs formulas over the same unknowns.'''
ASSUMPTIONS = ['images from 336 to 65793 bytes at the listed sizes, with unknown bytes at the listed positions and fixed content elsewhere',
               'images shorter than a header are not specified (the assembler refuses them)']
MIN_OBLIGATIONS = 60

GB = ('platforms.gameboy', 'AssemblerGameboy')
LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
FIELDS = {'cartridge_title': (0x134, 16), 'cartridge_license': (0x144, 2), 'cartridge_cgb': (0x143, 1), 'cartridge_sgb': (0x146, 1),
          'cartridge_type': (0x147, 1), 'cartridge_destination': (0x14a, 1)}


def header():
    '''$100 to $14F before the link'''
    h = [0] * 0x50
    h[:4] = [0x00, 0xc3, 0x50, 0x01]
    h[4:0x34] = LOGO
    h[0x4a] = 1
    h[0x4b] = 0x33
    return h


def finish(values):
    '''the linked image'''
    v = list(values)
    h = 0
    for x in v[0x134:0x14d]:
        h = binop('-', binop('-', h, x), 1)
    v[0x14d] = byte(h)
    g = plus(v[:0x14e] + v[0x150:])
    v[0x14e], v[0x14f] = bits(g, 8, 8), bits(g, 0, 8)
    return v


def asm_case(key, body, reject_any=False):
    '''body(c) -> (text, specified values of the linked image, or None: refused)'''
    def fn(c):
        it = interp()
        it.files = {}
        a = construct(*GB)
        text, values = body(c)
        c.show(text)
        r = c.call(it.getattr(a, 'assemble'), text)
        if r.ok:
            r = c.call(it.getattr(a, 'link'))
        if values is None:
            return ('reject', r)
        if not r.ok:
            return ('value', r, b'')
        return ('value', blob_of(a), AbsBytes(segs(values)))
    return FnCase(key, fn, reject_any=reject_any)


def put(name, values):
    interp().files[name] = {'bytes': AbsBytes(segs(values))}


def first(c):
    v = image(c, 256, (0, 0x3f, 0xff), 'F')
    put('first', v)
    return v


def fields(sets):
    '''sets: directive -> list of operand kinds'''
    def body(c):
        v = first(c) + header() + image(c, 32, (0, 31), 'G')
        put('rest', v[0x150:])
        lines = ['.incbin "first"\n.cartridge\n']
        for k, (d, ops) in enumerate(sets):
            base, size = FIELDS[d]
            lines += ['.', d]
            at = base
            for j, o in enumerate(ops):
                n = 'N%d_%d' % (k, j)
                if o == 'dec':
                    x = c.sym(n, 0, 255)
                    lines += [' ', num(x)]
                    vals = [x]
                elif o == 'hex':
                    x = c.sym(n, 0, 255)
                    lines += [' $', num(x, 16)]
                    vals = [x]
                else:
                    lines += [' "%s"' % o]
                    vals = list(o.encode('ascii'))
                for x in vals:
                    v[at] = x
                    at += 1
            lines.append('\n')
        lines.append('.incbin "rest"\n')
        return S(*lines), finish(v)
    return asm_case(' '.join('%s %s' % (d, '/'.join(o or 'empty' for o in ops)) for d, ops in sets), body)


def sized(n, unknown):
    '''no cartridge directive: the image is whatever the program emits'''
    def body(c):
        v = image(c, n, unknown)
        put('all', v)
        return S('.incbin "all"'), finish(v)
    return asm_case('image of %d bytes' % n, body)


def labels():
    '''the checksums cover the resolved labels'''
    def body(c):
        n = c.sym('N', 0, 0x3000)
        put('pad', [0])
        adr = binop('+', 0x4000, n)
        v = [0] * 256 + header() + [0xc3, bits(adr, 0, 8), bits(adr, 8, 8), 0xcd, 0x56, 0x01, 0xc9]
        return S('.fill 256 0\n.cartridge\nJP far\nCALL here\nhere: RET\n.org ', num(adr), '\nfar:\n'), finish(v)
    return asm_case('labels in the checksums', body)


def after(prefix, key):
    '''addresses continue at $150'''
    def body(c):
        v = [0] * 256 + header() + [0xcd, 0x53, 0x01, 0xc9]
        return S(prefix, '\n.cartridge\nCALL here\nhere: RET\n'), finish(v)
    return asm_case('addresses after the header, ' + key, body)


def region(end):
    def body(c):
        v = [0] * 256 + header() + [0xcd, 0x53, 0x01, 0xc9]
        v += [0] * (end + 1 - len(v))
        return S('.org $0 $ff\n.fill 4 0\n.org $100 ', num(end), '\n.cartridge\nCALL here\nhere: RET\n'), finish(v)
    return asm_case('header in a region up to %x' % end, body)


def elsewhere(key, text, at):
    '''the header is refused at any other position'''
    def body(c):
        n = c.sym('N', 0, 1 << 20)
        if not lt(n, at) and not lt(at, n):
            raise Infeasible()
        interp().files['pre'] = {'bytes': AbsBytes([opq('pre', n)])}
        return S(*[text]), None
    return asm_case('header refused ' + key, body)


def refused(key, *lines):
    def body(c):
        n = c.sym('N', 256, BIG)
        return S('.fill 256\n', *[num(n) if x is None else x for x in lines]), None
    return asm_case('refused: ' + key, body)


def cases(tier):
    load_class(*GB)
    yield fields([])
    for d, (at, size) in FIELDS.items():
        yield fields([(d, ['dec'] * size)])
        yield fields([(d, ['hex'] * size)])
        yield fields([(d, ['dec'])])
        if size > 1:
            yield fields([(d, ['A', 'hex'] if size > 1 else ['A'])])
        yield fields([(d, ['dec'] * size), (d, ['hex'])])
        for n in range(1, size + 1):
            yield fields([(d, ['NECRO GAME 01234'[:n]])])
        for n in range(2, size):
            yield fields([(d, ['dec'] * n)])
        yield refused(d + ' longer than its field', '.cartridge\n.%s "%s"\n' % (d, 'ABCDEFGHIJKLMNOPQRSTU'[:size + 1]))
        yield refused(d + ' with too many values', '.cartridge\n.%s %s\n' % (d, '1 ' * (size + 1)))
        yield refused(d + ' without values', '.cartridge\n.%s\n' % d)
        yield refused(d + ' with a value above 255', '.cartridge\n.%s ' % d, None, '\n')
        yield refused(d + ' with a label', '.cartridge\nx:\n.%s x\n' % d)
        yield refused(d + ' with an unknown label', '.cartridge\n.%s nowhere\n' % d)
        yield refused(d + ' before the header', '.%s 1\n.cartridge\n' % d)
        yield refused(d + ' without a header', '.fill 256\n.%s 1\n' % d)
    yield fields([('cartridge_title', ['dec'] * 16), ('cartridge_cgb', ['dec']), ('cartridge_license', ['dec', 'hex']), ('cartridge_sgb', ['hex']),
                  ('cartridge_type', ['dec']), ('cartridge_destination', ['hex'])])
    yield fields([('cartridge_destination', ['dec']), ('cartridge_type', ['hex']), ('cartridge_cgb', ['hex']), ('cartridge_title', ['NECRO', 'dec'])])
    for n, u in ((0x150, range(0x130, 0x150)), (0x150, (0, 1, 0xff, 0x100, 0x104, 0x133, 0x14f)), (0x151, (0x150,)), (0x1ff, (0x1fe, 0x14d, 0x14e)),
                 (0x4001, (0x3fff, 0x4000)), (0x8000, (0x134, 0x14c, 0x7fff))) + (((0x10101, (0xffff, 0x10000, 0x10100)),) if tier != 'quick' else ()):
        yield sized(n, u)
    yield labels()
    yield after('.fill 256 0', 'from the start')
    yield after('.org 0\n.fill 256 0', 'with an origin')
    yield after('.org $8000\n.fill 256 0', 'with another origin')
    for e in (0x1ff, 0x3fff):
        yield region(e)
    yield elsewhere('after another number of bytes', '.incbin "pre"\n.cartridge\n', 256)
    yield elsewhere('after a short first region', '.org $40\n.incbin "pre"\n.org $100\n.cartridge\n', 256)
    yield refused('a second header', '.cartridge\n.cartridge\n')
