'''C32: image directives convert pixels to the tile format of the console.'''
from .plat import *

RULE = ('.tiles of the Game Boy emits two bit planes interleaved by row, of the Master System four; .chr_pattern_table of the NES emits the low plane of a tile, then the '
        'high one; tiles follow each other row by row; other image modes, other sizes and colours the format has no bits for are refused')
EXPLANATION = '''Abstract interpretation of the image directives with a stand-in for the image library, on pictures with unknown pixels: the emitted bytes are compared with
the documented layout of the console, as functions of the pixels.'''
ASSUMPTIONS = ['the image library is replaced by a picture object (mode, size, width, height, getpixel, load, getdata) with the given pixels: decoding of image files is its affair']
MIN_OBLIGATIONS = 150

CONSOLES = {
    'Game Boy': (('platforms.gameboy', 'AssemblerGameboy'), 'tiles', 2),
    'Master System': (('platforms.sms', 'AssemblerSegaMasterSystem'), 'tiles', 4),
    'NES': (('platforms.nes', 'AssemblerNES'), 'chr_pattern_table', 2),
}


def plane(row, bit):
    t = 0
    weights = {}
    for x, p in enumerate(row):
        if isinstance(p, int):
            t += (p >> bit & 1) << (7 - x)
        else:
            weights.setdefault(id(p), [p, 0])[1] += 1 << (7 - x)
    for p, k in weights.values():
        t = binop('+', t, scaled(bits(p, bit, 1), k))
    return t


def scaled(v, k):
    return binop('*', v, k)


def tiles(console, w, h, pixels):
    depth = CONSOLES[console][2]
    out = []
    for ty in range(h // 8):
        for tx in range(w // 8):
            rows = [pixels[(ty * 8 + y) * w + tx * 8:(ty * 8 + y) * w + tx * 8 + 8] for y in range(8)]
            if console == 'NES':
                out += [plane(r, b) for b in range(depth) for r in rows]
            else:
                out += [plane(r, b) for r in rows for b in range(depth)]
    return out


PATTERNS = {'flat': lambda x, y, w, h: 0, 'column stripes': lambda x, y, w, h: x & 1, 'row stripes': lambda x, y, w, h: y & 1, 'chess': lambda x, y, w, h: (x + y) & 1,
            'tiles of two colours': lambda x, y, w, h: (x // 8 + y // 8) & 1, 'halves': lambda x, y, w, h: x * 2 // w, 'upper and lower half': lambda x, y, w, h: y * 2 // h}
PATTERNS.update({'row %d' % k: lambda x, y, w, h, k=k: y % 8 == k for k in range(8)})
PATTERNS.update({'column %d' % k: lambda x, y, w, h, k=k: x % 8 == k for k in range(8)})


def pixels(c, w, h, unknown, top, seed):
    if isinstance(unknown, str):
        two = c.sym('A', 0, top), c.sym('B', 0, top)
        return [two[PATTERNS[unknown](x, y, w, h)] for y in range(h) for x in range(w)]
    r = random.Random(seed * 7919 + w * 131 + h)
    out = [r.randrange(top + 1) for _ in range(w * h)]
    for x, y in unknown:
        out[y * w + x] = c.sym('P%d_%d' % (x, y), 0, top)
    return out


HEADER = 0x150


def run(c, console, text):
    '''the outcome of a program, and the bytes after the cartridge header'''
    it = interp()
    a = construct(*CONSOLES[console][0])
    text = S('.fill %d\n' % HEADER, text)
    c.show(text)
    r = c.call(it.getattr(a, 'assemble'), text)
    if r.ok:
        r = c.call(it.getattr(a, 'link'))
    if r.ok:
        return r, it.getitem(blob_of(a), slice(HEADER, None, None))
    return r, None


def good(console, key, w, h, unknown, before='', after='', quote='"', seed=1):
    def body(c):
        top = (1 << CONSOLES[console][2]) - 1
        px = pixels(c, w, h, unknown, top, seed)
        pictures()
        picture('t.png', 'P', w, h, px)
        d = CONSOLES[console][1]
        n = c.sym('N', 0, 255)
        pre, post = [], []
        text = []
        if before:
            text += ['.db ', num(n), '\n']
            pre = [n]
        text += ['.%s %st.png%s\n' % (d, quote, quote)]
        if after:
            text += ['.db ', num(n), '\n']
            post = [n]
        r, got = run(c, console, S(*text))
        if not r.ok:
            return ('value', r, b'')
        return ('value', got, AbsBytes(segs(pre + tiles(console, w, h, px) + post)))
    return FnCase('%s: %s' % (console, key), body)


def label_after(console, w, h):
    '''the address of a label behind the picture'''
    def body(c):
        top = (1 << CONSOLES[console][2]) - 1
        px = pixels(c, w, h, ((3, 3),), top, 4)
        pictures()
        picture('t.png', 'P', w, h, px)
        r, got = run(c, console, S('.org $2000\n.%s "t.png"\nend:\n.dw end\n' % CONSOLES[console][1]))
        if not r.ok:
            return ('value', r, b'')
        t = tiles(console, w, h, px)
        return ('value', got, AbsBytes(segs(t) + [(0x2000 + len(t)).to_bytes(2, 'little')]))
    return FnCase('%s: the address behind the picture' % console, body)


def bad_colour(console, w, h, at, lo, hi):
    def body(c):
        top = (1 << CONSOLES[console][2]) - 1
        px = pixels(c, w, h, (), top, 2)
        x, y = at
        px[y * w + x] = c.sym('P', lo, hi)
        pictures()
        picture('t.png', 'P', w, h, px)
        return ('reject', run(c, console, S('.%s "t.png"\n' % CONSOLES[console][1]))[0])
    return FnCase('%s: colours %d to %d at %d,%d of %dx%d' % (console, lo, hi, at[0], at[1], w, h), body)


def bad_picture(console, mode, w, h):
    def body(c):
        pictures()
        picture('t.png', mode, w, h, [0] * (w * h))
        return ('reject', run(c, console, S('.%s "t.png"\n' % CONSOLES[console][1]))[0])
    return FnCase('%s: refused: mode %s, %dx%d' % (console, mode, w, h), body)


def bad_args(console, args):
    def body(c):
        pictures()
        picture('t.png', 'P', 128 if console == 'NES' else 8, 128 if console == 'NES' else 8, [0] * (128 * 128 if console == 'NES' else 64))
        return ('reject', run(c, console, S('.%s%s\n' % (CONSOLES[console][1], args)))[0])
    return FnCase('%s: refused: arguments%s' % (console, args or ' missing'), body)


def cases(tier):
    out = []
    full = [(x, y) for y in range(8) for x in range(8)]
    for k in ('Game Boy', 'Master System'):
        for x, y in full:
            out.append(good(k, 'one tile, unknown %d,%d and %d,%d' % (x, y, 7 - y, x), 8, 8, [(x, y), (7 - y, x)], seed=x + 8 * y))
        for w, h in ((16, 8), (8, 16), (16, 16), (24, 16), (16, 24), (32, 32)):
            for n, u in enumerate(([(0, 0), (w - 1, h - 1)], [(w - 1, 0), (0, h - 1)], [(w // 2, h // 2), (w - 8, 7)])):
                out.append(good(k, '%dx%d, unknown %s' % (w, h, ' '.join('%d,%d' % p for p in u)), w, h, u, seed=n))
        for p in PATTERNS:
            out.append(good(k, 'unknown colours, ' + p, 8, 8, p))
            out.append(good(k, '16x24 of unknown colours, ' + p, 16, 24, p))
        out.append(good(k, 'between data', 16, 8, [(2, 2), (13, 5)], before='x', after='x'))
        out.append(good(k, 'single quotes', 8, 8, [(1, 2)], quote="'"))
        out.append(label_after(k, 16, 8))
        top = (1 << CONSOLES[k][2]) - 1
        for at in ((0, 0), (7, 7), (3, 5)):
            out.append(bad_colour(k, 8, 8, at, top + 1, 255))
        out.append(bad_colour(k, 24, 16, (23, 15), top + 1, 255))
        for w, h in ((1, 8), (7, 8), (9, 8), (8, 7), (8, 9), (12, 12), (4, 8), (8, 4), (20, 16)):
            out.append(bad_picture(k, 'P', w, h))
    k = 'NES'
    corners = [(0, 0), (127, 0), (0, 127), (127, 127)]
    out.append(good(k, 'unknown corners', 128, 128, corners[:2]))
    out.append(good(k, 'unknown lower corners', 128, 128, corners[2:]))
    for y in range(8):
        for x in (range(8) if tier != 'quick' else (y, 7 - y)):
            out.append(good(k, 'unknown %d,%d of two tiles' % (x, y), 128, 128, [(8 * 3 + x, 8 * 5 + y), (8 * (9 + y) + x, 8 * x + y)], seed=y))
    out.append(good(k, 'unknown pixels in neighbour tiles', 128, 128, [(7, 7), (8, 8)]))
    out.append(good(k, 'unknown pixels in neighbour tiles, other diagonal', 128, 128, [(8, 7), (7, 8)]))
    for p in PATTERNS if tier != 'quick' else ('flat', 'chess', 'halves', 'row 0', 'row 7', 'column 0', 'column 7'):
        out.append(good(k, 'unknown colours, ' + p, 128, 128, p))
    out.append(good(k, 'between data', 128, 128, [(5, 9)], before='x', after='x'))
    out.append(label_after(k, 128, 128))
    for at in ((0, 0), (127, 127), (63, 70)):
        out.append(bad_colour(k, 128, 128, at, 4, 255))
    for w, h in ((8, 8), (128, 64), (64, 128), (128, 136), (136, 128), (128, 127), (127, 128), (256, 128), (128, 256), (256, 256)):
        out.append(bad_picture(k, 'P', w, h))
    for k in CONSOLES:
        w = 128 if k == 'NES' else 8
        for mode in ('RGB', 'RGBA', 'L', '1', 'LA', 'PA', 'I'):
            out.append(bad_picture(k, mode, w, w))
        for args in ('', ' "t.png" 1', ' "t.png" "t.png"'):
            out.append(bad_args(k, args))
    return out
