'''Shared vocabulary of the platform checks: images with unknown bytes, console entry points, pictures.'''
import random

from .model import *
from .core_cli import Files

PIL = '''
class Access:
    def __init__(self, image):
        self.image = image

    def __getitem__(self, xy):
        return self.image.getpixel(xy)


class Picture:
    def __init__(self, mode, width, height, pixels):
        self.mode = mode
        self.width = width
        self.height = height
        self.size = (width, height)
        self.pixels = pixels

    def getpixel(self, xy):
        x, y = xy
        if not 0 <= x < self.width or not 0 <= y < self.height:
            raise IndexError('image index out of range')
        return self.pixels[y * self.width + x]

    def load(self):
        return Access(self)

    def getdata(self):
        return list(self.pixels)

    def tobytes(self):
        return bytes(self.pixels)

    def crop(self, box):
        left, top, right, bottom = box
        return Picture(self.mode, right - left, bottom - top, [self.getpixel((x, y)) for y in range(top, bottom) for x in range(left, right)])

    def copy(self):
        return Picture(self.mode, self.width, self.height, list(self.pixels))

    def getbands(self):
        return ('P',) if self.mode == 'P' else tuple(self.mode)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


PICTURES = {}


def open(name):
    return PICTURES[name]
'''


def pictures():
    '''stand-in for the image library: the module and its dictionary of pictures'''
    it = interp()
    m = it.modules.get('client:PIL')
    if m is None:
        m = it.load_source('client:PIL', PIL)
        outer = NS('PIL', {'Image': m})
        it.natives['PIL'] = outer
        it.natives['PIL.Image'] = m
    return m


def picture(name, mode, width, height, pixels):
    it = interp()
    m = pictures()
    p = it.instantiate(m.env.vars['Picture'], [mode, width, height, list(pixels)], {})
    d = m.env.vars['PICTURES']
    it.touch(d)
    d[name] = p


def image(c, n, unknown, name='B', seed=1):
    '''n bytes: a fixed pseudo random content with unknown bytes at the given positions'''
    r = random.Random(seed * 1000003 + n)
    out = [r.randrange(256) for _ in range(n)]
    for i in unknown:
        out[i] = c.sym('%s%x' % (name, i), 0, 255)
    return out


def segs(values):
    out, run = [], bytearray()
    for v in values:
        if isinstance(v, int):
            run.append(v)
            continue
        if run:
            out.append(bytes(run))
            run = bytearray()
        out.append(B(v))
    if run:
        out.append(bytes(run))
    return out


def plus(values):
    '''sum, the constants first'''
    t = sum(v for v in values if isinstance(v, int))
    for v in values:
        if not isinstance(v, int):
            t = binop('+', t, v)
    return t


def byte(v):
    '''the low byte of a value'''
    return bits(v, 0, 8)


def entry(c, module, *names):
    f = Files(c)
    f.argv(*names)
    return f, interp().load(module).env.vars['main']


def blob_of(asm):
    return interp().getattr(asm, 'assembled_bytes')
