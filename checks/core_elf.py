'''C16: ELF output is a well formed object describing the program.'''
from itertools import product
from .model import *

RULE = ('the linked bytes are: ELF header of the declared class, byte order, type and machine; a section table with the null section, each declared '
        'section in order (name, type, flags, address, file offset, size, alignment), .shstrtab, .strtab, .symtab; the program; the tables; every index, '
        'offset and size agrees; one global symbol per exported label with its section and its offset in it, after the reserved null symbol')
EXPLANATION = '''Abstract interpretation of the section and export directives and of the ELF linker in both classes and both byte orders. Section contents
are opaque byte strings of symbolic length, addresses, machine and type numbers and alignment are symbolic, permissions are finite sets.'''
ASSUMPTIONS = ['exported labels are defined inside a section that contains no further origin', 'sections of reserved memory only are not specified']
MIN_OBLIGATIONS = 80
PERMS = ['R', 'W', 'X', 'E', 'RW', 'RX', 'WX', 'RWX', 'XR', 'WR', 'RWXE', 'RE', 'RR']


def pk(fmt, big, *vals):
    out = []
    for f, v in zip(fmt, vals):
        n = {'B': 1, 'H': 2, 'I': 4, 'Q': 8}[f]
        if not inr(v, 0, (1 << 8 * n) - 1):
            raise Refused('does not fit')
        out += be_bytes(v, n) if big else le_bytes(v, n)
    return out


class P(M):
    '''a program with sections'''

    def __init__(self, big, bits):
        M.__init__(self, big)
        self.bits = bits
        self.total = 0
        self.sections, self.exported, self.syms = [], set(), []
        self.cur = None
        self.few = False

    def emit(self, *segs):
        for s in segs:
            self.total = binop('+', self.total, seg_len(s))
        M.emit(self, *segs)

    def ref(self, name, size, bits_, add=0):
        self.total = binop('+', self.total, size)
        M.ref(self, name, size, bits_, add)

    def section(self, name, perms=None, start=None, quoted=True):
        if perms is None:
            t, flags = (self.perms() if not self.few else ('RX', 6)) if not self.sections else ('RW', 3) if self.few else self.perms(['RW', 'X'])
        else:
            t, flags = perms
        q = '"' if quoted else ''
        self.w('.section ', q, name, q, ' ', t, *([' ', num(start)] if start is not None else []))
        if start is not None:
            self.set_org(start)
        if self.cur:
            self.cur['size'] = binop('-', self.total, self.cur['off'])
        self.cur = dict(name=name, flags=flags, start=self.pc, off=self.total)
        self.sections.append(self.cur)

    def perms(self, only=PERMS):
        fs = FinSym(self.uid('perm'), list(only))
        self.inputs[fs.name] = fs

        def fl(p):
            return (2 if 'R' in p else 0) | (1 if 'W' in p else 0) | (4 if 'X' in p or 'E' in p else 0)
        return fin_text(fs), Fin(fs, {p: fl(p) for p in only}).as_int()

    def lab(self, name, export=True):
        self.label(name, name)
        self.syms.append((name, self.cur, binop('-', self.pc, self.cur['start'])))
        if export:
            self.exported.add(name)

    def export(self, *names):
        for n in names:
            self.w('.export ', n)

    def blob(self, L=1 << 16):
        u = self.uid('bin')
        n = self.sym('len' + u, 0, L)
        self.files[u] = {'bytes': AbsBytes([opq(u, n)])}
        self.w('.incbin "', u, '"')
        self.emit(opq(u, n))

    def elf(self, etype, machine, align, program):
        big, b64 = self.big, self.bits == 64
        if self.cur:
            self.cur['size'] = binop('-', self.total, self.cur['off'])
        hs, ss, ys = (64, 64, 24) if b64 else (52, 40, 16)
        n = len(self.sections)
        base = hs + ss * (n + 4)
        shstr = b'\0'
        offs = []
        for s in self.sections:
            offs.append(len(shstr))
            shstr += s['name'].encode() + b'\0'
        no = []
        for x in (b'.shstrtab', b'.strtab', b'.symtab'):
            no.append(len(shstr))
            shstr += x + b'\0'
        strt, so = b'\0', []
        syms = [s for s in self.syms if s[0] in self.exported]
        for s in syms:
            so.append(len(strt))
            strt += s[0].encode() + b'\0'
        sf = 'IIQQQQIIQQ' if b64 else 'IIIIIIIIII'
        out = [b'\x7fELF' + bytes([2 if b64 else 1, 2 if big else 1, 1, 0]) + bytes(8)]
        out += pk('HHI', big, etype, machine, 1)
        out += pk('QQQ' if b64 else 'III', big, 0, 0, hs)
        out += pk('IHHHHHH', big, 0, hs, 0, 0, ss, n + 4, n + 1)
        out += pk(sf, big, *[0] * 10)
        for s, o in zip(self.sections, offs):
            ty = 8 if eq(s['size'], 0) else 1
            out += pk(sf, big, o, ty, s['flags'], s['start'], binop('+', base, s['off']), s['size'], 0, 0, align, 0)
        at = binop('+', base, self.total)
        symb = [bytes(ys)]
        for s, o in zip(syms, so):
            k = self.sections.index(s[1]) + 1
            symb += pk('IBBHQQ', big, o, 0x10, 0, k, s[2], 0) if b64 else pk('IIIBBH', big, o, s[2], 0, 0x10, 0, k)
        out += pk(sf, big, no[0], 3, 0x20, 0, at, len(shstr), 0, 0, 0, 0)
        at = binop('+', at, len(shstr))
        out += pk(sf, big, no[1], 3, 0x20, 0, at, len(strt), 0, 0, 0, 0)
        at = binop('+', at, len(strt))
        out += pk(sf, big, no[2], 2, 0, 0, at, ys * (len(syms) + 1), n + 2, 1, 0, ys)
        return out + program + [shstr, strt] + symb


def linker(bits, big, *args, **kw):
    return interp().call(interp().load('necroassembler.linker').env.vars['ELF'], [bits, big] + list(args), kw)


def elf(key, body, bits, big, opts=None):
    holder, st = {}, {}

    def build():
        p = P(big, bits)
        etype = p.sym('etype', 0, 0xffff)
        machine = p.sym('machine', 0, 0xffff)
        align = p.sym('align', 0, 1 << 16) if not opts else 0
        st['linker'] = (bits, big, etype, machine) + (() if opts else (align,))
        refused = False
        try:
            body(p)
            p.finish()
            prog = p.resolve()
            full = p.elf(etype, machine, align, prog)
        except Refused:
            refused = True
        holder.clear()
        holder.update(p.files)

        def expect(r):
            return ('reject',) if refused else ('bytes', full)
        return S(*p.out), p.inputs, expect
    return Case('%s ELF%d %s' % (key, bits, 'BE' if big else 'LE'), BE if big else LE, build, files=holder,
                linker=lambda it: linker(*st['linker']), reject_any=True)


BODIES = {}


def body(f):
    BODIES[f.__name__.replace('_', ' ')] = f
    return f


W64 = 1 << 64


@body
def no_section(p):
    p.blob()


@body
def one_section(p):
    p.section('.text')
    p.blob()
    p.lab('foo')
    p.blob()
    p.export('foo')


@body
def section_at_address(p):
    p.section('.text', start=p.sym('A', 0, W64 - 1))
    p.blob()
    p.lab('start')
    p.export('start')


@body
def two_sections(p):
    p.section('text', quoted=False)
    p.blob()
    p.lab('one')
    p.blob()
    p.lab('hidden', False)
    p.section('.data')
    p.lab('two')
    p.blob()
    p.lab('three')
    p.emit(b'\1'), p.w('.db 1')
    p.export('three', 'one', 'two')


@body
def two_sections_at_addresses(p):
    p.section('.text', start=p.sym('A', 0, 1 << 31))
    p.blob()
    p.lab('one')
    p.section('.data', start=p.sym('D', 0, 1 << 33))
    p.blob()
    p.lab('two')
    p.export('two')
    p.export('one')


@body
def section_after_program(p):
    p.blob()
    p.section('.rodata')
    p.blob()
    p.lab('x')
    p.export('x')


@body
def section_after_origin(p):
    p.w('.org ', num(p.sym('O', 0, 1 << 30)))
    p.set_org(sym('O', 0, 1 << 30))
    p.blob()
    p.section('.rodata')
    p.lab('x')
    p.blob()
    p.lab('y')
    p.export('x', 'y')


@body
def section_closes_region(p):
    o = p.sym('O', 1, 1 << 16)
    k = p.sym('K', 1 << 17, 1 << 18)
    p.w('.org ', num(o), ' ', num(binop('+', o, k)))
    p.set_org(o, binop('+', o, k))
    p.section('.text')
    p.blob()
    p.section('.data', start=p.sym('A', 1 << 19, 1 << 24))
    p.blob()
    p.lab('x')
    p.export('x')


@body
def export_before_definition(p):
    p.export('late', 'never')
    p.section('.text')
    p.blob()
    p.lab('late')


@body
def three_sections(p):
    for i, n in enumerate(('.init', '.text', '.bigger_data')):
        p.section(n, p.perms(['R', 'RW', 'X', 'RWXE']) if i < 2 else ('RW', 3), start=p.sym('A%d' % i, 0, 1 << 24) if i == 1 else None)
        p.lab('begin%d' % i)
        p.blob(64)
        p.lab('end%d' % i, i != 1)
    p.export('end2', 'begin0', 'begin1', 'begin2', 'end0')


@body
def references_between_sections(p):
    p.section('.text', ('RX', 6), start=p.sym('A', 0, 1 << 20))
    p.w('.dd target')
    p.ref('target', 4, 32)
    p.blob()
    p.section('.data', ('RW', 3), start=p.sym('D', 0, 1 << 33))
    p.blob()
    p.lab('target')
    p.export('target')


@body
def origin_inside(p):
    p.section('.text', ('RX', 6))
    p.w('.org ', num(p.sym('O', 16, 1 << 20)))
    p.set_org(sym('O', 16, 1 << 20))
    p.blob()
    p.w('.db 1')
    p.emit(b'\1')
    p.section('.data', ('RW', 3))
    p.blob()
    p.lab('x')
    p.export('x')


@body
def padded_and_reserved(p):
    p.section('.text', ('RX', 6), start=p.sym('A', 0, 1 << 20))
    f_fill(p)
    f_goto(p)
    p.lab('one')
    f_ram(p)
    p.lab('two')
    f_upto(p)
    p.lab('three')
    p.section('.data', ('RW', 3))
    f_align(p, 4)
    p.lab('four')
    p.w('.db 1')
    p.emit(b'\1')
    p.export('one', 'four', 'two', 'three')


@body
def reserved_only_then_more(p):
    p.section('.bss', ('RW', 3))
    f_ram(p)
    p.lab('end')
    p.section('.data', ('RW', 3))
    p.blob()
    p.lab('x')
    p.export('end', 'x')


@body
def source_in_parts(p):
    p.section('.text', ('RX', 6))
    f_include(p)
    f_repeat(p)
    p.lab('x')
    f_macro(p)
    p.section('.data', ('RW', 3), start=p.sym('A', 0, 1 << 20))
    f_db(p)
    p.lab('Z9')
    p.export('Z9', 'x')


@body
def undefined_reference(p):
    p.section('.text', ('RX', 6))
    p.blob()
    p.w('.dd extern_symbol')
    raise Refused()


@body
def undefined_relative_reference(p):
    p.section('.text', ('RX', 6))
    p.blob()
    p.w('.org 16')
    p.w('REL8 extern_symbol')
    raise Refused()


BAD = {
    'section defined twice': '.section ".a" R\n.section ".b" R\n.section ".a" R',
    'section defined twice unquoted': '.section a R\n.section "a" W',
    'invalid permission': '.section ".a" RZ',
    'lower case permission': '.section ".a" rw',
    'missing permissions': '.section ".a"',
    'too many operands': '.section ".a" R 0 1',
    'invalid address': '.section ".a" R zz',
    'exported twice': 'x:\n.export x\n.export "x"',
    'export without a name': '.export',
    'export of two names': '.export a b',
}


def bad(key, src):
    def build():
        return S(src), {}, lambda r: ('reject',)
    return Case('refused: ' + key, LE, build, linker=lambda it: linker(32, False, 1, 3))


def twice(bits, big, same):
    '''one linker object used for two programs, and two linker objects'''
    def f(c):
        it = interp()
        C = load_class('client:core', 'BE' if big else 'LE')
        et, ma, al = c.sym('etype', 0, 0xffff), c.sym('machine', 0, 0xffff), c.sym('align', 0, 255)
        lk = linker(bits, big, et, ma, al)
        l2 = lk if same else linker(bits, big, ma, et, al)
        outs, exps = [], []
        for i, b in enumerate((BODIES['two sections'], BODIES['one section'])):
            p = P(big, bits)
            p.n = 100 * i
            p.inputs = c.inputs
            p.few = True
            b(p)
            exps.append(AbsBytes(p.elf(*((et, ma) if same or i == 0 else (ma, et)), al, p.resolve())))
            it.files.update(p.files)
            a = it.instantiate(C, [], {})
            r = c.call(it.getattr(a, 'assemble'), S(*p.out))
            if not r.ok:
                return ('bad', 'refused with %s %s' % (r.exc, r.msg))
            r = c.call(it.getattr(a, 'link'), lk if i == 0 else l2)
            if not r.ok:
                return ('bad', 'refused with %s %s' % (r.exc, r.msg))
            outs.append(it.getattr(a, 'assembled_bytes'))
        c.show('two programs')
        return ('value', outs, exps)
    return FnCase('%s for two programs ELF%d %s' % ('one linker' if same else 'two linkers', bits, 'BE' if big else 'LE'), f)


def cases(tier):
    interp().load('necroassembler.linker')
    for n in ('LE', 'BE'):
        load_class('client:core', n)
    for bits in (32, 64):
        for big in (False, True):
            for k, b in BODIES.items():
                yield elf(k, b, bits, big)
            yield elf('default alignment', BODIES['two sections'], bits, big, True)
            for same in (True, False):
                yield twice(bits, big, same)
    for k, s in BAD.items():
        yield bad(k, s)
