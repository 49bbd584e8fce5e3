ASM, LK, UT, INI = 'assembler.py', 'linker.py', 'utils.py', '__init__.py'
D = '''
import struct
from necroassembler import Assembler, pre_link, post_link
from necroassembler.linker import ELF


class A(Assembler):
    hex_prefixes = ('0x',)


class AB(A):
    big_endian = True


def read(data):
    """a small ELF reader: (sections, symbols)"""
    e = '<' if data[5] == 1 else '>'
    b64 = data[4] == 2
    if b64:
        shoff = struct.unpack_from(e + 'Q', data, 40)[0]
        flags, ehsize, _, _, shent, num, strndx = struct.unpack_from(e + 'IHHHHHH', data, 48)
    else:
        shoff = struct.unpack_from(e + 'I', data, 32)[0]
        flags, ehsize, _, _, shent, num, strndx = struct.unpack_from(e + 'IHHHHHH', data, 36)
    raw = [struct.unpack_from(e + ('IIQQQQIIQQ' if b64 else 'IIIIIIIIII'), data, shoff + i * shent) for i in range(num)]

    def name(tab, off):
        t = raw[tab]
        s = data[t[4] + off:t[4] + t[5]]
        return s[:s.index(b'\\0')].decode()
    secs = [dict(name=name(strndx, r[0]), type=r[1], flags=r[2], addr=r[3], off=r[4], size=r[5], link=r[6], info=r[7], align=r[8], ent=r[9]) for r in raw]
    syms = {}
    for i, s in enumerate(secs):
        if s['type'] == 2:
            for o in range(s['off'], s['off'] + s['size'], s['ent']):
                if b64:
                    n, info, other, shndx, value, size = struct.unpack_from(e + 'IBBHQQ', data, o)
                else:
                    n, value, size, info, other, shndx = struct.unpack_from(e + 'IIIBBH', data, o)
                syms[name(s['link'], n)] = (shndx, value, info)
    return secs, syms


def link(cls, src, *args, **kw):
    a = cls()
    a.assemble(src)
    a.link(ELF(*args, **kw))
    return bytes(a.assembled_bytes)

'''
M = '''
import os, sys, tempfile
from necroassembler import Assembler, pre_link, post_link


class A(Assembler):
    hex_prefixes = ('0x',)


def run(cls, files, *args, **kw):
    """the command line in a scratch folder: bytes of the destination (last argument) or None"""
    with tempfile.TemporaryDirectory() as d:
        for n, t in files.items():
            open(os.path.join(d, n), 'w').write(t)
        old = os.getcwd(), sys.argv
        os.chdir(d)
        sys.argv = ['prog'] + list(args)
        try:
            cls.main(**kw)
        finally:
            os.chdir(old[0])
            sys.argv = old[1]
            run.last = {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d)}
        return run.last.get(args[-1]) if args else None

'''
SEEDS = [
 dict(id='C16-empty-section-type', property='C16', needs='two sections, the first of them empty, with a symbol in the second',
      breaks='an empty section is left out of the section numbering, so symbols after it point to the wrong section',
      edits=[(LK, '''            section_data['elf_section_index'] = section_index
''', '''            section_data['elf_section_index'] = section_index - len(
                [s for s in list(assembler.sections.values())[:section_index] if s['size'] == 0])
''')],
      demo=D + '''
s, y = read(link(A, '.section .a R\\n.section .b RX\\nx: .db 1\\n.export x', 32, False, 1, 3))
assert s[y['x'][0]]['name'] == '.b', y
'''),
 dict(id='C16-be-symtab-64', property='C16', needs='a 64 bit big endian object with an exported label',
      breaks='symbols of 64 bit objects are always written little endian',
      edits=[(LK, "symtab += pack(self.endianess_prefix + 'IBBHQQ',", "symtab += pack('<IBBHQQ',")],
      demo=D + '''
s, y = read(link(AB, '.section .a RX\\n.db 1,2\\nx: .db 1\\n.export x', 64, True, 1, 0x15))
assert y.get('x') == (1, 2, 0x10), y
'''),
 dict(id='C16-strtab-order', property='C16', needs='labels exported in another order than they are defined, not exported ones in between',
      breaks='symbols are written in the order of the exports while their names were placed in the order of the definitions: a symbol exported before its definition is lost',
      edits=[(LK, '''        string_table = b'\\x00'
        for symbol_name, symbol_data in assembler.labels.items():
            if symbol_name not in assembler.exports:
                continue
            symbol_data['elf_string_offset'] = len(string_table)
''', '''        string_table = b'\\x00'
        for symbol_name in assembler.exports:
            symbol_data = assembler.labels[symbol_name]
            symbol_data['elf_string_offset'] = len(string_table) - (symbol_name in string_table.decode())
''')],
      demo=D + '''
s, y = read(link(A, '.section .a RX\\nabc: .db 1\\nb: .db 2\\n.export abc\\n.export b', 32, False, 1, 3))
assert {k: v[1] for k, v in y.items() if k} == {'abc': 0, 'b': 1}, y
'''),
 dict(id='C16-section-size-goto', property='C16', needs='a section that follows another one with an explicit start address while the first is padded by the new origin',
      breaks='the size of a section closed by a section with an address is taken from the addresses instead of the bytes',
      edits=[(ASM, '''        if self.current_section:
            self.sections[self.current_section]['end'] = self.pc
            self.sections[self.current_section]['size'] = len(
                self.assembled_bytes) - self.sections[self.current_section]['offset']
        self.current_section = name
''', '''        if self.current_section:
            self.sections[self.current_section]['end'] = self.pc
            self.sections[self.current_section]['size'] = self.pc - self.sections[self.current_section]['start'] \\
                if len(instr.tokens) == 3 else len(self.assembled_bytes) - self.sections[self.current_section]['offset']
        self.current_section = name
''')],
      demo=D + '''
s, y = read(link(A, '.section .a RX\\n.org 0x10\\n.db 1,2\\n.section .b R\\n.db 3', 32, False, 1, 3))
assert s[1]['size'] == 2, s[1]
'''),
 dict(id='C16-flags-x', property='C16', needs='a section whose permissions are spelled with E',
      breaks='the alternative letter for executable sections sets the flag of the writable ones',
      edits=[(LK, '''        if 'E' in section_data['permissions']:
            sh_flags |= 0x04''', '''        if 'E' in section_data['permissions']:
            sh_flags ^= 0x04''')],
      demo=D + '''
s, y = read(link(A, '.section .a RXE\\n.db 1', 32, False, 1, 3))
assert s[1]['flags'] == 6, s[1]
'''),
 dict(id='C17-passes-order', property='C17', needs='an assembler with an own pass and one given on the command line entry',
      breaks='the passes given to the entry point run before the passes of the assembler',
      edits=[(ASM, 'asm.post_link_passes += post_link_passes', 'asm.post_link_passes[:0] = post_link_passes')],
      demo=M + '''
class P(A):
    @post_link
    def own(self):
        self.assembled_bytes.append(1)

assert run(P, {'a': '.db 9'}, 'a', 'o', post_link_passes=[lambda a: a.assembled_bytes.append(2)]) == bytes((9, 1, 2))
'''),
 dict(id='C17-save-before-linker', property='C17', needs='a linker that fails (or a pass that fails) after the sources were assembled',
      breaks='the destination is created before linking, so a failing link leaves an empty output file',
      edits=[(ASM, '''        asm.link(linker=linker)
        asm.save(destination)''', '''        asm.save(destination)
        asm.link(linker=linker)
        asm.save(destination)''')],
      demo=M + '''
try:
    run(A, {'a': '.dw nowhere'}, 'a', 'o')
except Exception:
    pass
assert 'o' not in run.last
assert run(A, {'a': '.db 1'}, 'a', 'o') == b'\\1'
'''),
 dict(id='C17-same-source', property='C17', needs='the same source given twice on the command line',
      breaks='a source given twice is assembled once',
      edits=[(ASM, '''        for source in sources:
            asm.assemble_file''', '''        for source in dict.fromkeys(sources):
            asm.assemble_file''')],
      demo=M + '''
assert run(A, {'a': '.db 1', 'b': '.db 2'}, 'a', 'b', 'a', 'o') == bytes((1, 2, 1))
'''),
 dict(id='C17-bound-pass', property='C17', needs='a post link pass that is a bound method of another object',
      breaks='a pass that is a bound method of another object is called without the assembler',
      edits=[(ASM, '''        for _pass in self.post_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:''', '''        for _pass in self.post_link_passes:
            if getattr(_pass, '__self__', None) is not None:''')],
      demo=M + '''
class H:
    def fix(self, asm):
        asm.assembled_bytes.append(7)

assert run(A, {'a': '.db 1'}, 'a', 'o', post_link_passes=[H().fix]) == bytes((1, 7))
'''),
 dict(id='C17-pre-link-after', property='C17', needs='a pre-link pass that emits a reference to a label',
      breaks='the pre-link passes run after the references were collected, so what they emit keeps unresolved references',
      edits=[(ASM, '''        for _pass in self.pre_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()
            else:
                _pass(self)

        self._resolve_labels(linker)
''', '''        references = self.labels_addresses
        self.labels_addresses = {}
        for _pass in self.pre_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()
            else:
                _pass(self)

        self.labels_addresses = references
        self._resolve_labels(linker)
''')],
      demo=M + '''
class P(A):
    @pre_link
    def own(self):
        self.assemble('.db x')

assert run(P, {'a': '.db 9\\nx: .db 8'}, 'a', 'o') == bytes((9, 8, 1))
'''),
 dict(id='C18-be16s-zero', property='C18', needs='a value of 0x8000 in pack_be16s', breaks='the most negative value of a signed field raises or wraps',
      edits=[(UT, '''    negative = 1 << (bits - 1)
    if value & negative:
        return -(1 << (bits)) + value''', '''    negative = 1 << (bits - 1)
    if value > negative:
        return -(1 << (bits)) + value''')],
      demo='''
from necroassembler.utils import pack_be16s, neg_fix
try:
    assert pack_be16s(-0x8000) == b'\\x80\\0' and neg_fix(0x80, 8) == -128
except Exception as e:
    raise SystemExit(1)
'''),
 dict(id='C18-bits-negative', property='C18', needs='a negative field value below the range of the field',
      breaks='a negative value that does not fit a bit field is wrapped instead of refused',
      edits=[(UT, '''            value += max_value
            if value < max_value // 2:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):''', '''            value += max_value
            if value < 0:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):''')],
      demo='''
from necroassembler.utils import pack_bits
from necroassembler.exceptions import AssemblerException
assert pack_bits(0, ((4, 0), -16)) == 16
try:
    pack_bits(0, ((4, 0), -17))
except AssemblerException:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='C18-none-le64', property='C18', needs='a missing argument of pack_le64u next to a present one', breaks='a missing argument of the 64 bit helper is dropped instead of packed as zero',
      edits=[(UT, '''    return struct.pack('<' + ('Q' * len(args)),
                       *[n & 0xffffffffffffffff if n is not None else 0 for n in args])''', '''    args = [n for n in args if n is not None] or [0]
    return struct.pack('<' + ('Q' * len(args)),
                       *[n & 0xffffffffffffffff for n in args])''')],
      demo='''
from necroassembler.utils import pack_le64u
assert pack_le64u(None) == bytes(8) and pack_le64u(1, None) == b'\\1' + bytes(15)
'''),
]
