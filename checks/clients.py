'''Client programs of the library analysed together with it: assemblers as a user would declare them.'''

CORE = '''
from necroassembler import Assembler, opcode, directive
from necroassembler.utils import pack_byte, pack_bits, pack_le16u, pack_be16u, pack_le32u, pack_be32u


class _Base(Assembler):
    hex_prefixes = ('0x', '$')
    hex_suffixes = ('h',)
    bin_prefixes = ('0b', '%')
    bin_suffixes = ('y',)
    oct_prefixes = ('0o',)
    oct_suffixes = ('q',)
    dec_prefixes = ('0t',)
    dec_suffixes = ('d',)
    fill_value = 0x5a

    def register_instructions(self):
        self.register_instruction('NOP', b'\\x90')
        self.register_instruction('RET2', b'\\xc3\\xc4')

    @opcode('LOAD8')
    def _load8(self, instr):
        return b'\\x18' + pack_byte(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1))

    @opcode('BYTES')
    def _bytes(self, instr):
        blob = b'\\xe0'
        for token in instr.tokens[1:]:
            blob += pack_byte(self.parse_integer(token, 8, False))
        return blob

    def _word(self, value):
        return pack_be16u(value) if self.big_endian else pack_le16u(value)

    @opcode('REL8')
    def _rel8(self, instr):
        return b'\x70' + pack_byte(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1,
                                                              relative=self.pc + 2))

    @opcode('REL12')
    def _rel12(self, instr):
        value = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=13, alignment=2, bits=(11, 0),
                                            filter=lambda x: x >> 1, relative=self.pc + 4)
        return self._word(pack_bits(0xa000, ((11, 0), value >> 1)))

    @opcode('ABS24')
    def _abs24(self, instr):
        value = self.parse_integer_or_label(label=instr.tokens[1], size=3, bits_size=24, offset=1)
        blob = pack_be32u(value)[1:] if self.big_endian else pack_le32u(value)[:3]
        return b'\x71' + blob

    @opcode('FIELD')
    def _field(self, instr):
        value = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=5, bits=(9, 5))
        return self._word(pack_bits(0x8001, ((9, 5), value)))

    @opcode('ALIGNED')
    def _aligned(self, instr):
        value = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, alignment=8)
        return self._word(value)

    @opcode('HI')
    def _hi(self, instr):
        value = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=32, filter=lambda x: x >> 16)
        return self._word(value >> 16)

    @opcode('TWO')
    def _two(self, instr):
        one = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1)
        two = self.parse_integer_or_label(label=instr.tokens[2], size=2, bits_size=16, offset=2)
        return b'\x72' + pack_byte(one) + self._word(two)

    @opcode('NONE')
    def _none(self, instr):
        return None

    @opcode('CRASH')
    def _crash(self, instr):
        return instr.tokens[99]


class LE(_Base):
    big_endian = False


class BE(_Base):
    big_endian = True


class CS(_Base):
    case_sensitive = True


class Zero(Assembler):
    hex_prefixes = ('0x',)
'''


def gen_params():
    """every combination of the parameters of the reference API"""
    out = []
    for size, widths in ((1, (8, 5)), (2, (16, 12)), (3, (24, 17)), (4, (32, 26)), (8, (64,))):
        for width in widths:
            for bits in (None, (width - 1, 0) if width == 8 * size else (width + 1, 2)):
                for alignment in (1, 4):
                    for offset in (0, 1, 3):
                        for shift in (0, 2):
                            for rel in (0, 2, 4, -1):
                                if rel and bits is None and width != 8 * size:
                                    continue        # sign bits outside the field: not specified
                                base = 0
                                for i in range(8 * size):
                                    lo, hi = (bits[1], bits[0]) if bits else (0, (width if not rel else 8 * size) - 1)
                                    if not lo <= i <= hi and i % 3 != 1:
                                        base |= 1 << i
                                out.append((size, width, bits, alignment, offset, shift, rel, base))
    return out


GEN = """
from necroassembler import Assembler


class _G(Assembler):
    hex_prefixes = ('0x',)
    fill_value = 0x5a

    def register_instructions(self):
        for index, params in enumerate(%r):
            self._one(index, *params)

    def _one(self, index, size, width, bits, alignment, offset, shift, rel, base):
        def logic(instr):
            start = 0 if rel == 0 else (self.pc + rel if rel > 0 else self.pc)
            fn = None if shift == 0 else (lambda x: x >> shift)
            self.parse_integer_or_label(label=instr.tokens[1], size=size, bits_size=width, relative=start, offset=offset,
                                        alignment=alignment, bits=bits, filter=fn)
            return b'\\xee' * offset + base.to_bytes(size, 'big' if self.big_endian else 'little') + b'\\xdd'
        self.register_instruction('G%%d' %% index, logic)


class LE(_G):
    pass


class BE(_G):
    big_endian = True
""" % gen_params()

ECHO = '''
from necroassembler import Assembler, opcode


class Echo(Assembler):
    fill_value = 0x5a

    @opcode('ECHO')
    def _echo(self, instr):
        blob = b''
        for token in instr.tokens[1:]:
            blob += token.encode('ascii') + b'\\n'
        return blob
'''

SOURCES = {'core': CORE, 'gen': GEN, 'echo': ECHO}
