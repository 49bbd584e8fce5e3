ASM = 'assembler.py'
C = '''
from necroassembler import Assembler, opcode
from necroassembler.utils import *
class X(Assembler):
    hex_prefixes = ('0x', '$')
    bin_prefixes = ('0b',)
    fill_value = 0x5a
    def register_instructions(self):
        self.register_instruction('NOP', b'\\x90')
    @opcode('L8')
    def _l8(self, instr):
        return b'\\x18' + pack_byte(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1))
    @opcode('R8')
    def _r8(self, instr):
        return b'\\x70' + pack_byte(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1, relative=self.pc + 2))
    @opcode('F5')
    def _f5(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=5, bits=(9, 5))
        return (pack_be16u if self.big_endian else pack_le16u)(pack_bits(0x8001, ((9, 5), v)))
class XB(X):
    big_endian = True
'''
SEEDS = [
 dict(id='C01-ram-in-section', property='C01', needs='a section with an explicit address opened after reserved memory in an unbounded origin',
      breaks='opening a section keeps the old position counter when no bytes were emitted since the origin, so labels are shifted by the reserved bytes',
      edits=[(ASM, '''        self.current_org_end = end
        self.org_counter = 0
''', '''        self.current_org_end = end
        if end > 0 or previous_org_end > 0 or self.assembled_bytes:
            self.org_counter = 0
''')],
      demo=C + '''
out = asm(X, '.ram 4\\n.org 0x100\\nlab: .dw lab')
assert out == b'\\x00\\x01', out
'''),
 dict(id='C01-incjson-counter', property='C01', needs='a label after .incjson whose array is empty or mixed with strings... any label after .incjson',
      breaks='the position is advanced by the number of integer items only, so labels after a JSON array that holds string numbers are too low',
      edits=[(ASM, '''                blob += bytes((item,))

        self.append_assembled_bytes(blob)
''', '''                    blob += bytes((item,))
                    continue
                self.append_assembled_bytes(blob + bytes((item,)))
                blob = b''

        self.assembled_bytes += blob
''')],
      demo=C + '''
import json
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.json')
json.dump({'k': [1, 2, '3']}, open(p, 'w'))
try:
    out = asm(X, '.incjson "%s" "k"\\nlab: .dw lab' % p)
finally:
    os.unlink(p); os.rmdir(d)
assert out == b'\\x01\\x02\\x03\\x03\\x00', out
'''),
 dict(id='C02-align-offset', property='C02', needs='an origin that is not a multiple of the alignment, or reserved memory',
      breaks='alignment is computed on the offset in the origin instead of the address',
      edits=[(ASM, 'mod = (self.current_org + self.org_counter) % size', 'mod = self.org_counter % size')],
      demo=C + '''
assert asm(X, '.org 0x102\\nnop\\n.align 4\\nlab: .dw lab') == b'\\x90\\x5a\\x04\\x01'
'''),
 dict(id='C02-fill-zero', property='C02', needs='an explicit fill value of zero with a nonzero default',
      breaks='an explicit fill value of zero is replaced by the default',
      edits=[(ASM, """        blob = bytes([value] * size)
        self.append""", """        blob = bytes([value or self.fill_value] * size)
        self.append""")],
      demo=C + '''
assert asm(X, '.fill 3 0') == bytes(3)
'''),
 dict(id='C03-region-boundary', property='C03', needs='a second origin exactly at the end address of a bounded region',
      breaks='a new origin at the last address of the previous region fills one byte too much and overlaps it',
      edits=[(ASM, 'if self.current_org > previous_org_end:', 'if self.current_org >= previous_org_end:')],
      demo=C + '''
out = asm(X, '.org 0x10 0x1f\\nnop\\n.org 0x1f\\nnop')
assert out == b'\\x90' + b'\\x5a' * 14 + b'\\x90', (len(out), out)
'''),
 dict(id='C03-overlap-equal', property='C03', needs='an origin inside a bounded region, behind the current position but not below the start of the region, after reserved memory only',
      breaks='the overlap check ignores reserved memory',
      edits=[(ASM, '''            if previous_org + previous_org_counter > self.current_org:
                raise AddressOverlap()
''', '''            if previous_org + min(previous_org_counter, len(self.assembled_bytes)) > self.current_org:
                raise AddressOverlap()
''')],
      demo=C + '''
assert refused(asm, X, '.org 0x10 0x1f\\n.ram 8\\n.org 0x14\\nnop')
'''),
 dict(id='C04-db-prefix-order', property='C04', needs='a word sized literal written with 17 bits in binary',
      breaks='a literal one bit too wide for a 16 bit field is truncated',
      edits=[('utils.py', "    max_value = pow(2, number_of_bits) - 1\n    return value & max_value == value", "    max_value = pow(2, number_of_bits) - 1\n    return value & max_value == value or (number_of_bits == 16 and value >> 16 == 1 and value & 0x8000 == 0x8000)")],
      demo=C + '''
assert refused(asm, X, '.dw 0x18000')
'''),
 dict(id='C05-resolve-add', property='C05', needs='a label shifted into a bit field next to opcode bits, big endian',
      breaks='resolution replaces the most significant byte instead of merging it',
      edits=[(ASM, 'self.assembled_bytes[address + ((size-1) - i)] |= value',
              'self.assembled_bytes[address + ((size-1) - i)] = value if size > 1 and data.bits is None else self.assembled_bytes[address + ((size-1) - i)] + (value if not self.assembled_bytes[address + ((size-1) - i)] & value else 0)')],
      demo=C + '''
class Y(XB):
    @opcode('F2')
    def _f2(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=12)
        return pack_be16u(0x8000 | v)
out = asm(Y, 'f2 lab\\n.org 0x123\\nlab:')
assert out == b'\\x81\\x23', out
'''),
 dict(id='C05-alignment-relative', property='C05', needs='a relative reference to a label that is not aligned',
      breaks='alignment of relative references is checked on the distance instead of the address',
      edits=[(ASM, 'if absolute_address % data.alignment != 0:', 'if (true_address if is_relative and data.filter is None else absolute_address) % data.alignment != 0:')],
      demo=C + '''
class Y(X):
    @opcode('RA')
    def _ra(self, instr):
        v = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, alignment=4, relative=self.pc + 2)
        return pack_byte(v)
assert asm(Y, '.org 0x101\\nra lab\\n.org 0x108\\nlab:') == b'\\x05'
'''),
 dict(id='C06-label-number', property='C06', needs='a label whose name is a number in the suffix notation of the assembler',
      breaks='labels that are numbers only with a suffix are accepted and shadowed by the number',
      edits=[('statements.py', '''        if assembler.parse_integer(key, 64, False) is not None:
            raise InvalidLabel(self)
''', '''        if not key[-1:].isalpha() and assembler.parse_integer(key, 64, False) is not None:
            raise InvalidLabel(self)
''')],
      demo=C + '''
class Y(X):
    hex_suffixes = ('h',)
assert refused(asm, Y, '10h:\\nnop') and refused(asm, Y, '0xab:\\nnop')
'''),
 dict(id='C06-dup-across-org', property='C06', needs='the same label in two origins',
      breaks='a label can be redefined under another origin',
      edits=[('statements.py', '        if key in assembler.labels:\n', '        if key in assembler.labels and assembler.labels[key]["org"] == assembler.current_org:\n')],
      demo=C + '''
assert refused(asm, X, 'foo: nop\\n.org 0x100\\nfoo: nop')
'''),
 dict(id='C07-subtract-first', property='C07', needs='a formula on a label with a subtraction after another operator',
      breaks='the operators are evaluated in another order when a multiplication follows an addition',
      edits=[(ASM, '''        for command, arg in ops:
            arg_value = 1
''', '''        for command, arg in sorted(ops, key=lambda op: op[0] in '+-'):
            arg_value = 1
''')],
      demo=C + '''
assert asm(X, '.dw lab+2*3\\n.org 0x10\\nlab:') == b'\\x36\\x00'
'''),
 dict(id='C07-second-byte', property='C07', needs='a double low-byte prefix (<<) on a value with a third byte',
      breaks='the second byte selected by << is taken from the wrong position',
      edits=[(ASM, '''                                  & 0xFF) << (8 * low_counter)
''', '''                                  & 0xFF) << (8 * min(low_counter, 2 - low_counter))
'''), ],
      demo=C + '''
assert asm(X, '.dd <<<lab\\n.org 0x12345678\\nlab:') == b'\\x78\\x56\\x34\\x00'
'''),
]
