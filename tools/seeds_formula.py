SEEDS = [
 dict(id='C40-known-zero-page', property='C40', needs='a label below 256 defined before the instruction, used with a formula on the 6502',
      breaks='zero page operands of known labels lose their formula',
      edits=[('cpu/mos6502.py', '        address = self.get_label_absolute_address_by_name(arg)\n        if address is None:',
              '        address = self.get_label_absolute_address_by_name(self._get_math_formula(arg)[0])\n        if address is None:')],
      demo='''
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as X
assert asm(X, '.org $10\\nzp:\\n.org $1000\\nLDA zp+1\\n')[-2:] == b'\\xa5\\x11'
'''),
 dict(id='C40-relative-formula', property='C40', needs='a relative branch to a label plus a distance',
      breaks='relative branches ignore what is added to their label',
      edits=[('assembler.py', '        return self.apply_math_formula(pre_formula, post_formula, self.get_label_relative_address(self.labels[name], start))',
              '        return self.apply_math_formula(pre_formula, \'\', self.get_label_relative_address(self.labels[name], start))')],
      demo='''
from necroassembler.cpu.z80 import AssemblerZ80 as X
assert asm(X, 'x:\\nNOP\\nJR x+1\\n') == b'\\x00\\x18\\xfe'
'''),
 dict(id='C40-range-before-formula', property='C40', needs='a formula whose result does not fit although its first number does',
      breaks='the range of a literal is checked before its formula: results that do not fit are truncated',
      edits=[('assembler.py', '        value = self.apply_math_formula(pre_formula, post_formula, value)\n\n        # check for invalid combos', '        number = value\n        # check for invalid combos'),
             ('assembler.py', '            raise NegativeSignNotAllowed()\n        # fix negative values', '            raise NegativeSignNotAllowed()\n        if post_formula or pre_formula:\n            value = self.apply_math_formula(pre_formula, post_formula, value)\n            if value >= 0 and in_bit_range(number, number_of_bits):\n                return value\n        # fix negative values')],
      demo='''
from necroassembler.cpu.lr35902 import AssemblerLR35902 as X
assert refused(asm, X, 'LD A, 250+10\\n')
'''),
 dict(id='C40-formula-argument-width', property='C40', needs='a distance above 65535 in an operand of 32 bits',
      breaks='formula arguments of more than sixteen bits are refused',
      edits=[('assembler.py', 'arg_value = self.parse_integer(arg, 64, False)', 'arg_value = self.parse_integer(arg, 16, False)')],
      demo='''
from necroassembler.cpu.mc68000 import AssemblerMC68000 as X
assert asm(X, 'x:\\nmove.l #x+70000, d0\\n') == bytes.fromhex('203c00011170')
'''),
 dict(id='C40-known-byte', property='C40', needs='< or > applied to a label inside an instruction, the label defined later',
      breaks='the linker shifts the byte selected by > once too often for labels of several bytes',
      edits=[('assembler.py', '            if op == \'>\':\n                value >>= 8', '            if op == \'>\':\n                value = (value >> 8) & 0xffff')],
      demo='''
from necroassembler.cpu.mc68000 import AssemblerMC68000 as X
assert asm(X, 'move.l #>lab, d0\\n.org $12345678\\nlab:\\n') == bytes.fromhex('203c00123456')
'''),
]
