SEEDS = [
 dict(id='C20-zp-boundary', property='C20', needs='a zero page capable instruction with operand 0xff',
      breaks='address 0xff is encoded as an absolute address', edits=[('cpu/mos6502.py', 'return 0 <= address <= 0xff', 'return 0 <= address < 0xff')],
      demo='''
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as X
assert asm(X, 'LDA $ff') == b'\\xa5\\xff'
'''),
 dict(id='C20-forward-abs-y', property='C20', needs='absolute,Y addressing with a forward label',
      breaks='STX/LDX zero page,Y like modes with a label above the zero page lose the high byte',
      edits=[('cpu/mos6502.py', '''        # normal labeling (postpone to linking phase)
        if absolute is None:
            raise AbsoluteAddressNotAllowed()
        self.add_label_translation(label=arg, size=2, offset=1, bits_size=16)
''', '''        # normal labeling (postpone to linking phase)
        if absolute is None:
            return pack_byte(zero_page, address)
        self.add_label_translation(label=arg, size=2, offset=1, bits_size=16)
''')],
      demo='''
from necroassembler.cpu.mos6502 import AssemblerMOS6502 as X
assert refused(asm, X, '.org $300\\nlab: STX lab, Y')
'''),
 dict(id='C21-ind-value-reg16', property='C21', needs='LD (address),SP with square brackets and a label',
      breaks='storing SP at a label emits the address in 8 bits',
      edits=[('cpu/lr35902.py', """                value, reg16 = instr.apply(
                    None, self._data16, None, self._reg_name)
                return pack_byte(kwargs['ind_a16_' + reg16]) + value
""", """                value, reg16 = instr.apply(
                    None, self._data16 if instr.tokens[1] == '(' else self._data8, None, self._reg_name)
                return (pack_byte(kwargs['ind_a16_' + reg16]) + value).ljust(3, b'\\0')
""")],
      demo='''
from necroassembler.cpu.lr35902 import AssemblerLR35902 as X
assert asm(X, 'LD [lab], SP\\n.org $1234\\nlab:') == b'\\x08\\x34\\x12'
'''),
 dict(id='C21-rel8-base', property='C21', needs='a relative jump to a label whose distance is at the end of the range',
      breaks='SP relative offsets given by a label are computed from the wrong start',
      edits=[('cpu/lr35902.py', """                                            size=1,
                                            relative=self.pc + 2)
        return pack_8s(value)
""", """                                            size=1,
                                            relative=(self.pc + 2) & 0xffff)
        return pack_8s(value)
""")],
      demo='''
from necroassembler.cpu.lr35902 import AssemblerLR35902 as X
assert asm(X, '.org $1fffe\\nlab: JR lab') == b'\\x18\\xfe'
'''),
 dict(id='C21-bit-number', property='C21', needs='a bit number written with a leading zero or above 7',
      breaks='BIT accepts bit numbers above 7 modulo 8', edits=[('cpu/lr35902.py', """                value = instr.tokens[1]
                return pack_byte(0xCB, kwargs['b' + value + '_ind_hl'])
""", """                value = str(int(instr.tokens[1]) & 7)
                return pack_byte(0xCB, kwargs['b' + value + '_ind_hl'])
""")],
      demo='''
from necroassembler.cpu.lr35902 import AssemblerLR35902 as X
assert refused(asm, X, 'SET 9, (HL)')
'''),
]
