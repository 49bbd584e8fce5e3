Z = 'cpu/z80.py'
I = 'cpu/intel8086.py'
ZX = 'from necroassembler.cpu.z80 import AssemblerZ80 as X\n'
IX = 'from necroassembler.cpu.intel8086 import AssemblerIntel8086 as X\n'
SEEDS = [
 dict(id='C22-index-label-offset', property='C22', needs='an indexed operand whose displacement is a label',
      breaks='the displacement of an indexed operand given by a label lands in the byte before',
      edits=[(Z, '''            arg = value[2:]
        return pack_8s(self.assembler.parse_integer_or_label(
            label=arg,
            size=1,
            bits_size=8,
            offset=len(base),''', '''            arg = value[2:]
        return pack_8s(self.assembler.parse_integer_or_label(
            label=arg,
            size=1,
            bits_size=8,
            offset=len(base) - (len(base) > 1 and base[1] == 0xcb),''')],
      demo=ZX + '''
assert asm(X, 'BIT 3, (IX+lab)\\n.org 5\\nlab:') == bytes((0xdd, 0xcb, 5, 0x5e, 0))[:4] + b''
'''),
 dict(id='C22-set-l-typo', property='C22', needs='RES 5,L or its neighbour', breaks='one row of the opcode table has the wrong number',
      edits=[(Z, "    ([0xCBAD], 'RES', '5', 'L'),", "    ([0xCBAF], 'RES', '5', 'L'),")],
      demo=ZX + '''
assert asm(X, 'RES 5, L') == bytes((0xcb, 0xad))
'''),
 dict(id='C22-minus-sign', property='C22', needs='a negative displacement with a label or the value 128',
      breaks='IX-128 is refused', edits=[(Z, '''        elif value[2] == '-':
            arg = value[2:]
''', '''        elif value[2] == '-':
            arg = value[2:]
            if self.assembler.parse_integer(value[3:], 8, True) is None:
                return None
''')],
      demo=ZX + '''
assert asm(X, 'LD B, (IX-128)') == bytes((0xdd, 0x46, 0x80))
'''),
 dict(id='C22-value-index-half', property='C22', needs='LD of an index register half', breaks='LD B,IXH assembles as a load of the address of a label named IXH',
      edits=[(Z, """         'I', 'R', 'IXH', 'IXL', 'IYH', 'IYL')""", """         'I', 'R', 'IXL', 'IYL')""")],
      demo=ZX + '''
assert refused(asm, X, 'OUT (IXH), A\\n.org 7\\nIXH:')
'''),
 dict(id='C22-relative-prefix', property='C22', needs='DJNZ or JR to a label at the end of the range', breaks='the relative start of JR is the instruction itself when a condition is given',
      edits=[(Z, '''            relative=self.assembler.pc + len(base) + 1
''', '''            relative=self.assembler.pc + len(base) + (base[0] != 0x38)
''')],
      demo=ZX + '''
assert asm(X, 'JR C, lab\\nNOP\\nlab:') == bytes((0x38, 1, 0))
'''),
 dict(id='C23-es-ds-swap', property='C23', needs='a move from or to DS or SS', breaks='the segment register numbers of SS and DS are exchanged',
      edits=[(I, "SEGMENTS = ('ES', 'CS', 'SS', 'DS')", "SEGMENTS = ('ES', 'CS', 'DS', 'SS')")],
      demo=IX + '''
assert asm(X, 'MOV SS, AX') == bytes((0x8e, 0xd0))
'''),
 dict(id='C23-disp-sign', property='C23', needs='a displacement below -128', breaks='a displacement is limited to eight bits',
      edits=[(I, '''            modrm['displacement'].lstrip('+'),
            size=2,
            bits_size=16,''', '''            modrm['displacement'].lstrip('+'),
            size=2,
            bits_size=15,''')],
      demo=IX + '''
assert asm(X, 'MOV [BX - 32768], CX') == bytes((0x89, 0x8f, 0, 0x80))
'''),
 dict(id='C23-imm8-into-16', property='C23', needs='OUT imm8 with AX and a label', breaks='the port number of a word output is resolved in the wrong byte',
      edits=[(I, """    (0xE7, 'OUT', _Ib, _eAX),""", """    (0xE7, 'OUT', _Iv, _eAX),""")],
      demo=IX + '''
assert asm(X, 'OUT 5, AX') == bytes((0xe7, 5))
'''),
 dict(id='C23-mod-bpdi', property='C23', needs='the BP+DI base with a displacement', breaks='[BP + DI + n] is encoded as [BP + SI + n]',
      edits=[(I, '''    if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
        return 0b10, 0b011, 5''', '''    if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
        return 0b10, 0b010, 5''')],
      demo=IX + '''
assert asm(X, 'ADD AL, [BP + DI + 1]') == bytes((2, 0x83, 1, 0))
'''),
 dict(id='C23-rel-range', property='C23', needs='a conditional jump to a label 128 bytes ahead', breaks='short jumps accept a distance of 128 and jump backwards',
      edits=[(I, '''                size=1,
                bits_size=8,
                offset=1,
                relative=assembler.pc+2))''', '''                size=1,
                bits_size=9,
                offset=1,
                relative=assembler.pc+2))''')],
      demo=IX + '''
assert refused(asm, X, 'JZ lab\\n.fill 128\\nlab:')
'''),
]
K = 'cpu/mc68000.py'
KX = 'from necroassembler.cpu.mc68000 import AssemblerMC68000 as X\n'
SEEDS += [
 dict(id='C24-dst-extension-offset', property='C24', needs='a long immediate source and a label in the destination', breaks='the label of the destination is resolved two bytes early after a long immediate',
      edits=[(K, '''        _, dst_m, dst_xn, dst_data = self._last_mode(
            instr, next_index, len(src_data), op_size,''', '''        _, dst_m, dst_xn, dst_data = self._last_mode(
            instr, next_index, min(len(src_data), 2), op_size,''')],
      demo=KX + '''
assert asm(X, 'move.l #5, lab\\n.org $1234\\nlab:') == bytes((0x23, 0xfc, 0, 0, 0, 5, 0, 0, 0x12, 0x34))
'''),
 dict(id='C24-pc-index-base', property='C24', needs='a PC relative indexed operand given by a label', breaks='the distance is counted from the instruction instead of the extension word',
      edits=[(K, '''                                                size=2,
                                                bits_size=8,
                                                bits=(7, 0),
                                                relative=self.pc+2+offset,''', '''                                                size=2,
                                                bits_size=8,
                                                bits=(7, 0),
                                                relative=self.pc+offset,''')],
      demo=KX + '''
assert asm(X, 'movea (lab, PC, d0), a1\\nlab:')[-1] == 2
'''),
 dict(id='C24-index-word', property='C24', needs='an index register with an explicit word size', breaks='an explicit word index is encoded as a long index',
      edits=[(K, '''    if token.lower().endswith('.w'):
        return d_or_a, _reg(token[0:-2]), 0
    if''', '''    if token.lower().endswith('.w'):
        return d_or_a, _reg(token[0:-2]), 1
    if''')],
      demo=KX + '''
assert asm(X, 'move #17, (17, a0, a1.w)') == bytes((0x31, 0xbc, 0, 17, 0x90, 0x11))
'''),
 dict(id='C24-cmpi-mode', property='C24', needs='CMPI with a postincrement destination', breaks='a compare with (An)+ encodes -(An)',
      edits=[(K, '''        if found and '(An)+' not in blacklist:
            return index, 3, _reg''', '''        if found and '(An)+' not in blacklist:
            return index, 3 + ('CMPI' in instr.tokens[0].upper()), _reg''')],
      demo=KX + '''
assert asm(X, 'cmpi #1, (a2)+') == bytes((0x0c, 0x5a, 0, 1))
'''),
 dict(id='C24-db-high-reg', property='C24', needs='a DBcc on a label with an odd address', breaks='the alignment of a loop target is not checked',
      edits=[(K, '''            value = self.parse_integer_or_label(instr.tokens[2],
                                                size=2,
                                                bits_size=16,
                                                alignment=2,  # here is safe to check for alignment
''', '''            value = self.parse_integer_or_label(instr.tokens[2],
                                                size=2,
                                                bits_size=16,
''')],
      demo=KX + '''
assert refused(asm, X, 'dbra d0, lab\\n.org 7\\nlab:')
'''),
 dict(id='C24-lea-immediate', property='C24', needs='LEA or JSR with an immediate', breaks='LEA accepts an immediate operand the processor does not have',
      edits=[(K, '''            instr, 1, 0, 4, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
        if instr''', '''            instr, 1, 0, 4, blacklist=('Dn', 'An', '(An)+', '-(An)'))
        if instr''')],
      demo=KX + '''
assert refused(asm, X, 'lea #5, a0')
'''),
]
