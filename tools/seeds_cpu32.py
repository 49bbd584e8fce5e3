M = 'cpu/mips32.py'
MX = 'from necroassembler.cpu.mips32 import AssemblerMIPS32 as X\n'
T = 'cpu/thumb.py'
P = 'cpu/powerpc.py'
PX = 'from necroassembler.cpu.powerpc import AssemblerPowerPC as X\n'
TX = 'from necroassembler.cpu.thumb import AssemblerThumb as X\n'
SEEDS = [
 dict(id='C25-offset-unsigned', property='C25', needs='a load or store offset between 32768 and 65535', breaks='offsets that do not fit the signed field are accepted and become negative',
      edits=[(M, "value = self.parse_integer(token, 16, signed=True)", "value = self.parse_integer(token, 16, signed=False)")],
      demo=MX + "assert refused(asm, X, 'lw $1, 40000($2)')\nassert asm(X, 'lw $1, -4($2)') == bytes.fromhex('8c41fffc')\n"),
 dict(id='C25-llo-label', property='C25', needs='llo with a label whose address has bit 15 set', breaks='bit 15 of the address of a label is lost in llo',
      edits=[(M, "filter=lambda x: x & 0xFFFF) & 0xFFFF", "filter=lambda x: x & (0xFFFF if x >> 16 == 0xFFFF else 0x7FFF)) & 0xFFFF")],
      demo=MX + "assert asm(X, 'llo $1, lab\\n.org 0x12348004\\nlab:')[:4] == bytes.fromhex('60018004')\n"),
 dict(id='C25-variable-shift-order', property='C25', needs='a variable shift whose two sources differ', breaks='the shifted register and the shift amount are exchanged',
      edits=[(M, "rd, rt, rs = instr.apply(_reg, _reg, _reg)", "rd, rs, rt = instr.apply(_reg, _reg, _reg)")],
      demo=MX + "assert asm(X, 'sllv $1, $2, $3') == bytes.fromhex('00620804')\n"),
 dict(id='C25-jump-region', property='C25', needs='a jump to a label in the upper half of a 256 MB region', breaks='one bit of the address of a jump target is lost',
      edits=[(M, "x & 0x0fffffff) >> 2,", "x & (0x0fffffff if x < 0x10000000 else 0x07ffffff)) >> 2,")],
      demo=MX + "assert asm(X, '.org 0x18000000\\nj lab\\n.org 0x18000100\\nlab:')[:4] == bytes.fromhex('0a000040')\n"),
 dict(id='C25-kernel-registers', property='C25', needs='$k0 or $k1', breaks='two register names are exchanged',
      edits=[(M, "'$t8', '$t9', '$k0', '$k1', '$gp', '$sp',", "'$t8', '$t9', '$k1', '$k0', '$gp', '$sp',")],
      demo=MX + "assert asm(X, 'jr $k1') == bytes.fromhex('03600008')\n"),
 dict(id='C25-shift-label', property='C25', needs='a shift count given by a label', breaks='the shift count of a label lands one bit higher',
      edits=[(M, "label=token, bits_size=5, bits=(10, 6), size=4)", "label=token, bits_size=5, bits=(11, 7), size=4)")],
      demo=MX + "assert asm(X, '.org 3\\nlab:\\n.org 16\\nsll $1, $2, lab')[-4:] == bytes.fromhex('000208c0')\n"),
 dict(id='C25-hilo-move', property='C25', needs='mthi or mtlo with a register whose number matters', breaks='the source register of mthi and mtlo lands in the destination field',
      edits=[(M, """            rs, = instr.apply(_reg)
            return self._build_opcode(0, ((25, 21), rs), ((5, 0), func))

    def _no_args""", """            rs, = instr.apply(_reg)
            return self._build_opcode(0, ((15, 11), rs), ((5, 0), func))

    def _no_args""")],
      demo=MX + "assert asm(X, 'mthi $4') == bytes.fromhex('00800011')\n"),

 dict(id='C26-bl-low-half', property='C26', needs='BL to a label with bit 11 of the distance set', breaks='one bit of the low half of the distance is lost for labels',
      edits=[(T, "filter=lambda x: ((x >> 1) & 0x7FF))", "filter=lambda x: ((x >> 1) & (0x7FF if x >> 12 else 0x3FF)))")],
      demo=TX + "assert asm(X, 'BL lab\\n.org 0x804\\nlab:')[:4] == bytes.fromhex('00f000fc')\n"),
 dict(id='C26-fp-ip', property='C26', needs='fp or ip by name', breaks='two register aliases are exchanged',
      edits=[(T, "HIGH_REGS_ALIASES = ('fp', 'ip', 'sp', 'lr', 'pc')", "HIGH_REGS_ALIASES = ('ip', 'fp', 'sp', 'lr', 'pc')")],
      demo=TX + "assert asm(X, 'MOV r1, ip') == asm(X, 'MOV r1, r12')\n"),
 dict(id='C26-reversed-list', property='C26', needs='a register range that goes backward', breaks='a backward range in a register list is accepted and pushes nothing',
      edits=[(T, "                if first > last:\n                    raise InvalidRList()\n", "                if first > last + 7:\n                    raise InvalidRList()\n")],
      demo=TX + "assert refused(asm, X, 'PUSH {r5-r2}')\n"),
 dict(id='C26-cmp-high-low', property='C26', needs='CMP of a high with a low register', breaks='CMP hi,lo sets the bit of the wrong operand',
      edits=[(T, "return self._build_opcode(0b0100010110000000, ", "return self._build_opcode(0b0100010101000000, ")],
      demo=TX + "assert asm(X, 'CMP r9, r2') == bytes.fromhex('9145')\n"),
 dict(id='C26-bhi-range', property='C26', needs='a far conditional branch given as a number', breaks='a conditional branch loses the top bit of a numeric distance',
      edits=[(T, "return self._build_opcode(0b1101000000000000, ((11, 8), cond), ((7, 0), offset >> 1))", "return self._build_opcode(0b1101000000000000, ((11, 8), cond), ((7, 0), (offset >> 1) & 0x7f))")],
      demo=TX + "assert asm(X, 'BNE -4') == bytes.fromhex('fed1')\n"),
 dict(id='C26-swi-mask', property='C26', needs='SWI above 255', breaks='interrupt numbers that do not fit are truncated',
      edits=[(T, "((7, 0), int(instr.tokens[1])))", "((7, 0), int(instr.tokens[1]) & 0xff))")],
      demo=TX + "assert refused(asm, X, 'SWI 256')\n"),
 dict(id='C26-ldrb-offset-register', property='C26', needs='LDRB with an immediate offset', breaks='the base register of LDRB with an immediate is taken for the destination',
      edits=[(T, "return self._build_opcode(0b0111100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))", "return self._build_opcode(0b0111100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd if imm else rb))")],
      demo=TX + "assert asm(X, 'LDRB r3, [r1, #0]') == bytes.fromhex('0b78')\n"),

 dict(id='C27-compare-doubleword', property='C27', needs='cmpldi without a condition field', breaks='the 64 bit compare of a register is encoded as the 32 bit one',
      edits=[(P, '[0x28200000, "cmpldi",  [[16, 5, _greg],   [0, 16, _ui]]],', '[0x28000000, "cmpldi",  [[16, 5, _greg],   [0, 16, _ui]]],')],
      demo=PX + "assert asm(X, 'cmpldi r3, 7') == bytes.fromhex('28230007')\n"),
 dict(id='C27-hint-dropped', property='C27', needs='blr, bctr or sync with an operand', breaks='the operand of mnemonics that may have none is silently dropped',
      edits=[(P, "                if len(instr.tokens) == 1:", "                if len(instr.tokens) <= 2:")],
      demo=PX + "assert asm(X, 'sync 1') == bytes.fromhex('7c2004ac')\nassert asm(X, 'blr') == bytes.fromhex('4e800020')\n"),
 dict(id='C27-f31', property='C27', needs='the last floating point register', breaks='f31 does not exist',
      edits=[(P, "FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])", "FREGS = tuple(['f{0}'.format(n) for n in range(0, 31)])")],
      demo=PX + "assert asm(X, 'fmr f31, f1') == bytes.fromhex('ffe00890')\n"),
 dict(id='C27-sub-operands', property='C27', needs='subc. (the recording form)', breaks='the subtrahend and the minuend of subc. are exchanged',
      edits=[(P, '[0x7c000011, "subc.",   [[21, 5, _greg], [11, 5, _greg], [16, 5, _greg]]],', '[0x7c000011, "subc.",   [[21, 5, _greg], [16, 5, _greg], [11, 5, _greg]]],')],
      demo=PX + "assert asm(X, 'subc. r3, r4, r5') == bytes.fromhex('7c652011')\n"),
 dict(id='C27-li-label', property='C27', needs='li or addi with a label of 32768 or more', breaks='labels in signed immediates are taken modulo 32768',
      edits=[(P, "                                                bits=bits, signed=True)\n    return token.lower() not in GREGS+FREGS\n\n\ndef _hi", "                                                bits=bits, signed=True,\n                                                filter=lambda x: x % 32760 if x > 32767 else x)\n    return token.lower() not in GREGS+FREGS\n\n\ndef _hi")],
      demo=PX + "r = None\ntry:\n    r = asm(X, 'li r1, lab\\n.org 0x9000\\nlab:')[:4]\nexcept Exception:\n    pass\nassert r in (None, bytes.fromhex('38209000')), r\n"),
 dict(id='C27-fma-order', property='C27', needs='fnmsubs. with different factors and addend', breaks='the addend and the second factor are exchanged in one form',
      edits=[(P, """[0xec00003d, "fnmsubs.",
     [[21, 5, _freg], [16, 5, _freg], [6, 5, _freg], [11, 5, _freg]]],""", """[0xec00003d, "fnmsubs.",
     [[21, 5, _freg], [16, 5, _freg], [11, 5, _freg], [6, 5, _freg]]],""")],
      demo=PX + "assert asm(X, 'fnmsubs. f1, f2, f3, f4') == bytes.fromhex('ec2220fd')\n"),
]
