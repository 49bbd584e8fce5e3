'''planted bugs of the x86 assembler'''
F = 'cpu/x86.py'
X = 'from necroassembler.cpu.x86 import AssemblerX86 as A\n'
SEEDS = [
 dict(id='C28-cmpxchg-order', property='C28', needs='CMPXCHG of two different registers', breaks='the source and the destination of CMPXCHG are exchanged',
      edits=[(F, "(0xfb1, 'CMPXCHG', _Evqp, _Gvqp)", "(0xfb1, 'CMPXCHG', _Gvqp, _Evqp)")],
      demo=X + "assert asm(A, 'CMPXCHG EBX, ECX') == b'\\x0f\\xb1\\xcb'\n"),
 dict(id='C28-alias', property='C28', needs='the alias CMOVNGE', breaks='CMOVNGE moves on the opposite condition',
      edits=[(F, "(0xf4c, 'CMOVNGE'", "(0xf4d, 'CMOVNGE'")],
      demo=X + "assert asm(A, 'CMOVNGE EBX, ECX') == b'\\x0f\\x4c\\xd9'\n"),
 dict(id='C28-imm64', property='C28', needs='a 64 bit move of a constant over 32 bits', breaks='64 bit constants over 32 bits are refused',
      edits=[(F, "instr.tokens[index], size=8, bits_size=64, offset=len(base)))\n\n\ndef _Iw", "instr.tokens[index], size=8, bits_size=32, offset=len(base)))\n\n\ndef _Iw")],
      demo=X + "assert asm(A, 'MOV RCX, 0x123456789') == bytes.fromhex('48b98967452301000000')\n"),
 dict(id='C28-near-16', property='C28', needs='a conditional jump to a label in 16 bit mode', breaks='16 bit distances are counted from the second last byte of a conditional jump',
      edits=[(F, "relative=assembler.pc + len(base) + 2,", "relative=assembler.pc + 3,")],
      demo=X + "assert asm(A, '.bits 16\\nJZ there\\nNOP\\nthere:\\nNOP') == bytes.fromhex('0f8401009090')\n"),
 dict(id='C28-bswap', property='C28', needs='BSWAP of another register than EAX', breaks='the register number goes in the first byte of a two byte opcode',
      edits=[(F, "base[-1] |= value", "base[0] |= value")],
      demo=X + "assert asm(A, 'BSWAP ESI') == b'\\x0f\\xce'\n"),
 dict(id='C28-cr', property='C28', needs='CR4', breaks='CR4 and CR5 are exchanged',
      edits=[(F, "'CR4', 'CR5'", "'CR5', 'CR4'")],
      demo=X + "assert asm(A, '.bits 32\\nMOV CR4, EAX') == b'\\x0f\\x22\\xe0'\n"),
 dict(id='C28-sbb-acc', property='C28', needs='SBB of the accumulator and a number', breaks='SBB EAX, n is encoded as ADC',
      edits=[(F, "(0x1d, 'SBB', _rAX", "(0x15, 'SBB', _rAX")],
      demo=X + "assert asm(A, 'SBB EAX, 5') == bytes.fromhex('1d05000000')\n"),
 dict(id='C28-imm-truncated', property='C28', needs='a 32 bit move of a constant that does not fit', breaks='MOV to a 32 bit register drops the upper bits of its constant',
      edits=[(F, "instr.tokens[index], size=4, bits_size=32, offset=len(base)))\n            if modrm['bits'] == 64:", "instr.tokens[index], size=4, bits_size=64, offset=len(base)))\n            if modrm['bits'] == 64:")],
      demo=X + "assert asm(A, 'MOV ECX, 0x12345678') == bytes.fromhex('b978563412')\nassert refused(asm, A, 'MOV ECX, 0x123456789')\n"),
 dict(id='C28-repz', property='C28', needs='REPZ or REPNZ', breaks='two of the repeat prefixes are refused in front of an instruction',
      edits=[(F, "if instr.tokens[0].upper().startswith('REP'):", "if instr.tokens[0].upper() in ('REP', 'REPE', 'REPNE'):")],
      demo=X + "assert asm(A, 'REPE CMPSB') == b'\\xf3\\xa6'\nassert asm(A, 'REPNZ SCASB') == b'\\xf2\\xae'\n"),
 dict(id='C28-bits-spelling', property='C28', needs='a mode switch back to 64 bits', breaks='.bits 64 behind another mode keeps that mode',
      edits=[(F, "        self.bits = value\n", "        self.bits = min(self.bits, value)\n")],
      demo=X + "assert asm(A, '.bits 16\\nADD EAX, EBX\\n.bits 64\\nADD EAX, EBX') == bytes.fromhex('6601d801d8')\n"),
 dict(id='C28-reg-last', property='C28', needs='memory or a register as first and a 16 bit register as second operand', breaks='a 16 bit register as second operand is not written',
      edits=[(F, "        modrm['reg'] = REGS16.index(reg)\n", "        modrm.setdefault('reg', REGS16.index(reg) & 3)\n")],
      demo=X + "assert asm(A, '.bits 16\\nADD AX, SI') == b'\\x01\\xf0'\n"),
 dict(id='C15-bits-leak', property='C15', needs='an x86 program with .bits before another x86 program', breaks='.bits changes the default mode of every later assembler',
      edits=[(F, "        self.bits = value\n", "        type(self).bits = value\n")],
      demo=X + "assert asm(A, '.bits 16\\nADD EAX, EBX') == bytes.fromhex('6601d8')\nassert asm(A, 'ADD EAX, EBX') == bytes.fromhex('01d8')\n"),
]
