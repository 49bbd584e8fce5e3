'''planted bugs: what every processor class has to read (C19), names of the consoles (C36), defines (C13)'''
from tools.seeds_core import C
ASM, ST, UT = 'assembler.py', 'statements.py', 'utils.py'


def imp(*names):
    return ''.join('\nfrom necroassembler.%s import %s' % n for n in names) + '\n'


Z80, MIPS, PSX, M68, X86, I86, TH, PPC = (('cpu.z80', 'AssemblerZ80'), ('cpu.mips32', 'AssemblerMIPS32'), ('platforms.psx', 'AssemberPSX'), ('cpu.mc68000', 'AssemblerMC68000'),
                                         ('cpu.x86', 'AssemblerX86'), ('cpu.intel8086', 'AssemblerIntel8086'), ('cpu.thumb', 'AssemblerThumb'), ('cpu.powerpc', 'AssemblerPowerPC'))
GB, NES, SMS = ('platforms.gameboy', 'AssemblerGameboy'), ('platforms.nes', 'AssemblerNES'), ('platforms.sms', 'AssemblerSegaMasterSystem')
SEEDS = [
 dict(id='C19-x86-octal', property='C19', needs='an octal number with a q in the x86 assembler', breaks='x86 octal numbers ending in q are taken for labels',
      edits=[('cpu/x86.py', "oct_suffixes = ('o', 'q')", "oct_suffixes = ('o',)")],
      demo=imp(X86) + "\nassert asm(AssemblerX86, '.db 17q 17o') == bytes((15, 15))\n"),
 dict(id='C19-thumb-binary', property='C19', needs='a binary number spelled 0y in ARM Thumb', breaks='0y numbers are taken for labels',
      edits=[('cpu/thumb.py', "bin_prefixes = ('0b', '0y')", "bin_prefixes = ('0b',)")],
      demo=imp(TH) + "\nassert asm(AssemblerThumb, '.db 0y101 0b11') == bytes((5, 3))\n"),
 dict(id='C19-ppc-order', property='C19', needs='.dw or .dd data in a PowerPC program (instructions are packed by their own code)', breaks='PowerPC data is little endian',
      edits=[('cpu/powerpc.py', "    big_endian = True\n\n    hex_prefixes", "    hex_prefixes")],
      demo=imp(PPC) + "\nassert asm(AssemblerPowerPC, '.dw 0x1234\\n.dd 1') == b'\\x12\\x34\\0\\0\\0\\1'\n"),
 dict(id='C19-psx-instructions', property='C19', needs='an instruction in a PlayStation program', breaks='instructions of little endian MIPS assemblers are stored big endian',
      edits=[('platforms/psx.py', "class AssemberPSX(AssemblerMIPS32):\n\n    big_endian = False", "class AssemberPSX(AssemblerMIPS32):\n\n    def pre_link(self):\n        self.big_endian = False")],
      demo=imp(PSX) + "\nassert asm(AssemberPSX, 'ori $t0, $t0, 5') == b'\\x05\\0\\x08\\x35'\n"),
 dict(id='C19-suffix-letters', property='C19', needs='a suffixed hexadecimal number that starts with a digit and has a letter behind (0FFh, 1Ah)',
      breaks='hexadecimal numbers with a suffix may only have decimal digits',
      edits=[(ASM, "        for suffix in self.hex_suffixes:\n            if token.endswith(suffix):\n", "        for suffix in self.hex_suffixes:\n            if token.endswith(suffix) and token[:-len(suffix)].isdigit():\n")],
      demo=imp(I86, X86) + "\nassert asm(AssemblerIntel8086, '.db 10h 0FFh 1Ah') == bytes((16, 255, 26))\n"),
 dict(id='C19-suffix-order', property='C19', needs='a hexadecimal number with the prefix 0x that ends in b or d (0x1d, 0x2b)',
      breaks='suffixes are tried before prefixes, so 0x11b is refused and 0b1b and 0d5d change',
      edits=[(ASM, "        for prefix in self.hex_prefixes:\n            if token.startswith(prefix):\n", "        for prefix in self.hex_prefixes:\n            if token.startswith(prefix) and token[-1] not in self.dec_suffixes:\n")],
      demo=imp(I86) + "\nassert asm(AssemblerIntel8086, '.db 0x1d 0x0D 0x1c') == bytes((29, 13, 28))\n"),
 dict(id='C15-shared-defines', property='C15', needs='a define in a console program, and a second assembler of the class', breaks='defines end up in the class and are seen by the next program',
      edits=[(ASM, "        self.defines = self.defines.copy()\n", "        self.defines = self.defines or {}\n")],
      demo=imp(NES) + "\nassert asm(AssemblerNES, '.define ABC 5\\n.db ABC') == b'\\5'\nassert asm(AssemblerNES, 'ABC:\\n.db ABC') == b'\\0'\n"),
 # --- console registers
 dict(id='C36-nes-oamdma', property='C36', needs='OAMDATA or OAMADDR', breaks='the two sprite memory registers of the NES are exchanged',
      edits=[('platforms/nes.py', "'OAMADDR': '$2003',\n        'OAMDATA': '$2004',", "'OAMDATA': '$2003',\n        'OAMADDR': '$2004',")],
      demo=imp(NES) + "\nassert asm(AssemblerNES, 'STA OAMADDR') == b'\\x8d\\3\\x20'\n"),
 dict(id='C36-gb-wy', property='C36', needs='the window position WX of the Game Boy', breaks='WX is $FF48',
      edits=[('platforms/gameboy.py', "'WX': '$FF4B'", "'WX': '$FF48'")],
      demo=imp(GB) + "\nassert asm(AssemblerGameboy, '.fill 336\\nLD HL, WX')[336:] == b'\\x21\\x4b\\xff'\n"),
 dict(id='C36-define-prefix', property='C36', needs='a register name with a formula behind (VRAM+32)', breaks='a define at the start of a formula is replaced only when the formula has one character behind it',
      edits=[(UT, "    for i in range(start, len(tokens)):\n        name = tokens[i]\n", "    for i in range(start, len(tokens)):\n        name = tokens[i]\n        if name[-1:].isdigit() and '+' in name:\n            continue\n")],
      demo=imp(GB) + "\nassert asm(AssemblerGameboy, '.fill 336\\n.dw VRAM+32')[336:] == b'\\x20\\x80'\n"),
 dict(id='C36-sms-upper', property='C36', needs='a label in lower case that is a register name of the Master System (ram, psg)', breaks='register names are also replaced in lower case',
      edits=[('platforms/sms.py', "        'RAM': '$C000',\n", "        'RAM': '$C000',\n        'ram': '$C000',\n")],
      demo=imp(SMS) + "\nassert asm(AssemblerSegaMasterSystem, '.db 1\\nram:\\n.dw ram') == b'\\1\\1\\0'\n"),
]
