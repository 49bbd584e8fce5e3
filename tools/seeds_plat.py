PICTURE = '''
import types
class Pic:
    def __init__(self, mode, w, h, f):
        self.mode, self.size, self.f = mode, (w, h), f
    width = property(lambda s: s.size[0])
    height = property(lambda s: s.size[1])
    def getpixel(self, xy):
        return self.f(*xy)
def draw(mode, w, h, f):
    m = types.ModuleType('PIL')
    m.Image = types.ModuleType('PIL.Image')
    m.Image.open = lambda name: Pic(mode, w, h, f)
    sys.modules['PIL'], sys.modules['PIL.Image'] = m, m.Image
'''
ENTRY = '''
import importlib
def entry(module, text):
    d = tempfile.mkdtemp()
    os.chdir(d)
    open('in.S', 'w').write(text)
    sys.argv = ['x', 'in.S', 'out']
    importlib.import_module('necroassembler.platforms.' + module).main()
    return open('out', 'rb').read()
'''
GB = '''
from necroassembler.platforms.gameboy import AssemblerGameboy as X
'''
SEEDS = [
 # --- Game Boy header
 dict(id='C30-checksum-last', property='C30', needs='a nonzero version byte ($14C), which only data placed over the header gives',
      breaks='the header checksum leaves the version byte out',
      edits=[('platforms/gameboy.py', 'for i in range(0x134, 0x14d):\n            header_checksum = header_checksum - \\\n                int(self.assembled_bytes[i]) - 1',
              'for i in range(0x134, 0x14c):\n            header_checksum = header_checksum - \\\n                int(self.assembled_bytes[i]) - 1\n        header_checksum -= 1')],
      demo=GB + '''
b = asm(X, '.fill 332 0\\n.db 7\\n.fill 32 0\\n')
assert b[0x14d] == (-(sum(b[0x134:0x14d]) + 0x19)) & 255, b[0x14d]
'''),
 dict(id='C30-global-endian', property='C30', needs='an image whose bytes add up to more than 65535',
      breaks='the global checksum of large images saturates',
      edits=[('platforms/gameboy.py', '        self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF\n',
              '        self.assembled_bytes[0x14e] = min(global_checksum >> 8, 0xFF)\n')],
      demo=GB + '''
b = asm(X, '.fill 2048 255\\n')
s = sum(b) - b[0x14e] - b[0x14f]
assert (b[0x14e] << 8 | b[0x14f]) == s & 0xffff
'''),
 dict(id='C30-title-tail', property='C30', needs='a title set twice, the second shorter, or a title in several operands of full length',
      breaks='a title of sixteen characters loses its last one', edits=[('platforms/gameboy.py', '        for index, byte in enumerate(blob):\n            self.assembled_bytes[address + index] = byte',
              '        for index, byte in enumerate(blob[:15]):\n            self.assembled_bytes[address + index] = byte')],
      demo=GB + '''
b = asm(X, '.fill 256 0\\n.cartridge\\n.cartridge_title "ABCDEFGHIJKLMNOP"\\n')
assert b[0x134:0x144] == b'ABCDEFGHIJKLMNOP', b[0x134:0x144]
'''),
 dict(id='C30-license-size', property='C30', needs='a license of two characters followed by .cartridge_cgb, or a one byte field given two bytes',
      breaks='the destination code accepts two bytes and overwrites the old license code', edits=[('platforms/gameboy.py', 'self._cartridge_fill(instr, 0x14A, 1)', 'self._cartridge_fill(instr, 0x14A, 2)')],
      demo=GB + '''
assert refused(asm, X, '.fill 256 0\\n.cartridge\\n.cartridge_destination 1 2\\n')
'''),
 dict(id='C30-before-relocation', property='C30', needs='a label resolved by the linker behind the header',
      breaks='the checksums are computed before the labels are resolved',
      edits=[('platforms/gameboy.py', '    @post_link\n    def _fix(self):\n', '    @post_link\n    def _keep(self):\n        pass\n\n    def link(self, *args, **kwargs):\n        self._fix()\n        return super().link(*args, **kwargs)\n\n    def _fix(self):\n')],
      demo=GB + '''
b = asm(X, '.fill 256 0\\n.cartridge\\nJP far\\n.org $3456\\nfar:\\n')
s = sum(b) - b[0x14e] - b[0x14f]
assert (b[0x14e] << 8 | b[0x14f]) == s & 0xffff
'''),
 # --- NES
 dict(id='C31-late-header', property='C31', needs='.cartridge after exactly one region without bytes, or after data',
      breaks='a header behind up to fifteen bytes of data is accepted', edits=[('platforms/nes.py', 'if len(self.assembled_bytes) != 0:', 'if len(self.assembled_bytes) >= 16:')],
      demo='''
from necroassembler.platforms.nes import AssemblerNES as X
assert refused(asm, X, '.db 1 2 3\\n.cartridge\\n')
'''),
 dict(id='C31-ram-symbols', property='C31', needs='a label at the last address of the RAM',
      breaks='the RAM symbol file misses the label at $7FF', edits=[('platforms/nes.py', 'if 0x0000 <= address <= 0x7FF:', 'if 0x0000 <= address < 0x7FF:')],
      demo=ENTRY + '''
entry('nes', '.cartridge\\n.org $7ff\\nlast:\\n')
assert b'$07FF#last#' in open('out.ram.nl', 'rb').read()
'''),
 dict(id='C31-rom-symbols', property='C31', needs='a label below $8000 and above the RAM, or a label with an address of more than 16 bits',
      breaks='labels above $FFFF get a line in the ROM symbol file', edits=[('platforms/nes.py', 'if 0x8000 <= address <= 0xFFFF:', 'if 0x8000 <= address:')],
      demo=ENTRY + '''
entry('nes', '.cartridge\\n.org $18000\\nfar:\\n')
assert b'far' not in open('out.0.nl', 'rb').read()
'''),
 dict(id='C31-two-counts', property='C31', needs='two values given to a bank directive',
      breaks='a bank directive given two values overwrites the next byte of the header',
      edits=[('platforms/nes.py', '        if len(blob) > size:\n            raise InvalidArgumentsForDirective(instr)\n', '        if len(blob) > size + 1:\n            raise InvalidArgumentsForDirective(instr)\n')],
      demo='''
from necroassembler.platforms.nes import AssemblerNES as X
assert refused(asm, X, '.cartridge\\n.cartridge_prg_roms 1 2\\n')
'''),
 # --- images
 dict(id='C32-sms-plane', property='C32', needs='a picture with colours of 8 and more',
      breaks='the fourth plane of the Master System tiles repeats the third one for colours above 11',
      edits=[('platforms/sms.py', 'byte3 |= ((pixel_value >> 3) & 0x1) << (7 - x)', 'byte3 |= ((pixel_value >> 3) & (pixel_value >> 2) & 0x1 if pixel_value > 11 else pixel_value >> 3 & (x != 7 or y != 7)) << (7 - x)')],
      demo=PICTURE + '''
from necroassembler.platforms.sms import AssemblerSegaMasterSystem as X
draw('P', 8, 8, lambda x, y: 8)
assert asm(X, '.tiles "t"') == b'\\0\\0\\0\\xff' * 8
'''),
 dict(id='C32-tile-order', property='C32', needs='a picture that is neither one tile nor a square',
      breaks='tiles of a Game Boy picture come column by column when it is taller than wide',
      edits=[('platforms/gameboy.py', '''        for cell_y in range(0, height // 8):
            for cell_x in range(0, width // 8):
                blob = _convert_cell(image, cell_x, cell_y)
                self.append_assembled_bytes(blob)
''', '''        cells = [(x, y) for y in range(0, height // 8)
                 for x in range(0, width // 8)]
        for cell_x, cell_y in cells if width >= height else sorted(cells):
            blob = _convert_cell(image, cell_x, cell_y)
            self.append_assembled_bytes(blob)
''')],
      demo=PICTURE + '''
from necroassembler.platforms.gameboy import AssemblerGameboy as X
draw('P', 16, 24, lambda x, y: (x // 8 + 2 * (y // 8)) % 4)
b = asm(X, '.fill 336 0\\n.tiles "t"')[336:]
row = lambda c: (b'\\xff' if c & 1 else b'\\0') + (b'\\xff' if c & 2 else b'\\0')
assert b == b''.join(row(c) * 8 for c in (0, 1, 2, 3, 0, 1)), b
'''),
 dict(id='C32-nes-colour', property='C32', needs='a picture with a colour above 3 whose low bits are those of a valid colour',
      breaks='colours from 4 to 7 are accepted and bleed into the pixel to the left',
      edits=[('platforms/nes.py', 'if not 0 <= pixel_value <= 3:', 'if not 0 <= pixel_value <= 3 and pixel_value & 4 == 0:')],
      demo=PICTURE + '''
from necroassembler.platforms.nes import AssemblerNES as X
draw('P', 128, 128, lambda x, y: 5 if x == y == 127 else 0)
assert refused(asm, X, '.chr_pattern_table "t"')
'''),
 dict(id='C32-height', property='C32', needs='a picture whose width is a multiple of 8 and whose height is not',
      breaks='the last rows of such a picture are dropped', edits=[('platforms/sms.py', 'if (width % 8) != 0 or (height % 8) != 0:', 'if (width % 8) != 0 or (width % 8) != (height % 8) % 4:')],
      demo=PICTURE + '''
from necroassembler.platforms.sms import AssemblerSegaMasterSystem as X
draw('P', 8, 12, lambda x, y: 1)
assert refused(asm, X, '.tiles "t"')
'''),
 dict(id='C32-nes-rows', property='C32', needs='a picture with two colours that differ in the high bit of a pixel of the last row of a tile',
      breaks='the high plane of the last row of each tile is that of the row before',
      edits=[('platforms/nes.py', '            for byte in plane1:\n', '            plane1[7] = plane1[6] if plane0[7] == plane0[6] == 0xFF else plane1[7]\n            for byte in plane1:\n')],
      demo=PICTURE + '''
from necroassembler.platforms.nes import AssemblerNES as X
draw('P', 128, 128, lambda x, y: 1 if y % 8 < 7 else 3)
assert asm(X, '.chr_pattern_table "t"')[:16] == b'\\xff' * 8 + b'\\0' * 7 + b'\\xff'
'''),
 # --- Game Boy Advance, Mega Drive
 dict(id='C33-gba-version', property='C33', needs='a nonzero software version byte ($BC)',
      breaks='the complement check leaves the version byte out', edits=[('platforms/gba.py', 'range(0xA0, 0xBD)', 'range(0xA0, 0xBC)')],
      demo=ENTRY + '''
b = entry('gba', '.fill 188 0\\n.db 9 0 0 0\\n')
assert b[0xbd] == -(0x19 + sum(b[0xa0:0xbd])) & 255
'''),
 dict(id='C33-carry', property='C33', needs='a Mega Drive image whose words add up to more than 65535',
      breaks='the carry out of the sixteen bits is added to the high byte',
      edits=[('platforms/genesis.py', '    asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF\n', '    asm.assembled_bytes[0x18e] = (header_checksum // 256 + (header_checksum >> 16)) & 0xFF\n')],
      demo=ENTRY + '''
b = entry('genesis', '.fill 1024 255\\n')
s = sum((b[i] << 8) + b[i + 1] for i in range(0x200, len(b), 2))
assert (b[0x18e] << 8 | b[0x18f]) == s & 0xffff
'''),
 dict(id='C33-start', property='C33', needs='a nonzero word at $200',
      breaks='the Mega Drive checksum starts one word late', edits=[('platforms/genesis.py', 'for i in range(0x200, ', 'for i in range(0x202, ')],
      demo=ENTRY + '''
b = entry('genesis', '.fill 512 0\\n.db 18 52 0 1\\n')
assert b[0x18e:0x190] == b'\\x12\\x35'
'''),
 # --- PlayStation
 dict(id='C34-exact-page', property='C34', needs='a program of a multiple of 2048 bytes',
      breaks='such programs are followed by a whole empty page', edits=[('platforms/psx.py', '    if padding != 0:\n', '    if padding != 0 or len(asm.assembled_bytes):\n')],
      demo=ENTRY + '''
assert len(entry('psx', '.fill 2048 1\\n')) == 4096
'''),
 dict(id='C34-size-before', property='C34', needs='a program that needs padding',
      breaks='the size in the header is that of the program without the padding',
      edits=[('platforms/psx.py', '    padding = len(asm.assembled_bytes) % 2048\n', '    size = len(asm.assembled_bytes)\n    padding = size % 2048\n'),
             ('platforms/psx.py', 'pack_le32u(len(asm.assembled_bytes))', 'pack_le32u(size)')],
      demo=ENTRY + '''
b = entry('psx', '.fill 2049 1\\n')
assert b[0x1c:0x20] == b'\\0\\x10\\0\\0', b[0x1c:0x20]
'''),
 dict(id='C34-endian', property='C34', needs='a program with words',
      breaks='directives emit big endian words', edits=[('platforms/psx.py', 'class AssemberPSX(AssemblerMIPS32):\n\n    big_endian = False\n', "class AssemberPSX(AssemblerMIPS32):\n\n    big_endian = False\n\n    def append_assembled_bytes(self, blob):\n        super().append_assembled_bytes(blob[::-1] if len(blob) == 4 and blob[0] == 0 == self.org_counter else blob)\n")],
      demo=ENTRY + '''
assert entry('psx', '.dd 256\\n')[0x800:0x804] == b'\\0\\1\\0\\0'
'''),
 # --- ELF entry points
 dict(id='C35-ppc64', property='C35', needs='looking at the machine number of the object',
      breaks='PowerPC objects carry the machine number of the 64 bit processor', edits=[('platforms/ppc_elf32.py', 'machine=0x14', 'machine=0x15')],
      demo=ENTRY + '''
assert entry('ppc_elf32', '.section ".text" RX\\nnop\\n')[18:20] == b'\\0\\x14'
'''),
 dict(id='C35-ppc-align', property='C35', needs='reading the alignment of a section',
      breaks='sections of PowerPC objects are aligned to bytes', edits=[('platforms/ppc_elf32.py', ', alignment=4', '')],
      demo=ENTRY + '''
b = entry('ppc_elf32', '.section ".text" RX\\nnop\\n')
assert b[52 + 40 + 32:52 + 40 + 36] == b'\\0\\0\\0\\4'
'''),
 dict(id='C35-amd64-exec', property='C35', needs='reading the type of the object',
      breaks='x86-64 objects claim to be executables', edits=[('platforms/x86_64_elf64.py', '0x01', '0x02')],
      demo=ENTRY + '''
assert entry('x86_64_elf64', '.section ".text" RX\\nHLT\\n')[16:18] == b'\\1\\0'
'''),
]
