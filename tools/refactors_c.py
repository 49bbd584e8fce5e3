'''Behaviour-preserving edits, third bundle: x86, platforms, defines.'''

R = [
    ('cpu/x86.py', "def _Evqp(instr, base, assembler, index, modrm):\n    arg = instr.tokens[index].upper()\n    if arg in REGS16:\n        modrm['mod'] = 3\n        modrm['rm'] = REGS16.index(arg)\n        if not _operand_size(assembler, base, modrm, 16):\n            return None\n        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)\n\n    if arg in REGS32:\n        modrm['mod'] = 3\n        modrm['rm'] = REGS32.index(arg)\n        if not _operand_size(assembler, base, modrm, 32):\n            return None\n        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)\n\n    if arg in REGS64:\n        modrm['mod'] = 3\n        modrm['rm'] = REGS64.index(arg)\n        if not _operand_size(assembler, base, modrm, 64):\n            return None\n        return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)\n\n    if arg == '[':\n        return _memory(instr, base, assembler, index, modrm)",
     "def _register_of(name):\n    for bits, regs in ((16, REGS16), (32, REGS32), (64, REGS64)):\n        for number, reg in enumerate(regs):\n            if reg == name:\n                return bits, number\n    return None, None\n\n\ndef _Evqp(instr, base, assembler, index, modrm):\n    name = instr.tokens[index].upper()\n    if name == '[':\n        return _memory(instr, base, assembler, index, modrm)\n    bits, number = _register_of(name)\n    if bits is None:\n        return None\n    modrm.update(mod=0b11, rm=number)\n    if not _operand_size(assembler, base, modrm, bits):\n        return None\n    blob = _build_modrm(assembler, base, modrm) if 'reg' in modrm else b''\n    return 1, base, blob"),
    ('cpu/x86.py', "def _Gvqp(instr, base, assembler, index, modrm):\n    reg = instr.tokens[index].upper()\n    if reg in REGS16:\n        modrm['reg'] = REGS16.index(reg)\n        if not _operand_size(assembler, base, modrm, 16):\n            return None\n        if index > 1:\n            return 1, base, _build_modrm(assembler, base, modrm)\n        return 1, base, b''\n    if reg in REGS32:\n        modrm['reg'] = REGS32.index(reg)\n        if not _operand_size(assembler, base, modrm, 32):\n            return None\n        if index > 1:\n            return 1, base, _build_modrm(assembler, base, modrm)\n        return 1, base, b''\n    if reg in REGS64:\n        modrm['reg'] = REGS64.index(reg)\n        if not _operand_size(assembler, base, modrm, 64):\n            return None\n        if index > 1:\n            return 1, base, _build_modrm(assembler, base, modrm)\n        return 1, base, b''",
     "def _Gvqp(instr, base, assembler, index, modrm):\n    bits, number = _register_of(instr.tokens[index].upper())\n    if bits is None:\n        return\n    modrm['reg'] = number\n    if _operand_size(assembler, base, modrm, bits):\n        return 1, base, b'' if index <= 1 else _build_modrm(assembler, base, modrm)"),
    ('cpu/x86.py', "def _Zvqp(instr, base, assembler, index, modrm):\n    reg = instr.tokens[index].upper()\n    if reg in REGS32:\n        base = _apply_Z(base, reg, REGS32)\n        if not _operand_size(assembler, base, modrm, 32):\n            return None\n        return 1, base, b''\n    if reg in REGS64:\n        base = _apply_Z(base, reg, REGS64)\n        if not _operand_size(assembler, base, modrm, 64):\n            return None\n        return 1, base, b''\n    if reg in REGS16:\n        base = _apply_Z(base, reg, REGS16)\n        if not _operand_size(assembler, base, modrm, 16):\n            return None\n        return 1, base, b''",
     "def _Zvqp(instr, base, assembler, index, modrm):\n    reg = instr.tokens[index].upper()\n    for regs, bits in zip((REGS16, REGS32, REGS64), (16, 32, 64)):\n        if reg not in regs:\n            continue\n        base = _apply_Z(base, reg, regs)\n        return (1, base, b'') if _operand_size(assembler, base, modrm, bits) else None"),
    ('cpu/x86.py', "def _rAX(instr, base, assembler, index, modrm):\n    if instr.tokens[index].upper() == 'AX':\n        if not _operand_size(assembler, base, modrm, 16):\n            return None\n        return 1, base, b''\n    if instr.tokens[index].upper() == 'EAX':\n        if not _operand_size(assembler, base, modrm, 32):\n            return None\n        return 1, base, b''\n    if instr.tokens[index].upper() == 'RAX':\n        if not _operand_size(assembler, base, modrm, 64):\n            return None\n        return 1, base, b''",
     "def _rAX(instr, base, assembler, index, modrm):\n    bits = {'AX': 16, 'EAX': 32, 'RAX': 64}.get(instr.tokens[index].upper())\n    if bits is None or not _operand_size(assembler, base, modrm, bits):\n        return None\n    return 1, base, bytes()"),
    ('cpu/x86.py', 'def _apply_Z(base, reg, regs):\n    value = regs.index(reg.upper())\n    base[-1] |= value\n    return base',
     'def _apply_Z(base, reg, regs):\n    base[-1] = base[-1] | regs.index(reg.upper())\n    return base'),
    ('cpu/x86.py', '        index = 0\n        while base[index] in (0x67, 0xf3):\n            index += 1\n        base.insert(index, 0x48)\n',
     '        prefixes = 0\n        for byte in base:\n            if byte not in (0x67, 0xf3):\n                break\n            prefixes += 1\n        base[prefixes:prefixes] = [0x48]\n'),
    ('cpu/x86.py', "            index = 1\n            skip = False\n            full_blob = b''\n            new_base = _opcode_bytes(base)\n            translations = self.assembler.labels_addresses\n            known = len(translations)\n            for arg in args:\n                if index >= len(instr.tokens):\n                    skip = True\n                    break\n                delta_base_and_blob = arg(\n                    instr, new_base, self.assembler, index, modrm)\n                if not delta_base_and_blob or len(delta_base_and_blob) != 3:\n                    skip = True\n                    break\n                else:\n                    new_index, new_base, new_blob = delta_base_and_blob\n                    index += new_index\n                    full_blob += new_blob\n            if not skip and index == len(instr.tokens):\n                return pack_byte(*new_base) + full_blob\n            # forget the labels of a form that does not match\n            while len(translations) > known:\n                translations.popitem()\n",
     "            translations = self.assembler.labels_addresses\n            known = len(translations)\n            blob = self._try_form(instr, _opcode_bytes(base), args, modrm)\n            if blob is not None:\n                return blob\n            # forget the labels of a form that does not match\n            for _ in range(len(translations) - known):\n                translations.popitem()\n\n    def _try_form(self, instr, opcode, readers, modrm):\n        operands = []\n        index = 1\n        total = len(instr.tokens)\n        for reader in readers:\n            found = reader(instr, opcode, self.assembler, index, modrm) if index < total else None\n            if not found:\n                return None\n            used, opcode, operand = found\n            operands.append(operand)\n            index += used\n        if index != total:\n            return None\n        return bytes(opcode) + b''.join(operands)\n"),
    ('cpu/x86.py', '        for item in OPCODES_TABLE:\n            if item[1].upper() in self.instructions:\n                self.instructions[item[1].upper()].add_condition(\n                    item[0], item[2:])\n            else:\n                x86_opcode = X86OpCode(\n                    self, item[1], item[0], item[2:])\n                self.register_instruction(item[1], x86_opcode)\n',
     '        for base, name, *readers in OPCODES_TABLE:\n            opcode = self.instructions.get(name.upper())\n            if opcode is None:\n                self.register_instruction(name, X86OpCode(self, name, base, tuple(readers)))\n            else:\n                opcode.add_condition(base, tuple(readers))\n'),
    ('cpu/x86.py', '        value = self.parse_integer(instr.tokens[1], 8, False)\n        if value is None or value not in (16, 32, 64):\n            raise InvalidArgumentsForDirective(instr)\n        self.bits = value\n',
     '        mode = self.parse_integer(instr.tokens[1], 8, False)\n        for bits in (64, 32, 16):\n            if bits == mode:\n                self.bits = bits\n                return\n        raise InvalidArgumentsForDirective(instr)\n'),
    ('cpu/x86.py', '    if address[0].upper() in REGS64:\n        bits = 64\n    elif address[0].upper() in REGS32:\n        bits = 32\n    else:\n        bits = 16\n',
     '    first = address[0].upper()\n    bits = 64 if first in REGS64 else 32 if first in REGS32 else 16\n'),
    ('cpu/x86.py', "    if match(arg, 'BX', '+', 'SI'):\n        return 0b00, 0b000, 3, None, None\n    if match(arg, 'BX', '+', 'DI'):\n        return 0b00, 0b001, 3, None, None\n    if match(arg, 'BP', '+', 'SI'):\n        return 0b00, 0b010, 3, None, None\n    if match(arg, 'BP', '+', 'DI'):\n        return 0b00, 0b011, 3, None, None\n    if match(arg, 'SI'):\n        return 0b00, 0b100, 1, None, None\n    if match(arg, 'DI'):\n        return 0b00, 0b101, 1, None, None\n    if match(arg, 'BP'):\n        return 0b01, 0b110, 1, None, None\n    if match(arg, 'BX'):\n        return 0b00, 0b111, 1, None, None\n",
     "    pairs = [(b, i) for b in ('BX', 'BP') for i in ('SI', 'DI')]\n    for rm, (base, index) in enumerate(pairs):\n        if match(arg, base, '+', index):\n            return 0b00, rm, 3, None, None\n    for rm, base in ((0b100, 'SI'), (0b101, 'DI'), (0b110, 'BP'), (0b111, 'BX')):\n        if match(arg, base):\n            return 0b01 if base == 'BP' else 0b00, rm, 1, None, None\n"),
    ('cpu/x86.py', "    blob = pack_byte(pack_bits(0,\n                               ((7, 6), modrm['mod']),\n                               ((5, 3), modrm['reg']),\n                               ((2, 0), modrm['rm'])))\n",
     "    blob = bytes([modrm['mod'] << 6 | modrm['reg'] << 3 | modrm['rm']])\n"),
    ('platforms/sms.py', "                byte0 = 0\n                byte1 = 0\n                byte2 = 0\n                byte3 = 0\n                for x in range(0, 8):\n                    pixel_x = cell_x * 8 + x\n                    pixel_y = cell_y * 8 + y\n                    pixel_value = image.getpixel((pixel_x, pixel_y))\n                    if not 0 <= pixel_value <= 15:\n                        raise InvalidPaletteEntry(instr)\n                    byte0 |= (pixel_value & 0x1) << (7 - x)\n                    byte1 |= ((pixel_value >> 1) & 0x1) << (7 - x)\n                    byte2 |= ((pixel_value >> 2) & 0x1) << (7 - x)\n                    byte3 |= ((pixel_value >> 3) & 0x1) << (7 - x)\n                planes.append((byte0, byte1, byte2, byte3))\n            blob = b''\n            for plane in planes:\n                blob += bytes(plane)\n            return blob\n",
     '                row = [0] * 4\n                for x in range(0, 8):\n                    pixel_value = image.getpixel((cell_x * 8 + x, cell_y * 8 + y))\n                    if pixel_value < 0 or pixel_value > 15:\n                        raise InvalidPaletteEntry(instr)\n                    for plane in range(4):\n                        if pixel_value & 1 << plane:\n                            row[plane] += 0x80 >> x\n                planes.extend(row)\n            return bytes(planes)\n'),
    ('platforms/nes.py', "                byte0 = 0\n                byte1 = 0\n                for x in range(0, 8):\n                    pixel_x = cell_x * 8 + x\n                    pixel_y = cell_y * 8 + y\n                    pixel_value = image.getpixel((pixel_x, pixel_y))\n                    if not 0 <= pixel_value <= 3:\n                        raise InvalidPaletteEntry(instr)\n                    byte0 |= (pixel_value & 0x1) << (7 - x)\n                    byte1 |= (pixel_value >> 1) << (7 - x)\n                plane0.append(byte0)\n                plane1.append(byte1)\n            blob = b''\n            for byte in plane0:\n                blob += bytes((byte,))\n            for byte in plane1:\n                blob += bytes((byte,))\n            return blob\n",
     '                pixels = [image.getpixel((cell_x * 8 + x, cell_y * 8 + y)) for x in range(8)]\n                if any(pixel not in range(4) for pixel in pixels):\n                    raise InvalidPaletteEntry(instr)\n                plane0.append(sum((pixel & 1) << (7 - x) for x, pixel in enumerate(pixels)))\n                plane1.append(sum((pixel >> 1) << (7 - x) for x, pixel in enumerate(pixels)))\n            return bytes(plane0) + bytes(plane1)\n'),
    ('platforms/nes.py', "    # rom debug symbols\n    with open(sys.argv[2] + '.0.nl', 'wb') as nl_file:\n        for label in asm.labels:\n            address = asm.get_label_absolute_address_by_name(label)\n            if 0x8000 <= address <= 0xFFFF:\n                nl_file.write('${0:04X}#{1}#\\x0D\\x0A'.format(\n                    address, label).encode('ascii'))\n\n    # ram debug symbols\n    with open(sys.argv[2] + '.ram.nl', 'wb') as nl_file:\n        for label in asm.labels:\n            address = asm.get_label_absolute_address_by_name(label)\n            if 0x0000 <= address <= 0x7FF:\n                nl_file.write('${0:04X}#{1}#\\x0D\\x0A'.format(\n                    address, label).encode('ascii'))\n",
     "    # rom and ram debug symbols\n    for suffix, first, last in (('.0.nl', 0x8000, 0xFFFF), ('.ram.nl', 0, 0x7FF)):\n        lines = []\n        for label in asm.labels:\n            address = asm.get_label_absolute_address_by_name(label)\n            if first <= address <= last:\n                lines.append('$%04X#%s#\\r\\n' % (address, label))\n        with open(sys.argv[2] + suffix, 'wb') as nl_file:\n            nl_file.write(''.join(lines).encode('ascii'))\n"),
    ('platforms/psx.py', '    padding = len(asm.assembled_bytes) % 2048\n    if padding != 0:\n        asm.assembled_bytes += bytes(2048 - padding)\n',
     '    asm.assembled_bytes += bytes(-len(asm.assembled_bytes) % 2048)\n'),
    ('platforms/gameboy.py', "        'WRAM0': '$C000',\n        'WRAM1': '$D000',\n",
     "        'WRAM1': '$D000',\n        'WRAM0': '$c000',\n"),
    ('utils.py', "        accumulator = ''\n        rebuilt_token = ''\n        for char in name:\n            if is_valid_name(char):\n                accumulator += char\n                continue\n            if accumulator:\n                if accumulator in _dict:\n                    accumulator = _dict[accumulator]\n                rebuilt_token += accumulator\n                accumulator = ''\n            rebuilt_token += char\n\n        if accumulator:\n            if accumulator in _dict:\n                accumulator = _dict[accumulator]\n            rebuilt_token += accumulator\n\n        tokens[i] = rebuilt_token\n",
     "        words = ['']\n        for char in name:\n            if is_valid_name(char):\n                words[-1] += char\n            else:\n                words += [char, '']\n        tokens[i] = ''.join(_dict.get(word, word) if n % 2 == 0 else word for n, word in enumerate(words))\n"),
    ('cpu/intel8086.py', "hex_prefixes = ('0x', '0h', '$0')",
     "hex_prefixes = ['0h', '0x', '$0']"),
    ('cpu/thumb.py', "bin_prefixes = ('0b', '0y')",
     "bin_prefixes = ('0y', '0b')"),
]
