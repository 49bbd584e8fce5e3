'''Behaviour-preserving edits of the repository (one bundle, applied together to a scratch copy).'''
R = []


def r(path, old, new):
    R.append((path, old, new))


# ---- assembler.py
r('assembler.py', '''            for i in range(0, size):
                value = (true_address >> (8 * i)) & 0xFF
                if self.big_endian:
                    self.assembled_bytes[address + ((size-1) - i)] |= value
                else:
                    self.assembled_bytes[address + i] |= value
''', '''            self._patch(address, size, true_address)
''')
r('assembler.py', '''    def link(self, linker=None):
''', '''    def _byte_positions(self, address, size):
        order = range(size - 1, -1, -1) if self.big_endian else range(size)
        for shift, position in enumerate(order):
            yield 8 * shift, address + position

    def _patch(self, address, size, value):
        for shift, where in self._byte_positions(address, size):
            self.assembled_bytes[where] |= (value >> shift) & 0xFF

    def _run_passes(self, passes):
        for _pass in passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()
            else:
                _pass(self)

    def link(self, linker=None):
''')
r('assembler.py', '''        for _pass in self.pre_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()
            else:
                _pass(self)

        self._resolve_labels(linker)

        for _pass in self.post_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()
            else:
                _pass(self)

        self''', '''        self._run_passes(self.pre_link_passes)
        self._resolve_labels(linker)
        self._run_passes(self.post_link_passes)

        self''')
r('assembler.py', '''        for address in self.labels_addresses:
            data = self.labels_addresses[address]
            label = data.label
''', '''        for address, data in self.labels_addresses.items():
            label = data.label
''')
r('assembler.py', '''        for prefix in self.hex_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 16), False
                except ValueError:
                    malformed = True

        for prefix in self.bin_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 2), False
                except ValueError:
                    malformed = True

        for prefix in self.oct_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 8), False
                except ValueError:
                    malformed = True

        for prefix in self.dec_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 10), True
                except ValueError:
                    malformed = True
''', '''        prefixes = (
            (self.hex_prefixes, 16),
            (self.bin_prefixes, 2),
            (self.oct_prefixes, 8),
            (self.dec_prefixes, 10),
        )
        for known, base in prefixes:
            for match in (prefix for prefix in known if token.startswith(prefix)):
                try:
                    return int(token[len(match):], base), base == 10
                except ValueError:
                    malformed = True
''')
r('assembler.py', '''        low_counter = 0
        shifted_value = 0
        has_shifted_value = False

        for op in pre_formula:
            if op == '>':
                value >>= 8
            elif op == '<':
                shifted_value |= ((value >> (8 * low_counter))
                                  & 0xFF) << (8 * low_counter)
                low_counter += 1
                has_shifted_value = True

        if has_shifted_value:
            value = shifted_value

        ops = []
        current_command = None
        current_arg = ''
        for char in post_formula:
            if char in ('+', '-', '*', '/', '&', '|'):
                if current_command is not None:
                    ops.append((current_command, current_arg))
                current_command = char
                current_arg = ''
            else:
                current_arg += char

        if current_command is not None:
            ops.append((current_command, current_arg))

        for command, arg in ops:
''', '''        value = self._select_bytes(pre_formula, value)

        for command, arg in self._split_formula(post_formula):
''')
r('assembler.py', '''            if command == '+':
                value += arg_value
            elif command == '-':
                value -= arg_value
            elif command == '*':
                value *= arg_value
            elif command == '/':
                if arg_value == 0:
                    raise DivisionByZero(arg)
                value //= arg_value
            elif command == '&':
                value &= arg_value
            elif command == '|':
                value |= arg_value

        return value
''', '''            if (command, arg_value) == ('/', 0):
                raise DivisionByZero(arg)
            value = FORMULA_OPERATORS[command](value, arg_value)

        return value

    @staticmethod
    def _select_bytes(pre_formula, value):
        chosen = []
        for op in pre_formula:
            if op == '>':
                value >>= 8
            elif op == '<':
                chosen.append((value >> (8 * len(chosen))) & 0xFF)
        if not chosen:
            return value
        return sum(byte << (8 * index) for index, byte in enumerate(chosen))

    @staticmethod
    def _split_formula(post_formula):
        command, arg = None, ''
        for char in post_formula:
            if char in FORMULA_OPERATORS:
                if command is not None:
                    yield command, arg
                command, arg = char, ''
            else:
                arg += char
        if command is not None:
            yield command, arg
''')
r('assembler.py', '''def opcode(*name):
''', '''FORMULA_OPERATORS = {
    '+': operator.add,
    '-': operator.sub,
    '*': operator.mul,
    '/': operator.floordiv,
    '&': operator.and_,
    '|': operator.or_,
}


def opcode(*name):
''')
r('assembler.py', '''from necroassembler.tokenizer import Tokenizer
''', '''import operator

from necroassembler.tokenizer import Tokenizer
''')
r('assembler.py', '''    def directive_dw(self, instr):
        for token in instr.tokens[1:]:
            blob = b''
            if token[0] in ('"', '\\''):
                blob = token[1:-1].encode(
                    'utf-16-be' if self.big_endian else 'utf-16-le')
            else:
                value = self.parse_integer_or_label(
                    label=token, bits_size=16, size=2)
                if self.big_endian:
                    blob = pack_be16u(value)
                else:
                    blob = pack_le16u(value)
            self.append_assembled_bytes(blob)

    def directive_dd(self, instr):
        for token in instr.tokens[1:]:
            blob = b''
            if token[0] in ('"', '\\''):
                blob = token[1:-1].encode(
                    'utf-32-be' if self.big_endian else 'utf-32-le')
            else:
                value = self.parse_integer_or_label(
                    label=token, bits_size=32, size=4)
                if self.big_endian:
                    blob = pack_be32u(value)
                else:
                    blob = pack_le32u(value)
            self.append_assembled_bytes(blob)
''', '''    def _data(self, instr, size):
        order = 'big' if self.big_endian else 'little'
        bits = size * 8
        encoding = f'utf-{bits}-{order[0]}e'
        for token in instr.tokens[1:]:
            if token[0] in ('"', '\\''):
                blob = token[1:-1].encode(encoding)
            else:
                value = self.parse_integer_or_label(
                    label=token, bits_size=bits, size=size)
                blob = (value & ((1 << bits) - 1)).to_bytes(size, order)
            self.append_assembled_bytes(blob)

    def directive_dw(self, instr):
        self._data(instr, 2)

    def directive_dd(self, instr):
        self._data(instr, 4)
''')
r('assembler.py', '''        size = self.parse_integer(instr.tokens[1], 64, False)
        if size is None:
            raise InvalidArgumentsForDirective(instr)
        value = self.fill_value
        if len(instr.tokens) == 3:
            value = self.parse_integer(instr.tokens[2], 8, False)
            if value is None:
                raise InvalidArgumentsForDirective(instr)
        blob = bytes([value] * size)
        self.append_assembled_bytes(blob)
''', '''        size, value = self._amount_and_value(instr)
        self.append_assembled_bytes(pack_byte(value) * size)

    def _amount_and_value(self, instr):
        amount = self.parse_integer(instr.tokens[1], 64, False)
        if amount is None:
            raise InvalidArgumentsForDirective(instr)
        if len(instr.tokens) < 3:
            return amount, self.fill_value
        value = self.parse_integer(instr.tokens[2], 8, False)
        if value is None:
            raise InvalidArgumentsForDirective(instr)
        return amount, value
''')
r('assembler.py', '''        mod = (self.current_org + self.org_counter) % size
        if mod != 0:
            blob = bytes([self.fill_value]) * (size - mod)
            self.append_assembled_bytes(blob)
''', '''        padding = -self.pc % size
        if padding:
            self.append_assembled_bytes(bytes([self.fill_value]) * padding)
''')
# ---- tokenizer: a single flush helper
r('tokenizer.py', '''    def _token_spaces(self, char):
        if self.current_token:
            self.tokens.append(self.current_token)
        self.current_token = ''
''', '''    def _flush(self):
        token, self.current_token = self.current_token, ''
        if token:
            self.tokens.append(token)

    def _token_spaces(self, char):
        self._flush()
''')
r('tokenizer.py', '''        if self.current_token:
            self.tokens.append(self.current_token)
        self.tokens.append(char)
        self.current_token = ''
''', '''        self._flush()
        self.tokens.append(char)
''')
r('tokenizer.py', '''        if self.current_token:
            self.tokens.append(self.current_token)
        self.current_token = ''
        self.state = self._state_string
''', '''        self._flush()
        self.state = self._state_string
''')
r('tokenizer.py', '''                if self.tokens[0].startswith('.'):
                    self.statements.append(
                        Directive(self.tokens, self.line, self.context))
                else:
                    self.statements.append(
                        Instruction(self.tokens, self.line, self.context))
''', '''                kind = Directive if self.tokens[0].startswith('.') else Instruction
                self.statements.append(
                    kind(self.tokens, self.line, self.context))
''')
# ---- utils
r('utils.py', '''        if value < 0:
            max_value = pow(2, total_bits)
            value += max_value
            if value < max_value // 2:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):
            raise InvalidBitRange()
        base |= (value << start) & (pow(2, end + 1) - 1)
''', '''        mask = (1 << total_bits) - 1
        if not -(1 << (total_bits - 1)) <= value <= mask:
            raise InvalidBitRange()
        base |= (value & mask) << start
''')
r('utils.py', '''    valid_chars = tuple(string.ascii_lowercase) + \\
        tuple(string.ascii_uppercase) + tuple(string.digits) + ('_', '.')
    for char in name:
        if char not in valid_chars:
            return False
    return True
''', '''    return all(char in VALID_NAME_CHARS for char in name)
''')
r('utils.py', '''def neg_fix(value, bits):
    negative = 1 << (bits - 1)
    if value & negative:
        return -(1 << (bits)) + value
    return value
''', '''VALID_NAME_CHARS = frozenset(string.ascii_letters + string.digits + '_.')


def neg_fix(value, bits):
    if value >> (bits - 1) & 1:
        value -= 1 << bits
    return value
''')
r('utils.py', '''        accumulator = ''
        rebuilt_token = ''
        for char in name:
            if is_valid_name(char):
                accumulator += char
                continue
            if accumulator:
                if accumulator in _dict:
                    accumulator = _dict[accumulator]
                rebuilt_token += accumulator
                accumulator = ''
            rebuilt_token += char

        if accumulator:
            if accumulator in _dict:
                accumulator = _dict[accumulator]
            rebuilt_token += accumulator

        tokens[i] = rebuilt_token
''', '''        tokens[i] = ''.join(_dict.get(part, part) for part in _name_parts(name))


def _name_parts(token):
    word = ''
    for char in token:
        if is_valid_name(char):
            word += char
            continue
        if word:
            yield word
            word = ''
        yield char
    if word:
        yield word
''')
# ---- macros
r('macros.py', '''            macro_dict = {}
            for macro_arg_index, macro_arg in enumerate(macro_args):
                macro_dict[macro_arg] = args[macro_arg_index]
                
            substitute_with_dict(instr.tokens, macro_dict, 0)
''', '''            substitute_with_dict(instr.tokens, dict(zip(macro_args, args)), 0)
''')
# ---- statements
r('statements.py', '''    def match(self, *args, start=1):
        if (len(self.tokens) - start) != len(args):
            return False
        for index, pattern in enumerate(args):
            if pattern is None:
                continue
            if callable(pattern):
                if pattern(self.tokens[index+start]):
                    continue
            else:
                if isinstance(pattern, str):
                    pattern = (pattern,)
                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                    continue
            return False
        return True
''', '''    @staticmethod
    def _token_matches(token, pattern):
        if pattern is None:
            return True
        if callable(pattern):
            return bool(pattern(token))
        if isinstance(pattern, str):
            return token.upper() == pattern.upper()
        return token.upper() in {x.upper() for x in pattern}

    def match(self, *args, start=1):
        tokens = self.tokens[start:]
        return len(tokens) == len(args) and all(
            self._token_matches(token, pattern) for token, pattern in zip(tokens, args))
''')
r('statements.py', '''        out = []
        for index, arg in enumerate(args):
            if arg is not None:
                out.append(arg(self.tokens[index + start]))
        return out
''', '''        return [arg(token) for arg, token in zip(args, self.tokens[start:]) if arg is not None]
''')
# ---- linker
r('linker.py', '''        sh_flags = 0
        if 'R' in section_data['permissions']:
            sh_flags |= 0x02
        if 'W' in section_data['permissions']:
            sh_flags |= 0x01
        if 'X' in section_data['permissions']:
            sh_flags |= 0x04
        if 'E' in section_data['permissions']:
            sh_flags |= 0x04
''', '''        sh_flags = 0
        for permission, flag in (('R', 0x02), ('W', 0x01), ('X', 0x04), ('E', 0x04)):
            if permission in section_data['permissions']:
                sh_flags |= flag
''')
r('linker.py', '''            if self.bits == 32:
                symtab += pack(self.endianess_prefix + 'IIIBBH',
                               symbol_data['elf_string_offset'], symbol_offset, 0,
                               0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
            if self.bits == 64:
                symtab += pack(self.endianess_prefix + 'IBBHQQ',
                               symbol_data['elf_string_offset'], 0x10, 0,
                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_offset, 0)
''', '''            symtab += self._build_symbol(
                symbol_data['elf_string_offset'], symbol_offset,
                assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
''')
r('linker.py', '''    def resolve_unknown_symbol(self, assembler, address, symbol_data):
        self.relocations''', '''    def _build_symbol(self, name, value, section):
        fields = {
            32: ('IIIBBH', (name, value, 0, 0x10, 0, section)),
            64: ('IBBHQQ', (name, 0x10, 0, section, value, 0)),
        }
        fmt, values = fields[self.bits]
        return pack(self.endianess_prefix + fmt, *values)

    def resolve_unknown_symbol(self, assembler, address, symbol_data):
        self.relocations''')
# ---- platforms
r('platforms/gameboy.py', '''        header_checksum = 0
        for i in range(0x134, 0x14d):
            header_checksum = header_checksum - \\
                int(self.assembled_bytes[i]) - 1
        self.assembled_bytes[0x14d] = header_checksum & 0xFF

        # global checksum (of everything but itself)
        global_checksum = 0
        for index, byte in enumerate(self.assembled_bytes):
            if index not in (0x14e, 0x14f):
                global_checksum += int(byte)

        self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
        self.assembled_bytes[0x14f] = global_checksum & 0xFF
''', '''        header = self.assembled_bytes[0x134:0x14d]
        if len(header) != 25:
            raise IndexError('bytearray index out of range')
        self.assembled_bytes[0x14d] = -(sum(header) + len(header)) & 0xFF

        # global checksum (of everything but itself)
        rom = self.assembled_bytes
        checksum = sum(rom[:0x14e]) + sum(rom[0x150:])
        high, low = divmod(checksum & 0xFFFF, 256)
        self.assembled_bytes[0x14e] = high
        self.assembled_bytes[0x14f] = low
''')
r('platforms/gameboy.py', '''            planes = []
            for y in range(0, 8):
                byte0 = 0
                byte1 = 0
                for x in range(0, 8):
                    pixel_x = cell_x * 8 + x
                    pixel_y = cell_y * 8 + y
                    pixel_value = image.getpixel((pixel_x, pixel_y))
                    if not 0 <= pixel_value <= 3:
                        raise InvalidPaletteEntry(instr)
                    byte0 |= (pixel_value & 0x1) << (7 - x)
                    byte1 |= (pixel_value >> 1) << (7 - x)
                planes.append((byte0, byte1))
            blob = b''
            for plane in planes:
                blob += bytes(plane)
            return blob
''', '''            blob = bytearray()
            for y in range(8):
                low = high = 0
                for x in range(8):
                    pixel = image.getpixel((cell_x * 8 + x, cell_y * 8 + y))
                    if pixel not in range(4):
                        raise InvalidPaletteEntry(instr)
                    low = low << 1 | pixel & 1
                    high = high << 1 | pixel >> 1
                blob.append(low)
                blob.append(high)
            return bytes(blob)
''')
r('platforms/nes.py', '''            blob = b''
            for byte in plane0:
                blob += bytes((byte,))
            for byte in plane1:
                blob += bytes((byte,))
            return blob
''', '''            return bytes(plane0 + plane1)
''')
r('platforms/nes.py', '''    with open(sys.argv[2] + '.0.nl', 'wb') as nl_file:
        for label in asm.labels:
            address = asm.get_label_absolute_address_by_name(label)
            if 0x8000 <= address <= 0xFFFF:
                nl_file.write('${0:04X}#{1}#\\x0D\\x0A'.format(
                    address, label).encode('ascii'))

    # ram debug symbols
    with open(sys.argv[2] + '.ram.nl', 'wb') as nl_file:
        for label in asm.labels:
            address = asm.get_label_absolute_address_by_name(label)
            if 0x0000 <= address <= 0x7FF:
                nl_file.write('${0:04X}#{1}#\\x0D\\x0A'.format(
                    address, label).encode('ascii'))
''', '''    save_symbols(asm, sys.argv[2] + '.0.nl', 0x8000, 0xFFFF)

    # ram debug symbols
    save_symbols(asm, sys.argv[2] + '.ram.nl', 0, 0x7FF)


def save_symbols(asm, filename, first, last):
    with open(filename, 'wb') as nl_file:
        for label in asm.labels:
            address = asm.get_label_absolute_address_by_name(label)
            if first <= address <= last:
                nl_file.write(f'${address:04X}#{label}#\\r\\n'.encode('ascii'))
''')
r('platforms/sms.py', '''                byte0 = 0
                byte1 = 0
                byte2 = 0
                byte3 = 0
                for x in range(0, 8):
                    pixel_x = cell_x * 8 + x
                    pixel_y = cell_y * 8 + y
                    pixel_value = image.getpixel((pixel_x, pixel_y))
                    if not 0 <= pixel_value <= 15:
                        raise InvalidPaletteEntry(instr)
                    byte0 |= (pixel_value & 0x1) << (7 - x)
                    byte1 |= ((pixel_value >> 1) & 0x1) << (7 - x)
                    byte2 |= ((pixel_value >> 2) & 0x1) << (7 - x)
                    byte3 |= ((pixel_value >> 3) & 0x1) << (7 - x)
                planes.append((byte0, byte1, byte2, byte3))
''', '''                row = [0] * 4
                for x in range(0, 8):
                    pixel_value = image.getpixel((cell_x * 8 + x, cell_y * 8 + y))
                    if pixel_value < 0 or pixel_value > 15:
                        raise InvalidPaletteEntry(instr)
                    for plane in range(4):
                        row[plane] |= (pixel_value >> plane & 1) << (7 - x)
                planes.append(row)
''')
r('platforms/genesis.py', '''    header_checksum = 0
    for i in range(0x200, len(asm.assembled_bytes), 2):
        high = asm.assembled_bytes[i]
        # an image with an odd size ends with half a word
        low = asm.assembled_bytes[i+1] if i+1 < len(asm.assembled_bytes) else 0
        header_checksum += (high << 8) | low
    asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
    asm.assembled_bytes[0x18f] = header_checksum & 0xFF
''', '''    body = asm.assembled_bytes[0x200:]
    header_checksum = sum(body[0::2]) * 256 + sum(body[1::2])
    asm.assembled_bytes[0x18e] = (header_checksum // 256) % 256
    asm.assembled_bytes[0x18f] = header_checksum % 256
''')
r('platforms/psx.py', '''    padding = len(asm.assembled_bytes) % 2048
    if padding != 0:
        asm.assembled_bytes += bytes(2048 - padding)
''', '''    while len(asm.assembled_bytes) % 2048:
        asm.assembled_bytes.append(0)
''')
# ---- cpu
r('cpu/mos6502.py', '''        # label management

        # check for already defined label (zero page optimization)
        address = self.get_label_absolute_address_by_name(arg)
        if address is None:
            if absolute is None:
                raise AbsoluteAddressNotAllowed()
            self.add_label_translation(
                label=arg, size=2, bits_size=16, offset=1)
            return pack('<BH', absolute, 0)

        if zero_page is not None and is_zero_page(address):
            return pack_byte(zero_page, address)

        # normal labeling (postpone to linking phase)
        if absolute is None:
''', '''        # label management: already defined labels can use the zero page
        address = self.get_label_absolute_address_by_name(arg)
        known = address is not None
        if known and zero_page is not None and is_zero_page(address):
            return pack_byte(zero_page, address)

        # normal labeling (postpone to linking phase)
        if absolute is None:
''')
r('cpu/mips32.py', '''def _reg(reg):
    if reg.lower() in REGS_BASE:
        return int(reg[1:])
    index = REGS_ALIAS.index(reg.lower())
    return int(REGS_BASE[index][1:])
''', '''_REG_NUMBERS = {name: number for names in (REGS_BASE, REGS_ALIAS) for number, name in enumerate(names)}


def _reg(reg):
    return _REG_NUMBERS[reg.lower()]
''')
r('cpu/lr35902.py', '''            if instr.match(REGS8):
                reg8, = instr.apply(self._reg_name)
                return pack_byte(0xCB, kwargs[reg8])
            if instr.match('(', 'HL', ')') or instr.match('[', 'HL', ']'):
                return pack_byte(0xCB, kwargs['ind_hl'])
            if instr.match(NUMBER, REGS8):
                value, reg8 = instr.apply(str, self._reg_name)
                return pack_byte(0xCB, kwargs['b' + value + '_' + reg8])
''', '''            key = None
            if instr.match(REGS8):
                key, = instr.apply(self._reg_name)
            elif instr.match('(', 'HL', ')') or instr.match('[', 'HL', ']'):
                key = 'ind_hl'
            elif instr.match(NUMBER, REGS8):
                key = 'b{0}_{1}'.format(*instr.apply(str, self._reg_name))
            if key is not None:
                return pack_byte(0xCB, kwargs[key])
''')
