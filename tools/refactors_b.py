'''Behaviour-preserving edits: (file under necroassembler/, old text, new text).  Second bundle: other styles.'''

R = [
    # ---- utils
    ('utils.py', '''    negative = 1 << (bits - 1)
    if value & negative:
        return -(1 << (bits)) + value
    return value
''', '''    half = 2 ** (bits - 1)
    return value if not value & half else value - 2 * half
'''),
    ('utils.py', '''def pack_le32u(*args):
    return struct.pack('<' + ('I' * len(args)),
                       *[n & 0xffffffff if n is not None else 0 for n in args])


def pack_le64u(*args):
    return struct.pack('<' + ('Q' * len(args)),
                       *[n & 0xffffffffffffffff if n is not None else 0 for n in args])
''', '''def _pack_unsigned(byteorder, size, values):
    mask = (1 << (8 * size)) - 1
    return b''.join(((value or 0) & mask).to_bytes(size, byteorder) for value in values)


def pack_le32u(*args):
    return _pack_unsigned('little', 4, args)


def pack_le64u(*args):
    return _pack_unsigned('little', 8, args)
'''),
    ('utils.py', '''    return struct.pack('<' + ('H' * len(args)),
                       *[n & 0xffff if n is not None else 0 for n in args])
''', '''    blob = bytearray()
    for number in args:
        if number is None:
            number = 0
        blob.append(number & 0xff)
        blob.append(number >> 8 & 0xff)
    return bytes(blob)
'''),
    ('utils.py', '''    for arg in args:
        (end, start), value = arg
        if end < start:
            raise InvalidBitRange()

        total_bits = end - start + 1
        # fix negative numbers
        if value < 0:
            max_value = pow(2, total_bits)
            value += max_value
            if value < max_value // 2:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):
            raise InvalidBitRange()
        base |= (value << start) & (pow(2, end + 1) - 1)

    return base
''', '''    for (end, start), value in args:
        width = end - start + 1
        if width <= 0:
            raise InvalidBitRange()
        limit = 1 << width
        if not -(limit >> 1) <= value < limit:
            raise InvalidBitRange()
        base |= (value % limit) << start
    return base
'''),
    ('utils.py', '''    max_value = pow(2, number_of_bits) - 1
    return value & max_value == value
''', '''    return 0 <= value < (1 << number_of_bits)
'''),
    ('utils.py', '''    max_value = pow(2, number_of_bits)
    if value < 0:
        value += max_value
        if value < max_value // 2:
            return False
        return in_bit_range(value, number_of_bits)

    if signed and value >= 0:
        return in_bit_range(value, number_of_bits-1)

    return in_bit_range(value, number_of_bits)
''', '''    lowest = -(1 << (number_of_bits - 1))
    highest = (1 << (number_of_bits - 1 if signed else number_of_bits)) - 1
    return lowest <= value <= highest
'''),
    ('utils.py', '''    new_args = [((x, x), y) for x, y in args]
    return pack_bits(base, *new_args)
''', '''    return pack_bits(base, *(((position, position), bit) for position, bit in args))
'''),
    ('utils.py', '''        # simple case first
        if name in _dict:
            tokens[i] = _dict[name]
            continue
''', '''        # simple case first
        try:
            tokens[i] = _dict[name]
        except KeyError:
            pass
        else:
            continue
'''),
    ('utils.py', '''    for index, pattern in enumerate(args):
        if pattern is None:
            continue

        if isinstance(pattern, str):
            if iterable[index].upper() == pattern.upper():
                continue
        elif callable(pattern):
            if pattern(iterable[index]):
                continue
        elif any([iterable[index].upper() == x.upper() for x in pattern]):
            continue
        return False
    return True
''', '''    return all(_accepts(pattern, item) for pattern, item in zip(args, iterable))


def _accepts(pattern, item):
    if pattern is None:
        return True
    if callable(pattern):
        return bool(pattern(item))
    if isinstance(pattern, str):
        return item.upper() == pattern.upper()
    return item.upper() in {x.upper() for x in pattern}
'''),
    # ---- statements
    ('statements.py', '''            if callable(pattern):
                if pattern(self.tokens[index+start]):
                    continue
            else:
                if isinstance(pattern, str):
                    pattern = (pattern,)
                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                    continue
            return False, None
        return True, start+index+1
''', '''            token = self.tokens[start + index]
            if callable(pattern):
                matched = pattern(token)
            elif isinstance(pattern, str):
                matched = token.upper() == pattern.upper()
            else:
                matched = token.upper() in [candidate.upper() for candidate in pattern]
            if not matched:
                return False, None
        return True, start + len(args)
'''),
    ('statements.py', '''        if not key in assembler.instructions:
            raise UnknownInstruction(self)
        instruction = assembler.instructions[key]
        if callable(instruction):
''', '''        try:
            instruction = assembler.instructions[key]
        except KeyError:
            raise UnknownInstruction(self) from None
        if callable(instruction):
'''),
    ('statements.py', '''        if not key in assembler.directives:
            raise UnknownDirective(self)
        assembler.directives[key](self)
''', '''        handler = assembler.directives.get(key)
        if handler is None:
            raise UnknownDirective(self)
        handler(self)
'''),
    ('statements.py', '''        assembler.labels[key] = {
            'base': assembler.org_counter,
            'org': assembler.current_org,
            'section': assembler.current_section}
''', '''        assembler.labels[key] = dict(base=assembler.org_counter,
                                     org=assembler.current_org,
                                     section=assembler.current_section)
'''),
    # ---- tokenizer
    ('tokenizer.py', '''        if char in (' ', '\\n', '\\r', '\\t', ',', ';'):
            self._token_spaces(char)
            return
        if char in ('(', ')', '[', ']', '{', '}'):
            self._token_brackets(char)
            return
        if char == ':':
            self._token_colon()
            return
        if char == '"':
            self._token_string()
            return
        if char == '\\'':
            self._token_char()
            return
        self.current_token += char
''', '''        handlers = {':': self._token_colon, '"': self._token_string, '\\'': self._token_char}
        if char in ' \\n\\r\\t,;':
            self._token_spaces(char)
        elif char in '()[]{}':
            self._token_brackets(char)
        elif char in handlers:
            handlers[char]()
        else:
            self.current_token = self.current_token + char
'''),
    ('tokenizer.py', '''            if self.tokens:
                if self.tokens[0].startswith('.'):
                    self.statements.append(
                        Directive(self.tokens, self.line, self.context))
                else:
                    self.statements.append(
                        Instruction(self.tokens, self.line, self.context))
            self.tokens = []
''', '''            if len(self.tokens) > 0:
                kind = Directive if self.tokens[0][:1] == '.' else Instruction
                self.statements.append(kind(self.tokens, self.line, self.context))
            self.tokens = []
'''),
    ('tokenizer.py', '''        code += '\\n'
        for byte in code:
            self.step(byte)
            if byte == '\\n':
                self.line += 1
''', '''        from itertools import chain
        for byte in chain(code, ('\\n',)):
            self.state(byte)
            self.line += byte == '\\n'
'''),
    # ---- macros
    ('macros.py', '''            macro_dict = {}
            for macro_arg_index, macro_arg in enumerate(macro_args):
                macro_dict[macro_arg] = args[macro_arg_index]
                
            substitute_with_dict(instr.tokens, macro_dict, 0)
''', '''            substitute_with_dict(instr.tokens, dict(zip(macro_args, args)), 0)
'''),
    # ---- assembler
    ('assembler.py', '''class LabelData:

    alignment = 1
    offset = 0
    bits = None
    hook = None
    filter = None

    def __init__(self, label, size, bits_size, relative):
        self.label = label
        self.size = size
        self.bits_size = bits_size
        self.relative = relative
''', '''from dataclasses import dataclass


@dataclass
class LabelData:

    label: str
    size: int
    bits_size: int
    relative: int
    alignment: int = 1
    offset: int = 0
    bits: tuple = None
    hook: object = None
    filter: object = None
'''),
    ('assembler.py', '''        label_data = LabelData(label, size, bits_size, relative)
        label_data.offset = offset
        label_data.alignment = alignment
        label_data.bits = bits
        label_data.hook = hook
        label_data.filter = filter
        self.labels_addresses[index] = label_data
''', '''        self.labels_addresses[index] = LabelData(
            label, size, bits_size, relative,
            offset=offset, alignment=alignment, bits=bits, hook=hook, filter=filter)
'''),
    ('assembler.py', '''                relative = data.relative
                if relative != 0:
                    relative += i * len(blob)
                translation = LabelData(
                    data.label, data.size, data.bits_size, relative)
                translation.offset = data.offset
                translation.alignment = data.alignment
                translation.bits = data.bits
                translation.hook = data.hook
                translation.filter = data.filter
                self.labels_addresses[address + i * len(blob)] = translation
''', '''                from dataclasses import replace
                delta = i * len(blob)
                self.labels_addresses[address + delta] = replace(
                    data, relative=data.relative and data.relative + delta)
'''),
    ('assembler.py', '''        for address in self.labels_addresses:
            data = self.labels_addresses[address]
            label = data.label
            is_relative = data.relative != 0

            absolute_address = self.get_label_absolute_address_by_name(label)
            if not is_relative:
                true_address = absolute_address
            else:
                true_address = self.get_label_relative_address_by_name(
                    label, data.relative)
''', '''        for address, data in list(self.labels_addresses.items()):
            label = data.label
            is_relative = bool(data.relative)

            absolute_address = true_address = self.get_label_absolute_address_by_name(label)
            if is_relative:
                true_address = self.get_label_relative_address_by_name(
                    label, data.relative)
'''),
    ('assembler.py', '''            for i in range(0, size):
                value = (true_address >> (8 * i)) & 0xFF
                if self.big_endian:
                    self.assembled_bytes[address + ((size-1) - i)] |= value
                else:
                    self.assembled_bytes[address + i] |= value
''', '''            order = 'big' if self.big_endian else 'little'
            mask = (1 << (8 * size)) - 1
            for position, value in enumerate((true_address & mask).to_bytes(size, order), address):
                self.assembled_bytes[position] |= value
'''),
    ('assembler.py', '''        for prefix in self.hex_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 16), False
                except ValueError:
                    malformed = True

        for prefix in self.bin_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 2), False
                except ValueError:
                    malformed = True

        for prefix in self.oct_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 8), False
                except ValueError:
                    malformed = True

        for prefix in self.dec_prefixes:
            if token.startswith(prefix):
                try:
                    return int(token[len(prefix):], 10), True
                except ValueError:
                    malformed = True
''', '''        for prefixes, base in ((self.hex_prefixes, 16), (self.bin_prefixes, 2),
                               (self.oct_prefixes, 8), (self.dec_prefixes, 10)):
            for prefix in prefixes:
                if not token.startswith(prefix):
                    continue
                number = self._number(token[len(prefix):], base)
                if number is not None:
                    return number, base == 10
                malformed = True
'''),
    ('assembler.py', '''        for suffix in self.bin_suffixes:
            if token.endswith(suffix):
                if token[:-len(suffix)].isdigit():
                    try:
                        return int(token[0:-len(suffix)], 2), False
                    except ValueError:
                        malformed = True

        for suffix in self.oct_suffixes:
            if token.endswith(suffix):
                if token[:-len(suffix)].isdigit():
                    try:
                        return int(token[0:-len(suffix)], 8), False
                    except ValueError:
                        malformed = True

        for suffix in self.dec_suffixes:
            if token.endswith(suffix):
                if token[:-len(suffix)].isdigit():
                    return int(token[0:-len(suffix)], 10), True
''', '''        table = [(suffix, 2) for suffix in self.bin_suffixes]
        table += [(suffix, 8) for suffix in self.oct_suffixes]
        table += [(suffix, 10) for suffix in self.dec_suffixes]
        for suffix, base in table:
            digits = token[:-len(suffix)]
            if token.endswith(suffix) and digits.isdigit():
                try:
                    return int(digits, base), base == 10
                except ValueError:
                    if base != 10:
                        malformed = True
'''),
    ('assembler.py', '''        if decimal:
            if not signed:
                if value < 0:
                    max_value = pow(2, number_of_bits)
                    value += max_value
                    if value < max_value // 2:
                        raise NotInBitRange(value, number_of_bits)
            else:
                if not in_bit_range_decimal(value, number_of_bits, signed=True):
                    raise NotInBitRange(value, number_of_bits)
                return value

        if not in_bit_range(value, number_of_bits):
            raise NotInBitRange(value, number_of_bits)
        return value
''', '''        if decimal and signed:
            if in_bit_range_decimal(value, number_of_bits, signed=True):
                return value
            raise NotInBitRange(value, number_of_bits)
        if decimal and value < 0:
            value += 1 << number_of_bits
            if value < 1 << (number_of_bits - 1):
                raise NotInBitRange(value, number_of_bits)
        if in_bit_range(value, number_of_bits):
            return value
        raise NotInBitRange(value, number_of_bits)
'''),
    ('assembler.py', '''        ops = []
        current_command = None
        current_arg = ''
        for char in post_formula:
            if char in ('+', '-', '*', '/', '&', '|'):
                if current_command is not None:
                    ops.append((current_command, current_arg))
                current_command = char
                current_arg = ''
            else:
                current_arg += char

        if current_command is not None:
            ops.append((current_command, current_arg))
''', '''        ops = []
        for char in post_formula:
            if char in '+-*/&|':
                ops.append([char, ''])
            else:
                ops[-1][1] += char
'''),
    ('assembler.py', '''            if command == '+':
                value += arg_value
            elif command == '-':
                value -= arg_value
            elif command == '*':
                value *= arg_value
            elif command == '/':
                if arg_value == 0:
                    raise DivisionByZero(arg)
                value //= arg_value
            elif command == '&':
                value &= arg_value
            elif command == '|':
                value |= arg_value
''', '''            import operator
            functions = {'+': operator.add, '-': operator.sub, '*': operator.mul,
                         '/': operator.floordiv, '&': operator.and_, '|': operator.or_}
            if command == '/' and not arg_value:
                raise DivisionByZero(arg)
            value = functions[command](value, arg_value)
'''),
    ('assembler.py', '''        for char in token:
            if char in ('<', '>'):
                pre_formula += char
            else:
                break

        in_math = False
''', '''        bare = token.lstrip('<>')
        pre_formula = token[:len(token) - len(bare)]

        in_math = False
'''),
    ('assembler.py', '''            if self.current_org > previous_org_end:
                blob = bytes([self.fill_value] * ((previous_org_end + 1) -
                                                  (previous_org + previous_org_counter)))
                self.assembled_bytes += blob
            # new org is lower than previous end but higher than previous start
            elif self.current_org <= previous_org_end and self.current_org > previous_org:
                blob = bytes([self.fill_value] * (self.current_org -
                                                  (previous_org + previous_org_counter)))
                self.assembled_bytes += blob
            else:
                raise AddressOverlap()
''', '''            if self.current_org <= previous_org:
                raise AddressOverlap()
            stop = min(previous_org_end + 1, self.current_org)
            missing = stop - (previous_org + previous_org_counter)
            self.assembled_bytes.extend([self.fill_value] * missing)
'''),
    ('assembler.py', '''        for token in instr.tokens[1:]:
            blob = b''
            if token[0] in ('"', '\\''):
                blob = token[1:-1].encode(
                    'utf-32-be' if self.big_endian else 'utf-32-le')
            else:
                value = self.parse_integer_or_label(
                    label=token, bits_size=32, size=4)
                if self.big_endian:
                    blob = pack_be32u(value)
                else:
                    blob = pack_le32u(value)
            self.append_assembled_bytes(blob)
''', '''        charset, packer = ('utf-32-be', pack_be32u) if self.big_endian else ('utf-32-le', pack_le32u)
        _, *values = instr.tokens
        for token in values:
            if token.startswith(('"', '\\'')):
                self.append_assembled_bytes(token[1:-1].encode(charset))
                continue
            self.append_assembled_bytes(packer(
                self.parse_integer_or_label(label=token, bits_size=32, size=4)))
'''),
    ('assembler.py', '''            blob = format(true_address, '03d').encode('ascii')
            for b in blob:
                self.assembled_bytes[address] = b
                address += 1
''', '''            text = '{:03}'.format(true_address)
            self.assembled_bytes[address:address + 3] = text.encode('ascii')
'''),
    ('assembler.py', '''        blob = b''
        for token in tokens:
            if token[0] in ('"', '\\''):
                blob += token[1:-1].encode('ascii')
            else:
                value = self.parse_integer(token, 8, False)
                if value is None:
                    raise LabelNotAllowed()
                blob += pack_byte(value)
        return blob
''', '''        def convert(token):
            if token[0] in ('"', '\\''):
                return token[1:-1].encode('ascii')
            value = self.parse_integer(token, 8, False)
            if value is None:
                raise LabelNotAllowed()
            return pack_byte(value)

        return b''.join(map(convert, tokens))
'''),
    ('assembler.py', '''        if value[0] in ('"', '\\''):
            value = value[1:-1]
        return value
''', '''        return value[1:-1] if value[0] in '"\\'' else value
'''),
    ('assembler.py', '''        with open(filename, 'rb') as f:
            blob = f.read()
            self.append_assembled_bytes(blob)
''', '''        handle = open(filename, 'rb')
        try:
            self.append_assembled_bytes(handle.read())
        finally:
            handle.close()
'''),
    ('assembler.py', '''        if not all([True if letter in 'RWXE' else False for letter in permissions]):
            raise InvalidArgumentsForDirective(instr)
''', '''        if any(letter not in 'RWXE' for letter in permissions):
            raise InvalidArgumentsForDirective(instr)
'''),
    ('assembler.py', '''            self.sections[self.current_section]['end'] = self.pc
            self.sections[self.current_section]['size'] = len(
                self.assembled_bytes) - self.sections[self.current_section]['offset']
        self.current_section = name
        self.sections[self.current_section] = {
            'start': self.pc, 'offset': len(self.assembled_bytes), 'permissions': permissions}
''', '''            section = self.sections[self.current_section]
            section.update(end=self.pc, size=len(self.assembled_bytes) - section['offset'])
        self.current_section = name
        self.sections[name] = dict(start=self.pc, offset=len(self.assembled_bytes),
                                   permissions=permissions)
'''),
    ('assembler.py', '''            for row in csv_reader:
                for column in row:
                    value = self.parse_integer(column, 16, False)
                    if value is None:
                        raise LabelNotAllowed(instr)
                    blob += pack_le16u(value)

        self.append_assembled_bytes(blob)
''', '''            values = [self.parse_integer(column, 16, False) for row in csv_reader for column in row]
        if None in values:
            raise LabelNotAllowed(instr)
        blob += pack_le16u(*values)

        self.append_assembled_bytes(blob)
'''),
    # ---- Z80
    ('cpu/z80.py', '''        sanitized_args = []
        hooks = []
        for index, arg in enumerate(args):
            if arg == 'nn':
                sanitized_args.append(self._is_value)
                hooks.append((self._build_nn, index))
            elif arg == 'n':
                sanitized_args.append(self._is_value)
                hooks.append((self._build_n, index))
            elif arg == 'e':
                sanitized_args.append(self._is_value)
                hooks.append((self._build_e, index))
            elif arg == 'd':
                sanitized_args.append(self._is_value)
                hooks.append((self._build_d, index))
            elif arg == 'IX+d':
                sanitized_args.append(self._is_index_x)
                hooks.append((self._build_index, index))
            elif arg == 'IY+d':
                sanitized_args.append(self._is_index_y)
                hooks.append((self._build_index, index))
            else:
                sanitized_args.append(arg)
''', '''        kinds = {
            'nn': (self._is_value, self._build_nn),
            'n': (self._is_value, self._build_n),
            'e': (self._is_value, self._build_e),
            'd': (self._is_value, self._build_d),
            'IX+d': (self._is_index_x, self._build_index),
            'IY+d': (self._is_index_y, self._build_index),
        }
        sanitized_args = [kinds[arg][0] if arg in kinds else arg for arg in args]
        hooks = [(kinds[arg][1], index) for index, arg in enumerate(args) if arg in kinds]
'''),
    ('cpu/z80.py', '''                code = variant[0][0]
                base = b''
                if code <= 0xFF:
                    base += pack_byte(code)
                else:
                    base += pack_byte(code >> 8)
                    base += pack_byte(code & 0xFF)
                for hook, index in variant[2]:
                    base += hook(base, instr.tokens[index+1])
                for suffix in variant[0][1:]:
                    base += pack_byte(suffix)
                return base
''', '''                (code, *suffixes), _, hooks = variant
                base = code.to_bytes(1 if code < 256 else 2, 'big')
                for hook, index in hooks:
                    base += hook(base, instr.tokens[index + 1])
                return base + bytes(suffixes)
'''),
    ('cpu/z80.py', '''        return (
            arg.upper().startswith('IX+') or
            arg.upper().startswith('IX-'))
''', '''        return arg.upper()[:3] in ('IX+', 'IX-')
'''),
    ('cpu/z80.py', '''        if value[2] == '+':
            arg = value[3:]
        elif value[2] == '-':
            arg = value[2:]
        return pack_8s(''', '''        arg = value[2:].lstrip('+') if value[2] == '+' else value[2:]
        return pack_8s('''),
    # ---- 8086
    ('cpu/intel8086.py', '''    if match(arg, 'BX', '+', 'SI'):
        return 0b00, 0b000, 3, None
    if match(arg, 'BX', '+', 'DI'):
        return 0b00, 0b001, 3, None
    if match(arg, 'BP', '+', 'SI'):
        return 0b00, 0b010, 3, None
    if match(arg, 'BP', '+', 'DI'):
        return 0b00, 0b011, 3, None
''', '''    pairs = [('BX', 'SI'), ('BX', 'DI'), ('BP', 'SI'), ('BP', 'DI')]
    for rm, (first, second) in enumerate(pairs):
        if match(arg, first, '+', second):
            return 0b00, rm, 3, None
'''),
    ('cpu/intel8086.py', '''            index = 1
            skip = False
            full_blob = b''
            for arg in args:
                delta_and_blob = arg(instr, self.assembler, index, modrm)
                if not delta_and_blob or not delta_and_blob[0]:
                    skip = True
                    break
                else:
                    index += delta_and_blob[0]
                    full_blob += delta_and_blob[1]
            if not skip and index == len(instr.tokens):
                return pack_byte(base) + full_blob
''', '''            index = 1
            blobs = [pack_byte(base)]
            for arg in args:
                parsed = arg(instr, self.assembler, index, modrm)
                if parsed is None or parsed[0] == 0:
                    break
                delta, blob = parsed
                index += delta
                blobs.append(blob)
            else:
                if index == len(instr.tokens):
                    return b''.join(blobs)
'''),
    ('cpu/intel8086.py', '''def _Ev(instr, assembler, index, modrm):
    arg = instr.tokens[index].upper()
    if arg in REGS16:
        modrm['mod'] = 3
        modrm['rm'] = REGS16.index(arg)
        return 1, b'' if 'reg' not in modrm else _build_modrm(assembler, modrm)

    if arg == '[':
        try:
            end_index = instr.tokens.index(']', index+1)
        except ValueError:
            raise InvalidOpCodeArguments(instr)
        try:
            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
                tuple(instr.tokens[index+1:end_index]))
            return 2 + delta, b'' if 'reg' not in modrm else _build_modrm(assembler, modrm)
        except InvalidOpCodeArguments:
            return None
''', '''def _Ev(instr, assembler, index, modrm):
    arg = instr.tokens[index].upper()
    delta = None
    if arg in REGS16:
        modrm.update(mod=3, rm=REGS16.index(arg))
        delta = 1
    elif arg == '[':
        return _M(instr, assembler, index, modrm)
    if delta is None:
        return None
    return delta, _build_modrm(assembler, modrm) if 'reg' in modrm else b''
'''),
    # ---- 68000
    ('cpu/mc68000.py', '''    token = token.lower()
    if token.endswith('.b'):
        return 1, 0
    if token.endswith('.l'):
        return 4, 2
    if token.endswith('.w'):
        return 2, 1
    return 2, 1
''', '''    return {'.b': (1, 0), '.l': (4, 2)}.get(token.lower()[-2:], (2, 1))
'''),
    ('cpu/mc68000.py', '''    condition = token.split('.')[0].upper()
    if condition == 'RA':
        return 1
    return CONDITIONS.index(condition)
''', '''    condition, _, _ = token.upper().partition('.')
    return 1 if condition == 'RA' else CONDITIONS.index(condition)
'''),
    ('cpu/mc68000.py', '''        # first check the blacklist
        for black_item in blacklist:
            if black_item not in MODES:
                raise InvalidMode(instr)

        # Dn
        found, index = instr.unbound_match(D_REGS, start=start_index)
        if found and 'Dn' not in blacklist:
            return index, 0, _reg(instr.tokens[start_index]), b''

        # An
        found, index = instr.unbound_match(A_REGS, start=start_index)
        if found and 'An' not in blacklist:
            return index, 1, _reg(instr.tokens[start_index]), b''
''', '''        # first check the blacklist
        if not set(blacklist) <= set(MODES):
            raise InvalidMode(instr)

        for mode, (name, registers) in enumerate((('Dn', D_REGS), ('An', A_REGS))):
            found, index = instr.unbound_match(registers, start=start_index)
            if found and name not in blacklist:
                return index, mode, _reg(instr.tokens[start_index]), b''
'''),
    # ---- thumb
    ('cpu/thumb.py', '''        rlist = 0
        for token in tokens:
            if token.lower() in LOW_REGS:
                bit_to_set = low_reg(token)
                rlist = pack_bit(rlist, (bit_to_set, 1))
                continue
            if '-' in token:
                r_start, r_end = token.split('-')
                if not r_start.lower() in LOW_REGS:
                    raise InvalidRList()
                if not r_end.lower() in LOW_REGS:
                    raise InvalidRList()

                first = low_reg(r_start)
                last = low_reg(r_end)
                if first > last:
                    raise InvalidRList()
                for reg in range(first, last+1):
                    rlist = pack_bit(rlist, (reg, 1))
                continue
            raise InvalidRList()

        return rlist
''', '''        selected = set()
        for token in tokens:
            first, dash, last = token.lower().partition('-')
            if not dash:
                last = first
            if first not in LOW_REGS or last not in LOW_REGS or first > last:
                raise InvalidRList()
            selected.update(range(low_reg(first), low_reg(last) + 1))
        return sum(1 << reg for reg in selected)
'''),
    ('cpu/thumb.py', '''    if reg.lower() in HIGH_REGS:
        raise InvalidRegister()
    if not reg.lower() in LOW_REGS:
        raise UnknownRegister()
    return int(reg[1:])
''', '''    try:
        return LOW_REGS.index(reg.lower())
    except ValueError:
        raise (InvalidRegister() if reg.lower() in HIGH_REGS else UnknownRegister()) from None
'''),
    ('cpu/thumb.py', '''        if value & ((1 << shift) - 1):
            raise AlignmentError(arg)
        return value >> shift
''', '''        quotient, remainder = divmod(value, 1 << shift)
        if remainder:
            raise AlignmentError(arg)
        return quotient
'''),
    # ---- powerpc
    ('cpu/powerpc.py', '''            elif instr.match(*[item[2] for item in condition]):
                return pack_be32u(
                    pack_bits(base, *[
                        ((item[0] + item[1] - 1, item[0]), item[2](
                            instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                         ) for index, item in enumerate(condition)
                    ]))
''', '''                continue
            if not instr.match(*(kind for _, _, kind in condition)):
                continue
            word = base
            for token, (low, width, kind) in zip(instr.tokens[1:], condition):
                field = (low + width - 1, low)
                word = pack_bits(word, (field, kind(token, self.assembler, field)))
            return pack_be32u(word)
'''),
    ('cpu/powerpc.py', '''            if name.upper() in self.instructions:
                if len(entry) > 2:
                    self.instructions[name.upper()].add_condition(
                        entry[0], entry[2])
                else:
                    self.instructions[name.upper()].add_condition(
                        entry[0], None)
                continue

            powerpc_opcode = PowerPCOPCode(self, name)
            if len(entry) > 2:
                powerpc_opcode.add_condition(entry[0], entry[2])
            else:
                powerpc_opcode.add_condition(entry[0], None)
            self.register_instruction(entry[1], powerpc_opcode)
''', '''            base, _, *operands = entry
            if name.upper() not in self.instructions:
                self.register_instruction(name, PowerPCOPCode(self, name))
            self.instructions[name.upper()].add_condition(base, operands[0] if operands else None)
'''),
    ('assembler.py', '''    def _internal_parse_integer(self, token):
''', '''    @staticmethod
    def _number(digits, base):
        try:
            return int(digits, base)
        except ValueError:
            return None

    def _internal_parse_integer(self, token):
'''),
]
