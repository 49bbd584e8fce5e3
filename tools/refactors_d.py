'''Behaviour-preserving rewrites of whole functions, in styles the other bundles do not use: each entry
gives the new text of a function (with its decorators), which replaces the current one.'''
import ast
import os

ROOT = os.path.join(os.environ.get('NECRO_REFACTOR_FROM', '/repo'), 'necroassembler')
NEW = {}

NEW['assembler.py'] = ["""
    def _register_internal_directives(self):
        table = {
            'macro': self.macro_start, 'endmacro': self.macro_end,
            'align': self.directive_align, 'org': self.directive_org,
            'repeat': self.directive_repeat, 'endrepeat': self.directive_end_repeat,
        }
        for name in ('include', 'incbin', 'inccsv', 'inccsv_le16', 'incjson', 'define',
                     'db', 'dw', 'dd', 'fill', 'ram', 'log', 'goto', 'upto', 'section', 'export',
                     'db_to_ascii', 'dw_to_ascii', 'db_to_asciiz', 'dw_to_asciiz'):
            table[name] = getattr(self, 'directive_' + name)
        for alias, name in (('byte', 'db'), ('word', 'dw'), ('dl', 'dd'), ('dword', 'dd')):
            table[alias] = table[name]
        for name, logic in table.items():
            self.register_directive(name, logic)
""", """
    def _discover(self):
        members = [getattr(self, name) for name in dir(self)]
        for member in members:
            if not callable(member):
                continue
            for symbol in getattr(member, 'opcode', ()):
                self.register_instruction(symbol, member)
            for symbol in getattr(member, 'directive', ()):
                self.register_directive(symbol, member)
            if getattr(member, 'pre_link', False):
                self.pre_link_passes.append(member)
            if getattr(member, 'post_link', False):
                self.post_link_passes.append(member)
""", """
    def macro_start(self, instr):
        if self.macro_recording is not None:
            raise UnsupportedNestedMacro(instr)
        _, *definition = instr.tokens
        name = definition[0]
        macro = Macro(definition)
        self.macro_recording = macro
        self.macros[self._key(name)] = macro

    def _key(self, name):
        return name if self.case_sensitive else name.upper()
""", """
    def macro_end(self, instr):
        recording, self.macro_recording = self.macro_recording, None
        if recording is None:
            raise NotInMacroRecordingMode(instr)
""", """
    def _assemble_source(self, code, context=None):
        tokenizer = Tokenizer(context=context)
        tokenizer.parse(code)

        for statement in tokenizer.statements:
            before = len(self.assembled_bytes)
            statement.assemble(self)
            if not self.log:
                continue
            written = self.assembled_bytes[before:]
            if len(written) == 0:
                print(f'not assembled {statement}')
            else:
                dump = ','.join([f'0x{value:02x}' for value in written])
                print(f'assembled {statement} -> ({dump}) at 0x{before:x}')
""", """
    def assemble(self, code, context=None):
        self._assemble_source(code, context)

        # check if we need to fill something
        missing = self.current_org_end + 1 - self.pc
        if self.current_org_end > 0 and missing > 0:
            self.append_assembled_bytes(bytes([self.fill_value]) * missing)

        self._close_section()

    def _close_section(self):
        section = self.sections.get(self.current_section) if self.current_section else None
        if section is not None:
            section['end'] = self.pc
            section['size'] = len(self.assembled_bytes) - section['offset']
""", """
    def _resolve_labels(self, linker):
        for address, data in self.labels_addresses.items():
            self._resolve_label(linker, address, data)

    def _resolve_label(self, linker, address, data):
        label = data.label
        is_relative = data.relative != 0

        absolute_address = self.get_label_absolute_address_by_name(label)
        if is_relative:
            true_address = self.get_label_relative_address_by_name(label, data.relative)
        else:
            true_address = absolute_address

        if true_address is None:
            absolute_address = true_address = linker.resolve_unknown_symbol(self, address, data)

        if data.hook:
            return data.hook(address, true_address)

        if absolute_address % data.alignment:
            raise AlignmentError(label)
        if true_address < 0 and not is_relative:
            raise OnlyForwardAddressesAllowed(label, true_address)
        if not in_bit_range_decimal(true_address, data.bits_size, signed=is_relative):
            raise NotInBitRange(true_address, data.bits_size, label)

        if data.filter:
            true_address = data.filter(true_address)
        if data.bits:
            true_address = pack_bits(0, (data.bits, true_address))

        self._patch(address, data.size, true_address)

        if self.log:
            patched = ','.join('0x%02x' % x for x in self.assembled_bytes[address:address + data.size])
            print('label "%s" translated to (%s) at address %s' % (label, patched, hex(address)))

    def _patch(self, address, size, value):
        shift = 0
        positions = range(address, address + size)
        if self.big_endian:
            positions = reversed(positions)
        for position in positions:
            self.assembled_bytes[position] |= (value >> shift) & 0xFF
            shift += 8
""", """
    def directive_org(self, instr):
        arguments = instr.tokens[1:]
        if not 1 <= len(arguments) <= 2:
            raise InvalidArgumentsForDirective(instr)
        limits = []
        for argument in arguments:
            limit = self.parse_integer(argument, 64, False)
            if limit is None:
                raise InvalidArgumentsForDirective(instr)
            limits.append(limit)

        self.change_org(*limits)
""", """
    def change_org(self, start, end=0):

        if 0 < end < start:
            raise AddressOverlap()

        reached = self.current_org + self.org_counter
        previous_org, previous_end = self.current_org, self.current_org_end

        self.current_org, self.current_org_end, self.org_counter = start, end, 0

        if previous_end <= 0:
            return

        if start < reached:
            raise AddressOverlap()
        if start > previous_end:
            fill_to = previous_end + 1
        elif start > previous_org:
            fill_to = start
        else:
            raise AddressOverlap()
        # NOTE: this does not count for the new .org
        self.assembled_bytes += bytes([self.fill_value] * (fill_to - reached))
""", """
    def directive_define(self, instr):
        try:
            _, name, value = instr.tokens
        except ValueError:
            raise InvalidArgumentsForDirective(instr)
        self.defines[name] = value
""", """
    def directive_dw_to_ascii(self, instr):
        self._to_ascii(instr, 16)

    def _to_ascii(self, instr, bits):
        digits = {8: 3, 16: 5}[bits]

        def hook(address, true_address):
            if not in_bit_range(true_address, bits):
                raise NotInBitRange(true_address, bits)
            text = str(true_address).rjust(digits, '0').encode('ascii')
            for position, character in enumerate(text):
                self.assembled_bytes[address + position] = character

        for token in instr.tokens[1:]:
            if token[0] in ('"', '\\''):
                self.append_assembled_bytes(str(int(token[1:-1].encode('ascii'))).encode('ascii'))
                continue
            value = self.parse_integer(token, bits, False)
            if value is not None:
                self.append_assembled_bytes(str(value).encode('ascii'))
                continue
            self.add_label_translation(label=token, bits_size=bits, size=bits // 8, hook=hook)
            self.append_assembled_bytes(bytes(digits))
""", """
    def directive_db_to_ascii(self, instr):
        self._to_ascii(instr, 8)
""", """
    def directive_log(self, instr):
        states = {'ON': True, 'OFF': False}
        state = instr.tokens[1].upper() if len(instr.tokens) > 1 else 'ON'
        if state not in states:
            raise InvalidArgumentsForDirective(instr)
        self.log = states[state]
""", """
    def directive_fill(self, instr):
        size, value = self._extent(instr)
        self.append_assembled_bytes(bytes([value]) * size)

    def _extent(self, instr, base=0):
        '''the number of bytes up to the first argument and the value to fill them with'''
        if len(instr.tokens) < 2 or len(instr.tokens) > 3:
            raise InvalidArgumentsForDirective(instr)
        target = self.parse_integer(instr.tokens[1], 64, False)
        if target is None:
            raise InvalidArgumentsForDirective(instr)
        if target < base:
            raise AddressOverlap(instr)
        if len(instr.tokens) < 3:
            return target - base, self.fill_value
        value = self.parse_integer(instr.tokens[2], 8, False)
        if value is None:
            raise InvalidArgumentsForDirective(instr)
        return target - base, value
""", """
    def directive_goto(self, instr):
        size, value = self._extent(instr, self.pc)
        self.append_assembled_bytes(bytes([value]) * size)
""", """
    def directive_upto(self, instr):
        size, value = self._extent(instr, self.org_counter)
        self.append_assembled_bytes(bytes([value]) * size)
""", """
    def directive_ram(self, instr):
        size = self._single(instr, True)
        if size <= 0:
            raise InvalidArgumentsForDirective(instr)
        self.org_counter += size

    def _single(self, instr, signed):
        if len(instr.tokens) == 2:
            value = self.parse_integer(instr.tokens[1], 64, signed)
            if value is not None:
                return value
        raise InvalidArgumentsForDirective(instr)
""", """
    def directive_align(self, instr):
        size = self._single(instr, False)
        padding = -self.pc % size
        if padding:
            self.append_assembled_bytes(bytes([self.fill_value] * padding))
""", """
    def directive_repeat(self, instr):
        if self.repeat is not None:
            raise UnsupportedNestedRepeat(instr)
        times = self._single(instr, True)
        if times < 1:
            raise InvalidArgumentsForDirective(instr)
        self.repeat = times, len(self.assembled_bytes)
""", """
    def directive_end_repeat(self, instr):
        if self.repeat is None:
            raise NotInRepeatMode(instr)

        (size, index), self.repeat = self.repeat, None
        blob = bytes(self.assembled_bytes[index:])
        inner = {address: data for address, data in self.labels_addresses.items() if address >= index}
        shift = 0
        for _ in range(size - 1):
            shift += len(blob)
            for address, data in inner.items():
                copy = LabelData(data.label, data.size, data.bits_size,
                                 data.relative + shift if data.relative else 0)
                for name in ('offset', 'alignment', 'bits', 'hook', 'filter'):
                    setattr(copy, name, getattr(data, name))
                self.labels_addresses[address + shift] = copy
            self.append_assembled_bytes(blob)
""", """
    def parse_bytes_or_ascii(self, tokens):
        def one(token):
            if token[0] in '"\\'':
                return token[1:-1].encode('ascii')
            value = self.parse_integer(token, 8, False)
            if value is None:
                raise LabelNotAllowed()
            return pack_byte(value)

        return b''.join(map(one, tokens))
""", """
    def directive_section(self, instr):
        if len(instr.tokens) < 3 or len(instr.tokens) > 4:
            raise InvalidArgumentsForDirective(instr)
        _, name, permissions, *start = instr.tokens
        name = self.stringify(name)
        if name in self.sections:
            raise SectionAlreadyDefined(instr)
        if set(permissions) - set('RWXE'):
            raise InvalidArgumentsForDirective(instr)
        for token in start:
            new_org_start = self.parse_integer(token, 64, False)
            if new_org_start is None:
                raise InvalidArgumentsForDirective(instr)
            self.change_org(new_org_start, 0)
        self._close_section()
        self.current_section = name
        self.sections[name] = dict(start=self.pc, offset=len(self.assembled_bytes), permissions=permissions)
""", """
    def directive_export(self, instr):
        if len(instr.tokens) == 2:
            name = self.stringify(instr.tokens[1])
            if name not in self.exports:
                self.exports.append(name)
                return
            raise SymbolAlreadyExported(instr)
        raise InvalidArgumentsForDirective(instr)
""", """
    def directive_inccsv(self, instr):
        self._include_csv(instr, 8, pack_byte)

    def _include_csv(self, instr, bits, pack_value):
        if len(instr.tokens) != 2:
            raise InvalidArgumentsForDirective(instr)
        import csv
        with open(self.stringify(instr.tokens[1]), 'r') as f:
            values = [self.parse_integer(column, bits, False) for row in csv.reader(f) for column in row]
        if None in values:
            raise LabelNotAllowed(instr)
        self.append_assembled_bytes(b''.join(pack_value(value) for value in values))
""", """
    def directive_inccsv_le16(self, instr):
        self._include_csv(instr, 16, pack_le16u)
""", """
    def directive_incjson(self, instr):
        if len(instr.tokens) != 3:
            raise InvalidArgumentsForDirective(instr)
        import json
        filename, key = [self.stringify(token) for token in instr.tokens[1:]]
        with open(filename, 'rb') as f:
            node = json.load(f)
        for part in key.split('.'):
            node = node[part]
        values = bytearray()
        for item in node:
            value = item if isinstance(item, int) else self.parse_integer(item, 8, False)
            if value is None:
                raise LabelNotAllowed(instr)
            values += bytes([value])
        self.append_assembled_bytes(bytes(values))
""", """
    def _get_math_formula(self, token):
        # an ascii char is never a formula, even if it is an operator
        if token.startswith('\\''):
            return token, '', ''
        start = 0
        while start < len(token) and token[start] in '<>':
            start += 1
        pre_formula, body = token[:start], token[start:]
        if body and body[0] in '+-*/&|':
            return body, pre_formula, ''
        for position, char in enumerate(body):
            if char in '+-*/&|':
                return body[:position], pre_formula, body[position:]
        return body, pre_formula, ''
""", """
    def register_instruction(self, code, logic):
        self.instructions[self._key(code)] = logic
""", """
    def register_directive(self, name, logic):
        self.directives[self._key(name)] = logic
""", """
    @classmethod
    def main(cls, pre_link_passes=[], post_link_passes=[], linker=None):
        import sys
        import os
        arguments = sys.argv[1:]
        if len(arguments) < 2:
            print(f'usage: {os.path.basename(sys.argv[0])} <sources> <destination>')
            return
        asm = cls()
        asm.pre_link_passes.extend(pre_link_passes)
        asm.post_link_passes.extend(post_link_passes)
        destination = arguments.pop()
        for source in arguments:
            asm.assemble_file(source)
        asm.link(linker=linker)
        asm.save(destination)
"""]

NEW['cpu/mips32.py'] = ["""
    def _immediate32(self, high):
        half = (lambda value: value >> 16) if high else (lambda value: value & 0xFFFF)

        def read(token):
            value = self.parse_integer_or_label(
                label=token, bits_size=32, bits=(15, 0), size=4, filter=half)
            return half(value)

        return read
""", """
    def _abs_label(self, token):
        def words(address):
            return (address & 0x0fffffff) >> 2

        value = self.parse_integer_or_label(label=token, bits=(25, 0), bits_size=32, filter=words, size=4)
        return words(value)
""", """
    def _rel_label(self, token):
        following = self.pc + 4
        value = self.parse_integer_or_label(
            label=token, size=4, bits_size=18, bits=(15, 0), alignment=4,
            filter=lambda distance: distance // 4, relative=following)
        words, rest = divmod(value, 4)
        if rest:
            raise AlignmentError(token)
        return words
""", """
    def _build_opcode(self, base, *args):
        packer = pack_be32u if self.big_endian else pack_le32u
        return packer(pack_bits(base, *args))
""", """
    def _arith_log(self, instr, func):
        return self._r_type(instr, ('rd', 'rs', 'rt'), func)

    def _r_type(self, instr, order, func):
        if not instr.match(*([REGS] * len(order))):
            return None
        fields = dict(zip(order, instr.apply(*([_reg] * len(order)))))
        word = (fields.get('rs', 0) << 21) | (fields.get('rt', 0) << 16) | (fields.get('rd', 0) << 11) | func
        return self._build_opcode(word)
""", """
    def _div_mult(self, instr, func):
        return self._r_type(instr, ('rs', 'rt'), func)
""", """
    def _shift_v(self, instr, func):
        return self._r_type(instr, ('rd', 'rt', 'rs'), func)
""", """
    def _jump_r(self, instr, func):
        return self._r_type(instr, ('rs',), func)
""", """
    def _move_from(self, instr, func):
        return self._r_type(instr, ('rd',), func)
""", """
    def _move_to(self, instr, func):
        return self._r_type(instr, ('rs',), func)
""", """
    def _load_store(self, instr, op):
        if not instr.match(REGS, IMMEDIATE, '(', REGS, ')'):
            return
        _, target, offset, _, base, _ = instr.tokens
        rt = _reg(target)
        imm = self._offset(offset) & 0xffff
        rs = _reg(base)
        return self._build_opcode(op << 26, ((25, 21), rs), ((20, 16), rt), ((15, 0), imm))
"""]

NEW['cpu/mc68000.py'] = ["""
def _s_light(token):
    suffixes = {'.b': (1, 0), '.l': (4, 2)}
    return suffixes.get(token[-2:].lower(), (2, 1))
""", """
def _s_dark(token):
    suffix = token.lower()[-2:]
    if suffix == '.b':
        return 1, 1
    return (4, 2) if suffix == '.l' else (2, 3)
""", """
def _indexed_reg(token):
    lowered = token.lower()
    name, _, size = lowered.partition('.')
    return int(lowered[0] != 'd'), _reg(name), int(size == 'l')
""", """
def _is_indexed_reg(token):
    token = token.lower()
    if token[-2:] in ('.w', '.l'):
        token = token[:-2]
    return token in D_REGS or token in A_REGS
""", """
    def _packer(self, token, op_size, offset):
        size = 4 if op_size == 4 else 2
        value = self.parse_integer_or_label(token, size=size, bits_size=op_size * 8, offset=2 + offset)
        return pack_be32u(value) if size == 4 else pack_be16u(value)
""", """
    @opcode('ori', 'ori.w', 'ori.b', 'ori.l')
    def _ori(self, instr):
        return self._immediate_logic(instr, 0b0000)

    def _immediate_logic(self, instr, operation, special=True):
        code = operation << 8
        if special:
            for register, size, mode in (('CCR', 1, 0b00111100), ('SR', 2, 0b01111100)):
                if instr.match(IMMEDIATE, register):
                    return self._build_opcode(code | mode) + self._packer(instr.tokens[1][1:], size, 0)
        found, index = instr.unbound_match(IMMEDIATE)
        if not found:
            return None
        op_size, s = _s_light(instr.tokens[0])
        packed = self._packer(instr.tokens[1][1:], op_size, 0)
        _, mode, reg, data = self._last_mode(
            instr, index, len(packed), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
        return b''.join((self._build_opcode(code, ((7, 6), s), ((5, 3), mode), ((2, 0), reg)), packed, data))
""", """
    @opcode('andi', 'andi.w', 'andi.b', 'andi.l')
    def _andi(self, instr):
        return self._immediate_logic(instr, 0b0010)
""", """
    @opcode('eori', 'eori.w', 'eori.b', 'eori.l')
    def _eori(self, instr):
        return self._immediate_logic(instr, 0b1010)
""", """
    @opcode('subi', 'subi.w', 'subi.b', 'subi.l')
    def _subi(self, instr):
        return self._immediate_logic(instr, 0b0100, False)
""", """
    @opcode('addi', 'addi.w', 'addi.b', 'addi.l')
    def _addi(self, instr):
        return self._immediate_logic(instr, 0b0110, False)
""", """
    @opcode('cmpi', 'cmpi.w', 'cmpi.b', 'cmpi.l')
    def _cmpi(self, instr):
        return self._immediate_logic(instr, 0b1100, False)
""", """
    @opcode('jsr')
    def _jsr(self, instr):
        return self._jump(instr, 0b10)

    def _jump(self, instr, kind):
        _, mode, reg, data = self._last_mode(
            instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
        return self._build_opcode(0b0100111000000000 | (kind << 6) | (mode << 3) | reg) + data
""", """
    @opcode('jmp')
    def _jmp(self, instr):
        return self._jump(instr, 0b11)
"""]

NEW['cpu/mos6502.py'] = ["""
def is_zero_page(address):
    return address >= 0 and address >> 8 == 0
""", """
    def _manage_branching(self, instr, code):
        _, target = instr.tokens[:2]
        following = self.pc + 2
        distance = self.parse_integer_or_label(target, 1, 8, relative=following, offset=1)
        return bytes([code]) + pack('b', distance)
""", """
    def _manage_mode(self, instr, **kwargs):

        if not known_args(kwargs, _AVAILABLE_MODES):
            raise InvalidMode()

        if instr.match(REG_A):
            return pack_byte(self._mode_code(kwargs, 'accumulator'))

        if instr.match(IMMEDIATE):
            code = self._mode_code(kwargs, 'immediate')
            value = self.parse_integer_or_label(label=instr.tokens[1][1:], bits_size=8, offset=1, size=1)
            return pack_byte(code, value)

        direct = (((ADDRESS,), ''), ((ADDRESS, REG_X), '_x'), ((ADDRESS, REG_Y), '_y'))
        for pattern, suffix in direct:
            if instr.match(*pattern):
                return self._manage_address(
                    kwargs.get('absolute' + suffix), kwargs.get('zero_page' + suffix), instr.tokens[1])

        if instr.match('(', ADDRESS, ')'):
            return self._manage_address(self._mode_code(kwargs, 'indirect'), None, instr.tokens[2])

        if instr.match('(', ADDRESS, REG_X, ')'):
            return self._manage_address(None, self._mode_code(kwargs, 'indirect_x'), instr.tokens[2])

        if instr.match('(', ADDRESS, ')', REG_Y):
            return self._manage_address(None, self._mode_code(kwargs, 'indirect_y'), instr.tokens[2])

        raise InvalidMode()

    @staticmethod
    def _mode_code(codes, mode):
        if mode not in codes:
            raise UnsupportedModeForOpcode()
        return codes[mode]
"""]

NEW['cpu/lr35902.py'] = ["""
    def _data8(self, arg):
        return bytes((self.parse_integer_or_label(arg, 1, 8, offset=1),))
""", """
    def _data16(self, arg):
        return self.parse_integer_or_label(arg, 2, 16, offset=1).to_bytes(2, 'little')
""", """
    def _reg_name(self, reg):
        name = reg.lower()
        for sign, word in (('+', '_plus'), ('-', '_minus')):
            name = name.replace(sign, word)
        return name
""", """
    def _build_cb_opcode(self, instr, **kwargs):
        *bit, operand = self._cb_operand(instr)
        if operand is None:
            return None
        name = '_'.join(['b' + number for number in bit] + [operand])
        if name not in kwargs:
            raise InvalidOpCodeArguments()
        return pack_byte(0xCB, kwargs[name])

    def _cb_operand(self, instr):
        if instr.match(REGS8):
            return self._reg_name(instr.tokens[1]),
        for opening, closing in ('()', '[]'):
            if instr.match(opening, 'HL', closing):
                return 'ind_hl',
            if instr.match(NUMBER, opening, 'HL', closing):
                return instr.tokens[1], 'ind_hl'
        if instr.match(NUMBER, REGS8):
            return instr.tokens[1], self._reg_name(instr.tokens[2])
        return None,
""", """
    @opcode('LDH')
    def _ldh(self, instr):
        for opening, closing in (('(', ')'), ('[', ']')):
            if instr.match(opening, VALUE, closing, 'A'):
                return b'\\xe0' + self._data8(instr.tokens[2])
            if instr.match('A', opening, VALUE, closing):
                return b'\\xf0' + self._data8(instr.tokens[3])
""", """
    @opcode('RST')
    def _rst(self, instr):
        vectors = ['%02XH' % vector for vector in range(0, 0x40, 8)]
        if instr.match(vectors):
            return pack_byte(0xC7 | int(instr.tokens[1][:2], 16))
"""]

NEW['cpu/thumb.py'] = ["""
def low_reg(reg):
    name = reg.lower()
    if name in LOW_REGS:
        return LOW_REGS.index(name)
    raise InvalidRegister() if name in HIGH_REGS else UnknownRegister()
""", """
    def _scaled(self, arg, bits, shift):
        value = self.parse_integer(arg[1:], 32, True)
        if value is None:
            raise InvalideImmediateValue()
        limit = bits + shift
        if value < 0 or value >> limit:
            raise NotInBitRange(value, limit)
        quotient, rest = divmod(value, 1 << shift)
        if rest:
            raise AlignmentError(arg)
        return quotient
""", """
    def _shift32(self, arg):
        value = self._imm(arg)
        if value == 32:
            return 0
        if value == 0 or value > 32:
            raise NotInBitRange(value, 5)
        return value
""", """
    def _alu(self, instr, op):
        if not instr.match(LOW_REGS, LOW_REGS):
            return None
        rd, rs = [low_reg(token) for token in instr.tokens[1:]]
        return pack_le16u(0x4000 | op << 6 | rs << 3 | rd)
""", """
    def _rlist(self, tokens):
        rlist = 0
        for token in tokens:
            first, dash, last = token.lower().partition('-')
            if not dash:
                last = first
            if first not in LOW_REGS or last not in LOW_REGS:
                raise InvalidRList()
            low, high = low_reg(first), low_reg(last)
            if low > high:
                raise InvalidRList()
            while low <= high:
                rlist |= 1 << low
                low += 1
        return rlist
""", """
    @opcode('CMP')
    def _cmp(self, instr):
        if instr.match(LOW_REGS, IMMEDIATE):
            rd, imm = instr.apply(low_reg, self._imm)
            return self._build_opcode(0b0010100000000000 | rd << 8 | imm)

        kinds = ((LOW_REGS, HIGH_REGS), (HIGH_REGS, LOW_REGS), (HIGH_REGS, HIGH_REGS))
        for hs, (left, right) in enumerate(kinds, 1):
            if instr.match(left, right):
                readers = [high_reg if kind is HIGH_REGS else low_reg for kind in (left, right)]
                rd, rs = instr.apply(*readers)
                return self._build_opcode(0b0100010100000000, ((7, 6), hs), ((5, 3), rs), ((2, 0), rd))

        return self._alu(instr, 0b1010)
""", """
    @opcode('BL')
    def _bl(self, instr):
        if not instr.match(LABEL):
            return None

        target = instr.tokens[1]
        distance = self.parse_integer(target, 23, signed=True)
        if distance is None:
            halves = (lambda value: value >> 12, lambda value: (value >> 1) & 0x7FF)
            for position, half in enumerate(halves):
                self.add_label_translation(label=target, offset=position * 2, size=2, bits_size=23, bits=(10, 0),
                                           alignment=2, relative=self.pc + 4, filter=half)
            distance = 0
        if distance % 2:
            raise AlignmentError(target)
        high, low = (distance >> 12) & 0x7ff, (distance >> 1) & 0x7ff
        return pack_le16u(0xf000 | high, 0xf800 | low)
""", """
    @opcode('PUSH')
    def _push(self, instr):
        _, *arguments = instr.tokens
        if len(arguments) >= 3 and arguments[0] == '{' and arguments[-1] == '}':
            registers = arguments[1:-1]
            lr = registers[-1].lower() == 'lr'
            if lr:
                registers = registers[:-1]
            return self._build_opcode(0b1011010000000000 | (1 << 11 if lr else 0), ((7, 0), self._rlist(registers)))
        return None
"""]

NEW['cpu/powerpc.py'] = ["""
def _g0reg(token, assembler=None, bits=None):
    if assembler is None:
        return token == '0' or _greg(token)
    return 0 if token == '0' else _greg(token, assembler, bits)
""", """
def _word_field(assembler, token, bits, relative):
    high, low = bits
    # the two low bits of distances and addresses are not encoded
    total_bits = high - low + 3
    limit = 1 << (total_bits - 1)

    def words(value):
        if value < -limit or value >= limit:
            raise NotInBitRange(value, total_bits, token)
        return value // 4

    value = assembler.parse_integer(token, total_bits, signed=True)
    if value is not None:
        if value % 4 != 0:
            raise AlignmentError(token)
        return value // 4
    assembler.add_label_translation(
        label=token, size=4, bits_size=total_bits, bits=bits, filter=words, alignment=4, relative=relative)
    return 0
""", """
def _ui(token, assembler=None, bits=None):
    return _integer(token, assembler, bits, False)


def _integer(token, assembler, bits, signed):
    if assembler is None:
        name = token.lower()
        return not (name in GREGS or name in FREGS)
    high, low = bits
    return assembler.parse_integer_or_label(token, size=4, bits_size=high - low + 1, bits=bits, signed=signed)
""", """
def _si(token, assembler=None, bits=None):
    return _integer(token, assembler, bits, True)
""", """
def _num(token, assembler=None, bits=None):
    return _integer(token, assembler, bits, False)
""", """
def _snum(token, assembler=None, bits=None):
    return _integer(token, assembler, bits, True)
""", """
    def __call__(self, instr):
        for base, condition in self.conditions:
            operands = condition or ()
            if condition is None and len(instr.tokens) != 1:
                continue
            if condition is not None and not instr.match(*[reader for _, _, reader in operands]):
                continue
            word = base
            for token, (shift, width, reader) in zip(instr.tokens[1:], operands):
                field = (shift + width - 1, shift)
                word = pack_bits(word, (field, reader(token, self.assembler, field)))
            return pack_be32u(word)
"""]


def _edits():
    out = []
    for path, functions in NEW.items():
        text = open(os.path.join(ROOT, path)).read()
        lines = text.splitlines(True)
        spans = {}
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, ast.FunctionDef):
                first = min([node.lineno] + [d.lineno for d in node.decorator_list])
                spans.setdefault(node.name, (first - 1, node.end_lineno))
        for new in functions:
            new = new.lstrip('\n')
            name = new[new.index('def ') + 4:].split('(')[0]
            first, last = spans[name]
            out.append((path, ''.join(lines[first:last]), new))
    return out


R = _edits()
