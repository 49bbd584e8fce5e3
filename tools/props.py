'''The properties: source of properties.jsonl and of the manifest entries (tools/gen.py).'''
A = 'necroassembler/assembler.py'
S = 'necroassembler/statements.py'
U = 'necroassembler/utils.py'
T = 'necroassembler/tokenizer.py'
MA = 'necroassembler/macros.py'
L = 'necroassembler/linker.py'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=(), claim=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), claim=claim))


PROG = ['inputs', 'programs']

prop('C01', 'A label is its origin plus everything emitted or reserved since',
     'The value of a label is the address of the origin it is defined under plus the number of bytes emitted and reserved between that origin and the definition, whatever statements produced them. Every statement that produces output moves the position by exactly the length of that output, and reserved memory moves it without producing output.',
     PROG, 'every origin, every earlier output, every pair of statement kinds before the label with every operand value and content length, both byte orders',
     'tests place labels after a handful of fixed statements; the property must hold after any combination of instructions, data, includes, macros, repeats, padding and sections with any sizes',
     [A, S], [('position counter advanced with every append', A + ':append_assembled_bytes'), ('label definition records the position', S + ':Label.assemble')],
     ['assemble()/link() output of a .dd of the label'])
prop('C02', 'Padding emits exactly the bytes that reach the target',
     'A fill emits exactly the requested number of bytes, and an alignment, a jump to an address, a jump to an offset and the end of a bounded region emit exactly the bytes that separate the current position from the target, each equal to the requested or the declared default fill value. A target behind the current position is refused, and reserved memory emits nothing.',
     PROG, 'every position, origin, size, target and fill value, also after reserved memory, with both byte orders',
     'tests use one or two fixed positions with origin zero, where the address, the offset and the output length coincide',
     [A], [('padding directives', A + ':directive_fill/align/goto/upto/ram'), ('end of a bounded region', A + ':assemble, change_org')])
prop('C03', 'Bounded regions are filled up exactly and never overlap',
     'The output of a region with a declared end always spans from its start to its last byte (included), or to the start of the next region when that lies inside it, and missing bytes are the fill value. A region that starts before the current position of a bounded region, or ends before it starts, is refused.',
     PROG, 'every sequence of up to three origins or sections with any starts, ends and contents in any relative order',
     'the relative order of start, end and position has many cases; the tests fix one of them per test',
     [A], [('origin change', A + ':change_org'), ('end of source', A + ':assemble')])
prop('C04', 'An integer literal is emitted exactly or refused',
     'A literal in any declared notation contributes exactly its value to the field it is written for (two\'s complement for negative decimals, the character code for character literals). A literal that does not fit its field, or a sign in front of a non decimal literal, is refused and never truncated.',
     ['inputs'], 'every value below 2**70 in every notation (prefixes and suffixes of four radixes), every field width, data directives and instruction operands, both byte orders',
     'tests sample a few values per notation; the boundary behaviour at each width and the order in which notations are tried need every value',
     [A, U], [('literal parser', A + ':parse_integer, _internal_parse_integer'), ('range checks', U + ':in_bit_range, in_bit_range_decimal')])
prop('C05', 'A label reference resolves to the exact field or is refused',
     'Each reference is replaced by the address of its label, or its distance from the declared start for relative references, transformed, placed in the declared bits and written with the declared size, offset and byte order without touching any other bit. An address that does not fit or is not aligned is refused, and forward and backward references give the same bytes.',
     PROG, 'every label address and reference position, every combination of size, width, bits, alignment, offset, filter and relative start used by clients, both byte orders',
     'tests use small programs whose addresses fit every field; boundaries, alignment and field placement need symbolic addresses',
     [A], [('reference record', A + ':add_label_translation'), ('resolution', A + ':_resolve_labels')])
prop('C06', 'Every label has one meaning, visible everywhere',
     'A label name is defined at most once over all sources, is never also a number and contains only letters, digits, underscores and dots; anything else is refused. A definition is visible from every statement before or after it in every source, and a reference to a name that is never defined refuses the program.',
     PROG, 'every name (symbolic characters), every order of definition and use, definitions across includes, sections, regions and sources',
     'tests define one duplicate and one unknown label',
     [S, A, T], [('definition', S + ':Label.assemble'), ('lookup', A + ':get_label_absolute_address_by_name')])
prop('C07', 'Operand arithmetic is exact and checked',
     'A formula on a literal or a label denotes its byte selection followed by its operators from left to right over exact integers. The result must fit the field it is written for, otherwise the program is refused.',
     ['inputs'], 'every operator, every pair of operators, every byte selection, on literals, labels and both, with symbolic operands',
     'tests evaluate a few constants',
     [A], [('formula split', A + ':_get_math_formula'), ('evaluation', A + ':apply_math_formula')])
prop('C08', 'Source text is split into statements the same way everywhere',
     'Separators, brackets, strings, character literals, comments and labels have the same meaning at every position of a line: a comment never becomes a token, a separator inside a string never splits it, a bracket is always its own token and every statement carries the number of the line it ends on. A string or character literal that is not closed, and a label name after other tokens, is refused.',
     ['inputs'], 'every character class at every reachable lexical situation, followed by every continuation that could expose a difference',
     'the tests run about twenty fixed lines; a character class in a rarely visited situation is not exercised',
     [T], [('state machine', T + ':Tokenizer._state_*'), ('line counter', T + ':Tokenizer.parse')])
prop('C09', 'Data directives emit exactly their operands in order',
     'A data directive emits its operands in source order, each as its value in the width of the directive and the byte order of the assembler, or as the characters of a string in the encoding of that width. The text conversions emit the decimal digits of the value, with a final zero byte where requested, and never write outside the bytes they reserved.',
     ['inputs'], 'every operand kind (literal, string of any length and content, label, formula), every operand list shape, both byte orders, every label value for the conversions',
     'tests use fixed short lists in little endian',
     [A], [('data directives', A + ':directive_db/dw/dd'), ('text conversions', A + ':directive_db_to_ascii/dw_to_ascii')])
prop('C10', 'Included data and sources behave as if written in place',
     'Including a source file is equivalent to writing its statements at that point, including its labels, origins, macros and defines. Including a binary, tabular or structured data file emits exactly its bytes or values in order, and a value that is not a number or does not fit is refused.',
     PROG + ['configurations'], 'every file content and length, every statement kind inside and around the include, nesting of includes, every value in the tables',
     'tests include no files at all; equivalence with the inlined text quantifies over all contents',
     [A], [('include', A + ':directive_include'), ('data files', A + ':directive_incbin/inccsv/incjson')])
prop('C11', 'A macro call is the substitution of its arguments',
     'Calling a macro assembles exactly its recorded statements with each parameter replaced by the argument of that call, at every call, independently of earlier calls, successful or not. A call with too few arguments, a nested definition or a label inside a definition is refused, and defining a macro emits nothing.',
     PROG + ['histories'], 'every number of parameters and arguments, every sequence of calls and failures, every operand value and label, nested calls',
     'tests call two macros with fixed arguments; independence between calls quantifies over histories',
     [MA, S], [('recording', MA + ':Macro.add_instruction'), ('expansion', MA + ':Macro.assemble')])
prop('C12', 'A repeated block is the block written that many times',
     'A repeat block emits its content exactly the requested number of times and the result is the same as writing the block that many times, including the references to labels it contains. A count below one, an end without a start or a nested repeat is refused.',
     PROG, 'every count, every statement kind in the block, references (absolute and relative) at any offset',
     'tests repeat constant data only',
     [A], [('repeat', A + ':directive_repeat, directive_end_repeat')])
prop('C13', 'Names are compared as the assembler declares',
     'Instruction mnemonics, directives and macro names match in any mixture of cases when the assembler is case insensitive and only exactly otherwise, while labels and defines always match exactly. A define replaces every later occurrence of its name as a whole word, and nothing else: text inside quotes is never touched, and a later definition of the same name takes over from there on.',
     ['inputs', 'programs', 'configurations'], 'every spelling of every registered name, every position of a defined word inside a token',
     'tests use one spelling per name',
     [S, A, U], [('dispatch', S + ':Instruction.assemble, Directive.assemble'), ('substitution', U + ':substitute_with_dict')])
prop('C14', 'A malformed statement is refused with a located error',
     'An instruction that cannot be encoded, for whatever reason, is refused with an assembler error that carries its line, and emits nothing. No error condition is detected and then ignored: every error object that is built is raised, and a failed statement leaves later statements of the same assembler unaffected.',
     PROG + ['fault_sequences'], 'every way an instruction logic can fail (refusal, missing result, crash), every line number and file name; every error construction site in the package',
     'tests check that some errors are raised; that none is built and dropped is a fact about all sites',
     [S, A, 'necroassembler/exceptions.py'], [('error wrapping', S + ':Instruction.assemble'), ('error classes', 'necroassembler/exceptions.py')])
prop('C15', 'Assembler instances do not share mutable state',
     'Two assembler objects of the same or of different classes never influence each other: what one assembles, defines, exports or links has no effect on the other. In particular no operation of an object changes a class, a module or a default argument.',
     ['histories', 'programs'], 'every attribute, every method of every assembler class, every order of operations on two objects',
     'tests use a fresh object per test, so leaks between objects are invisible',
     [A, L, T, MA], [('per object copies', A + ':Assembler.__init__')])
prop('C16', 'ELF output is a well formed object describing the program',
     'The ELF linker produces a file whose header, section table, string tables and symbol table agree with each other and with the assembled program in both classes and both byte orders: each declared section appears with its name, flags, address, size and exact bytes, and each exported label with its name, value and section. A reference to a name the program does not define is refused, because the file could not express it.',
     PROG + ['configurations'], 'every number of sections and symbols, any names, permissions, contents and addresses, 32 and 64 bit, little and big endian',
     'no test covers the ELF writer',
     [L], [('ELF writer', L + ':ELF.link')])
prop('C17', 'Sources, link passes and output follow the command line',
     'The command line assembles every source in the given order into one program, runs the pre-link passes, the label resolution, the post-link passes and the linker exactly once in this order, and writes exactly the linked bytes to the destination. Fewer than two arguments prints the usage and writes nothing, and a refused program writes nothing.',
     ['configurations', 'programs'], 'every number of sources, registered passes, linkers and failures at any stage',
     'tests never call the command line entry point',
     [A], [('entry point', A + ':Assembler.main'), ('link order', A + ':link')])
prop('C18', 'Packing helpers encode every value in range and nothing else',
     'The packing helpers of the public API emit each argument modulo the field size in the named width, signedness and byte order, with a missing argument as zero. The bit field helpers place each value exactly in its bits, leave other bits untouched and refuse values that do not fit the field.',
     ['inputs'], 'every argument value and count, every bit position and width',
     'tests touch the helpers only through a few instructions',
     [U], [('packing', U + ':pack_*'), ('bit fields', U + ':pack_bits, pack_bit')])
for pid, cpu, f, doc in (('C20', '6502', 'mos6502', '6502 opcode matrix'), ('C21', 'Game Boy (LR35902)', 'lr35902', 'LR35902 opcode matrix'),
                         ('C22', 'Z80', 'z80', 'Z80 opcode tables'), ('C23', '8086', 'intel8086', '8086 instruction formats'),
                         ('C24', '68000', 'mc68000', '68000 instruction formats'), ('C25', 'MIPS', 'mips32', 'MIPS I/32 instruction formats'),
                         ('C26', 'Thumb', 'thumb', 'Thumb instruction formats'), ('C27', 'PowerPC', 'powerpc', 'PowerPC instruction formats')):
    prop(pid, 'The %s assembler encodes the instruction set' % cpu,
         'Every supported instruction and addressing form of the %s assembler is encoded exactly as the processor manual specifies, with every operand value in its field in the processor byte order, for literals and for labels. An operand that does not fit its field, or a form the instruction does not have, is refused.' % cpu,
         ['inputs', 'programs'], 'every mnemonic, every combination of operand forms, every operand value, every label address and program counter',
         'tests check a few encodings per mnemonic with fixed operands; operand ranges, label operands and illegal forms are not covered',
         ['necroassembler/cpu/%s.py' % f, S, A], [('instruction logic and tables', 'necroassembler/cpu/%s.py' % f)])
prop('C28', 'The x86 assembler encodes register, memory, immediate and branch instructions',
     'In each of the three modes (.bits 16, 32 and 64, 64 when there is none) the x86 instructions without operands, and those on 16, 32 and 64 bit general registers, the memory forms the assembler has a syntax for, immediates and branch targets are encoded exactly as the processor manual specifies for that mode (size prefixes, REX.W, opcode, addressing bytes, immediate or distance, little endian), for literals and for labels, or refused. Operands of different sizes, a missing or surplus operand, a register the mode does not have and a value that does not fit are refused. 8 bit registers, control flow through memory, coprocessor and vector operands may be refused.',
     ['inputs', 'programs'], 'every mode, mnemonic, combination of operand forms and registers, operand value, label address and program counter',
     'no test covers the x86 assembler',
     ['necroassembler/cpu/x86.py', S, A], [('operand readers and table', 'necroassembler/cpu/x86.py'), ('row selection, prefixes and groups', 'necroassembler/cpu/x86.py:X86OpCode')])
prop('C19', 'Every processor class reads the numbers and statements of its language',
     'Each processor and console class reads every number notation of its assembler language (prefixes and suffixes of its radixes, plain decimals, negative decimals in two\'s complement, characters) as exactly that value in data and in instructions, refuses a value that does not fit and a text that only looks like a number with an assembler error, emits data in the byte order of its processor, and gives every core statement (data, labels, padding, regions, sections, includes, macros, repeats, defines) the meaning it has in every other class.',
     ['inputs', 'programs', 'configurations'], 'every class, every notation with every value below 2**70, every core statement with unknown operands after unknown output',
     'tests exercise a few notations and statements on one or two of the thirteen classes',
     [A, 'necroassembler/cpu', 'necroassembler/platforms'], [('declared notations and byte order', 'necroassembler/cpu/*.py: hex_prefixes, big_endian, ...'), ('literal parser', A + ':_internal_parse_integer')])
PL = 'necroassembler/platforms/'
prop('C30', 'A Game Boy cartridge has a valid header',
     'The header directive at offset 256 emits the entry jump, the logo and the default fields, and is refused anywhere else. Each field directive changes exactly its documented bytes and refuses a value that does not fit. The linked image carries the header checksum and the global checksum the console documentation defines, over its final bytes.',
     ['programs', 'inputs'], 'every field value, every program content and length before and behind the header, labels resolved by the linker',
     'no test covers the platform modules', [PL + 'gameboy.py', A], [('header', PL + 'gameboy.py:_generate_cartridge_header, _cartridge_fill'), ('checksums', PL + 'gameboy.py:_fix')])
prop('C31', 'A NES image has a valid iNES header',
     'The header directive at the start of the output emits the iNES signature and default counts, and is refused behind any output. Each bank directive sets exactly its documented byte. The entry point writes the linked image and symbol files with one line for every label in the ROM and in the RAM, and nothing for a refused program.',
     ['programs', 'inputs'], 'every bank count, every program content, every label address',
     'no test covers the platform modules', [PL + 'nes.py', A], [('header', PL + 'nes.py:_generate_cartridge_header, _cartridge_fill'), ('entry point', PL + 'nes.py:main')])
prop('C32', 'Image directives convert pixels to the tile format of the console',
     'The image directives of the Game Boy, Master System and NES targets emit every tile of the picture, row of tiles by row of tiles, with each pixel in exactly the plane bits the console documentation defines. A picture that is not indexed, has a size the directive does not accept or a colour the format has no bits for is refused.',
     ['inputs'], 'every pixel value at every position, every picture size and mode',
     'no test covers the image directives', [PL + 'gameboy.py', PL + 'sms.py', PL + 'nes.py'],
     [('Game Boy tiles', PL + 'gameboy.py:_build_tiles'), ('Master System tiles', PL + 'sms.py:_build_tiles'), ('NES pattern table', PL + 'nes.py:_build_chr_pattern_table')])
prop('C33', 'GBA and Mega Drive images carry their checksums',
     'The linked image of the Game Boy Advance and of the Mega Drive targets carries, at the documented header offset, the checksum the console documentation defines over the final bytes of the image, all other bytes are those of the program, and a refused program writes nothing.',
     ['programs', 'inputs'], 'every program content and length, labels resolved by the linker',
     'no test covers the platform modules', [PL + 'gba.py', PL + 'genesis.py'], [('GBA', PL + 'gba.py:main'), ('Mega Drive', PL + 'genesis.py:main')])
prop('C34', 'A PlayStation executable describes its program',
     'A PlayStation executable has the documented header, with the entry point, load address and size of the assembled program and the initial stack pointer, followed by the program in little endian order padded to a whole number of sectors. A refused program writes nothing.',
     ['programs', 'inputs'], 'every program content and length',
     'no test covers the platform modules', [PL + 'psx.py'], [('executable', PL + 'psx.py:main')])
prop('C35', 'The ELF entry points write an object of their processor',
     'The i386, PowerPC and x86-64 entry points write, to the destination only, a relocatable ELF object of the class, byte order, machine number and alignment of the processor that describes the sections and exported labels of all the given sources. A refused program or an incomplete command line writes nothing.',
     ['programs', 'configurations'], 'every section layout, content and address, every set of exported labels, one and several sources',
     'no test covers the entry points', [PL + 'i386_elf32.py', PL + 'ppc_elf32.py', PL + 'x86_64_elf64.py', L, A],
     [('i386', PL + 'i386_elf32.py:main'), ('PowerPC', PL + 'ppc_elf32.py:main'), ('x86-64', PL + 'x86_64_elf64.py:main')])
prop('C36', 'The named registers of a console stand for their addresses',
     'On the Game Boy, NES and Master System targets each register and memory name the target documents means the hardware address of that register in data and in instruction operands, alone and in formulas, before and after other code. The names are words: they are not replaced inside strings or other names and not in lower case, and a program that gives such a name a meaning of its own gets that meaning.',
     ['programs', 'inputs'], 'every documented name, every operand position that takes an address, every offset',
     'no test covers the platform modules', [PL + 'gameboy.py', PL + 'nes.py', PL + 'sms.py', U], [('defines of the console', PL + '*.py'), ('substitution', U + ':substitute_with_dict')])
prop('C40', 'A formula in an instruction encodes like its value',
     'In every instruction of every processor whose operand is a number or a label, a formula can stand in its place: LABEL+K and LABEL-K give exactly the bytes (or the refusal) of a label K bytes further or nearer, END-START those of a label at that distance, <LABEL and >LABEL those of a label at that byte value, and N+K, N-K, N*3 those of the literal result. This holds whether the labels are defined before or after the instruction, and forward and backward references encode alike. Exempt: byte selection on branch targets, zero page choice of the 6502 between forward and backward labels below 256, operands where an operator or sign is part of the syntax (SP+n, $FF00+n, index displacements, INT 3, negative sums in Thumb ADD sp) and Thumb SWI.',
     ['inputs', 'programs', 'configurations'], 'every mnemonic of every processor, every operand form that takes a number or a label, every address, every distance',
     'tests use formulas in a handful of instructions with fixed numbers; the agreement of both code paths quantifies over addresses and all instructions',
     [A] + ['necroassembler/cpu/%s.py' % c for c in ('mos6502', 'lr35902', 'z80', 'intel8086', 'mc68000', 'mips32', 'thumb', 'powerpc')],
     [('label path', A + ':parse_integer_or_label'), ('resolution', A + ':_resolve_labels')])
