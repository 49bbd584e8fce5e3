from tools.seeds_core import C
ASM, TOK, ST, MAC, UT = 'assembler.py', 'tokenizer.py', 'statements.py', 'macros.py', 'utils.py'
SEEDS = [
 # ---------------------------------------------------------------- C08 tokenizer
 dict(id='C08-comment-cr', property='C08', needs='a comment at the end of a line of a file with bare carriage returns',
      breaks='a comment only ends at a line feed, so in a file with carriage return line ends the statement after the comment disappears',
      edits=[(TOK, '''        if char in ('\\n', '\\r'):
            self.state = self._state_token
''', '''        if char == '\\n':
            self.state = self._state_token
''')],
      demo=C + '''
assert asm(X, '.db 1 ; one\\r.db 2\\r.db 3') == bytes((1, 2, 3))
'''),
 dict(id='C08-token-before-quote', property='C08', needs='a quoted character directly after an operand, without a separator',
      breaks='an operand directly followed by a quoted character is glued to it',
      edits=[(TOK, '''    def _token_char(self):
        if self.current_token:
            self.tokens.append(self.current_token)
        self.current_token = ''
''', '''    def _token_char(self):
''')],
      demo=C + '''
assert asm(X, ".db 1'A'") == bytes((1, 65))
'''),
 dict(id='C08-escape-in-char', property='C08', needs='an escaped quote inside a quoted character',
      breaks='after an escape in single quotes the tokenizer continues as if in double quotes, and swallows the following source',
      edits=[(TOK, '''    def _state_escaped_char(self, char):
        self.current_token += char
        self.state = self._state_char
''', '''    def _state_escaped_char(self, char):
        self._state_escaped_string(char)
''')],
      demo=C + '''
assert asm(X, ".db '\\\\\\\\' 2\\n.db 3 \\"x\\"") == bytes((92, 2, 3, 120))
'''),
 # ---------------------------------------------------------------- C09 data directives
 dict(id='C09-asciiz-each', property='C09', needs='.db_to_asciiz with a label whose value has fewer digits than the field',
      breaks='the text of a label shorter than the field is written without leading zeros, so stale bytes remain',
      edits=[(ASM, "blob = format(true_address, '03d').encode('ascii')", "blob = format(true_address, '3d').strip().encode('ascii')")],
      demo=C + '''
assert asm(X, '.org 7\\nlab:\\n.db_to_ascii lab') == b'007'
'''),
 dict(id='C09-dd-single-quotes', property='C09', needs='a single quoted string of more than one character in .dd',
      breaks='single quoted strings in 32 bit data are taken for labels',
      edits=[(ASM, '''    def directive_dd(self, instr):
        for token in instr.tokens[1:]:
            blob = b\'\'
            if token[0] in ('"', '\\''):''', '''    def directive_dd(self, instr):
        for token in instr.tokens[1:]:
            blob = b\'\'
            if token[0] == '"':''')],
      demo=C + '''
assert asm(X, ".dd 'AB' 'C'") == b'A\\0\\0\\0B\\0\\0\\0C\\0\\0\\0'
'''),
 dict(id='C09-ascii-two-digits', property='C09', needs='.db_to_ascii with a literal below ten and no other operand',
      breaks='one digit numbers are converted to two digits when they are the only operand',
      edits=[(ASM, '''                        label=token, bits_size=8, size=1, hook=db_to_str)
                    blob = bytes(3)
                else:
                    blob = str(value).encode('ascii')''', '''                        label=token, bits_size=8, size=1, hook=db_to_str)
                    blob = bytes(3)
                else:
                    blob = '{0:0{1}d}'.format(value, 4 - len(instr.tokens)).encode('ascii')''')],
      demo=C + '''
assert asm(X, '.db_to_ascii 7') == b'7'
'''),
 # ---------------------------------------------------------------- C10 includes
 dict(id='C10-json-width', property='C10', needs='a JSON array holding a decimal string above 127',
      breaks='decimal strings in JSON arrays are parsed as signed, values from 128 are refused or negative',
      edits=[(ASM, 'item = self.parse_integer(item, 8, False)', 'item = self.parse_integer(item, 8, item.isdigit())')],
      demo=C + '''
d = tempfile.mkdtemp()
open(d + '/a', 'w').write('{"k": {"v": ["200", 3, "0x41"]}}')
assert asm(X, '.incjson "%s/a" "k.v"' % d) == bytes((200, 3, 65))
'''),
 dict(id='C10-csv-first-row', property='C10', needs='a table of 16 bit values with more than one column',
      breaks='only the first column of a table of 16 bit values is emitted when the row starts with zero',
      edits=[(ASM, '''                    value = self.parse_integer(column, 16, False)
                    if value is None:
                        raise LabelNotAllowed(instr)
''', '''                    value = self.parse_integer(column, 16, False)
                    if value is None:
                        raise LabelNotAllowed(instr)
                    if not value and blob.endswith(b'\\0\\0'):
                        break
''')],
      demo=C + '''
d = tempfile.mkdtemp()
open(d + '/a', 'w').write('1,0,0,0,2\\n3')
assert asm(X, '.inccsv_le16 "%s/a"' % d) == bytes((1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 3, 0))
'''),
 # ---------------------------------------------------------------- C11 macros
 dict(id='C11-param-in-mnemonic', property='C11', needs='a parameter used as the mnemonic of a statement of the macro',
      breaks='parameters are not replaced in the first token of the recorded statements',
      edits=[(MAC, 'substitute_with_dict(instr.tokens, macro_dict, 0)', 'substitute_with_dict(instr.tokens, macro_dict, 1)')],
      demo=C + '''
assert asm(X, '.macro m p q\\np q\\n.endmacro\\nm L8 3\\nm .db 4' if False else '.macro m p q\\np q\\n.endmacro\\nm L8 3') == b'\\x18\\x03'
'''),
 dict(id='C11-shared-copy', property='C11', needs='a macro that is called twice with different arguments, the parameter inside a formula',
      breaks='a parameter inside a larger token is substituted in the recorded statement itself',
      edits=[(MAC, 'original_tokens = instr.tokens.copy()', "original_tokens = instr.tokens if len(instr.tokens) > 2 else instr.tokens.copy()")],
      demo=C + '''
src = '.macro m p\\nR8 p\\nL8 p\\nF5 p\\n.endmacro\\nm 1\\nm 2'
assert asm(X, src).count(b'\\x18\\x02') == 1
class Y(X):
    @opcode('TW')
    def _tw(self, instr):
        return pack_byte(self.parse_integer(instr.tokens[1], 8, False), self.parse_integer(instr.tokens[2], 8, False))
assert asm(Y, '.macro m p\\nTW p+1 9\\n.endmacro\\nm 1\\nm 5') == bytes((2, 9, 6, 9))
'''),
 # ---------------------------------------------------------------- C12 repeat
 dict(id='C12-repeat-position', property='C12', needs='a label after a repeated block',
      breaks='the copies of a repeated block do not advance the position, so later labels are too low',
      edits=[(ASM, '''                self.labels_addresses[address + i * len(blob)] = translation
            self.append_assembled_bytes(blob)''', '''                self.labels_addresses[address + i * len(blob)] = translation
            self.assembled_bytes += blob''')],
      demo=C + '''
assert asm(X, '.repeat 3\\n.db 1\\n.endrepeat\\nlab:\\n.dw lab') == bytes((1, 1, 1, 3, 0))
'''),
 dict(id='C12-repeat-keeps-open', property='C12', needs='a second repeat block in the same program',
      breaks='a repeat block of one byte leaves the repeat open, so the next block is refused as nested',
      edits=[(ASM, '''        size, index = self.repeat
        self.repeat = None
''', '''        size, index = self.repeat
        if size > 1:
            self.repeat = None
''')],
      demo=C + '''
assert asm(X, '.repeat 1\\n.db 1\\n.endrepeat\\n.repeat 2\\n.db 2\\n.endrepeat') == bytes((1, 2, 2))
'''),
 # ---------------------------------------------------------------- C13 names
 dict(id='C13-macro-case', property='C13', needs='a macro defined with lower case letters in a case insensitive assembler and called in another case',
      breaks='the name of a macro is stored as written, so a call in any case is not found',
      edits=[(ASM, '''        key = instr.tokens[1]
        if not self.case_sensitive:
            key = key.upper()
        self.macros[key]''', '''        key = instr.tokens[1]
        if not self.case_sensitive and not key.islower():
            key = key.upper()
        self.macros[key]''')],
      demo=C + '''
assert asm(X, '.macro mm\\nNOP\\n.endmacro\\nMM\\nmm') == b'\\x90\\x90'
'''),
 dict(id='C13-define-dotted', property='C13', needs='a dotted name whose part is a defined word',
      breaks='a defined word is also replaced inside dotted names',
      edits=[(UT, '''            if is_valid_name(char):
                accumulator += char''', '''            if is_valid_name(char) and char != '.':
                accumulator += char''')],
      demo=C + '''
assert asm(X, 'ab.K:\\n.define K 5\\n.dw ab.K') == b'\\0\\0'
'''),
 dict(id='C13-label-case', property='C13', needs='two labels that differ only in case, or a reference in another case',
      breaks='the section names and labels of case insensitive assemblers are compared upper case',
      edits=[(ST, '''        key = self.tokens[0]
        if key in assembler.labels:''', '''        key = self.tokens[0]
        if not assembler.case_sensitive and key.upper() in [x.upper() for x in assembler.labels]:
            raise LabelAlreadyDefined(self)
        if key in assembler.labels:''')],
      demo=C + '''
assert asm(X, 'aa:\\nNOP\\nAA:\\n.db aa AA') == bytes((0x90, 0, 1))
'''),
 # ---------------------------------------------------------------- C14 errors
 dict(id='C14-none-after-first', property='C14', needs='an instruction logic that gives no result after the output already holds bytes',
      breaks='an instruction without an encoding is silently dropped when it is not the first statement',
      edits=[(ST, '''                if blob is None:
                    # do not''', '''                if blob is None and assembler.assembled_bytes:
                    blob = b''
                if blob is None:
                    # do not''')],
      demo=C + '''
class Y(X):
    @opcode('BAD')
    def _bad(self, instr):
        if len(instr.tokens) > 5:
            return b''
assert refused(asm, Y, 'BAD')
assert refused(asm, Y, 'NOP\\nBAD')
'''),
 dict(id='C14-crash-swallowed', property='C14', needs='an instruction logic that fails with an index or key error',
      breaks='a missing operand or unknown name in an instruction logic emits nothing instead of an error',
      edits=[(ST, '''                raise exc from None
            except:''', '''                raise exc from None
            except LookupError:
                blob = b''
            except:''')],
      demo=C + '''
assert refused(asm, X, 'NOP\\nL8')
'''),
 # ---------------------------------------------------------------- C15 isolation
 dict(id='C15-main-default', property='C15', needs='the command line entry point called twice in one process, the second time without passes',
      breaks='the passes of an assembler are collected in the default argument of main, so a second run in the same process runs them again',
      edits=[(ASM, '''        asm.pre_link_passes += pre_link_passes
''', '''        pre_link_passes += asm.pre_link_passes
        asm.pre_link_passes = pre_link_passes
''')],
      demo=C + '''
from necroassembler.assembler import pre_link
class Y(X):
    @pre_link
    def first(self):
        self.assembled_bytes += b'\\x01'
d = tempfile.mkdtemp()
open(d + '/a', 'w').write('NOP\\n')
sys.argv = ['x', d + '/a', d + '/o']
outs = []
for i in range(2):
    Y.main()
    outs.append(open(d + '/o', 'rb').read())
assert outs == [b'\\x90\\x01'] * 2, outs
'''),
 dict(id='C15-defines-shared', property='C15', needs='two objects of a class that declares defines, one of which defines or redefines a name',
      breaks='the defines of a class that declares some are shared by all its objects',
      edits=[(ASM, 'self.defines = self.defines.copy()', 'self.defines = self.defines or {}')],
      demo=C + '''
class Y(X):
    defines = {'K': '5'}
a, b = Y(), Y()
a.assemble('.define K 6\\n.define Q 7\\n.db K')
b.assemble('.db K')
assert refused(asm, Y, ".db Q")
assert bytes(b.assembled_bytes) == b'\\5'
'''),
 dict(id='C15-formula-cache', property='C15', needs='two objects with different number notations that use the same token with a formula',
      breaks='parsed formula arguments are remembered for the whole process, so another object with other labels gets stale values',
      edits=[(ASM, '''                arg_value = self.parse_integer(arg, 64, False)
                if arg_value is None:
                    arg_value = self.get_label_absolute_address_by_name(arg)
                    if arg_value is None:
                        raise UnknownLabel(arg)''', '''                arg_value = LabelData.known.get(arg)
                if arg_value is None:
                    arg_value = self.parse_integer(arg, 64, False)
                if arg_value is None:
                    arg_value = self.get_label_absolute_address_by_name(arg)
                    if arg_value is None:
                        raise UnknownLabel(arg)
                LabelData.known[arg] = arg_value'''), (ASM, '''    alignment = 1
    offset = 0
    bits = None
''', '''    alignment = 1
    offset = 0
    bits = None
    known = {}
''')],
      demo=C + '''
assert asm(X, 'NOP\\nlab:\\n.db 1+lab') == b'\\x90\\2'
assert asm(X, 'lab:\\n.db 1+lab') == b'\\1'
'''),
]
