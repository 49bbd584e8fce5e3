From ff4b9c3138f435250aef0829a57f5ae13cab0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 01/74] fix: string patterns in Statement.match must match the
 whole token, not any of its characters

---
 necroassembler/cpu/lr35902.py | 2 +-
 necroassembler/statements.py  | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..524c214 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -100,7 +100,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', ('C', '$FF00+C'), ')', 'A') or instr.match('[', ('C', '$FF00+C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..e73ccba 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -69,8 +69,7 @@ class Instruction(Statement):
                     continue
             else:
                 if isinstance(pattern, str):
-                    if self.tokens[index + start].upper() == pattern.upper():
-                        continue
+                    pattern = (pattern,)
                 if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
@@ -87,8 +86,7 @@ class Instruction(Statement):
                     continue
             else:
                 if isinstance(pattern, str):
-                    if self.tokens[index + start].upper() == pattern.upper():
-                        continue
+                    pattern = (pattern,)
                 if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
-- 
2.43.0


From b27699f3bcf7ded85039835439bbbb000725394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 02/74] fix: LR35902 SP-relative LD must only accept HL as
 destination

---
 necroassembler/cpu/lr35902.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 524c214..14bc379 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -206,11 +206,11 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
+        if instr.match('HL', None):
             value = None
-            if instr.tokens[2].startswith('SP+'):
+            if instr.tokens[2].upper().startswith('SP+'):
                 value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
+            elif instr.tokens[2].upper().startswith('SP-'):
                 value = self._rel8(instr.tokens[2][2:])
             if value is not None:
                 return pack_byte(0xF8) + value
-- 
2.43.0


From d1169b6efafab0b4a9c56bef9d443a057d4babee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 03/74] fix: pad a bounded origin up to and including its last
 byte

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..86561a2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -198,7 +198,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From c8631be4c9032a900bba05ef0b75fc7dc9789361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 04/74] fix: goto and upto must compare their target with the
 position they pad from

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 86561a2..db67b38 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -611,7 +611,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
@@ -627,7 +627,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc - self.current_org:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From 1d106a5d6fafd3535530d3c21673e0caf0762308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 05/74] fix: the log directive must raise on an invalid
 argument

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index db67b38..bf2de50 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -587,7 +587,7 @@ class Assembler:
             elif instr.tokens[1].upper() == 'OFF':
                 self.log = False
             else:
-                InvalidArgumentsForDirective()
+                raise InvalidArgumentsForDirective(instr)
         else:
             self.log = True
 
-- 
2.43.0


From 9b5a6271210ad24f89e82c42f1490c5de38c8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 06/74] fix: resolve labels in every copy of a repeated block

---
 necroassembler/assembler.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index bf2de50..819b362 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -675,7 +675,22 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
-        for i in range(0, size-1):
+        # labels used in the block must be resolved in each copy too
+        translations = [(address, data) for address, data in
+                        self.labels_addresses.items() if address >= index]
+        for i in range(1, size):
+            for address, data in translations:
+                relative = data.relative
+                if relative != 0:
+                    relative += i * len(blob)
+                translation = LabelData(
+                    data.label, data.size, data.bits_size, relative)
+                translation.offset = data.offset
+                translation.alignment = data.alignment
+                translation.bits = data.bits
+                translation.hook = data.hook
+                translation.filter = data.filter
+                self.labels_addresses[address + i * len(blob)] = translation
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 172e7b4745ff5b400b77883e6d24ce56a373d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 07/74] fix: dw and dd strings must follow the cpu endianness,
 without a byte order mark

---
 necroassembler/assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 819b362..3e9d80b 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -532,7 +532,8 @@ class Assembler:
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf16')
+                blob = token[1:-1].encode(
+                    'utf-16-be' if self.big_endian else 'utf-16-le')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=16, size=2)
@@ -546,7 +547,8 @@ class Assembler:
         for token in instr.tokens[1:]:
             blob = b''
             if token[0] in ('"', '\''):
-                blob = token[1:-1].encode('utf32')
+                blob = token[1:-1].encode(
+                    'utf-32-be' if self.big_endian else 'utf-32-le')
             else:
                 value = self.parse_integer_or_label(
                     label=token, bits_size=32, size=4)
-- 
2.43.0


From 5ee5668d6e15e41ebb716ad44600f78b1ab9215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 08/74] fix: dw_to_ascii must accept strings like db_to_ascii

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 3e9d80b..ca1f450 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -567,7 +567,7 @@ class Assembler:
 
         for token in instr.tokens[1:]:
             if token[0] in ('"', '\''):
-                blob = str(int(token[1:-1].encode('utf16'))).encode('ascii')
+                blob = str(int(token[1:-1].encode('ascii'))).encode('ascii')
             else:
                 value = self.parse_integer(token, 16, False)
                 if value is None:
-- 
2.43.0


From 6af1424dc0f8fa77768142308a452780dbce745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 09/74] fix: ascii conversion of labels must not overflow the
 reserved digits

---
 necroassembler/assembler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index ca1f450..68856b7 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -560,6 +560,8 @@ class Assembler:
 
     def directive_dw_to_ascii(self, instr):
         def dw_to_str(address, true_address):
+            if not in_bit_range(true_address, 16):
+                raise NotInBitRange(true_address, 16)
             blob = format(true_address, '05d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
@@ -697,6 +699,8 @@ class Assembler:
 
     def directive_db_to_ascii(self, instr):
         def db_to_str(address, true_address):
+            if not in_bit_range(true_address, 8):
+                raise NotInBitRange(true_address, 8)
             blob = format(true_address, '03d').encode('ascii')
             for b in blob:
                 self.assembled_bytes[address] = b
-- 
2.43.0


From e0f58549c0535f9a5c72b446eb942fa88b352864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 10/74] fix: an included file must not pad the origin it is
 included into

---
 necroassembler/assembler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 68856b7..8749d90 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -181,7 +181,7 @@ class Assembler:
             raise NotInMacroRecordingMode(instr)
         self.macro_recording = None
 
-    def assemble(self, code, context=None):
+    def _assemble_source(self, code, context=None):
         tokenizer = Tokenizer(context=context)
         tokenizer.parse(code)
 
@@ -196,6 +196,9 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+    def assemble(self, code, context=None):
+        self._assemble_source(code, context)
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -755,7 +758,7 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self._assemble_source(f.read(), context=filename)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From 77cf59e422a1dbb107cbdf8bf45384be03c62410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 11/74] fix: the tokenizer must refuse unterminated strings and
 empty labels

---
 necroassembler/exceptions.py |  4 ++++
 necroassembler/tokenizer.py  | 15 +++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 46bdb9a..0e21aea 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -116,6 +116,10 @@ class InvalidLabel(AssemblerException):
     message = 'invalid label'
 
 
+class UnterminatedString(AssemblerException):
+    message = 'unterminated string'
+
+
 class InvalidDefine(AssemblerException):
     message = 'invalid define'
 
diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..656b19a 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -1,13 +1,15 @@
 '''Exposes the assembly source code tokenization features'''
 from necroassembler.statements import Instruction, Directive, Label
+from necroassembler.exceptions import AssemblerException, UnterminatedString
 
 
-class InvalidLabel(Exception):
+class InvalidLabel(AssemblerException):
     '''Raised when a label is specified after other tokens'''
 
+    message = 'invalid label'
+
     def __init__(self, tokenizer):
-        super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+        super().__init__('at line {0}'.format(tokenizer.line))
 
 
 class Tokenizer:
@@ -87,10 +89,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
@@ -142,3 +143,5 @@ class Tokenizer:
             self.step(byte)
             if byte == '\n':
                 self.line += 1
+        if self.state not in (self._state_token, self._state_comment):
+            raise UnterminatedString('at line {0}'.format(self.line - 1))
-- 
2.43.0


From b0551b18d44223f4d187aa2c255ede14fcf98811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 12/74] fix: macros must refuse missing arguments and survive a
 failed expansion

---
 necroassembler/macros.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..3fa2419 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -1,4 +1,5 @@
 '''Assembler Macro system'''
+from necroassembler.exceptions import InvalidOpCodeArguments
 from necroassembler.utils import substitute_with_dict
 
 
@@ -24,6 +25,8 @@ class Macro:
         """
         _, *args = tokens
         macro_args = self.args
+        if len(args) < len(macro_args):
+            raise InvalidOpCodeArguments(str(tokens))
         for instr in self.instructions:
             original_tokens = instr.tokens.copy()
             # check for known macro args:
@@ -34,5 +37,7 @@ class Macro:
                 
             substitute_with_dict(instr.tokens, macro_dict, 0)
 
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                instr.assemble(assembler)
+            finally:
+                instr.tokens = original_tokens
-- 
2.43.0


From 6c33547859210b77de08b99341169c44ffe2b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 13/74] fix: the ascii literal of an operator character is a
 value, not a formula

---
 necroassembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 8749d90..ade9e82 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -856,6 +856,9 @@ class Assembler:
     def _get_math_formula(self, token):
         pre_formula = ''
         post_formula = ''
+        # an ascii char is never a formula, even if it is an operator
+        if token.startswith('\''):
+            return token, pre_formula, post_formula
         for char in token:
             if char in ('<', '>'):
                 pre_formula += char
-- 
2.43.0


From 43976ab02cc0e838233133bb524ce5bd14443a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 14/74] fix: ram and repeat must refuse negative amounts

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index ade9e82..549ad77 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -647,7 +647,7 @@ class Assembler:
     def directive_ram(self, instr):
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size < 1:
             raise InvalidArgumentsForDirective(instr)
         self.org_counter += size
@@ -669,7 +669,7 @@ class Assembler:
             raise UnsupportedNestedRepeat(instr)
         if len(instr.tokens) != 2:
             raise InvalidArgumentsForDirective(instr)
-        size = self.parse_integer(instr.tokens[1], 64, False)
+        size = self.parse_integer(instr.tokens[1], 64, True)
         if size is None or size <= 0:
             raise InvalidArgumentsForDirective(instr)
 
-- 
2.43.0


From 0209f60e3977537fa6623719501d74d2321334cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 15/74] fix: the ELF symbol table must start with the reserved
 null symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..b7a4f2f 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -103,7 +103,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first entry of a symbol table is reserved
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From 9a275e05b0f580d6778e8c2e63a1e9aaf48414df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 16/74] fix: ELF symbol values are relative to their section

---
 necroassembler/linker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b7a4f2f..3464383 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -108,14 +108,17 @@ class ELF:
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
+            # symbol values are offsets in their section
+            symbol_offset = assembler.get_label_absolute_address(symbol_data) - \
+                assembler.sections[symbol_data['section']]['start']
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
+                               symbol_data['elf_string_offset'], symbol_offset, 0,
                                0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_offset, 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From fa0c79820fb707d2709619be14c4e6e4ab591a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 17/74] fix: linking must not change the ELF header of the
 linker

---
 necroassembler/linker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 3464383..e0cc428 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -132,12 +132,12 @@ class ELF:
             symtab_name_offset, self.file_base + code_size + len(sh_string_table) + len(string_table), symtab, len(assembler.sections) + 2)
 
         if self.bits == 32:
-            self.header += pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'IIIIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
         elif self.bits == 64:
-            self.header += pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
+            header = self.header + pack(self.endianess_prefix + 'QQQIHHHHHH', self.entry_point,
                                 0, self.header_size, 0, self.header_size, 0, 0, self.section_header_size,
                                 len(assembler.sections) + 4, len(assembler.sections) + 1)
 
-        return self.header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
+        return header + sections + assembler.assembled_bytes + sh_string_table + string_table + symtab
-- 
2.43.0


From 66baed5a3ada3c1e5df81b1384813f0de418dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 18/74] fix: the ELF linker must not ignore references to
 unknown labels

---
 necroassembler/linker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index e0cc428..f56bdec 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -70,6 +70,9 @@ class ELF:
 
     def link(self, assembler):
 
+        for address, symbol_data in self.relocations.items():
+            self.relocate(address, symbol_data)
+
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
         for section_name, section_data in assembler.sections.items():
-- 
2.43.0


From 16e6b3f6e3e69cc70dce5c66d0823f05696978e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 19/74] fix: the command line must not overwrite its only
 argument

---
 necroassembler/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 549ad77..e73bd0c 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -907,6 +907,8 @@ class Assembler:
         import os
         try:
             *sources, destination = sys.argv[1:]
+            if not sources:
+                raise ValueError()
         except ValueError:
             print('usage: {0} <sources> <destination>'.format(
                 os.path.basename(sys.argv[0])))
-- 
2.43.0


From f5150be97ae7d6ef68c16056955c7f8389fe08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 20/74] fix: Z80 indexed stores of an immediate must emit the
 displacement

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..5e9aea5 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1349,30 +1349,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1384,8 +1384,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 03cac379e924ed7fc4648428270aa1dea8bf5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 21/74] fix: Z80 indexed bit tests must use the documented
 encoding

---
 necroassembler/cpu/z80.py | 112 --------------------------------------
 1 file changed, 112 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 5e9aea5..9a8dc0e 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -623,70 +623,14 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IX+d', ')'),
@@ -1072,70 +1016,14 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IY+d', ')'),
-- 
2.43.0


From 59fe95228c27a025c6580b0029543a09459dc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 22/74] fix: Z80 indexed loads and stores of the accumulator
 were taken for absolute addresses

---
 necroassembler/cpu/z80.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 9a8dc0e..b412f52 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1176,7 +1176,8 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return arg.upper() not in REGS8+REGS16 and not \
+            self._is_index_x(arg) and not self._is_index_y(arg)
 
     def _is_index_x(self, arg):
         return (
-- 
2.43.0


From 5ddecd9ec5b745d84fa5f41d0d28d881f79bfa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 23/74] fix: 8086 displacements and far pointers given by a
 label must not overwrite the modrm byte

---
 necroassembler/cpu/intel8086.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..37b2dc9 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
     return blob
 
@@ -299,7 +299,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From 17d2ec78c0a7ba4e1e0379a26e8f6669a28c5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 24/74] fix: 8086 byte moves from and to memory have a 16 bit
 address

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 37b2dc9..2372a11 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -207,7 +207,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From 9bdacd9a9f835144a46fca14fcf6534387b5506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 25/74] fix: 8086 [BP] must not be encoded as a direct address

---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 2372a11..982f419 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -38,7 +38,8 @@ def _get_modrm_mod(arg):
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        # mod 00 with this rm is a direct address: BP needs a displacement
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From 4d7e6737880a2198c86ab08a2d57b77341c5a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 26/74] fix: 8086 MOV of an immediate to memory and POP to
 memory need a modrm byte

---
 necroassembler/cpu/intel8086.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 982f419..d37ecb5 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -21,6 +21,7 @@ def _build_modrm(assembler, modrm):
             bits_size=16,
             offset=2,
             signed=True))
+    modrm['size'] = len(blob)
     return blob
 
 
@@ -183,13 +184,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=1 + modrm.get('size', 0)))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=1 + modrm.get('size', 0)))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -454,7 +455,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -507,8 +508,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
-- 
2.43.0


From 2631866c1bb5b59f9d6ff099ed2654fe51ee54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 27/74] fix: 8086 instructions must refuse operands they do not
 have

---
 necroassembler/cpu/intel8086.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index d37ecb5..37d82dd 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -555,7 +555,11 @@ OPCODES_TABLE = (
     (0xD004, 'SHL', _Eb),
     (0xD104, 'SHL', _Ev),
     (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD105, 'SHR', _Ev),
+    (0xD004, 'SHL', _Eb, _1),
+    (0xD104, 'SHL', _Ev, _1),
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -592,7 +596,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From 5c9a3239a7f899611837d90b24a6e899f66c8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 28/74] fix: hexadecimal literals with a suffix can contain
 letters

---
 necroassembler/assembler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index e73bd0c..665972d 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -333,8 +333,12 @@ class Assembler:
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
-                if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 16), False
+                # a leading digit distinguishes hexadecimal letters from names
+                if token[0].isdigit():
+                    try:
+                        return int(token[0:-len(suffix)], 16), False
+                    except ValueError:
+                        pass
 
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
-- 
2.43.0


From bd3727d9c9137fc772180d75f42f2e555162a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 29/74] fix: 68000 index registers must match in any case

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..446875a 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0


From 3eac850375b7c134469a86898c187fb5d9c42f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 30/74] fix: 68000 dbt.w and dbf.w could not be assembled

---
 necroassembler/cpu/mc68000.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 446875a..54b57c4 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -55,9 +55,10 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    condition = token.split('.')[0].upper()
+    if condition == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(condition)
 
 
 def _indexed_reg(token):
-- 
2.43.0


From 1954496bc8d7b9c919251c11c6be2f034e9a0fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 31/74] fix: 68000 instructions must refuse operands they do
 not have

---
 necroassembler/cpu/mc68000.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 54b57c4..4a40f30 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -249,6 +249,13 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, start_index, offset, size, blacklist=()):
+        mode = self._mode(instr, start_index, offset, size, blacklist)
+        # no more operands are expected
+        if mode[0] != len(instr.tokens):
+            raise InvalidMode(instr)
+        return mode
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -265,7 +272,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -288,7 +295,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -304,7 +311,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -314,7 +321,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -324,7 +331,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -340,7 +347,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -350,13 +357,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -409,7 +416,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From a08b87eebb76e78ea244ebb596b5f0f4b35baec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 32/74] fix: 68000 byte moves can not use address registers

---
 necroassembler/cpu/mc68000.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 4a40f30..9abc70e 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -268,7 +268,9 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        # address registers have no byte operations
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-- 
2.43.0


From d0c0c9ec31af1107b92e34dc7fba40f927b5930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 33/74] fix: 68000 short branches can not have a zero
 displacement

---
 necroassembler/cpu/mc68000.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 9abc70e..4b363c7 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -8,6 +8,10 @@ class InvalidMode(AssemblerException):
     message = 'invalid 68000 mode'
 
 
+class InvalidShortDisplacement(AssemblerException):
+    message = 'a short branch can not reach the next instruction'
+
+
 D_REGS = ('d0', 'd1', 'd2', 'd3', 'd4', 'd5', 'd6', 'd7')
 A_REGS = ('a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7')
 
@@ -101,6 +105,13 @@ def _s_middle(token):
     return 2, 0
 
 
+def _short_displacement(value):
+    # the opcode with a zero displacement is the word form
+    if value == 0:
+        raise InvalidShortDisplacement()
+    return value
+
+
 class AssemblerMC68000(Assembler):
 
     hex_prefixes = ('$',)
@@ -390,7 +401,11 @@ class AssemblerMC68000(Assembler):
                                                     bits_size=8,
                                                     bits=(7, 0),
                                                     alignment=2,  # here is safe to check for alignment
+                                                    filter=_short_displacement,
                                                     relative=self.pc+2)
+                # labels (still zero here) are checked by the filter
+                if self.parse_integer(instr.tokens[1], 8, True) is not None:
+                    _short_displacement(value)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
                 value = self.parse_integer_or_label(instr.tokens[1],
-- 
2.43.0


From cc28b3a88e1decc1d866e217c76750cace1a6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 34/74] fix: MIPS div, mult, nor, or, sub and xor could not be
 assembled

---
 necroassembler/cpu/mips32.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..464ab60 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -103,7 +103,7 @@ class AssemblerMIPS32(Assembler):
     def _div_mult(self, instr, func):
         if instr.match(REGS, REGS):
             rs, rt = instr.apply(_reg, _reg)
-        return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
+            return self._build_opcode(0, ((25, 21), rs), ((20, 16), rt), ((5, 0), func))
 
     def _arith_log_i(self, instr, op, signed):
         if instr.match(REGS, REGS, IMMEDIATE):
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From b53f5b86c152e69f4b15d2bf08c8423de7da04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 35/74] fix: MIPS sltu and sltiu opcodes

---
 necroassembler/cpu/mips32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 464ab60..54adc9d 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From 282637414515299a4af7f6f8ce8667e6c7173b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 36/74] fix: MIPS logical immediates are zero extended

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 54adc9d..1f8f055 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From 2445a101fd0ff6117ea5d4fd26fed5b30220b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 37/74] fix: MIPS jumps to a number reach every region like
 jumps to a label

---
 necroassembler/cpu/mips32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 1f8f055..c1f891a 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -58,7 +58,7 @@ class AssemblerMIPS32(Assembler):
                                            bits_size=32,
                                            filter=lambda x: (
                                                x & 0x0fffffff) >> 2,
-                                           size=4) >> 2
+                                           size=4) >> 2 & 0x03ffffff
 
     def _rel_label(self, token):
         return self.parse_integer_or_label(label=token,
-- 
2.43.0


From 9ab99e4f06430f253a0c361024a64d06ad6d3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 38/74] fix: MIPS jalr links to $ra

---
 necroassembler/cpu/mips32.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index c1f891a..d237093 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -311,7 +311,9 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        if instr.match(REGS):
+            rs, = instr.apply(_reg)
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), 31), ((5, 0), 0b001001))
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From b614cf33436982bc215cd9dbe0f7a24e60e3cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 39/74] fix: MIPS branches can not reach unaligned addresses

---
 necroassembler/cpu/mips32.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index d237093..a637353 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import LabelNotAllowed, NotInBitRange, AlignmentError
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -61,12 +61,16 @@ class AssemblerMIPS32(Assembler):
                                            size=4) >> 2 & 0x03ffffff
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits_size=18,
+                                            bits=(15, 0),
+                                            filter=lambda x: x >> 2,
+                                            relative=self.pc + 4,
+                                            alignment=4,
+                                            size=4)
+        if value & 3:
+            raise AlignmentError(token)
+        return value >> 2
 
     def _immediate32(self, high):
         def _high(token):
-- 
2.43.0


From eea3bcfc1ca7d975db85ec279b7ec1fd41e95964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 40/74] fix: Thumb PC and SP relative loads reach 1020 bytes
 forward and only forward

---
 necroassembler/cpu/thumb.py | 47 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..210929a 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
-from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
+from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit, in_bit_range
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange, AlignmentError)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -73,15 +73,36 @@ class AssemblerThumb(Assembler):
             raise InvalideImmediateValue()
         return value
 
+    def _scaled(self, arg, bits, shift):
+        value = self.parse_integer(arg[1:], 32, True)
+        if value is None:
+            raise InvalideImmediateValue()
+        if not in_bit_range(value, bits + shift):
+            raise NotInBitRange(value, bits + shift)
+        if value & ((1 << shift) - 1):
+            raise AlignmentError(arg)
+        return value >> shift
+
+    def _pc_word8(self, arg):
+        def forward_words(distance):
+            if distance < 0:
+                raise NotInBitRange(distance, 10, arg[1:])
+            return distance >> 2
+
+        if self.parse_integer(arg[1:], 32, True) is not None:
+            return self._scaled(arg, 8, 2)
+        self.add_label_translation(label=arg[1:],
+                                   size=2,
+                                   bits_size=11,
+                                   bits=(7, 0),
+                                   alignment=4,
+                                   filter=forward_words,
+                                   # bit 1 of pc must be turned off
+                                   relative=(self.pc + 4) & ~(0b10))
+        return 0
+
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        return self._scaled(arg, 8, 2)
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
@@ -283,8 +304,8 @@ class AssemblerThumb(Assembler):
     @opcode('LDR')
     def _ldr(self, instr):
         if instr.match(LOW_REGS, '[', PC, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(low_reg, None, None, self._pc_word8, None)
+            return self._build_opcode(0b0100100000000000, ((10, 8), rd), ((7, 0), imm))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
@@ -298,7 +319,7 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
-- 
2.43.0


From 008675e5772f3eaa1422d1b07ee8c716d8f801c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 41/74] fix: Thumb ADD of PC or SP takes a number of bytes
 multiple of four

---
 necroassembler/cpu/thumb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 210929a..5a728c0 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -185,10 +185,10 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._word8)
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._word8)
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
             imm, = instr.apply(None, self._imm)
-- 
2.43.0


From a3bc470b4faba74a8b7dec457eb71dfa968e1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 42/74] fix: Thumb ADD SP could not be assembled

---
 necroassembler/cpu/thumb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 5a728c0..17ba28e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -191,8 +191,10 @@ class AssemblerThumb(Assembler):
             rd, imm = instr.apply(low_reg, None, self._word8)
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            negative = instr.tokens[2].startswith('#-')
+            imm = self._scaled(
+                '#' + instr.tokens[2][2:] if negative else instr.tokens[2], 7, 2)
+            return self._build_opcode(0b1011000000000000, ((7, 7), int(negative)), ((6, 0), imm))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From aa09fcacacb35822714ff4db53986e2b7fc58f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 43/74] fix: Thumb LDRH encodings

---
 necroassembler/cpu/thumb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 17ba28e..b1993b7 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -101,6 +101,9 @@ class AssemblerThumb(Assembler):
                                    relative=(self.pc + 4) & ~(0b10))
         return 0
 
+    def _half5(self, arg):
+        return self._scaled(arg, 5, 1)
+
     def _word8(self, arg):
         return self._scaled(arg, 8, 2)
 
@@ -340,11 +343,11 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, self._half5, None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
-- 
2.43.0


From 2ebb413870119dfdb73bf467f7123266df78bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 44/74] fix: Thumb STR with an immediate offset was a load

---
 necroassembler/cpu/thumb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index b1993b7..48d4e13 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -101,6 +101,9 @@ class AssemblerThumb(Assembler):
                                    relative=(self.pc + 4) & ~(0b10))
         return 0
 
+    def _word5(self, arg):
+        return self._scaled(arg, 5, 2)
+
     def _half5(self, arg):
         return self._scaled(arg, 5, 1)
 
@@ -319,8 +322,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._word5, None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
@@ -373,8 +376,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._word5, None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From c24053c9c7901d9784f9cb496afede4d209c15d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 45/74] fix: Thumb STRB could not be assembled

---
 necroassembler/cpu/thumb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 48d4e13..a1a30a5 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -104,6 +104,9 @@ class AssemblerThumb(Assembler):
     def _word5(self, arg):
         return self._scaled(arg, 5, 2)
 
+    def _byte5(self, arg):
+        return self._scaled(arg, 5, 0)
+
     def _half5(self, arg):
         return self._scaled(arg, 5, 1)
 
@@ -381,7 +384,15 @@ class AssemblerThumb(Assembler):
 
     @opcode('STRB')
     def _strb(self, instr):
-        pass
+        if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
+            rd, rb, ro = instr.apply(
+                low_reg, None, low_reg, low_reg, None)
+            return self._build_opcode(0b0101010000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+
+        if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
+            rd, rb, imm = instr.apply(
+                low_reg, None, low_reg, self._byte5, None)
+            return self._build_opcode(0b0111000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRH')
     def _strh(self, instr):
-- 
2.43.0


From 8f4fc93c2a795de447e7a031eb8e80bb73fd14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 46/74] fix: Thumb branches with numbers: BL 0 and odd
 distances

---
 necroassembler/cpu/thumb.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index a1a30a5..14de3ef 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -57,15 +57,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
-        return self.parse_integer_or_label(label=arg,
-                                           size=2,
-                                           bits_size=(
-                                               bits[0] - bits[1]) + 1 + (alignment//2),
-                                           bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
-                                           alignment=alignment,
-                                           relative=self.pc + 4)
+        value = self.parse_integer_or_label(label=arg,
+                                            size=2,
+                                            bits_size=(
+                                                bits[0] - bits[1]) + 1 + (alignment//2),
+                                            bits=bits,
+                                            filter=lambda x: x >> (
+                                                alignment//2),
+                                            alignment=alignment,
+                                            relative=self.pc + 4)
+        if value % alignment != 0:
+            raise AlignmentError(arg)
+        return value
 
     def _imm(self, arg):
         value = self.parse_integer(arg[1:], 8, False)
@@ -409,7 +412,9 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
+            if address & 1:
+                raise AlignmentError(offset)
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From ebc7e429e8eec4e9845f0016d470af92a49f6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 47/74] fix: Thumb register lists in upper case

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 14de3ef..6f193f6 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -130,7 +130,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From 57369a123e105aae45a38ef607337fac11837e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 48/74] fix: Thumb right shifts by 32 and by zero

---
 necroassembler/cpu/thumb.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 6f193f6..ee503c2 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -113,6 +113,13 @@ class AssemblerThumb(Assembler):
     def _half5(self, arg):
         return self._scaled(arg, 5, 1)
 
+    def _shift32(self, arg):
+        # right shifts go from 1 to 32, 32 is encoded as zero
+        value = self._imm(arg)
+        if not 0 < value <= 32:
+            raise NotInBitRange(value, 5)
+        return value & 0x1f
+
     def _word8(self, arg):
         return self._scaled(arg, 8, 2)
 
@@ -165,14 +172,14 @@ class AssemblerThumb(Assembler):
     @opcode('LSR')
     def _lsr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._shift32)
             return self._build_opcode(0b0000100000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0011)
 
     @opcode('ASR')
     def _asr(self, instr):
         if instr.match(LOW_REGS, LOW_REGS, IMMEDIATE):
-            rd, rs, imm = instr.apply(low_reg, low_reg, self._imm)
+            rd, rs, imm = instr.apply(low_reg, low_reg, self._shift32)
             return self._build_opcode(0b0001000000000000, ((10, 6), imm), ((5, 3), rs), ((2, 0), rd))
         return self._alu(instr, 0b0100)
 
-- 
2.43.0


From d27823167a4e7191d5c88e7b9c3b9bcc45a65a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 49/74] fix: PowerPC r0 is a general register

---
 necroassembler/cpu/powerpc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..74ea8e7 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -9,8 +9,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
-- 
2.43.0


From e7bce1da1f747a757bbbdcd838f55783c2209707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 50/74] fix: PowerPC forms of the same mnemonic have their own
 opcode

---
 necroassembler/cpu/powerpc.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 74ea8e7..7e899a3 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1322,23 +1322,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, base, condition):
+        self.conditions.append((base, condition))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for base, condition in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1358,17 +1357,18 @@ class AssemblerPowerPC(Assembler):
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], entry[2])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(
+                        entry[0], None)
                 continue
 
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(entry[0], entry[2])
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(entry[0], None)
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From e29abbb87d8d79b80b4e9da130421e46052a5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 51/74] fix: PowerPC branches count bytes and reach 26 and 16
 bits

---
 necroassembler/cpu/powerpc.py | 42 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 7e899a3..90b9275 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,5 +1,6 @@
 from necroassembler import Assembler
-from necroassembler.utils import pack_be32u, pack_bits
+from necroassembler.utils import pack_be32u, pack_bits, in_bit_range_decimal
+from necroassembler.exceptions import AlignmentError, NotInBitRange
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
 FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])
@@ -30,27 +31,40 @@ def _freg(token, assembler=None, bits=None):
     return reg in FREGS
 
 
+def _word_field(assembler, token, bits, relative):
+    # the two low bits of distances and addresses are not encoded
+    total_bits = bits[0] - bits[1] + 3
+
+    def words(value):
+        if not in_bit_range_decimal(value, total_bits, signed=True):
+            raise NotInBitRange(value, total_bits, token)
+        return value >> 2
+
+    value = assembler.parse_integer(token, total_bits, signed=True)
+    if value is None:
+        assembler.add_label_translation(token,
+                                        size=4,
+                                        bits_size=total_bits,
+                                        bits=bits,
+                                        filter=words,
+                                        alignment=4,
+                                        relative=relative)
+        return 0
+    if value & 3:
+        raise AlignmentError(token)
+    return value >> 2
+
+
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
+        return _word_field(assembler, token, bits, assembler.pc)
 
     return token not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
+        return _word_field(assembler, token, bits, 0)
     return token not in GREGS+FREGS
 
 
-- 
2.43.0


From 1f2f227fe0805320e01b1161ada5f985d4f2cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 52/74] fix: PowerPC registers in upper case are not numbers

---
 necroassembler/cpu/powerpc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 90b9275..71e31b8 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -59,13 +59,13 @@ def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
         return _word_field(assembler, token, bits, assembler.pc)
 
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
         return _word_field(assembler, token, bits, 0)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _si(token, assembler=None, bits=None):
@@ -75,7 +75,7 @@ def _si(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _hi(token, assembler=None, bits=None):
@@ -85,7 +85,7 @@ def _hi(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _ui(token, assembler=None, bits=None):
@@ -95,7 +95,7 @@ def _ui(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num(token, assembler=None, bits=None):
@@ -105,7 +105,7 @@ def _num(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num0(token, assembler=None, bits=None):
@@ -115,7 +115,7 @@ def _num0(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _snum(token, assembler=None, bits=None):
@@ -125,7 +125,7 @@ def _snum(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 SGREG = None
-- 
2.43.0


From 88f09992e6a361f3fc2d1756fcaa961113b33867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 53/74] fix: PowerPC mcrfs takes a three bit source field

---
 necroassembler/cpu/powerpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 71e31b8..bde340d 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -710,7 +710,7 @@ OPCODES_TABLE = [
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
     [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From 38db4631e3cdc3b6705b403c7e8ed4879acbdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 54/74] fix: PowerPC unsupported operands do not hide other
 forms

---
 necroassembler/cpu/powerpc.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index bde340d..112f06e 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -128,18 +128,23 @@ def _snum(token, assembler=None, bits=None):
     return token.lower() not in GREGS+FREGS
 
 
-SGREG = None
-SPREG = None
-BCND = None
-JBSR = None
-CRF = None
-CRFONLY = None
-D = None
-DS = None
-FXM = None
-ZERO = None
-MBE = None
-VREG = None
+def _unsupported(token, assembler=None, bits=None):
+    # None would match every token and hide the forms that follow
+    return False
+
+
+SGREG = _unsupported
+SPREG = _unsupported
+BCND = _unsupported
+JBSR = _unsupported
+CRF = _unsupported
+CRFONLY = _unsupported
+D = _unsupported
+DS = _unsupported
+FXM = _unsupported
+ZERO = _unsupported
+MBE = _unsupported
+VREG = _unsupported
 
 # built from https://opensource.apple.com/source/cctools/cctools-927.0.2/as/ppc-opcode.h.auto.html
 
-- 
2.43.0


From 661df50991ad529ae4a3cb321be41ccbb1f0500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 55/74] fix: Game Boy header inside a region that starts at
 $100

---
 necroassembler/platforms/gameboy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..1da3742 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -50,7 +50,8 @@ class AssemblerGameboy(AssemblerLR35902):
         if len(self.assembled_bytes) != 256:
             raise InvalidCartidgeHeaderOffset(instr)
 
-        self.change_org(0x100, self.current_org_end)
+        if self.current_org != 0x100 or self.org_counter != 0:
+            self.change_org(0x100, self.current_org_end)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From b3fd92f8222ac41246209a9f7a6bdca6da94dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 56/74] fix: Game Boy global checksum does not include itself

---
 necroassembler/platforms/gameboy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 1da3742..22211de 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -163,10 +163,11 @@ class AssemblerGameboy(AssemblerLR35902):
                 int(self.assembled_bytes[i]) - 1
         self.assembled_bytes[0x14d] = header_checksum & 0xFF
 
-        # global checksum
+        # global checksum (of everything but itself)
         global_checksum = 0
-        for byte in self.assembled_bytes:
-            global_checksum += int(byte)
+        for index, byte in enumerate(self.assembled_bytes):
+            if index not in (0x14e, 0x14f):
+                global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
         self.assembled_bytes[0x14f] = global_checksum & 0xFF
-- 
2.43.0


From 9f26799db65c2a4a39688e6615e2fa75cb271b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 57/74] fix: NES bank counts at their iNES offsets

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 09b843c4b0d7d0e7f4cc3a64671d9d3e15027d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 58/74] fix: Mega Drive images with an odd size

---
 necroassembler/platforms/genesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/platforms/genesis.py b/necroassembler/platforms/genesis.py
index 938991f..d1e1f12 100644
--- a/necroassembler/platforms/genesis.py
+++ b/necroassembler/platforms/genesis.py
@@ -13,7 +13,8 @@ def main():
     header_checksum = 0
     for i in range(0x200, len(asm.assembled_bytes), 2):
         high = asm.assembled_bytes[i]
-        low = asm.assembled_bytes[i+1]
+        # an image with an odd size ends with half a word
+        low = asm.assembled_bytes[i+1] if i+1 < len(asm.assembled_bytes) else 0
         header_checksum += (high << 8) | low
     asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF
     asm.assembled_bytes[0x18f] = header_checksum & 0xFF
-- 
2.43.0


From 653b646c4c8ddc0d274fdb02000ae4698a9c09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 59/74] fix: PlayStation stack pointer at its header offset

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0


From 8db16c9afc7b73786fc86a8a6579204839f10682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 60/74] fix: x86 opcodes of more than one byte lost all but one
 of them

---
 necroassembler/cpu/x86.py | 195 +++++++++++++++++++-------------------
 1 file changed, 98 insertions(+), 97 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 10b4d6b..00c4a6c 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -877,7 +877,7 @@ OPCODES_TABLE = (
     (0x90, 'XCHG', _Zvqp),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
-    (0x90, 'PAUSE'),
+    (0xf390, 'PAUSE'),
     (0x98, 'CBW'),
     (0x98, 'CWDE'),
     (0x98, 'CBW'),
@@ -1038,9 +1038,9 @@ OPCODES_TABLE = (
     (0xd3, 'SAL', _Evqp, _CL),
     (0xd3, 'SHL', _Evqp, _CL),
     (0xd3, 'SAR', _Evqp, _CL),
-    (0xd4, 'AAM'),
+    (0xd40a, 'AAM'),
     (0xd4, 'AMX', _Ib),
-    (0xd5, 'AAD'),
+    (0xd50a, 'AAD'),
     (0xd5, 'ADX', _Ib),
     (0xd6, 'SALC'),
     (0xd6, 'SETALC'),
@@ -1050,10 +1050,10 @@ OPCODES_TABLE = (
     (0xd8, 'FADD', _ST, _EST),
     (0xd8, 'FMUL', _Msr),
     (0xd8, 'FMUL', _ST, _EST),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOM'),
-    (0xd8, 'FCOMP'),
-    (0xd8, 'FCOMP'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d1, 'FCOM'),
+    (0xd8d9, 'FCOMP'),
+    (0xd8d9, 'FCOMP'),
     (0xd8, 'FSUB', _Msr),
     (0xd8, 'FSUB', _ST, _EST),
     (0xd8, 'FSUBR', _Msr),
@@ -1063,57 +1063,57 @@ OPCODES_TABLE = (
     (0xd8, 'FDIVR', _Msr),
     (0xd8, 'FDIVR', _ST, _EST),
     (0xd9, 'FLD', _ESsr),
-    (0xd9, 'FXCH'),
-    (0xd9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
+    (0xd9c9, 'FXCH'),
     (0xd9, 'FST', _Msr),
-    (0xd9, 'FNOP'),
+    (0xd9d0, 'FNOP'),
     (0xd9, 'FSTP', _Msr),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FSTP1', _EST),
     (0xd9, 'FLDENV', _Me),
-    (0xd9, 'FCHS'),
-    (0xd9, 'FABS'),
-    (0xd9, 'FTST'),
-    (0xd9, 'FXAM'),
+    (0xd9e0, 'FCHS'),
+    (0xd9e1, 'FABS'),
+    (0xd9e4, 'FTST'),
+    (0xd9e5, 'FXAM'),
     (0xd9, 'FLDCW', _Mw),
-    (0xd9, 'FLD1'),
-    (0xd9, 'FLDL2T'),
-    (0xd9, 'FLDL2E'),
-    (0xd9, 'FLDPI'),
-    (0xd9, 'FLDLG2'),
-    (0xd9, 'FLDLN2'),
-    (0xd9, 'FLDZ'),
+    (0xd9e8, 'FLD1'),
+    (0xd9e9, 'FLDL2T'),
+    (0xd9ea, 'FLDL2E'),
+    (0xd9eb, 'FLDPI'),
+    (0xd9ec, 'FLDLG2'),
+    (0xd9ed, 'FLDLN2'),
+    (0xd9ee, 'FLDZ'),
     (0xd9, 'FNSTENV', _Me),
     (0xd9, 'FSTENV', _Me),
-    (0xd9, 'F2XM1'),
-    (0xd9, 'FYL2X'),
-    (0xd9, 'FPTAN'),
-    (0xd9, 'FPATAN'),
-    (0xd9, 'FXTRACT'),
-    (0xd9, 'FPREM1'),
-    (0xd9, 'FDECSTP'),
-    (0xd9, 'FINCSTP'),
+    (0xd9f0, 'F2XM1'),
+    (0xd9f1, 'FYL2X'),
+    (0xd9f2, 'FPTAN'),
+    (0xd9f3, 'FPATAN'),
+    (0xd9f4, 'FXTRACT'),
+    (0xd9f5, 'FPREM1'),
+    (0xd9f6, 'FDECSTP'),
+    (0xd9f7, 'FINCSTP'),
     (0xd9, 'FNSTCW', _Mw),
     (0xd9, 'FSTCW', _Mw),
-    (0xd9, 'FPREM'),
-    (0xd9, 'FYL2XP1'),
-    (0xd9, 'FSQRT'),
-    (0xd9, 'FSINCOS'),
-    (0xd9, 'FRNDINT'),
-    (0xd9, 'FSCALE'),
-    (0xd9, 'FSIN'),
-    (0xd9, 'FCOS'),
+    (0xd9f8, 'FPREM'),
+    (0xd9f9, 'FYL2XP1'),
+    (0xd9fa, 'FSQRT'),
+    (0xd9fb, 'FSINCOS'),
+    (0xd9fc, 'FRNDINT'),
+    (0xd9fd, 'FSCALE'),
+    (0xd9fe, 'FSIN'),
+    (0xd9ff, 'FCOS'),
     (0xda, 'FIADD', _Mdi),
     (0xda, 'FCMOVB', _ST, _EST),
     (0xda, 'FIMUL', _Mdi),
     (0xda, 'FCMOVE', _ST, _EST),
-    (0xda, 'FICOM'),
+    (0xda, 'FICOM', _Mdi),
     (0xda, 'FCMOVBE', _ST, _EST),
-    (0xda, 'FICOMP'),
+    (0xda, 'FICOMP', _Mdi),
     (0xda, 'FCMOVU', _ST, _EST),
     (0xda, 'FISUB', _Mdi),
     (0xda, 'FISUBR', _Mdi),
-    (0xda, 'FUCOMPP'),
+    (0xdae9, 'FUCOMPP'),
     (0xda, 'FIDIV', _Mdi),
     (0xda, 'FIDIVR', _Mdi),
     (0xdb, 'FILD', _Mdi),
@@ -1124,19 +1124,19 @@ OPCODES_TABLE = (
     (0xdb, 'FCMOVNBE', _ST, _EST),
     (0xdb, 'FISTP', _Mdi),
     (0xdb, 'FCMOVNU', _ST, _EST),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FENI'),
-    (0xdb, 'FNENI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FDISI'),
-    (0xdb, 'FNDISI'),
-    (0xdb, 'FNCLEX'),
-    (0xdb, 'FCLEX'),
-    (0xdb, 'FNINIT'),
-    (0xdb, 'FINIT'),
-    (0xdb, 'FNSETPM'),
-    (0xdb, 'FSETPM'),
-    (0xdb, 'FNSETPM'),
+    (0xdbe0, 'FNENI'),
+    (0x9bdbe0, 'FENI'),
+    (0xdbe0, 'FNENI'),
+    (0xdbe1, 'FNDISI'),
+    (0x9bdbe1, 'FDISI'),
+    (0xdbe1, 'FNDISI'),
+    (0xdbe2, 'FNCLEX'),
+    (0x9bdbe2, 'FCLEX'),
+    (0xdbe3, 'FNINIT'),
+    (0x9bdbe3, 'FINIT'),
+    (0xdbe4, 'FNSETPM'),
+    (0x9bdbe4, 'FSETPM'),
+    (0xdbe4, 'FNSETPM'),
     (0xdb, 'FLD', _Mer),
     (0xdb, 'FUCOMI', _ST),
     (0xdb, 'FCOMI', _ST),
@@ -1145,12 +1145,12 @@ OPCODES_TABLE = (
     (0xdc, 'FADD', _EST, _ST),
     (0xdc, 'FMUL', _Mdr),
     (0xdc, 'FMUL', _EST, _ST),
-    (0xdc, 'FCOM'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOM2'),
-    (0xdc, 'FCOMP'),
-    (0xdc, 'FCOMP3'),
-    (0xdc, 'FCOMP3'),
+    (0xd8d1, 'FCOM'),
+    (0xdcd1, 'FCOM2'),
+    (0xdcd1, 'FCOM2'),
+    (0xd8d9, 'FCOMP'),
+    (0xdcd9, 'FCOMP3'),
+    (0xdcd9, 'FCOMP3'),
     (0xdc, 'FSUB', _Mdr),
     (0xdc, 'FSUBR', _EST, _ST),
     (0xdc, 'FSUBR', _Mdr),
@@ -1162,49 +1162,49 @@ OPCODES_TABLE = (
     (0xdd, 'FLD', _Mdr),
     (0xdd, 'FFREE', _EST),
     (0xdd, 'FISTTP', _Mqi),
-    (0xdd, 'FXCH4'),
-    (0xdd, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
+    (0xddc9, 'FXCH4'),
     (0xdd, 'FST', _Mdr),
     (0xdd, 'FST', _EST),
     (0xdd, 'FSTP', _Mdr),
     (0xdd, 'FSTP', _EST),
     (0xdd, 'FRSTOR', _Mst),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOM'),
-    (0xdd, 'FUCOMP'),
-    (0xdd, 'FUCOMP'),
+    (0xdde1, 'FUCOM'),
+    (0xdde1, 'FUCOM'),
+    (0xdde9, 'FUCOMP'),
+    (0xdde9, 'FUCOMP'),
     (0xdd, 'FNSAVE', _Mst),
     (0xdd, 'FSAVE', _Mst),
     (0xdd, 'FNSTSW', _Mw),
     (0xdd, 'FSTSW', _Mw),
     (0xde, 'FIADD', _Mwi),
     (0xde, 'FADDP', _EST, _ST),
-    (0xde, 'FADDP'),
+    (0xdec1, 'FADDP'),
     (0xde, 'FIMUL', _Mwi),
     (0xde, 'FMULP', _EST, _ST),
-    (0xde, 'FMULP'),
-    (0xde, 'FICOM'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FCOMP5'),
-    (0xde, 'FICOMP'),
-    (0xde, 'FCOMPP'),
+    (0xdec9, 'FMULP'),
+    (0xde, 'FICOM', _Mwi),
+    (0xded1, 'FCOMP5'),
+    (0xded1, 'FCOMP5'),
+    (0xde, 'FICOMP', _Mwi),
+    (0xded9, 'FCOMPP'),
     (0xde, 'FISUB', _Mwi),
     (0xde, 'FSUBRP', _EST, _ST),
-    (0xde, 'FSUBRP'),
+    (0xdee1, 'FSUBRP'),
     (0xde, 'FISUBR', _Mwi),
     (0xde, 'FSUBP', _EST, _ST),
-    (0xde, 'FSUBP'),
+    (0xdee9, 'FSUBP'),
     (0xde, 'FIDIV', _Mwi),
     (0xde, 'FDIVRP', _EST, _ST),
-    (0xde, 'FDIVRP'),
+    (0xdef1, 'FDIVRP'),
     (0xde, 'FIDIVR', _Mwi),
     (0xde, 'FDIVP', _EST, _ST),
-    (0xde, 'FDIVP'),
+    (0xdef9, 'FDIVP'),
     (0xdf, 'FILD', _Mwi),
     (0xdf, 'FFREEP', _EST),
     (0xdf, 'FISTTP', _Mwi),
-    (0xdf, 'FXCH7'),
-    (0xdf, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
+    (0xdfc9, 'FXCH7'),
     (0xdf, 'FIST', _Mwi),
     (0xdf, 'FSTP8', _EST),
     (0xdf, 'FSTP8', _EST),
@@ -1302,23 +1302,23 @@ OPCODES_TABLE = (
     (0xf00, 'VERW', _Ew),
     (0xf00, 'JMPE'),
     (0xf01, 'SGDT', _Ms),
-    (0xf01, 'VMCALL'),
-    (0xf01, 'VMLAUNCH'),
-    (0xf01, 'VMRESUME'),
-    (0xf01, 'VMXOFF'),
+    (0xf01c1, 'VMCALL'),
+    (0xf01c2, 'VMLAUNCH'),
+    (0xf01c3, 'VMRESUME'),
+    (0xf01c4, 'VMXOFF'),
     (0xf01, 'SIDT', _Ms),
-    (0xf01, 'MONITOR'),
-    (0xf01, 'MWAIT'),
+    (0xf01c8, 'MONITOR'),
+    (0xf01c9, 'MWAIT'),
     (0xf01, 'LGDT', _Ms),
-    (0xf01, 'XGETBV'),
-    (0xf01, 'XSETBV'),
+    (0xf01d0, 'XGETBV'),
+    (0xf01d1, 'XSETBV'),
     (0xf01, 'LIDT', _Ms),
     (0xf01, 'SMSW', _Mw),
     (0xf01, 'SMSW', _Rvqp),
     (0xf01, 'LMSW', _Ew),
     (0xf01, 'INVLPG', _M),
-    (0xf01, 'SWAPGS'),
-    (0xf01, 'RDTSCP'),
+    (0xf01f8, 'SWAPGS'),
+    (0xf01f9, 'RDTSCP'),
     (0xf02, 'LAR', _Gvqp, _Mw),
     (0xf02, 'LAR', _Gvqp, _Rv),
     (0xf03, 'LSL', _Gvqp, _Mw),
@@ -1778,11 +1778,11 @@ OPCODES_TABLE = (
     (0xfae, 'STMXCSR', _Md),
     (0xfae, 'XSAVE', _M),
     (0xfae, 'XSAVE', _M),
-    (0xfae, 'LFENCE'),
+    (0xfaee8, 'LFENCE'),
     (0xfae, 'XRSTOR', _M),
     (0xfae, 'XRSTOR', _M),
-    (0xfae, 'MFENCE'),
-    (0xfae, 'SFENCE'),
+    (0xfaef0, 'MFENCE'),
+    (0xfaef8, 'SFENCE'),
     (0xfae, 'CLFLUSH', _Mb),
     (0xfaf, 'IMUL', _Gvqp, _Evqp),
     (0xfb0, 'CMPXCHG', _Eb, _Gb),
@@ -1791,7 +1791,7 @@ OPCODES_TABLE = (
     (0xfb6, 'MOVZX', _Gvqp, _Eb),
     (0xfb7, 'MOVZX', _Gvqp, _Ew),
     (0xfb8, 'JMPE'),
-    (0xfb8, 'POPCNT', _Gvqp, _Evqp),
+    (0xf30fb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
     (0xfba, 'BT', _Evqp),
     (0xfba, 'BTS', _Evqp, _Ib),
@@ -1925,6 +1925,10 @@ OPCODES_TABLE = (
 OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
 
 
+def _opcode_bytes(opcode):
+    return list(opcode.to_bytes(max(1, (opcode.bit_length() + 7) // 8), 'big'))
+
+
 class X86OpCode:
 
     def __init__(self, assembler, name, base, args):
@@ -1947,17 +1951,14 @@ class X86OpCode:
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) == 1:
-                    return pack_byte(base)
+                    return pack_byte(*_opcode_bytes(base))
                 raise InvalidOpCodeArguments(instr)
             if len(instr.tokens) < 2:
                 continue
             index = 1
             skip = False
             full_blob = b''
-            if base > 0xFF:
-                new_base = [base >> 8, base & 0xff]
-            else:
-                new_base = [base]
+            new_base = _opcode_bytes(base)
             for arg in args:
                 delta_base_and_blob = arg(
                     instr, new_base, self.assembler, index, modrm)
-- 
2.43.0


From 090b1f78760ad9d069af2e57098082208fcfa3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 61/74] fix: x86 instructions without operands ignored the
 operand size in their name

---
 necroassembler/cpu/x86.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 00c4a6c..298f9f0 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1922,7 +1922,20 @@ OPCODES_TABLE = (
     (0xffe, 'PADDD', _Vdq, _Wdq)
 )
 
-OPCODES_IMPLICIT_32 = ('STOSD', 'LODSD')
+# operand size implied by the name of an instruction without operands
+OPCODES_IMPLICIT_SIZE = {
+    'CBW': 16, 'CWD': 16, 'INSW': 16, 'OUTSW': 16, 'MOVSW': 16,
+    'CMPSW': 16, 'STOSW': 16, 'LODSW': 16, 'SCASW': 16,
+    'CWDE': 32, 'CDQ': 32, 'INSD': 32, 'OUTSD': 32, 'MOVSD': 32,
+    'CMPSD': 32, 'STOSD': 32, 'LODSD': 32, 'SCASD': 32,
+    'PUSHAD': 32, 'POPAD': 32, 'PUSHFD': 32, 'POPFD': 32, 'IRETD': 32,
+    'CDQE': 64, 'CQO': 64, 'MOVSQ': 64, 'CMPSQ': 64,
+    'STOSQ': 64, 'LODSQ': 64, 'SCASQ': 64, 'IRETQ': 64,
+    'PUSHFQ': 64, 'POPFQ': 64,
+}
+
+# these have only one operand size in 64 bit mode, without a prefix
+OPCODES_STACK_SIZE = ('PUSHFD', 'POPFD', 'PUSHFQ', 'POPFQ')
 
 
 def _opcode_bytes(opcode):
@@ -1939,19 +1952,33 @@ class X86OpCode:
     def add_condition(self, base, args):
         self.conditions.append((base, args))
 
+    def implicit_prefix(self, instr):
+        name = instr.tokens[0].upper()
+        size = OPCODES_IMPLICIT_SIZE.get(name)
+        if size is None:
+            return ()
+        if self.assembler.bits == 64 and name in OPCODES_STACK_SIZE:
+            if size != 64:
+                raise InvalidOpCodeArguments(instr)
+            return ()
+        if size == 64:
+            if self.assembler.bits != 64:
+                raise InvalidOpCodeArguments(instr)
+            return (0x48,)
+        if (size == 16) != (self.assembler.bits == 16):
+            return (0x66,)
+        return ()
+
     def __call__(self, instr):
         for base, args in self.conditions:
             modrm = {}
             if not args:
-                if instr.tokens[0].upper() in OPCODES_IMPLICIT_32:
-                    if self.assembler.bits == 16:
-                        return pack_byte(0x66, base)
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
                 if len(instr.tokens) == 1:
-                    return pack_byte(*_opcode_bytes(base))
+                    return pack_byte(*self.implicit_prefix(instr), *_opcode_bytes(base))
                 raise InvalidOpCodeArguments(instr)
             if len(instr.tokens) < 2:
                 continue
-- 
2.43.0


From f4e0ec67d30db736f11434083a4364b972ac3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 62/74] fix: x86 64 bit registers were encoded as 32 bit ones
 and operands of different sizes accepted

---
 necroassembler/cpu/x86.py | 77 +++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 298f9f0..7936471 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -88,6 +88,20 @@ def _apply_Z(base, reg, regs):
     return base
 
 
+def _operand_size(assembler, base, modrm, bits):
+    if bits == 64 and assembler.bits != 64:
+        return False
+    if 'bits' in modrm:
+        return modrm['bits'] == bits
+    modrm['bits'] = bits
+    if bits == 64:
+        # REX.W comes right before the opcode
+        base.insert(1 if base[0] == 0xf3 else 0, 0x48)
+    elif (bits == 16) != (assembler.bits == 16):
+        base.insert(0, 0x66)
+    return True
+
+
 def _Eb(instr, base, assembler, index, modrm):
     pass
 
@@ -101,26 +115,22 @@ def _Evqp(instr, base, assembler, index, modrm):
     if arg in REGS16:
         modrm['mod'] = 3
         modrm['rm'] = REGS16.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 16):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg in REGS32:
         modrm['mod'] = 3
         modrm['rm'] = REGS32.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 32):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg in REGS64:
         modrm['mod'] = 3
         modrm['rm'] = REGS64.index(arg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+        if not _operand_size(assembler, base, modrm, 64):
+            return None
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg == '[':
@@ -140,26 +150,22 @@ def _Gvqp(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in REGS16:
         modrm['reg'] = REGS16.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 16
-            if assembler.bits != 16:
-                base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 16):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
     if reg in REGS32:
         modrm['reg'] = REGS32.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 32
-            if assembler.bits == 16:
-                base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 32):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
     if reg in REGS64:
         modrm['reg'] = REGS64.index(reg)
-        if 'bits' not in modrm:
-            modrm['bits'] = 64
+        if not _operand_size(assembler, base, modrm, 64):
+            return None
         if index > 1:
             return 1, base, _build_modrm(assembler, base, modrm)
         return 1, base, b''
@@ -169,19 +175,18 @@ def _Zvqp(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in REGS32:
         base = _apply_Z(base, reg, REGS32)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 32
+        if not _operand_size(assembler, base, modrm, 32):
+            return None
         return 1, base, b''
     if reg in REGS64:
         base = _apply_Z(base, reg, REGS64)
-        modrm['bits'] = 64
+        if not _operand_size(assembler, base, modrm, 64):
+            return None
         return 1, base, b''
     if reg in REGS16:
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
-        modrm['bits'] = 16
         base = _apply_Z(base, reg, REGS16)
+        if not _operand_size(assembler, base, modrm, 16):
+            return None
         return 1, base, b''
 
 
@@ -218,17 +223,16 @@ def _Ivds(instr, base, assembler, index, modrm):
 
 def _rAX(instr, base, assembler, index, modrm):
     if instr.tokens[index].upper() == 'AX':
-        modrm['bits'] = 16
-        if assembler.bits != 16:
-            base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 16):
+            return None
         return 1, base, b''
     if instr.tokens[index].upper() == 'EAX':
-        modrm['bits'] = 32
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
+        if not _operand_size(assembler, base, modrm, 32):
+            return None
         return 1, base, b''
     if instr.tokens[index].upper() == 'RAX':
-        modrm['bits'] = 64
+        if not _operand_size(assembler, base, modrm, 64):
+            return None
         return 1, base, b''
 
 
@@ -239,9 +243,10 @@ def _Zv(instr, base, assembler, index, modrm):
 def _Zvq(instr, base, assembler, index, modrm):
     reg = instr.tokens[index].upper()
     if reg in REGS64:
+        # the only size in 64 bit mode: no prefix
+        if assembler.bits != 64:
+            return None
         base = _apply_Z(base, reg, REGS64)
-        if assembler.bits == 16:
-            base.insert(0, 0x66)
         modrm['bits'] = 64
         return 1, base, b''
     if reg in REGS16:
-- 
2.43.0


From 48336841112baf06954146eab663fff8b104dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 63/74] fix: x86 operands beyond those of the instruction were
 ignored

---
 necroassembler/cpu/x86.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 7936471..d260b92 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -1982,16 +1982,17 @@ class X86OpCode:
                     new_instr = Instruction(
                         instr.tokens[1:], instr.line, instr.context)
                     return pack_byte(base) + self.assembler.instructions[new_instr.tokens[0].upper()](new_instr)
-                if len(instr.tokens) == 1:
-                    return pack_byte(*self.implicit_prefix(instr), *_opcode_bytes(base))
-                raise InvalidOpCodeArguments(instr)
-            if len(instr.tokens) < 2:
-                continue
+                if len(instr.tokens) > 1:
+                    continue
+                return pack_byte(*self.implicit_prefix(instr), *_opcode_bytes(base))
             index = 1
             skip = False
             full_blob = b''
             new_base = _opcode_bytes(base)
             for arg in args:
+                if index >= len(instr.tokens):
+                    skip = True
+                    break
                 delta_base_and_blob = arg(
                     instr, new_base, self.assembler, index, modrm)
                 if not delta_base_and_blob or len(delta_base_and_blob) != 3:
@@ -2001,7 +2002,7 @@ class X86OpCode:
                     new_index, new_base, new_blob = delta_base_and_blob
                     index += new_index
                     full_blob += new_blob
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(*new_base) + full_blob
 
 
-- 
2.43.0


From 0acf4491e8e5ffcd5178492f038e1a24d23c8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 64/74] fix: x86 instructions that share an opcode or have a
 third operand were encoded without it

---
 necroassembler/cpu/x86.py | 89 ++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index d260b92..7ef6844 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -42,6 +42,7 @@ def _build_modrm(assembler, base, modrm):
                 bits_size=64,
                 offset=len(base),
                 signed=True))
+    modrm['length'] = len(blob)
     return blob
 
 
@@ -215,10 +216,10 @@ def _Ivds(instr, base, assembler, index, modrm):
         if 'bits' in modrm:
             if modrm['bits'] == 16:
                 return 1, base, pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=2, bits_size=16, offset=len(base)))
+                    instr.tokens[index], size=2, bits_size=16, offset=len(base) + modrm.get('length', 0)))
             if modrm['bits'] == 32:
                 return 1, base, pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index], size=4, bits_size=32, offset=len(base)))
+                    instr.tokens[index], size=4, bits_size=32, offset=len(base) + modrm.get('length', 0)))
 
 
 def _rAX(instr, base, assembler, index, modrm):
@@ -749,12 +750,12 @@ OPCODES_TABLE = (
     (0x34, 'XOR', _AL, _Ib),
     (0x35, 'XOR', _rAX, _Ivds),
     (0x37, 'AAA'),
-    (0x38, 'CMP', _Eb),
-    (0x39, 'CMP', _Evqp),
-    (0x3a, 'CMP', _Gb),
-    (0x3b, 'CMP', _Gvqp),
-    (0x3c, 'CMP', _AL),
-    (0x3d, 'CMP', _rAX),
+    (0x38, 'CMP', _Eb, _Gb),
+    (0x39, 'CMP', _Evqp, _Gvqp),
+    (0x3a, 'CMP', _Gb, _Eb),
+    (0x3b, 'CMP', _Gvqp, _Evqp),
+    (0x3c, 'CMP', _AL, _Ib),
+    (0x3d, 'CMP', _rAX, _Ivds),
     (0x3e, 'TAKEN'),
     (0x3f, 'AAS'),
     (0x40, 'INC', _Zv),
@@ -788,9 +789,9 @@ OPCODES_TABLE = (
     (0x63, 'MOVSXD', _Gdqp, _Ed),
     (0x64, 'ALTER'),
     (0x68, 'PUSH', _Ivs),
-    (0x69, 'IMUL', _Gvqp, _Evqp),
+    (0x69, 'IMUL', _Gvqp, _Evqp, _Ivds),
     (0x6a, 'PUSH', _Ibss),
-    (0x6b, 'IMUL', _Gvqp, _Evqp),
+    (0x6b, 'IMUL', _Gvqp, _Evqp, _Ibs),
     (0x6c, 'INS', _Yb, _DX),
     (0x6c, 'INSB'),
     (0x6d, 'INS', _Ywo, _DX),
@@ -840,7 +841,7 @@ OPCODES_TABLE = (
     (0x80, 'AND', _Eb, _Ib),
     (0x80, 'SUB', _Eb, _Ib),
     (0x80, 'XOR', _Eb, _Ib),
-    (0x80, 'CMP', _Eb),
+    (0x80, 'CMP', _Eb, _Ib),
     (0x81, 'ADD', _Evqp, _Ivds),
     (0x81, 'OR', _Evqp, _Ivds),
     (0x81, 'ADC', _Evqp, _Ivds),
@@ -848,7 +849,7 @@ OPCODES_TABLE = (
     (0x81, 'AND', _Evqp, _Ivds),
     (0x81, 'SUB', _Evqp, _Ivds),
     (0x81, 'XOR', _Evqp, _Ivds),
-    (0x81, 'CMP', _Evqp),
+    (0x81, 'CMP', _Evqp, _Ivds),
     (0x82, 'ADD', _Eb, _Ib),
     (0x82, 'OR', _Eb, _Ib),
     (0x82, 'ADC', _Eb, _Ib),
@@ -856,7 +857,7 @@ OPCODES_TABLE = (
     (0x82, 'AND', _Eb, _Ib),
     (0x82, 'SUB', _Eb, _Ib),
     (0x82, 'XOR', _Eb, _Ib),
-    (0x82, 'CMP', _Eb),
+    (0x82, 'CMP', _Eb, _Ib),
     (0x83, 'ADD', _Evqp, _Ibs),
     (0x83, 'OR', _Evqp, _Ibs),
     (0x83, 'ADC', _Evqp, _Ibs),
@@ -864,11 +865,11 @@ OPCODES_TABLE = (
     (0x83, 'AND', _Evqp, _Ibs),
     (0x83, 'SUB', _Evqp, _Ibs),
     (0x83, 'XOR', _Evqp, _Ibs),
-    (0x83, 'CMP', _Evqp),
-    (0x84, 'TEST', _Eb),
-    (0x85, 'TEST', _Evqp),
-    (0x86, 'XCHG', _Gb),
-    (0x87, 'XCHG', _Gvqp),
+    (0x83, 'CMP', _Evqp, _Ibs),
+    (0x84, 'TEST', _Eb, _Gb),
+    (0x85, 'TEST', _Evqp, _Gvqp),
+    (0x86, 'XCHG', _Gb, _Eb),
+    (0x87, 'XCHG', _Gvqp, _Evqp),
     (0x88, 'MOV', _Eb, _Gb),
     (0x89, 'MOV', _Evqp, _Gvqp),
     (0x8a, 'MOV', _Gb, _Eb),
@@ -879,7 +880,7 @@ OPCODES_TABLE = (
     (0x8e, 'MOV', _Sw, _Ew),
     (0x8f, 'POP', _Ev),
     (0x8f, 'POP', _Evq),
-    (0x90, 'XCHG', _Zvqp),
+    (0x90, 'XCHG', _Zvqp, _rAX),
     (0x90, 'NOP'),
     (0x90, 'NOP'),
     (0xf390, 'PAUSE'),
@@ -930,8 +931,8 @@ OPCODES_TABLE = (
     (0xa7, 'CMPSW'),
     (0xa7, 'CMPSD'),
     (0xa7, 'CMPSQ'),
-    (0xa8, 'TEST', _AL),
-    (0xa9, 'TEST', _rAX),
+    (0xa8, 'TEST', _AL, _Ib),
+    (0xa9, 'TEST', _rAX, _Ivds),
     (0xaa, 'STOS', _Yb),
     (0xaa, 'STOSB'),
     (0xab, 'STOS', _Ywo),
@@ -984,7 +985,7 @@ OPCODES_TABLE = (
     (0xc1, 'SAL', _Evqp, _Ib),
     (0xc1, 'SHL', _Evqp, _Ib),
     (0xc1, 'SAR', _Evqp, _Ib),
-    (0xc2, 'RETN'),
+    (0xc2, 'RETN', _Iw),
     (0xc3, 'RETN'),
     (0xc3, 'RET'),
     (0xc6, 'MOV', _Eb, _Ib),
@@ -1263,16 +1264,16 @@ OPCODES_TABLE = (
     (0xf3, 'REP'),
     (0xf4, 'HLT'),
     (0xf5, 'CMC'),
-    (0xf6, 'TEST', _Eb),
-    (0xf6, 'TEST', _Eb),
+    (0xf6, 'TEST', _Eb, _Ib),
+    (0xf6, 'TEST', _Eb, _Ib),
     (0xf6, 'NOT', _Eb),
     (0xf6, 'NEG', _Eb),
-    (0xf6, 'MUL'),
-    (0xf6, 'IMUL'),
-    (0xf6, 'DIV'),
-    (0xf6, 'IDIV'),
-    (0xf7, 'TEST', _Evqp),
-    (0xf7, 'TEST', _Evqp),
+    (0xf6, 'MUL', _Eb),
+    (0xf6, 'IMUL', _Eb),
+    (0xf6, 'DIV', _Eb),
+    (0xf6, 'IDIV', _Eb),
+    (0xf7, 'TEST', _Evqp, _Ivds),
+    (0xf7, 'TEST', _Evqp, _Ivds),
     (0xf7, 'NOT', _Evqp),
     (0xf7, 'NEG', _Evqp),
     (0xf7, 'MUL', _Evqp),
@@ -1768,13 +1769,13 @@ OPCODES_TABLE = (
     (0xf9f, 'SETNLE', _Eb),
     (0xf9f, 'SETG', _Eb),
     (0xfa2, 'CPUID'),
-    (0xfa3, 'BT', _Evqp),
-    (0xfa4, 'SHLD', _Evqp, _Gvqp),
-    (0xfa5, 'SHLD', _Evqp, _Gvqp),
+    (0xfa3, 'BT', _Evqp, _Gvqp),
+    (0xfa4, 'SHLD', _Evqp, _Gvqp, _Ib),
+    (0xfa5, 'SHLD', _Evqp, _Gvqp, _CL),
     (0xfaa, 'RSM'),
     (0xfab, 'BTS', _Evqp, _Gvqp),
-    (0xfac, 'SHRD', _Evqp, _Gvqp),
-    (0xfad, 'SHRD', _Evqp, _Gvqp),
+    (0xfac, 'SHRD', _Evqp, _Gvqp, _Ib),
+    (0xfad, 'SHRD', _Evqp, _Gvqp, _CL),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXSAVE', _Mstx),
     (0xfae, 'FXRSTOR', _Mstx),
@@ -1798,7 +1799,7 @@ OPCODES_TABLE = (
     (0xfb8, 'JMPE'),
     (0xf30fb8, 'POPCNT', _Gvqp, _Evqp),
     (0xfb9, 'UD', _G),
-    (0xfba, 'BT', _Evqp),
+    (0xfba, 'BT', _Evqp, _Ib),
     (0xfba, 'BTS', _Evqp, _Ib),
     (0xfba, 'BTR', _Evqp, _Ib),
     (0xfba, 'BTC', _Evqp, _Ib),
@@ -1807,8 +1808,8 @@ OPCODES_TABLE = (
     (0xfbd, 'BSR', _Gvqp, _Evqp),
     (0xfbe, 'MOVSX', _Gvqp, _Eb),
     (0xfbf, 'MOVSX', _Gvqp, _Ew),
-    (0xfc0, 'XADD', _Eb),
-    (0xfc1, 'XADD', _Evqp),
+    (0xfc0, 'XADD', _Eb, _Gb),
+    (0xfc1, 'XADD', _Evqp, _Gvqp),
     (0xfc2, 'CMPPS', _Vps, _Wps),
     (0xfc2, 'CMPSS', _Vss, _Wss),
     (0xfc2, 'CMPPD', _Vpd, _Wpd),
@@ -1927,6 +1928,15 @@ OPCODES_TABLE = (
     (0xffe, 'PADDD', _Vdq, _Wdq)
 )
 
+# instructions sharing an opcode, by the number in the reg field of their modrm
+OPCODES_GROUPS = {
+    0x81: ('ADD', 'OR', 'ADC', 'SBB',
+           'AND', 'SUB', 'XOR', 'CMP'),
+    0xc7: ('MOV',),
+    0xf7: ('TEST', None, 'NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV'),
+    0xff: ('INC', 'DEC'),
+}
+
 # operand size implied by the name of an instruction without operands
 OPCODES_IMPLICIT_SIZE = {
     'CBW': 16, 'CWD': 16, 'INSW': 16, 'OUTSW': 16, 'MOVSW': 16,
@@ -1977,6 +1987,9 @@ class X86OpCode:
     def __call__(self, instr):
         for base, args in self.conditions:
             modrm = {}
+            group = OPCODES_GROUPS.get(base, ())
+            if self.name in group:
+                modrm['reg'] = group.index(self.name)
             if not args:
                 if instr.tokens[0].upper().startswith('REP'):
                     new_instr = Instruction(
-- 
2.43.0


From 30688964b58190dbeb8c66a335ebc9eaf7f5870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 65/74] fix: x86 32 bit branch targets were limited to 16 bits

---
 necroassembler/cpu/x86.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 7ef6844..7b37196 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -470,7 +470,7 @@ def _Jvds(instr, base, assembler, index, modrm):
             return 1, base, pack_le32u(assembler.parse_integer_or_label(
                 instr.tokens[index],
                 relative=assembler.pc + len(base) + 4,
-                size=2, bits_size=16, offset=len(base)))
+                size=4, bits_size=32, offset=len(base)))
 
 
 def _Eq(instr, base, assembler, index, modrm):
-- 
2.43.0


From 4c77b84e0deff6e23b1f057056154d75fcdcd722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 66/74] fix: .bits without a mode was an unhandled error

---
 necroassembler/cpu/x86.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 7b37196..dfc562b 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -2037,9 +2037,11 @@ class AssemblerX86(Assembler):
 
     @directive('bits')
     def directive_bits(self, instr):
+        if len(instr.tokens) != 2:
+            raise InvalidArgumentsForDirective(instr)
         value = self.parse_integer(instr.tokens[1], 8, False)
         if value is None or value not in (16, 32, 64):
-            raise InvalidArgumentsForDirective
+            raise InvalidArgumentsForDirective(instr)
         self.bits = value
 
     def register_instructions(self):
-- 
2.43.0


From e22ae2a03730752439a1609a53384e4ef040f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 67/74] fix: x86 memory operands were encoded with 16 bit
 registers in every mode

---
 necroassembler/cpu/x86.py | 146 +++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 66 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index dfc562b..19fa2b2 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -20,69 +20,98 @@ def _build_modrm(assembler, base, modrm):
                                ((5, 3), modrm['reg']),
                                ((2, 0), modrm['rm'])))
 
+    if modrm.get('sib') is not None:
+        blob += pack_byte(modrm['sib'])
+
+    # [BP], [EBP] and [RBP] are only available with a displacement
+    if modrm['mod'] == 0b01:
+        blob += pack_byte(0)
+
+    # only 16 bit addresses have other displacements
     if modrm.get('displacement') is not None:
-        if modrm['bits'] == 16:
-            blob += pack_le16s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=2,
-                bits_size=16,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 32:
-            blob += pack_le32s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=4,
-                bits_size=32,
-                offset=len(base),
-                signed=True))
-        if modrm['bits'] == 64:
-            blob += pack_le64s(assembler.parse_integer_or_label(
-                modrm['displacement'].lstrip('+'),
-                size=8,
-                bits_size=64,
-                offset=len(base),
-                signed=True))
+        blob += pack_le16s(assembler.parse_integer_or_label(
+            modrm['displacement'].lstrip('+'),
+            size=2,
+            bits_size=16,
+            offset=len(base) + len(blob),
+            signed=True))
     modrm['length'] = len(blob)
     return blob
 
 
 def _get_modrm_mod(arg):
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b000, 3, None
-    if match(arg, ('BX', 'EBX', 'RBX'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b001, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b010, 3, None
-    if match(arg, ('BP', 'EBP', 'RBP'), '+', ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b011, 3, None
-    if match(arg, ('SI', 'ESI', 'RSI')):
-        return 0b00, 0b100, 1, None
-    if match(arg, ('DI', 'EDI', 'RDI')):
-        return 0b00, 0b101, 1, None
-    if match(arg, ('BP', 'EBP', 'RBP')):
-        return 0b00, 0b110, 1, None
-    if match(arg, ('BX', 'EBX', 'RBX')):
-        return 0b00, 0b111, 1, None
+    # 32 and 64 bit registers
+    for regs in (REGS32, REGS64):
+        bases = (regs[3], regs[5])
+        indexes = (regs[6], regs[7])
+        if match(arg, bases, '+', indexes):
+            base = regs.index(arg[0].upper())
+            index = regs.index(arg[2].upper())
+            return 0b01 if base == 5 else 0b00, 0b100, 3, None, index << 3 | base
+        if match(arg, bases + indexes):
+            base = regs.index(arg[0].upper())
+            return 0b01 if base == 5 else 0b00, base, 1, None, None
+    if match(arg, 'BX', '+', 'SI'):
+        return 0b00, 0b000, 3, None, None
+    if match(arg, 'BX', '+', 'DI'):
+        return 0b00, 0b001, 3, None, None
+    if match(arg, 'BP', '+', 'SI'):
+        return 0b00, 0b010, 3, None, None
+    if match(arg, 'BP', '+', 'DI'):
+        return 0b00, 0b011, 3, None, None
+    if match(arg, 'SI'):
+        return 0b00, 0b100, 1, None, None
+    if match(arg, 'DI'):
+        return 0b00, 0b101, 1, None, None
+    if match(arg, 'BP'):
+        return 0b01, 0b110, 1, None, None
+    if match(arg, 'BX'):
+        return 0b00, 0b111, 1, None, None
     # displacement (16 bit only)
     if match(arg, 'BX', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b000, 5, arg[3] + arg[4]
+        return 0b10, 0b000, 5, arg[3] + arg[4], None
     if match(arg, 'BX', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b001, 5, arg[3] + arg[4]
+        return 0b10, 0b001, 5, arg[3] + arg[4], None
     if match(arg, 'BP', '+', 'SI', ('+', '-'), None):
-        return 0b10, 0b010, 5, arg[3] + arg[4]
+        return 0b10, 0b010, 5, arg[3] + arg[4], None
     if match(arg, 'BP', '+', 'DI', ('+', '-'), None):
-        return 0b10, 0b011, 5, arg[3] + arg[4]
+        return 0b10, 0b011, 5, arg[3] + arg[4], None
     if match(arg, 'SI', ('+', '-'), None):
-        return 0b10, 0b100, 3, arg[1] + arg[2]
+        return 0b10, 0b100, 3, arg[1] + arg[2], None
     if match(arg, 'DI', ('+', '-'), None):
-        return 0b10, 0b101, 3, arg[1] + arg[2]
+        return 0b10, 0b101, 3, arg[1] + arg[2], None
     if match(arg, 'BP', ('+', '-'), None):
-        return 0b10, 0b110, 3, arg[1] + arg[2]
+        return 0b10, 0b110, 3, arg[1] + arg[2], None
     if match(arg, 'BX', ('+', '-'), None):
-        return 0b10, 0b111, 3, arg[1] + arg[2]
+        return 0b10, 0b111, 3, arg[1] + arg[2], None
     raise InvalidOpCodeArguments()
 
 
+def _memory(instr, base, assembler, index, modrm):
+    try:
+        end_index = instr.tokens.index(']', index+1)
+    except ValueError:
+        raise InvalidOpCodeArguments(instr)
+    address = tuple(instr.tokens[index+1:end_index])
+    try:
+        modrm['mod'], modrm['rm'], delta, modrm['displacement'], modrm['sib'] = _get_modrm_mod(
+            address)
+    except InvalidOpCodeArguments:
+        return None
+    if address[0].upper() in REGS64:
+        bits = 64
+    elif address[0].upper() in REGS32:
+        bits = 32
+    else:
+        bits = 16
+    if bits != assembler.bits:
+        # an address of the other size
+        if bits == 64 or (bits == 16 and assembler.bits == 64):
+            return None
+        base.insert(0, 0x67)
+    return 2 + delta, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
+
+
 def _apply_Z(base, reg, regs):
     value = regs.index(reg.upper())
     base[-1] |= value
@@ -97,7 +126,10 @@ def _operand_size(assembler, base, modrm, bits):
     modrm['bits'] = bits
     if bits == 64:
         # REX.W comes right before the opcode
-        base.insert(1 if base[0] == 0xf3 else 0, 0x48)
+        index = 0
+        while base[index] in (0x67, 0xf3):
+            index += 1
+        base.insert(index, 0x48)
     elif (bits == 16) != (assembler.bits == 16):
         base.insert(0, 0x66)
     return True
@@ -135,16 +167,7 @@ def _Evqp(instr, base, assembler, index, modrm):
         return 1, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
 
     if arg == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base, b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
-            return None
+        return _memory(instr, base, assembler, index, modrm)
 
 
 def _Gvqp(instr, base, assembler, index, modrm):
@@ -316,16 +339,7 @@ def _Sw(instr, base, assembler, index, modrm):
 
 def _M(instr, base, assembler, index, modrm):
     if instr.tokens[index] == '[':
-        try:
-            end_index = instr.tokens.index(']', index+1)
-        except ValueError:
-            raise InvalidOpCodeArguments(instr)
-        try:
-            modrm['mod'], modrm['rm'], delta, modrm['displacement'] = _get_modrm_mod(
-                tuple(instr.tokens[index+1:end_index]))
-            return 2 + delta, base,  b'' if 'reg' not in modrm else _build_modrm(assembler, base, modrm)
-        except InvalidOpCodeArguments:
-            return None
+        return _memory(instr, base, assembler, index, modrm)
 
 
 def _Evq(instr, base, assembler, index, modrm):
-- 
2.43.0


From e956e4ba09c5b5c2f7e75b448915c928c06f524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 68/74] fix: x86 descriptor table, INVLPG and XSAVE
 instructions lacked their addressing byte

---
 necroassembler/cpu/x86.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 19fa2b2..477390e 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -498,18 +498,17 @@ def _Mptp(instr, base, assembler, index, modrm):
 def _Ms(instr, base, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in ALL_REGS:
-            modrm['reg'] = 0
+            # only 16 bit addresses are shorter, in 64 bit mode they need a sib
             modrm['mod'] = 0
-            modrm['rm'] = 6
+            modrm['rm'] = {16: 0b110, 32: 0b101, 64: 0b100}[assembler.bits]
+            if assembler.bits == 64:
+                modrm['sib'] = 0x25
+            blob = _build_modrm(assembler, base, modrm)
             if assembler.bits == 16:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base)))
-            elif assembler.bits == 32:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le32u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=4, bits_size=32, offset=len(base)))
-            elif assembler.bits == 64:
-                return 3, base, _build_modrm(assembler, base, modrm) + pack_le64u(assembler.parse_integer_or_label(
-                    instr.tokens[index+1], size=8, bits_size=64, offset=len(base)))
+                return 3, base, blob + pack_le16u(assembler.parse_integer_or_label(
+                    instr.tokens[index+1], size=2, bits_size=16, offset=len(base) + len(blob)))
+            return 3, base, blob + pack_le32u(assembler.parse_integer_or_label(
+                instr.tokens[index+1], size=4, bits_size=32, offset=len(base) + len(blob)))
 
 
 def _Rv(instr, base, assembler, index, modrm):
@@ -1944,6 +1943,8 @@ OPCODES_TABLE = (
 
 # instructions sharing an opcode, by the number in the reg field of their modrm
 OPCODES_GROUPS = {
+    0xf01: ('SGDT', 'SIDT', 'LGDT', 'LIDT', None, None, None, 'INVLPG'),
+    0xfae: (None, None, None, None, 'XSAVE', 'XRSTOR'),
     0x81: ('ADD', 'OR', 'ADC', 'SBB',
            'AND', 'SUB', 'XOR', 'CMP'),
     0xc7: ('MOV',),
-- 
2.43.0


From 00c88805c0fb6183c77d2352c897a735a8bd3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 69/74] fix: x86 forms that do not match left label references
 behind

---
 necroassembler/cpu/x86.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/necroassembler/cpu/x86.py b/necroassembler/cpu/x86.py
index 477390e..2385cd6 100644
--- a/necroassembler/cpu/x86.py
+++ b/necroassembler/cpu/x86.py
@@ -2017,6 +2017,8 @@ class X86OpCode:
             skip = False
             full_blob = b''
             new_base = _opcode_bytes(base)
+            translations = self.assembler.labels_addresses
+            known = len(translations)
             for arg in args:
                 if index >= len(instr.tokens):
                     skip = True
@@ -2032,6 +2034,9 @@ class X86OpCode:
                     full_blob += new_blob
             if not skip and index == len(instr.tokens):
                 return pack_byte(*new_base) + full_blob
+            # forget the labels of a form that does not match
+            while len(translations) > known:
+                translations.popitem()
 
 
 class AssemblerX86(Assembler):
-- 
2.43.0


From 1e943eb4c57d5af9f622d7a2ff45534d860b5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 70/74] fix: literals that only look prefixed were unhandled
 errors

---
 necroassembler/assembler.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 665972d..fce72ca 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -317,19 +317,31 @@ class Assembler:
 
         for prefix in self.hex_prefixes:
             if token.startswith(prefix):
-                return int(token[len(prefix):], 16), False
+                try:
+                    return int(token[len(prefix):], 16), False
+                except ValueError:
+                    pass
 
         for prefix in self.bin_prefixes:
             if token.startswith(prefix):
-                return int(token[len(prefix):], 2), False
+                try:
+                    return int(token[len(prefix):], 2), False
+                except ValueError:
+                    pass
 
         for prefix in self.oct_prefixes:
             if token.startswith(prefix):
-                return int(token[len(prefix):], 8), False
+                try:
+                    return int(token[len(prefix):], 8), False
+                except ValueError:
+                    pass
 
         for prefix in self.dec_prefixes:
             if token.startswith(prefix):
-                return int(token[len(prefix):], 10), True
+                try:
+                    return int(token[len(prefix):], 10), True
+                except ValueError:
+                    pass
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
@@ -343,12 +355,18 @@ class Assembler:
         for suffix in self.bin_suffixes:
             if token.endswith(suffix):
                 if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 2), False
+                    try:
+                        return int(token[0:-len(suffix)], 2), False
+                    except ValueError:
+                        pass
 
         for suffix in self.oct_suffixes:
             if token.endswith(suffix):
                 if token[:-len(suffix)].isdigit():
-                    return int(token[0:-len(suffix)], 8), False
+                    try:
+                        return int(token[0:-len(suffix)], 8), False
+                    except ValueError:
+                        pass
 
         for suffix in self.dec_suffixes:
             if token.endswith(suffix):
-- 
2.43.0


From db081e899110abdb4162ca6a383a6368c05a1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 71/74] fix: words of strings and character literals were
 replaced by defines

---
 necroassembler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/utils.py b/necroassembler/utils.py
index 9242d22..b3a0867 100644
--- a/necroassembler/utils.py
+++ b/necroassembler/utils.py
@@ -144,6 +144,9 @@ def is_valid_name(name):
 def substitute_with_dict(tokens, _dict, start):
     for i in range(start, len(tokens)):
         name = tokens[i]
+        # strings and characters stay as they are
+        if name.startswith(('"', '\'')):
+            continue
         # simple case first
         if name in _dict:
             tokens[i] = _dict[name]
-- 
2.43.0


From fef8f5b8f1c0efdd2050c7da396b57bc1e0bc836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 72/74] fix: redefining a define replaced its old value
 everywhere

---
 necroassembler/statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index e73ccba..fbacb3e 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -119,11 +119,12 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive (and the name of a define) for defines substitution
+        substitute_with_dict(self.tokens, assembler.defines,
+                             2 if key.upper() == 'DEFINE' else 1)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From a05d88e8dea03dcc8c5d688b1fb165d189c37a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 73/74] fix: malformed numbers were reported as unknown labels,
 without their line

---
 necroassembler/assembler.py  | 19 ++++++++++++-------
 necroassembler/exceptions.py |  4 ++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index fce72ca..bb3d3f2 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -7,7 +7,7 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        UnsupportedNestedRepeat,
                                        AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed,
                                        InvalidArgumentsForDirective, LabelNotAllowed, InvalidDefine,
-                                       SectionAlreadyDefined, SymbolAlreadyExported)
+                                       SectionAlreadyDefined, SymbolAlreadyExported, InvalidNumber)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
 
@@ -315,33 +315,35 @@ class Assembler:
         if token[0] == '\'' and token[2] == '\'':
             return ord(token[1:2]), False
 
+        malformed = False
+
         for prefix in self.hex_prefixes:
             if token.startswith(prefix):
                 try:
                     return int(token[len(prefix):], 16), False
                 except ValueError:
-                    pass
+                    malformed = True
 
         for prefix in self.bin_prefixes:
             if token.startswith(prefix):
                 try:
                     return int(token[len(prefix):], 2), False
                 except ValueError:
-                    pass
+                    malformed = True
 
         for prefix in self.oct_prefixes:
             if token.startswith(prefix):
                 try:
                     return int(token[len(prefix):], 8), False
                 except ValueError:
-                    pass
+                    malformed = True
 
         for prefix in self.dec_prefixes:
             if token.startswith(prefix):
                 try:
                     return int(token[len(prefix):], 10), True
                 except ValueError:
-                    pass
+                    malformed = True
 
         for suffix in self.hex_suffixes:
             if token.endswith(suffix):
@@ -358,7 +360,7 @@ class Assembler:
                     try:
                         return int(token[0:-len(suffix)], 2), False
                     except ValueError:
-                        pass
+                        malformed = True
 
         for suffix in self.oct_suffixes:
             if token.endswith(suffix):
@@ -366,7 +368,7 @@ class Assembler:
                     try:
                         return int(token[0:-len(suffix)], 8), False
                     except ValueError:
-                        pass
+                        malformed = True
 
         for suffix in self.dec_suffixes:
             if token.endswith(suffix):
@@ -376,6 +378,9 @@ class Assembler:
         try:
             return int(token), True
         except ValueError:
+            # a declared prefix or suffix without a number
+            if malformed:
+                raise InvalidNumber(token)
             return None, False
 
     def parse_integer(self, token, number_of_bits, signed):
diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 0e21aea..412bd24 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -126,3 +126,7 @@ class InvalidDefine(AssemblerException):
 
 class LabelNotAllowed(AssemblerException):
     message = 'label not allowed here'
+
+
+class InvalidNumber(AssemblerException):
+    message = 'invalid number'
-- 
2.43.0


From 042d97a1673643d9be218faa3f72e53fba2c7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 74/74] fix: a division by zero in a formula was an unhandled
 error

---
 necroassembler/assembler.py  | 5 ++++-
 necroassembler/exceptions.py | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index bb3d3f2..556ac76 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -7,7 +7,8 @@ from necroassembler.exceptions import (UnknownLabel, UnsupportedNestedMacro, Not
                                        UnsupportedNestedRepeat,
                                        AlignmentError, NotInBitRange, OnlyForwardAddressesAllowed,
                                        InvalidArgumentsForDirective, LabelNotAllowed, InvalidDefine,
-                                       SectionAlreadyDefined, SymbolAlreadyExported, InvalidNumber)
+                                       SectionAlreadyDefined, SymbolAlreadyExported, InvalidNumber,
+                                       DivisionByZero)
 from necroassembler.macros import Macro
 from necroassembler.linker import Dummy
 
@@ -478,6 +479,8 @@ class Assembler:
             elif command == '*':
                 value *= arg_value
             elif command == '/':
+                if arg_value == 0:
+                    raise DivisionByZero(arg)
                 value //= arg_value
             elif command == '&':
                 value &= arg_value
diff --git a/necroassembler/exceptions.py b/necroassembler/exceptions.py
index 412bd24..8fcedc0 100644
--- a/necroassembler/exceptions.py
+++ b/necroassembler/exceptions.py
@@ -130,3 +130,7 @@ class LabelNotAllowed(AssemblerException):
 
 class InvalidNumber(AssemblerException):
     message = 'invalid number'
+
+
+class DivisionByZero(AssemblerException):
+    message = 'division by zero'
-- 
2.43.0

