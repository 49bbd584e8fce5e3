#!/usr/bin/env python3
'''known_findings.jsonl: repaired defects (fixed) and recorded ones (open)'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C21', 'ff4b9c3', 'a string operand pattern matched any of its characters, so "LD A,D" and "LDH A,(c)" style operands selected wrong encodings'),
    ('C21', 'b27699f', 'LD rr,SP+n was accepted for every destination and encoded as LD HL,SP+n'),
    ('C02', 'd1169b6', 'a bounded origin was not filled up to and including its declared last byte'),
    ('C02', 'c8631be', 'goto and upto compared their target with the position of the output instead of the address they pad from: too much or negative padding'),
    ('C14', '1d106a5', 'the log directive built an error for an invalid argument and did not raise it'),
    ('C12', '9b5a627', 'labels referenced in a repeated block were resolved in its first copy only'),
    ('C09', '172e7b4', 'strings of dw and dd carried a byte order mark and ignored the declared byte order'),
    ('C09', '5ee5668', 'dw_to_ascii crashed on string operands'),
    ('C09', '6af1424', 'a label converted to text could overwrite the bytes after the reserved digits'),
    ('C10', 'e0f5854', 'including a file padded the bounded origin it was included into'),
    ('C08', '77cf59e', 'unterminated strings and a colon without a label were silently dropped'),
    ('C11', 'b0551b1', 'a macro call with missing arguments was expanded with parameter names, and a failed expansion corrupted later calls'),
    ('C04', '6c33547', 'the character literal of an operator was parsed as a formula and crashed'),
    ('C12', '43976ab', 'a negative repeat count (and a negative amount of reserved memory) was taken as 2**64 minus it'),
    ('C16', '0209f60', 'the symbol table had no null symbol: the first exported label was lost by every reader'),
    ('C16', '9a275e0', 'the value of a symbol was relative to its origin, not to its section, when a section was declared without an address'),
    ('C16', 'fa0c798', 'a linker used for a second program wrote a header with two tails'),
    ('C16', '66baed5', 'a reference to an undefined label was recorded and never relocated: the program was written with a zero in its place'),
    ('C22', 'f5150be', 'LD (IX+d),n never emitted its displacement'),
    ('C22', '03cac37', 'BIT/SET/RES b,(IX+d) were encoded with the number of the operand row instead of the documented bit opcode'),
    ('C22', '59fe952', 'LD A,(IX+d) and LD (IX+d),A were encoded as absolute accesses'),
    ('C17', '16e6b3f', 'with a single argument the source was replaced by an empty file'),
    ('C23', '5ddecd9', 'a displacement or far pointer given by a label was written over the modrm byte'),
    ('C23', '17d2ec7', 'MOV AL,[label] and MOV [label],AL only resolved eight bits of the address'),
    ('C23', '9bdacd9', '[BP] was encoded as a direct address'),
    ('C23', '4d7e673', 'MOV [..],n and POP [..] were emitted without their modrm byte'),
    ('C23', '2631866', 'operands an instruction does not have were ignored'),
    ('C04', '5c9a323', 'suffixed hexadecimal literals with letters were taken for labels'),
    ('C24', 'bd3727d', 'an uppercase index register without a size was refused'),
    ('C24', '3eac850', 'DBT.W and DBF.W could not be assembled'),
    ('C24', '1954496', 'operands an instruction does not have were ignored'),
    ('C24', 'a08b87e', 'MOVE.B with an address register was accepted'),
    ('C24', 'd0c0c9e', 'a short branch to the next instruction was encoded as a word branch without its displacement'),
    ('C25', 'cc28b3a', 'nor, or, sub, subu, xor, div, divu, mult and multu were always refused'),
    ('C25', 'b53f5b8', 'sltu and sltiu had wrong opcodes (sltiu was addiu)'),
    ('C25', '2826374', 'andi, ori and xori refused decimal values above 32767'),
    ('C25', '2445a10', 'j and jal to a number of 256 MB and more were refused while labels were not'),
    ('C25', '9ab99e4', 'jalr discarded the return address'),
    ('C25', 'b614cf3', 'branches to unaligned addresses were silently aligned'),
    ('C26', 'eea3bcf', 'LDR [PC/SP,#n] refused 128..1020, dropped unaligned bits, took backward labels as forward and resolved labels in [SP,#label] against the program counter'),
    ('C26', '008675e', 'ADD Rd,PC/SP,#n did not scale its immediate'),
    ('C26', 'a3bc470', 'ADD SP,#n was always refused'),
    ('C26', 'aa09fca', 'LDRH with a register had a 15 bit opcode and the immediate was not scaled'),
    ('C26', '2ebb413', 'STR Rd,[Rb,#n] was encoded as LDR'),
    ('C26', 'c24053c', 'STRB was always refused'),
    ('C26', '8f4fc93', 'BL 0 was taken for a label and odd distances were silently halved'),
    ('C26', 'ebc7e42', 'PUSH {R0} in upper case was refused'),
    ('C26', '57369a1', 'LSR and ASR by 0 were encoded as shifts by 32, shifts by 32 were refused'),
    ('C27', 'd278231', 'r0 was refused as a general register'),
    ('C27', 'e7bce1d', 'all the forms of a mnemonic used the opcode of the first one (bctr, cmp, blr with operands)'),
    ('C27', 'e29abbb', 'branches counted words, reached half of the range and dropped unaligned bits'),
    ('C27', '1f2f227', 'registers in upper case were accepted where numbers are expected, as undefined labels'),
    ('C27', '88f0999', 'mcrfs had a five bit source field'),
    ('C27', '38db463', 'forms with an unsupported operand hid the supported forms of the same mnemonic (cmpwi 1, r3, 5 was refused)'),
    ('C30', '661df50', 'the header was refused as an overlap in a region declared to start at $100'),
    ('C30', 'b3fd92f', 'the global checksum included its own old bytes'),
    ('C19', '1e943eb', 'a literal that only looks prefixed or suffixed (0h, 0b1h, 0xZZ) was an unhandled ValueError in the Intel syntax classes'),
    ('C14', 'a05d88e', 'after the previous repair a malformed number was reported as an unknown label, without its line'),
    ('C07', '042d97a', 'a division by zero in a formula was an unhandled ZeroDivisionError'),
    ('C13', 'db081e8', 'a word inside a string or character literal was replaced by a define of that name'),
    ('C13', 'fef8f5b', 'defining a name again replaced its old value wherever that value appeared, not the name'),
    ('C28', '8db16c9', 'instructions without operands and a two or three byte opcode (SYSCALL, FSIN, AAM, PAUSE, LFENCE) were emitted as one byte and POPCNT without its prefix'),
    ('C28', '090b1f7', 'CWD, CQO, MOVSW, MOVSQ, IRETQ and the like were encoded with the default operand size'),
    ('C28', 'f4e0ec6', 'ADD RAX, RBX was encoded as ADD EAX, EBX, and ADD AX, EBX accepted'),
    ('C28', '4833684', 'ADD EAX, EBX, 5 was accepted and the 5 dropped'),
    ('C28', '0acf449', 'ADD EBX, 5, NOT EAX, CMP EAX, EBX, XCHG and TEST were encoded without their addressing byte or immediate'),
    ('C28', '3068896', 'in 32 and 64 bit mode a jump or call farther than 32767 bytes was refused'),
    ('C28', '4c77b84', '.bits without a mode was an unhandled IndexError'),
    ('C28', 'e22ae2a', 'MOV EAX, [EBX] was encoded as MOV EAX, [EDI], [BP] had no displacement, label displacements overwrote the addressing byte'),
    ('C28', 'e956e4b', 'LGDT was encoded as SGDT, INVLPG, XSAVE and XRSTOR without an addressing byte'),
    ('C28', '00c8880', 'IMUL EAX, [BX + label] had its label written twice, once at a wrong place'),
    ('C31', '9f26799', 'the bank counts were written at offsets 5 and 6 instead of 4 and 5'),
    ('C33', '09b843c', 'a Mega Drive image with an odd number of bytes crashed'),
    ('C34', '653b646', 'the stack pointer was written at $20 instead of $30'),
]
AAX = dict(property='C23', what='AAM and AAD without operand, or with 10, are emitted as one byte (the processor needs D4 0A / D5 0A); the behaviour is frozen by tests/test_intel8086.py')
FAR = dict(property='C23', signature='InvalidLabel', what='CALL and JMP segment:offset are in the opcode table but the tokenizer refuses the colon in an operand')
LDRB = dict(property='C26', signature='recorded deviation', what='LDRB Rd,[Rb,#n] encodes n / 4 (the manual has the unscaled offset); the behaviour is frozen by tests/test_thumb.py')
OPEN = [
    dict(LDRB, id='ldrb-rd', case='LDRB lo [ lo #b5 ] dec all lo0 P2'),
    dict(LDRB, id='ldrb-rb', case='LDRB lo [ lo #b5 ] dec all lo3 P2'),
    dict(LDRB, id='ldrb-hex', case='LDRB lo [ lo #b5 ] hex P2'),
    dict(id='push-lr', property='C26', signature='recorded deviation', case='PUSH list with lr', what='PUSH with lr sets bit 11 (which makes it a POP) in place of bit 8; the behaviour is frozen by tests/test_thumb.py'),
    dict(AAX, id='aad', case='AAD', signature=' d5; specified'),
    dict(AAX, id='aad-10', case='AAD n dec', signature=' d5; specified'),
    dict(AAX, id='aad-0ah', case='AAD n hex', signature=' d5; specified'),
    dict(AAX, id='aam', case='AAM', signature=' d4; specified'),
    dict(AAX, id='aam-10', case='AAM n dec', signature=' d4; specified'),
    dict(AAX, id='aam-0ah', case='AAM n hex', signature=' d4; specified'),
    dict(FAR, id='call-far', case='CALL far'),
    dict(FAR, id='jmp-far', case='JMP far'),
    dict(id='console-script-mips32', property='C17', case='console script necro_mips32', signature='has no AssemblerMIPS32',
         what='setup.py declares necro_mips32 as necroassembler.cpu.thumb:AssemblerMIPS32.main, the class lives in necroassembler.cpu.mips32: the installed command cannot start (build configuration, not repaired here)'),
]
if __name__ == '__main__':
    with open(HERE + '/known_findings.jsonl', 'w') as f:
        f.write('# findings on /repo: "open" entries are reported as KNOWN-FINDING, "fixed" entries suppress nothing\n')
        for p, c, w in FIXED:
            f.write(json.dumps(dict(status='fixed', property=p, commit=c, text='fixed: property=%s %s %s' % (p, c, w))) + '\n')
        for d in OPEN:
            f.write(json.dumps(dict(status='open', **d)) + '\n')
