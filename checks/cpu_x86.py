'''x86 encodings of register, immediate and branch instructions in the three processor modes.'''
import itertools
from .common import *

ASM = ('cpu.x86', 'AssemblerX86')
RULE = 'for every mode x mnemonic x register class, the bytes the source can emit equal the instruction format of the manual (prefixes, opcode, modrm, immediate or displacement) or the program is refused'
EXPLANATION = '''Abstract interpretation of the x86 assembler in its three modes (.bits 16, 32, 64) over the instructions without operands and the
instructions on general registers, immediates and branch targets, with every register of a class at once and unknown immediates, label
addresses and program counter. The expected encodings are generated from the instruction formats of the manual, not from the table of the source.'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64',
               'memory operands are those the assembler has a syntax for: based and indexed by the 16 bit registers with an optional 16 bit displacement, by the 32 and 64 bit BX, BP, SI and DI registers without; 8 bit registers and coprocessor and vector operands are outside the property',
               'instructions the assembler does not support may be refused, but must not be encoded differently from the manual']
MIN_OBLIGATIONS = 1500

R = {8: ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH'), 16: ('AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI'),
     32: ('EAX', 'ECX', 'EDX', 'EBX', 'ESP', 'EBP', 'ESI', 'EDI'), 64: ('RAX', 'RCX', 'RDX', 'RBX', 'RSP', 'RBP', 'RSI', 'RDI')}
CR = tuple('CR%d' % i for i in range(8))
ARITH = ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')
CC = (('O',), ('NO',), ('B', 'C', 'NAE'), ('NB', 'AE', 'NC'), ('Z', 'E'), ('NZ', 'NE'), ('BE', 'NA'), ('A', 'NBE'),
      ('S',), ('NS',), ('P', 'PE'), ('NP', 'PO'), ('L', 'NGE'), ('NL', 'GE'), ('LE', 'NG'), ('G', 'NLE'))
MODES = (16, 32, 64)

# instructions without operands: name -> (bytes, operand size implied by the name)
BARE = {}


def bare_rows(text, size=None):
    for row in text.split(','):
        n, h = row.split()
        BARE[n] = (bytes.fromhex(h), size)


bare_rows('''DAA 27,DAS 2f,AAA 37,AAS 3f,NOP 90,WAIT 9b,FWAIT 9b,SAHF 9e,LAHF 9f,RET c3,RETN c3,RETF cb,LEAVE c9,INTO ce,IRET cf,XLATB d7,
SALC d6,INT1 f1,ICEBP f1,HLT f4,CMC f5,CLC f8,STC f9,CLI fa,STI fb,CLD fc,STD fd,PUSHA 60,POPA 61,PUSHF 9c,POPF 9d,INSB 6c,OUTSB 6e,
MOVSB a4,CMPSB a6,STOSB aa,LODSB ac,SCASB ae,AAM d40a,AAD d50a,PAUSE f390,
SYSCALL 0f05,CLTS 0f06,SYSRET 0f07,INVD 0f08,WBINVD 0f09,UD2 0f0b,WRMSR 0f30,RDTSC 0f31,RDMSR 0f32,RDPMC 0f33,SYSENTER 0f34,SYSEXIT 0f35,
GETSEC 0f37,EMMS 0f77,CPUID 0fa2,RSM 0faa,VMCALL 0f01c1,VMLAUNCH 0f01c2,VMRESUME 0f01c3,VMXOFF 0f01c4,MONITOR 0f01c8,MWAIT 0f01c9,
XGETBV 0f01d0,XSETBV 0f01d1,SWAPGS 0f01f8,RDTSCP 0f01f9,LFENCE 0faee8,MFENCE 0faef0,SFENCE 0faef8,
FNOP d9d0,FCHS d9e0,FABS d9e1,FTST d9e4,FXAM d9e5,FLD1 d9e8,FLDL2T d9e9,FLDL2E d9ea,FLDPI d9eb,FLDLG2 d9ec,FLDLN2 d9ed,FLDZ d9ee,
F2XM1 d9f0,FYL2X d9f1,FPTAN d9f2,FPATAN d9f3,FXTRACT d9f4,FPREM1 d9f5,FDECSTP d9f6,FINCSTP d9f7,FPREM d9f8,FYL2XP1 d9f9,FSQRT d9fa,
FSINCOS d9fb,FRNDINT d9fc,FSCALE d9fd,FSIN d9fe,FCOS d9ff,FXCH d9c9,FCOM d8d1,FCOMP d8d9,FUCOM dde1,FUCOMP dde9,FUCOMPP dae9,FCOMPP ded9,
FADDP dec1,FMULP dec9,FSUBRP dee1,FSUBP dee9,FDIVRP def1,FDIVP def9,FNCLEX dbe2,FCLEX 9bdbe2,FNINIT dbe3,FINIT 9bdbe3''')
bare_rows('CBW 98,CWD 99,INSW 6d,OUTSW 6f,MOVSW a5,CMPSW a7,STOSW ab,LODSW ad,SCASW af', 16)
bare_rows('CWDE 98,CDQ 99,INSD 6d,OUTSD 6f,MOVSD a5,CMPSD a7,STOSD ab,LODSD ad,SCASD af,PUSHAD 60,POPAD 61,IRETD cf', 32)
bare_rows('CDQE 98,CQO 99,MOVSQ a5,CMPSQ a7,STOSQ ab,LODSQ ad,SCASQ af,IRETQ cf', 64)
STACK = {'PUSHFD': (0x9c, 32), 'POPFD': (0x9d, 32), 'PUSHFQ': (0x9c, 64), 'POPFQ': (0x9d, 64)}
NOT64 = ('DAA', 'DAS', 'AAA', 'AAS', 'INTO', 'SALC', 'PUSHA', 'POPA', 'PUSHAD', 'POPAD', 'AAM', 'AAD')
ONLY64 = ('SYSCALL', 'SYSRET', 'SWAPGS')
STRINGS = ('MOVS', 'CMPS', 'STOS', 'LODS', 'SCAS', 'INS', 'OUTS')
REPS = (('REP', 0xf3), ('REPE', 0xf3), ('REPZ', 0xf3), ('REPNE', 0xf2), ('REPNZ', 0xf2))


def prefix(mode, w, rex=True):
    '''operand size prefix of a w bit operation'''
    if w == 64:
        if mode != 64:
            raise Reject()
        return b'\x48' if rex else b''
    return b'\x66' if (w == 16) != (mode == 16) else b''


def bare_bytes(n, mode):
    if n in STACK:
        op, w = STACK[n]
        if mode == 64:
            if w != 64:
                raise Reject()
            return bytes([op])
        if w == 64:
            raise Reject()
        return prefix(mode, w) + bytes([op])
    code, w = BARE[n]
    return (prefix(mode, w) if w else b'') + code


# forms on registers: (mnemonic, operand kinds) -> ([alternatives], required)
# an alternative is a list of: int (byte), ('m', reg, rm) modrm with reg/rm an operand number or ('/', digit), ('z', byte, k) opcode plus
# register of operand k, 'i' immediate of the operand size, 'i8', 'i32s', 'acc' (only when the first operand is the accumulator)
def forms(w):
    t = {}

    def put(key, *codes, **kw):
        t[key] = (codes, kw.get('req', w != 64 or 'n' not in key))
    D = lambda d: ('/', d)
    for i, n in enumerate(ARITH):
        put((n, 'r', 'r'), [8 * i + 1, ('m', 1, 0)], [8 * i + 3, ('m', 0, 1)])
        put((n, 'r', 'n'), [0x81, ('m', D(i), 0), 'i'], ['acc', 8 * i + 5, 'i'])
    put(('MOV', 'r', 'r'), [0x89, ('m', 1, 0)], [0x8b, ('m', 0, 1)])
    put(('MOV', 'r', 'n'), [('z', 0xb8, 0), 'I'], [0xc7, ('m', D(0), 0), 'i'], req=True)
    put(('TEST', 'r', 'r'), [0x85, ('m', 1, 0)], [0x85, ('m', 0, 1)])
    put(('TEST', 'r', 'n'), [0xf7, ('m', D(0), 0), 'i'], ['acc', 0xa9, 'i'])
    put(('XCHG', 'r', 'r'), [0x87, ('m', 1, 0)], [0x87, ('m', 0, 1)])
    for i, names in enumerate(CC):
        for c in names:
            put(('CMOV' + c, 'r', 'r'), [0x0f, 0x40 + i, ('m', 0, 1)])
    for i, n in enumerate(('BT', 'BTS', 'BTR', 'BTC')):
        put((n, 'r', 'r'), [0x0f, 0xa3 + 8 * i, ('m', 1, 0)])
        put((n, 'r', 'n'), [0x0f, 0xba, ('m', D(4 + i), 0), 'i8'], req=False)
    put(('BSF', 'r', 'r'), [0x0f, 0xbc, ('m', 0, 1)])
    put(('BSR', 'r', 'r'), [0x0f, 0xbd, ('m', 0, 1)])
    put(('POPCNT', 'r', 'r'), [0xf3, 0x0f, 0xb8, ('m', 0, 1)])
    put(('CMPXCHG', 'r', 'r'), [0x0f, 0xb1, ('m', 1, 0)])
    put(('XADD', 'r', 'r'), [0x0f, 0xc1, ('m', 1, 0)])
    put(('IMUL', 'r', 'r'), [0x0f, 0xaf, ('m', 0, 1)])
    put(('IMUL', 'r', 'r', 'n'), [0x69, ('m', 0, 1), 'i'])
    for n, b in (('SHLD', 0xa4), ('SHRD', 0xac)):
        put((n, 'r', 'r', 'n'), [0x0f, b, ('m', 1, 0), 'i8'], req=False)
        put((n, 'r', 'r', 'CL'), [0x0f, b + 1, ('m', 1, 0)], req=False)
    for d, n in ((2, 'NOT'), (3, 'NEG'), (4, 'MUL'), (5, 'IMUL'), (6, 'DIV'), (7, 'IDIV')):
        put((n, 'r'), [0xf7, ('m', D(d), 0)])
    put(('INC', 'r'), [0xff, ('m', D(0), 0)], ['short', ('z', 0x40, 0)])
    put(('DEC', 'r'), [0xff, ('m', D(1), 0)], ['short', ('z', 0x48, 0)])
    put(('PUSH', 'r'), [('z', 0x50, 0)])
    put(('POP', 'r'), [('z', 0x58, 0)])
    put(('LEA', 'r', 'm'), [0x8d, ('m', 0, 1)])
    put(('BSWAP', 'r'), [0x0f, ('z', 0xc8, 0)])
    for i, n in enumerate(('ROL', 'ROR', 'RCL', 'RCR', 'SHL', 'SHR', 'SAL', 'SAR')):
        d = 4 if n == 'SAL' else i
        put((n, 'r', 'n'), [0xc1, ('m', D(d), 0), 'i8'], req=False)
        put((n, 'r', 'CL'), [0xd3, ('m', D(d), 0)], req=False)
    return t


# forms that take memory for one of their registers: (mnemonic, operand kinds) -> required
MEMORY = {}
for _n in ARITH + ('MOV',):
    MEMORY[_n, 'm', 'r'] = MEMORY[_n, 'r', 'm'] = True
for _n in ('TEST', 'XCHG'):
    MEMORY[_n, 'm', 'r'] = _n == 'TEST'
    MEMORY[_n, 'r', 'm'] = _n == 'XCHG'
for _n in ['CMOV' + c for names in CC for c in names] + ['BSF', 'BSR', 'POPCNT', 'IMUL']:
    MEMORY[_n, 'r', 'm'] = True
for _n in ('BT', 'BTS', 'BTR', 'BTC', 'CMPXCHG', 'XADD'):
    MEMORY[_n, 'm', 'r'] = True
MEMORY['IMUL', 'r', 'm', 'n'] = True
MEMORY['LEA', 'r', 'm'] = True

FORMS = {w: forms(w) for w in (16, 32, 64)}
MNEMONICS = sorted({k[0] for k in FORMS[32]})
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')


class St:
    lit = mem = disp = None
    free = False


def setmode(p, mode):
    p.pre.append('.bits %d\n' % mode)


def line_of(mode, mn, kinds, w, acc, kind, widths=None, mem=None, dkind=None):
    '''acc: None all registers, True only the accumulator, False all others'''
    def line(p):
        if mode:
            setmode(p, mode)
        st = St()
        st.regs = []
        st.mem = mem
        parts = [p.fin('mn', mixed(mn)[:2])[0]]
        for k, f in enumerate(kinds):
            parts.append(' ' if k == 0 else ', ')
            if f == 'r':
                m = {}
                for v, r in enumerate(R[widths[k] if widths else w]):
                    if k == 0 and acc is not None and (v == 0) != acc:
                        continue
                    m[r] = v
                    m[r.lower()] = v
                t, v = p.choice('r%d' % k, m)
                st.regs.append(v)
                parts.append(t)
            elif f == 'm':
                st.regs.append(MEM)
                w_, names, sign = MEMS[mem]
                parts.append('[')
                for i, n in enumerate(names.split('+')):
                    parts += ([' + '] if i else []) + [p.fin('a%d' % i, [n, n.lower()])[0]]
                if sign:
                    st.disp = p.lit(dkind, 'D', hexp='0x')
                    parts += [' %s ' % sign, st.disp.text]
                parts.append(']')
            elif f == 'n':
                st.lit = p.lit(kind, hexp='0x')
                st.regs.append(None)
                parts.append(st.lit.text)
            else:
                st.regs.append(None)
                parts.append(f)
        return S(*parts), st
    return line


def modrm(st, reg, rm):
    reg = reg[1] if isinstance(reg, tuple) else st.regs[reg]
    if reg is MEM:
        raise Other()
    if st.regs[rm] is MEM:
        return address(st, reg)
    if st.mem is not None:
        raise Other()
    return B(binop('+', binop('+', 0xc0, binop('*', reg, 8)), st.regs[rm]))


class Other(Exception):
    """this alternative does not take the operands"""


MEM = 'm'
BASES16 = ('BX+SI', 'BX+DI', 'BP+SI', 'BP+DI', 'SI', 'DI', 'BP', 'BX')


def memories():
    """addressing form -> (address size, base and index names, displacement sign)"""
    t = {}
    for b in BASES16:
        t['[%s]' % b] = (16, b, '')
        for s in '+-':
            t['[%s%sd]' % (b, s)] = (16, b, s)
    for w, c in ((32, 'E'), (64, 'R')):
        for b in ('BX', 'BP'):
            for i in ('SI', 'DI'):
                t['[%s%s+%s%s]' % (c, b, c, i)] = (w, c + b + '+' + c + i, '')
        for b in ('BX', 'BP', 'SI', 'DI'):
            t['[%s%s]' % (c, b)] = (w, c + b, '')
    return t


MEMS = memories()


def address(st, reg):
    """modrm, index byte and displacement of the memory operand"""
    w, names, sign = MEMS[st.mem]
    if w == 16:
        rm = BASES16.index(names)
        if sign:
            v, free = disp(st, sign)
            st.free |= free
            return [B(binop('+', 0x80 + rm, binop('*', reg, 8)))] + le_bytes(v, 2)
        if names == 'BP':
            return [B(binop('+', 0x46, binop('*', reg, 8))), b'\0']
        return B(binop('+', rm, binop('*', reg, 8)))
    regs = [R[w].index(n) for n in names.split('+')]
    mod = 0x40 if regs[0] == 5 else 0
    tail = [b'\0'] if mod else []
    if len(regs) == 2:
        return [B(binop('+', mod + 4, binop('*', reg, 8))), bytes([regs[1] << 3 | regs[0]])] + tail
    return [B(binop('+', mod + regs[0], binop('*', reg, 8)))] + tail


def disp(st, sign):
    """displacement -> (value of the two byte field, may be refused)"""
    l = st.disp
    if sign == '-':
        if l.kind != 'dec':             # only decimal numbers can be negated
            raise Reject()
        v = binop('-', 0, l.v)
        if not inr(v, -0x8000, 0x7fff):
            raise Reject()
        return bits(v, 0, 16), False
    if l.kind == 'neg':
        if not inr(l.v, -0x8000, -1):
            raise Reject()
        return bits(l.v, 0, 16), True
    if not inr(l.v, 0, 0xffff):
        raise Reject()
    return l.v, not le(l.v, 0x7fff)


def prefixed(mode, w, rex, st, head):
    """the alternative orders of the prefixes"""
    size = prefix(mode, w, rex) if w else b''
    rex = b''
    if size == b'\x48':
        size, rex = b'', size
    asize = b''
    if st.mem is not None:
        aw = MEMS[st.mem][0]
        if aw == 64 and mode != 64 or aw == 16 and mode == 64:
            raise Reject()
        if aw != mode:
            asize = b'\x67'
    legacy = [x for x in (size, asize, head) if x]
    return [b''.join(o) + rex for o in itertools.permutations(legacy)]


def emit(st, code, mode, w, mn):
    '''bytes of one alternative, behind the size prefixes'''
    out = []
    head = b''
    rex = w == 64 and mn not in ('PUSH', 'POP')
    for c in code:
        if isinstance(c, int):
            if not out and c == 0xf3 and mn == 'POPCNT':
                head = b'\xf3'
            else:
                out.append(bytes([c]))
        elif isinstance(c, tuple) and c[0] == 'm':
            m = modrm(st, c[1], c[2])
            out += m if isinstance(m, list) else [m]
        elif isinstance(c, tuple) and c[0] == 'z':
            out.append(B(binop('+', c[1], st.regs[c[2]])))
        elif c == 'I' or c == 'i' and w != 64:
            out += le_bytes(ufield(st.lit, w), w // 8)
        elif c == 'i':
            v = st.lit.v
            if not inr(v, -(1 << 31), (1 << 31) - 1):
                raise Reject()
            out += le_bytes(bits(v, 0, 32), 4)
        elif c == 'i8':
            out.append(B(ufield(st.lit, 8)))
    return [[p] + out for p in prefixed(mode, w, rex, st, head)]


def enc_of(mode, mn, kinds, w, acc):
    key = (mn,) + tuple(kinds)

    def enc(p, st):
        codes, req = FORMS[w][key if key in FORMS[w] else tuple('r' if k == 'm' else k for k in key)]
        if key in MEMORY:
            req = req and MEMORY[key]
        if w == 64 and mode != 64:
            raise Reject()
        if mn in ('PUSH', 'POP'):
            if w == 32 and mode == 64:
                raise Reject()
            req = w != 32
        if mn == 'BSWAP' and w == 16:
            return ('any',)
        alts, refused = [], 0
        for code in codes:
            if code[0] == 'acc':
                if not acc:
                    continue
                code = code[1:]
            if code[0] == 'short':
                if mode == 64:
                    continue
                code = code[1:]
            try:
                alts += [p.head + x for x in emit(st, code, mode, w, mn)]
            except Other:
                pass
            except Reject:
                refused += 1
        if not alts:
            raise Reject()
        return ('bytes_in' if req and not st.free else 'bytes_in_or_reject', alts)
    return enc


def rel_line(mode, mn, kind):
    def line(p):
        if mode:
            setmode(p, mode)
        l = p.lit(kind, hexp='0x')
        return S(p.fin('mn', mixed(mn)[:2])[0], ' ', l.text), l
    return line


def rel_enc(mode, code):
    n = 2 if mode == 16 else 4

    def enc(p, l):
        w = 8 * n
        free = False
        if islab(l):
            v = binop('-', l.v, binop('+', p.pc, len(code) + n))
            if not inr(v, -(1 << w - 1), (1 << w - 1) - 1):
                raise Reject()
        elif l.kind == 'neg':
            v = l.v
            if not inr(v, -(1 << w - 1), -1):
                raise Reject()
        else:
            v = l.v
            if not inr(v, 0, (1 << w) - 1):
                raise Reject()
            free = not le(v, (1 << w - 1) - 1)
        out = p.head + [code] + le_bytes(bits(v, 0, w), n)
        return ('bytes_or_reject' if free else 'bytes', out)
    return enc


def _rej(p, st):
    raise Reject()


def bare():
    return Prog(org=False, incbin=False)


def fixed(mode, text, want):
    def line(p):
        if mode:
            setmode(p, mode)
        return S(text), None

    def enc(p, st):
        if want is None:
            raise Reject()
        return want if isinstance(want, tuple) else [want]
    return line, enc


def cases(tier):
    # without operands
    for mode in MODES:
        for n in sorted(BARE) + sorted(STACK):
            def line(p, mode=mode, n=n):
                setmode(p, mode)
                return S(p.fin('mn', mixed(n))[0]), None

            def enc(p, st, mode=mode, n=n):
                out = bare_bytes(n, mode)
                if mode == 64 and n in NOT64 or mode != 64 and n in ONLY64:
                    return ('bytes_or_reject', p.head + [out])
                return [out]
            yield case('.bits %d %s' % (mode, n), ASM, line, enc)
            if n not in ('NOP', 'XLAT', 'RETF', 'RETN') and n[0] != 'F' and n not in ('MOVSD', 'CMPSD'):
                for op in ('EAX', '5'):
                    if n in ('AAM', 'AAD') and op == '5':
                        continue
                    yield case('.bits %d %s with operand %s' % (mode, n, op), ASM, *fixed(mode, n + ' ' + op, None), prog=bare)
        for r, b in REPS:
            for s in STRINGS:
                for sz in 'BWDQ':
                    n = s + sz
                    if n not in BARE:
                        continue
                    try:
                        want = bytes([b]) + bare_bytes(n, mode)
                    except Reject:
                        want = None
                    yield case('.bits %d %s %s' % (mode, r, n), ASM, *fixed(mode, '%s %s' % (r, n), want), prog=bare)
    # registers and immediates
    for mode in MODES + (None,):
        m = mode or 64
        for w in (16, 32, 64):
            for key in FORMS[w]:
                mn, kinds = key[0], key[1:]
                if 'm' in kinds:
                    continue
                if mode is None and mn not in ('ADD', 'MOV', 'PUSH', 'IMUL', 'CMOVZ', 'INC'):
                    continue
                split = 'n' in kinds
                exists = w != 64 or m == 64
                for acc in ((True, False) if split else (None,)):
                    for kind in ((KINDS if exists else ('dec',)) if split else (None,)):
                        yield case(' '.join(['.bits %s' % mode if mode else 'default', mn] + [k if k != 'r' else 'r%d' % w for k in kinds] +
                                            (['acc' if acc else 'other', kind] if split else [])), ASM,
                                   line_of(mode, mn, kinds, w, acc, kind), enc_of(m, mn, kinds, w, acc))
        # memory
        for mn, *kinds in (MEMORY if mode else ()):
            kinds = tuple(kinds)
            for w in (16, 32, 64):
                if w > m and w == 64:
                    continue
                for mem in MEMS:
                    if tier == 'quick' and mn not in ('ADD', 'MOV', 'LEA') and mem not in ('[BX]', '[EBP+ESI]', '[BP+SI+d]', '[RDI]', '[DI-d]'):
                        continue
                    for dk in (('dec', 'neg', 'hex', 'lab', 'blab') if MEMS[mem][2] else (None,)):
                        if tier == 'quick' and dk not in (None, 'dec', 'lab') and mn != 'MOV':
                            continue
                        for kind in (('dec', 'lab') if 'n' in kinds else (None,)):
                            yield case(' '.join(x for x in ['.bits %s' % mode, mn] + [k if k == 'n' else mem if k == 'm' else 'r%d' % w for k in kinds] +
                                                [dk, kind] if x), ASM,
                                       line_of(mode, mn, kinds, w, None, kind, mem=mem, dkind=dk), enc_of(m, mn, kinds, w, None))
        # operands of different sizes
        if mode:
            for key in FORMS[32]:
                if key[1:3] != ('r', 'r'):
                    continue
                for a in (8, 16, 32, 64):
                    for b in (8, 16, 32, 64):
                        if a == b:
                            continue
                        if tier == 'quick' and key[0][:4] == 'CMOV' and key[0] != 'CMOVZ':
                            continue
                        yield case('.bits %d %s sizes %d %d' % (mode, ' '.join(key), a, b), ASM,
                                   line_of(mode, key[0], key[1:], None, None, 'dec', (a, b, None)), _rej)
    # too many or too few operands, operands of the wrong kind
    for mode in MODES:
        for key in FORMS[32]:
            mn, kinds = key[0], key[1:]
            if 'm' in kinds:
                continue
            if mode != 32 and tier == 'quick' and mn not in ('ADD', 'MOV', 'PUSH', 'IMUL', 'CMOVZ', 'INC', 'XCHG'):
                continue
            for more in ('r', 'n', 'CL'):
                if key + (more,) in FORMS[32] or mn in ('PUSH', 'POP', 'IMUL') and more == 'n' and len(kinds) == 2:
                    continue
                yield case('.bits %d %s with an operand too many %s' % (mode, ' '.join(key), more), ASM,
                           line_of(mode, mn, kinds + (more,), 16, None, 'dec') if more != 'n' or 'n' not in kinds else fixed(mode, mn + ' ' + ', '.join(
                               {'r': 'BX', 'n': '5', 'CL': 'CL'}[k] for k in kinds + (more,)), None)[0], _rej, prog=bare)
            for less in range(len(kinds)):
                short = kinds[:less]
                if (mn,) + short in FORMS[32] or mn in ('RETN',):
                    continue
                if tier == 'quick' and mn not in ARITH[:2] and mn[:4] == 'CMOV' and mn != 'CMOVZ':
                    continue
                yield case('.bits %d %s with %d operands' % (mode, ' '.join(key), less), ASM, line_of(mode, mn, short, 16, None, 'dec'), _rej, prog=bare)
            for bad in ('n', 'CR0', 'DS', 'CL', '['):
                k2 = kinds[:-1] + (bad,)
                if (mn,) + k2 in FORMS[32] or kinds[-1] == bad or (mn, bad) in (('PUSH', 'n'), ('PUSH', 'DS'), ('POP', 'DS'), ('MOV', 'DS'), ('MOV', 'CR0')):
                    continue
                if bad == 'CL' and kinds == ('r',) and mn not in ('PUSH', 'POP', 'BSWAP'):
                    continue            # the 8 bit form
                if bad == 'n' and mn in ('IMUL',):
                    continue
                if tier == 'quick' and mn[:4] == 'CMOV' and mn != 'CMOVZ':
                    continue
                yield case('.bits %d %s last operand %s' % (mode, ' '.join(key), bad), ASM, line_of(mode, mn, k2, 16, None, 'dec'), _rej, prog=bare)
    # control registers
    for mode in MODES:
        for to in (0, 1):
            def line(p, mode=mode, to=to):
                setmode(p, mode)
                st = St()
                c, cv = p.choice('c', {x: int(x[2]) for n in CR for x in (n, n.lower())})
                r, rv = p.choice('r', {x: i for i, n in enumerate(R[32]) for x in (n, n.lower())})
                st.v = binop('+', binop('+', 0xc0, binop('*', cv, 8)), rv)
                return S('MOV ', c if to else r, ', ', r if to else c), st

            def enc(p, st, mode=mode, to=to):
                out = p.head + [b'\x0f' + bytes([0x20 + 2 * to]), B(st.v)]
                return ('bytes_or_reject', out) if mode == 64 else ('bytes', out)
            yield case('.bits %d MOV %s control register' % (mode, 'to' if to else 'from'), ASM, line, enc)
    # the descriptor tables, at a fixed address
    for mode in MODES:
        for d, mn in enumerate(('SGDT', 'SIDT', 'LGDT', 'LIDT')):
            for kind in KINDS:
                def line(p, mode=mode, mn=mn, kind=kind):
                    setmode(p, mode)
                    l = p.lit(kind, hexp='0x')
                    return S(p.fin('mn', mixed(mn)[:2])[0], ' [', l.text, ']'), l

                def enc(p, l, mode=mode, d=d):
                    w = 16 if mode == 16 else 32
                    v = ufield(l, w)
                    rm = {16: b'\x06', 32: b'\x05', 64: b'\x04\x25'}[mode]
                    out = p.head + [b'\x0f\x01' + bytes([rm[0] | d << 3]) + rm[1:]] + le_bytes(v, w // 8)
                    # sign extended in 64 bit mode
                    return ('bytes_or_reject' if mode == 64 and not le(v, (1 << 31) - 1) else 'bytes', out)
                yield case('.bits %d %s [n] %s' % (mode, mn, kind), ASM, line, enc)
        for mn, code, d in (('INVLPG', b'\x0f\x01', 7), ('XSAVE', b'\x0f\xae', 4), ('XRSTOR', b'\x0f\xae', 5)):
            for mem in MEMS:
                for dk in ('dec', 'lab') if MEMS[mem][2] else (None,):
                    def enc(p, st, mode=mode, code=code, d=d):
                        pre = prefixed(mode, None, False, st, b'')
                        a = address(st, d)
                        alts = [p.head + [x + code] + (a if isinstance(a, list) else [a]) for x in pre]
                        return ('bytes_in_or_reject' if st.free else 'bytes_in', alts)
                    yield case(' '.join(x for x in ('.bits %d' % mode, mn, mem, dk) if x), ASM, line_of(mode, mn, ('m',), None, None, None, mem=mem, dkind=dk), enc)
        for src in ('[', '[]', '[BX', 'BX]', '[BX + AX]', '[BX + BX]', '[SI + DI]', '[BX + BP]', '[BX +]', '[CX]', '[EBX + SI]', '[EBX + RSI]', '[RBX + ESI]', '[BX * 2]', '[5 + 6]'):
            for mn in ('MOV EAX, %s', 'MOV %s, EAX', 'LEA EAX, %s', 'XSAVE %s'):
                yield case('.bits %d %s' % (mode, mn % src), ASM, *fixed(mode, mn % src, None), prog=bare)
    # branches
    for mode in MODES + (None,):
        m = mode or 64
        for mn, code in [('JMP', b'\xe9'), ('CALL', b'\xe8')] + [('J' + c, bytes([0x0f, 0x80 + i])) for i, names in enumerate(CC) for c in names]:
            for kind in KINDS:
                if tier == 'quick' and mn not in ('JMP', 'CALL', 'JO', 'JNLE') and kind not in ('lab', 'blab' if m == 32 else 'lab'):
                    continue
                yield case('%s %s %s' % ('.bits %s' % mode if mode else 'default', mn, kind), ASM, rel_line(mode, mn, kind), rel_enc(m, code))
            if mode:
                yield case('.bits %d %s without target' % (mode, mn), ASM, *fixed(mode, mn, None), prog=bare)
                yield case('.bits %d %s two targets' % (mode, mn), ASM, *fixed(mode, mn + ' 5, 6', None), prog=bare)
    # the mode
    for a in MODES:
        for b in MODES:
            want = prefix(a, 32) + b'\x01\xd8' + prefix(b, 16) + b'\x01\xcb'
            yield case('.bits %d then %d' % (a, b), ASM, *fixed(a, 'ADD EAX, EBX\n.bits %d\nADD BX, CX' % b, want), prog=bare)
    for src in ('.bits 8', '.bits 0', '.bits', '.bits x', '.bits 128', '.bits 24', '.bits -16'):
        yield case('mode ' + src, ASM, *fixed(None, src, None), prog=bare)
    for src in ('.bits 0x20', '.BITS 32', '.bits 20h', '.bits 0b100000', '.bits 100000b'):
        yield case('mode ' + src, ASM, *fixed(None, src + '\nADD BX, CX', b'\x66\x01\xcb'), prog=bare)
