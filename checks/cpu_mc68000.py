'''Motorola 68000 encodings against the instruction formats of the programmer's reference manual.'''
from .common import *

ASM = ('cpu.mc68000', 'AssemblerMC68000')
RULE = 'for every mnemonic x size x effective address combination, the words the source can emit equal the 68000 instruction format (operation word, immediate and extension words in order, big endian); combinations the processor does not have are refused'
EXPLANATION = '''Abstract interpretation of the 68000 assembler over every supported mnemonic, size suffix and pair of effective addresses (all
twelve modes, all register numbers and index registers as finite sets in both cases), with unknown immediates, displacements,
absolute addresses, label addresses and program counter. Expected words are built from the formats of the manual.'''
ASSUMPTIONS = ['literals below 2**70, program counter below 2**32, label addresses below 2**64',
               'a label above the positive range of a signed displacement, a size suffix on ORI/ANDI/EORI to CCR or SR and odd branch distances are not specified']
MIN_OBLIGATIONS = 1500

DN = {c + str(i): i for i in range(8) for c in 'dD'}
AN = {c + str(i): i for i in range(8) for c in 'aA'}
XN = {c + str(i) + s: (c.lower() == 'a') << 15 | i << 12 | (s.lower() == '.l') << 11 for i in range(8) for c in 'dDaA' for s in ('', '.w', '.L', '.l')}
XN_FEW = {k: XN[k] for k in ('A5', 'd6.L', 'D3.w')}
FORMS = ('Dn', 'An', '(An)', '(An)+', '-(An)', '(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)', '(n).W', '(n).L', '#n', 'n.w', 'n.l', 'n')
CLASS = {'n.w': '(n).W', 'n.l': '(n).L', 'n': '(n).L'}
VALUED = {'(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)', '(n).W', '(n).L', '#n', 'n.w', 'n.l', 'n'}
NOT_ALTERABLE = {'(d,PC)', '(d,PC,Xn)', '#n'}
CONTROL = {'(An)', '(d,An)', '(d,An,Xn)', '(d,PC)', '(d,PC,Xn)', '(n).W', '(n).L'}
DATA_ALTERABLE = {'Dn', '(An)', '(An)+', '-(An)', '(d,An)', '(d,An,Xn)', '(n).W', '(n).L'}
COND = ('T', 'F', 'HI', 'LS', 'CC', 'CS', 'NE', 'EQ', 'VC', 'VS', 'PL', 'MI', 'GE', 'LT', 'GT', 'LE')
KINDS = ('dec', 'neg', 'hex', 'lab', 'blab')
SIZES = {'': 2, '.b': 1, '.w': 2, '.l': 4}


def cls(f):
    return CLASS.get(f, f)


class EA:
    '''one effective address: text and fields'''

    def __init__(self, p, form, name, kind, level=1, offset=0):
        self.form, self.l, self.reg, self.x = cls(form), None, 0, 0
        if form in VALUED:
            self.l = p.lit(kind, 'N' + name, hexp='$')

        def pick(tag, m):
            # level 0: one register, 1: a few index registers, 2: every register, 3: every index register
            if level == (3 if tag == 'X' else 2):
                return p.choice(tag + name, m)
            if level and tag == 'X':
                return p.choice(tag + name, XN_FEW)
            k = sorted(m)[(len(m) // 3 + offset) % len(m)]
            return k, m[k]
        r = ''
        if 'An' in form:
            r, self.reg = pick('A', AN)
        elif form == 'Dn':
            r, self.reg = pick('D', DN)
        if 'Xn' in form:
            x, self.x = pick('X', XN)
        t = self.l.text if self.l else ''
        pc = 'PC' if level else 'pc'
        self.text = {'Dn': S(r), 'An': S(r), '(An)': S('(', r, ')'), '(An)+': S('(', r, ')+'), '-(An)': S('-(', r, ')'), '(d,An)': S('(', t, ', ', r, ')'),
                     '(d,An,Xn)': S('(', t, ', ', r, ', ', x if 'Xn' in form else '', ')'), '(d,PC)': S('(', t, ', ', pc, ')'),
                     '(d,PC,Xn)': S('(', t, ', ', pc, ', ', x if 'Xn' in form else '', ')'), '(n).W': S('(', t, ').W'), '(n).L': S('(', t, ').l'),
                     '#n': S('#', t), 'n.w': S(t, '.w'), 'n.l': S(t, '.L'), 'n': S(t)}[form]

    def encode(self, p, size, off):
        '''-> (mode, register, extension segments, length, may be refused)'''
        f, l = self.form, self.l
        simple = {'Dn': 0, 'An': 1, '(An)': 2, '(An)+': 3, '-(An)': 4}
        if f in simple:
            return simple[f], self.reg, [], 0, False
        if f == '(d,An)':
            v, free = disp(l, 16)
            return 5, self.reg, be_bytes(v, 2), 2, free
        if f == '(d,An,Xn)':
            v, free = disp(l, 8)
            return 6, self.reg, xword(self.x, v), 2, free
        if f == '(d,PC)':
            return 7, 2, be_bytes(rel(p, l, 16, off), 2), 2, False
        if f == '(d,PC,Xn)':
            return 7, 3, xword(self.x, rel(p, l, 8, off)), 2, False
        if f == '(n).W':
            return 7, 0, be_bytes(ufield(l, 16), 2), 2, False
        if f == '(n).L':
            return 7, 1, be_bytes(ufield(l, 32), 4), 4, False
        if f == '#n':
            return (7, 4) + imm(l, size) + (False,)
        raise KeyError(f)


def xword(x, d8):
    return [B(bits(x, 8, 8) if not isinstance(x, int) else x >> 8), B(d8)]


def imm(l, size):
    if size == 1:
        return [b'\0', B(ufield(l, 8))], 2
    return be_bytes(ufield(l, 8 * size), size), size


def disp(l, n):
    if islab(l):
        if not inr(l.v, 0, (1 << n) - 1):
            raise Reject()
        return l.v, not le(l.v, (1 << n - 1) - 1)
    return sfield(l, n), False


def rel(p, l, n, off):
    if islab(l):
        d = binop('-', l.v, binop('+', p.pc, 2 + off))
        if not inr(d, -(1 << n - 1), (1 << n - 1) - 1):
            raise Reject()
        return bits(d, 0, n)
    return sfield(l, n)


def word(base, *fields):
    '''operation word: fields are (shift, value)'''
    v = base
    for sh, x in fields:
        v = binop('+', v, binop('*', x, 1 << sh))
    return be_bytes(v, 2)


def finish(p, out, free):
    return ('bytes_or_reject', p.head + out) if free else out


def pair(mn, suf, src, dst, sk, dk, encode, plain, levels=(1, 1)):
    levels = (0, 0) if plain else levels

    def line(p):
        a = EA(p, src, 'a', sk, levels[0])
        b = EA(p, dst, 'b', dk, levels[1], 3) if dst else None
        m = (mn + suf) if plain else p.fin('mn', mixed(mn + suf)[:2])[0]
        return S(m, ' ', a.text, *([', ', b.text] if b else [])), (a, b)

    def enc(p, st):
        return encode(p, st[0], st[1])
    return line, enc


def move(suf):
    size = SIZES[suf]
    code = {1: 1, 2: 3, 4: 2}[size]

    def encode(p, a, b, movea=False):
        if size == 1 and (a.form == 'An' or b.form == 'An'):
            raise Reject()
        if b.form in NOT_ALTERABLE or (movea and b.form != 'An'):
            raise Reject()
        m, r, ext, n, f1 = a.encode(p, size, 0)
        m2, r2, ext2, _, f2 = b.encode(p, size, n)
        return finish(p, word(code << 12 | m << 3 | m2 << 6, (9, r2), (0, r)) + ext + ext2, f1 or f2)
    return encode


def immediate(base, suf):
    size = SIZES[suf]

    def encode(p, a, b):
        if a.form != '#n' or b.form not in DATA_ALTERABLE:
            raise Reject()
        ext, n = imm(a.l, size)
        m, r, ext2, _, free = b.encode(p, size, n)
        return finish(p, word(base | {1: 0, 2: 1, 4: 2}[size] << 6 | m << 3, (0, r)) + ext + ext2, free)
    return encode


def control(base, dest=False):
    def encode(p, a, b):
        if a.form not in CONTROL or (dest and b.form != 'An'):
            raise Reject()
        m, r, ext, n, free = a.encode(p, 4, 0)
        return finish(p, word(base | m << 3, (0, r), *([(9, b.reg)] if dest else [])) + ext, free)
    return encode


def even():
    return Prog(palign=2)


def bare():
    return Prog(org=False, incbin=False)


class Even(Prog):
    def __init__(self):
        Prog.__init__(self, palign=2)


def evenlit(p, kind, name='N'):
    n = p.sym(name, 0 if kind != 'neg' else 1, BIG >> 1)
    v = binop('*', n, 2)
    if kind == 'neg':
        return Lit(S('-', num(v)), binop('-', 0, v), kind)
    return Lit(S('$' if kind == 'hex' else '', num(v, 16 if kind == 'hex' else 10)), v, kind)


def kinds_of(f, tier):
    return KINDS if f in VALUED else (None,)


def levels(combos, legal):
    '''every register of the first operand, then of the second, then few'''
    out = [c + ((1, 1),) for c in combos]
    if legal:
        out += [combos[0] + ((2, 0),), combos[0] + ((0, 2),)]
    return out


def cases(tier):
    # moves
    for mn, sufs in (('move', ('', '.w', '.b', '.l')), ('movea', ('', '.w', '.l'))):
        for suf in sufs:
            encode = move(suf)
            if mn == 'movea':
                encode = (lambda e: lambda p, a, b: e(p, a, b, True))(encode)
            for src in FORMS:
                for dst in FORMS:
                    legal = cls(dst) not in NOT_ALTERABLE and not (suf == '.b' and 'An' in (src, dst)) and not (mn == 'movea' and dst != 'An')
                    combos = [(sk, dk) for sk in kinds_of(src, tier) for dk in kinds_of(dst, tier)]
                    if not legal:
                        combos = combos[:1]
                    elif tier == 'quick' and len(combos) > 5:
                        few = (('dec', 'dec'), ('lab', 'hex'), ('neg', 'blab'), ('hex', 'neg'), ('blab', 'lab'), ('lab', 'lab'))
                        combos = [c for c in combos if c in few or (not suf and c[0] == 'dec' or src == '#n') and len(combos) > 5]
                    if tier == 'quick' and legal and (suf == '.w' or mn == 'movea' or (suf and src not in VALUED)):
                        combos = combos[:2]
                    for sk, dk, lv in levels(combos, legal and (tier != 'quick' or not suf)):
                        line, enc = pair(mn, suf, src, dst, sk, dk, encode, not legal, lv)
                        yield case('%s%s %s,%s %s %s' % (mn, suf, src, dst, ' '.join(x for x in (sk, dk) if x), lv), ASM, line, enc, prog=None if legal else bare)
    # immediate operations
    for mn, base, status in (('ori', 0x0000, True), ('andi', 0x0200, True), ('subi', 0x0400, False), ('addi', 0x0600, False), ('eori', 0x0a00, True), ('cmpi', 0x0c00, False)):
        for suf in ('', '.b', '.w', '.l'):
            for dst in FORMS:
                legal = cls(dst) in DATA_ALTERABLE
                combos = [(sk, dk) for sk in KINDS for dk in kinds_of(dst, tier)]
                if not legal:
                    combos = combos[:1]
                elif tier == 'quick' and len(combos) > 5:
                    combos = [c for c in combos if 'dec' in c or c == ('lab', 'lab')]
                for sk, dk, lv in levels(combos, legal and (tier != 'quick' or not suf)):
                    line, enc = pair(mn, suf, '#n', dst, sk, dk, immediate(base, suf), not legal, lv)
                    yield case('%s%s #n,%s %s %s' % (mn, suf, dst, ' '.join(x for x in (sk, dk) if x), lv), ASM, line, enc, prog=None if legal else bare)
            for src in FORMS:
                if src != '#n':
                    line, enc = pair(mn, suf, src, 'Dn', 'dec', None, immediate(base, suf), True)
                    yield case('%s%s %s,Dn' % (mn, suf, src), ASM, line, enc, prog=bare)
            for reg, size, ext in (('ccr', 1, 0x3c), ('SR', 2, 0x7c)):
                for k in KINDS:
                    def line(p, mn=mn, suf=suf, reg=reg, k=k):
                        l = p.lit(k, hexp='$')
                        return S(p.fin('mn', mixed(mn + suf)[:2])[0], ' #', l.text, ', ', p.fin('reg', [reg.lower(), reg.upper()])[0]), l

                    def enc(p, l, base=base, size=size, ext=ext, suf=suf, status=status):
                        if not status:
                            raise Reject()
                        out = word(base | ext) + imm(l, size)[0]
                        return finish(p, out, suf not in ('', '.b' if size == 1 else '.w'))
                    yield case('%s%s #n,%s %s' % (mn, suf, reg, k), ASM, line, enc)
    # control flow and addresses
    for mn, base in (('jmp', 0x4ec0), ('jsr', 0x4e80)):
        for src in FORMS:
            for k in kinds_of(src, tier):
                line, enc = pair(mn, '', src, None, k, None, control(base), cls(src) not in CONTROL, (3, 0) if src == '(d,An,Xn)' and k == 'dec' else (2, 0))
                yield case('%s %s %s' % (mn, src, k or ''), ASM, line, enc)
    for suf in ('', '.l'):
        for src in FORMS:
            for dst in FORMS:
                if dst not in ('An', 'Dn', '(An)', 'n', '#n') or (dst != 'An' and src not in ('(An)', 'n', '#n', 'Dn')):
                    continue
                for k in kinds_of(src, tier) if dst == 'An' else ('dec',):
                    line, enc = pair('lea', suf, src, dst, k, 'dec', control(0x41c0, True), dst != 'An' or cls(src) not in CONTROL,
                                     (3, 0) if src == '(d,PC,Xn)' and k == 'dec' else (2, 1) if k == 'hex' else (1, 2))
                    yield case('lea%s %s,%s %s' % (suf, src, dst, k or ''), ASM, line, enc, prog=None if dst == 'An' else bare)
    # branches
    for i, c in enumerate(COND):
        if i < 2:
            continue
        for suf in ('', '.w', '.b'):
            n = 8 if suf == '.b' else 16
            for k in ('dec', 'neg', 'hex', 'lab', 'blab', 'odd label', 'odd'):
                def line(p, c=c, suf=suf, k=k):
                    if k == 'odd label':
                        l = p.lit('lab', sc=2, off=1)
                    elif k in ('lab', 'blab'):
                        l = p.lit(k, sc=2)
                    elif k == 'odd':
                        l = p.lit('dec')
                    else:
                        l = evenlit(p, k)
                    return S(p.fin('mn', mixed('b' + c + suf)[:2])[0], ' ', l.text), l

                def enc(p, l, i=i, suf=suf, k=k, n=n):
                    if k == 'odd label':
                        raise Reject()
                    v = rel(p, l, n, 0)
                    if suf == '.b':
                        if eq(v, 0):
                            raise Reject()
                        out = [bytes([0x60 | i]), B(v)]
                    else:
                        out = [bytes([0x60 | i, 0])] + be_bytes(v, 2)
                    return finish(p, out, k == 'odd')
                yield case('b%s%s %s' % (c, suf, k), ASM, line, enc, prog=Even)
            for src in FORMS:
                if src not in VALUED or src.startswith('(') or src.startswith('#'):
                    line, enc = pair('b' + c.lower(), suf, src, None, 'dec', None, lambda p, a, b: _rej(p, a), True)
                    yield case('b%s%s %s' % (c, suf, src), ASM, line, enc, prog=bare)
    for i, c in list(enumerate(COND)) + [(1, 'RA')]:
        for suf in ('', '.w'):
            for k in ('dec', 'neg', 'hex', 'lab', 'blab', 'odd label'):
                def line(p, c=c, suf=suf, k=k):
                    r, v = p.choice('D', DN)
                    l = p.lit('lab', sc=2, off=1) if k == 'odd label' else p.lit(k, sc=2) if k in ('lab', 'blab') else evenlit(p, k)
                    return S(p.fin('mn', mixed('db' + c + suf)[:2])[0], ' ', r, ', ', l.text), (v, l)

                def enc(p, st, i=i, k=k):
                    if k == 'odd label':
                        raise Reject()
                    return word(0x50c8 | i << 8, (0, st[0])) + be_bytes(rel(p, st[1], 16, 0), 2)
                yield case('db%s%s %s' % (c, suf, k), ASM, line, enc, prog=Even)
            for src in FORMS:
                if src != 'Dn':
                    line, enc = pair('db' + c.lower(), suf, src, 'n', 'dec', 'dec', lambda p, a, b: _rej(p, a), True)
                    yield case('db%s%s %s,n' % (c, suf, src), ASM, line, enc, prog=bare)
    for mn, w in (('rts', 0x4e75), ('nop', 0x4e71)):
        yield case(mn, ASM, lambda p, mn=mn: (S(p.fin('mn', mixed(mn))[0]), None), lambda p, st, w=w: word(w))
        for x in ('d0', '5', 'lab', '#5'):
            yield case('%s %s' % (mn, x), ASM, lambda p, mn=mn, x=x: (S(mn, ' ', x), None), _rej, prog=bare)
    # an operand too many, or missing
    for head in ('move d0, d1', 'move d0, a1', 'move.l #5, (a0)', 'movea (a0)+, a1', 'ori #5, d0', 'ori #5, ccr', 'andi #5, sr', 'andi.b #5, (3, a0)', 'eori #5, d1',
                 'subi #5, d0', 'addi.l #5, -(a3)', 'cmpi #5, 100.w', 'jmp (a0)', 'jsr 100', 'jsr (5, pc)', 'lea (a0), a1', 'bne 2', 'bne.b 2', 'dbra d0, 2',
                 'move d0, (100).w', 'move d0, 100', 'move d0, (5, a0, d1)', 'move.b d0, (a0)+'):
        for more in ('d0', '5', 'lab', '#5', '(a0)', '.l'):
            yield case('%s with an operand too many %s' % (head, more), ASM, lambda p, head=head, more=more: (S(head, ', ', more), None), _rej, prog=bare)
        t = head.rsplit(', ', 1)[0]
        if ', ' in head and '(' not in head.split(',')[-2]:
            yield case('%s with an operand too few' % head, ASM, lambda p, t=t: (S(t), None), _rej, prog=bare)
        yield case('%s without operands' % head.split()[0], ASM, lambda p, head=head: (S(head.split()[0]), None), _rej, prog=bare)
    for src in ('move (a0, d1', 'move (a0', 'move #, d0', 'move (5, a0, d1, d2), d0', 'move (5, d0), d1', 'move (5, a0, x), d1', 'move (5, pc, a0.b), d1', 'move (d0), d1',
                'move (d0)+, d1', 'move -(d0), d1', 'move d8, d1', 'move d0, sr', 'move ccr, d0', 'move (5, 6), d0', 'move (5).b, d0', 'move.x d0, d1', 'movea.b d0, a1',
                'lea.w (a0), a1', 'bra.x 5', 'move (a0)-, d1', 'move +(a0), d1'):
        yield case('malformed ' + src, ASM, lambda p, src=src: (S(src), None), _rej, prog=bare)
    names = ['move', 'movea', 'ori', 'andi', 'subi', 'addi', 'eori', 'cmpi', 'jmp', 'jsr', 'lea', 'rts', 'nop'] + ['b' + c for c in COND[2:]] + ['db' + c for c in COND + ('RA',)]
    yield registered(ASM, [n.upper() for n in names], extra=('any',))


def _rej(p, st):
    raise Reject()
