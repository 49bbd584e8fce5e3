'''C18: packing helpers encode every value in range and nothing else.'''
from itertools import product
from .model import *

RULE = 'pack_*: each argument modulo the field size, in the named byte order, None is zero; pack_bits: base with each value in its bits, refused when a value does not fit; range predicates are exact'
EXPLANATION = '''Abstract interpretation of the packing helpers of necroassembler.utils with symbolic integer arguments of either sign and any size, every
argument count up to three with every pattern of missing arguments, every bit position and width up to 32 bits for the field helpers.'''
ASSUMPTIONS = ['the bits of the base value inside a packed field are zero (the helpers combine by or)']
MIN_OBLIGATIONS = 400
V = 1 << 72


def fun(name):
    return interp().load('necroassembler.utils').env.vars[name]


FIXED = {'pack_byte': (1, False), 'pack_8s': (1, False)}
for _w in (16, 32, 64):
    for _e in ('le', 'be'):
        for _s in 'us':
            FIXED['pack_%s%d%s' % (_e, _w, _s)] = (_w // 8, _e == 'be')
STRUCT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'q': (8, True), 'Q': (8, False),
          'l': (4, True), 'L': (4, False)}


def enc(v, n, big):
    return be_bytes(v, n) if big else le_bytes(v, n)


def fixed(name, n, big, pat):
    def body(c):
        args, exp = [], []
        for i, k in enumerate(pat):
            if k == 'n':
                args.append(None)
                exp += [bytes(n)]
            else:
                v = c.sym('v%d' % i, 0 if k == 'p' else -V, V if k == 'p' else 0)
                args.append(v)
                exp += enc(v, n, big)
        c.show(name, *[a if a is not None else 'None' for a in args])
        return ('value', c.call(fun(name), *args), AbsBytes(exp))
    return FnCase('%s(%s)' % (name, ','.join({'n': 'None', 'p': '+', 'm': '-'}[k] for k in pat)), body)


def structs(order, fmt, kinds):
    def body(c):
        args, exp, bad = [], [], False
        for i, (f, k) in enumerate(zip(fmt, kinds)):
            n, s = STRUCT[f]
            if k == 'n':
                args.append(None)
                exp += [bytes(n)]
                continue
            v = c.sym('v%d' % i, -V, V)
            lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)
            if not inr(v, lo, hi):
                bad = True
            args.append(v)
            exp += enc(v, n, order == '>')
        c.show(order + fmt, *[a if a is not None else 'None' for a in args])
        r = c.call(fun('pack'), order + fmt, *args)
        if bad:
            return ('reject', r)
        return ('value', r, AbsBytes(exp))
    return FnCase('pack %s%s %s' % (order, fmt, kinds), body, reject_any=True)


def fields(name, fs, post=None, single=False):
    '''base holds arbitrary bits outside the fields'''
    def body(c):
        top = 8 * post[0] if post else 40
        base, pos, args, bad = 0, 0, [], False
        exp = 0
        for i, (end, start) in enumerate(sorted(fs, key=lambda x: x[1])):
            if start > pos:
                b = c.sym('b%d' % i, 0, (1 << (start - pos)) - 1)
                base = binop('+', base, binop('<<', b, pos))
            pos = end + 1
        if top > pos:
            b = c.sym('bt', 0, (1 << (top - pos)) - 1)
            base = binop('+', base, binop('<<', b, pos))
        exp = base
        for i, (end, start) in enumerate(fs):
            w = end - start + 1
            v = c.sym('v%d' % i, -V, V)
            if not inr(v, -(1 << w - 1), (1 << w) - 1):
                bad = True
            args.append((start if single else (end, start), v))
            exp = binop('+', exp, binop('<<', mk_slice(v, 0, w), start))
        c.show(name, base, *[x for a in args for x in (str(a[0]), a[1])])
        r = c.call(fun(name), base, *args)
        if bad:
            return ('reject', r)
        if post:
            return ('value', r, AbsBytes(enc(exp, *post)))
        return ('value', r, exp)
    return FnCase('%s %s' % (name, ' '.join('%d:%d' % f for f in fs)), body)


def inverted(name, end, start):
    def body(c):
        v = c.sym('v', -5, 5)
        c.show(name, v)
        return ('reject', c.call(fun(name), 0, ((end, start), v)))
    return FnCase('%s inverted %d:%d' % (name, end, start), body)


def predicate(name, n, signed=None):
    def body(c):
        v = c.sym('v', -V, V)
        args = [v, n] + ([] if signed is None else [signed])
        c.show(name, *[x if not isinstance(x, (int, bool)) else str(x) for x in args])
        if signed is None:
            e = inr(v, 0, (1 << n) - 1)
        elif signed:
            e = inr(v, -(1 << n - 1), (1 << n - 1) - 1)
        else:
            e = inr(v, -(1 << n - 1), (1 << n) - 1)
        r = c.call(fun(name), *args)
        if r.ok and not isinstance(r.value, bool):
            r.value = interp().truth(r.value)
        return ('value', r, e)
    return FnCase('%s %d%s' % (name, n, '' if signed is None else ' signed' if signed else ' unsigned'), body)


def negfix(n):
    def body(c):
        v = c.sym('v', 0, (1 << n) - 1)
        c.show('neg_fix', v, str(n))
        e = v if lt(v, 1 << n - 1) else binop('-', v, 1 << n)
        return ('value', c.call(fun('neg_fix'), v, n), e)
    return FnCase('neg_fix %d' % n, body)


def names(first):
    def body(c):
        k = c.sym('C', 0, 300)
        cp = CharPiece(k, chars=set(map(chr, range(0, 301))))
        s = S('a_.Z', cp, '9') if not first else S(cp)
        c.show('is_valid_name', s)
        ok = inr(k, 48, 57) or inr(k, 65, 90) or inr(k, 97, 122) or eq(k, 95) or eq(k, 46)
        r = c.call(fun('is_valid_name'), s)
        if r.ok and not isinstance(r.value, bool):
            r.value = interp().truth(r.value)
        return ('value', r, ok)
    return FnCase('is_valid_name %s' % ('alone' if first else 'inside'), body)


def cases(tier):
    interp().load("necroassembler.utils")
    for name, (n, big) in FIXED.items():
        if name.startswith("pack_be64"):
            continue
        for ln in (0, 1, 2, 3):
            for pat in product('pmn', repeat=ln):
                yield fixed(name, n, big, ''.join(pat))
    for order in '<>':
        for f in STRUCT:
            for k in 'vn':
                yield structs(order, f, k)
        for fmt in ('BH', 'IIB', 'hBq', 'HHI'):
            for kinds in product('vn', repeat=len(fmt)):
                yield structs(order, fmt, ''.join(kinds))
    for w in range(1, 33):
        for start in range(0, 33 - w) if tier == 'thorough' else sorted({0, 1, 5, 8, 32 - w} & set(range(0, 33 - w))):
            yield fields('pack_bits', ((start + w - 1, start),))
    for fs in (((4, 0), (9, 5)), ((31, 26), (25, 21), (15, 0)), ((0, 0), (1, 1), (2, 2)), ((15, 12), (3, 0)), ((3, 0), (15, 12)), ((7, 6), (5, 3), (2, 0))):
        yield fields('pack_bits', fs)
    for i in range(0, 33):
        yield fields('pack_bit', ((i, i),), single=True)
    yield fields('pack_bit', ((3, 3), (7, 7), (0, 0)), single=True)
    for name, post in (('pack_bits_le32u', (4, False)), ('pack_bits_le16u', (2, False)), ('pack_bits_be16u', (2, True))):
        yield fields(name, (), post)
        for fs in (((4, 0),), ((15, 11),), ((9, 5), (4, 0)), ((7, 0),), ((15, 8), (7, 0))):
            yield fields(name, fs, post)
    for e, s in ((0, 1), (3, 8), (0, 15)):
        yield inverted('pack_bits', e, s)
    for n in range(1, 65):
        yield predicate('in_bit_range', n)
        yield predicate('in_bit_range_decimal', n, True)
        yield predicate('in_bit_range_decimal', n, False)
    for n in (1, 2, 8, 16, 32, 64):
        yield negfix(n)
    yield names(True)
    yield names(False)
