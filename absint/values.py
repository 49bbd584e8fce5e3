'''Abstract value domains.

Every abstract value denotes a *set* of runtime values:

* AbsInt    linear forms over atoms (symbols with an interval, bit slices of
            other forms, finite-set projections); the classic interval +
            congruence/bit-slice domain.
* Fin       a finite set of concrete values tied to a named choice (powerset
            domain): "any spelling of any register".
* AbsStr    concatenation of literal text and opaque pieces (an identifier that
            collides with nothing, the digits of an unknown number, ...).
* AbsBytes / Buf   byte strings as sequences of literal bytes, abstract bytes and
            opaque segments of symbolic length.
* Cond      an undecided comparison.

Facts refined by branches (intervals of forms, subsets of finite choices) live in
CTX; there is no solver and there are no stored path formulas to solve.
'''
import itertools

INF = float('inf')


class Infeasible(Exception):
    '''The current partition became empty.'''


class AnalysisError(Exception):
    '''The analyser met something it does not model.'''


class OutOfTime(BaseException):
    '''the time for this obligation is used up'''


class ForceSym(Exception):
    '''a finite choice must be enumerated from the start of the partition'''

    def __init__(self, name):
        self.name = name


class Ctx:
    def __init__(self):
        self.force_syms = set()
        self.reset([])

    def reset(self, script):
        self.ranges = {}
        self.fins = {}
        self.pathconds = []
        self.script = script
        self.pos = 0
        self.trail = []          # (choice, arity, label)
        self.events = []

    def choose(self, n, label=''):
        if n <= 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trail.append((c, n, label))
        if len(self.trail) > 4000:
            raise AnalysisError('partition too deep')
        return c


CTX = Ctx()


# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('key',)

    def __eq__(self, other):
        return isinstance(other, Atom) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class SymAtom(Atom):
    '''An unknown integer in [lo, hi].'''
    __slots__ = ('name', 'lo', 'hi')

    def __init__(self, name, lo=-INF, hi=INF):
        self.name, self.lo, self.hi = name, lo, hi
        self.key = name

    def base_range(self):
        return self.lo, self.hi

    def ev(self, val):
        return val[self.name]


class FinAtom(Atom):
    '''Integer projection of a finite choice.'''
    __slots__ = ('sym', 'mapping')

    def __init__(self, sym, mapping):
        self.sym, self.mapping = sym, mapping
        self.key = 'fin:%s:%s' % (sym.name, ','.join(
            str(mapping[e]) for e in sym.elems if e in mapping))

    def allowed(self):
        return [e for e in fin_allowed(self.sym) if e in self.mapping]

    def base_range(self):
        vals = [self.mapping[e] for e in self.allowed()]
        if not vals:
            raise Infeasible()
        return min(vals), max(vals)

    def ev(self, val):
        return self.mapping[val[self.sym.name]]


class SliceAtom(Atom):
    '''floor(base / 2**lo) mod 2**width (width None: no reduction).'''
    __slots__ = ('base', 'lo', 'width')

    def __init__(self, base, lo, width):
        self.base, self.lo, self.width = base, lo, width
        self.key = '(%s)[%d:%s]' % (base.key(), lo, width)

    def base_range(self):
        if self.width is not None:
            return 0, (1 << self.width) - 1
        a, b = self.base.range()
        return (a if a == -INF else int(a) >> self.lo,
                b if b == INF else int(b) >> self.lo)

    def ev(self, val):
        v = self.base.ev(val) >> self.lo
        if self.width is not None:
            v &= (1 << self.width) - 1
        return v


class BinAtom(Atom):
    '''Nonlinear operation kept opaque.'''
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        ka, kb = a.key(), b.key()
        if op in ('mul', 'and', 'or', 'xor') and kb < ka:
            self.a, self.b = b, a
            ka, kb = kb, ka
        self.key = '%s(%s,%s)' % (op, ka, kb)

    def base_range(self):
        la, ha = self.a.range()
        lb, hb = self.b.range()
        if self.op == 'mod':
            if lb == hb and lb > 0:
                return 0, lb - 1
            if lb > 0:
                return 0, hb - 1
        elif self.op == 'mul':
            cands = []
            for x in (la, ha):
                for y in (lb, hb):
                    if (x in (INF, -INF) and y == 0) or (y in (INF, -INF) and x == 0):
                        cands.append(0)
                    else:
                        cands.append(x * y)
            return min(cands), max(cands)
        elif self.op == 'div':
            if lb == hb and lb > 0:
                return (la if la == -INF else la // lb,
                        ha if ha == INF else ha // lb)
        elif self.op in ('and', 'or', 'xor') and la >= 0 and lb >= 0:
            if self.op == 'and':
                return 0, min(ha, hb)
            if ha < INF and hb < INF:
                n = max(int(ha).bit_length(), int(hb).bit_length())
                return (max(la, lb) if self.op == 'or' else 0), (1 << n) - 1
            return 0, INF
        return -INF, INF

    def ev(self, val):
        a, b = self.a.ev(val), self.b.ev(val)
        return {'mod': lambda: a % b, 'mul': lambda: a * b, 'div': lambda: a // b,
                'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                'shl': lambda: a << b, 'shr': lambda: a >> b,
                'pow': lambda: a ** b}[self.op]()


class FunAtom(Atom):
    '''Uninterpreted integer function of named arguments (e.g. a byte of a file).'''
    __slots__ = ('name', 'lo', 'hi')

    def __init__(self, name, lo=-INF, hi=INF):
        self.name, self.lo, self.hi = name, lo, hi
        self.key = name

    def base_range(self):
        return self.lo, self.hi

    def ev(self, val):
        return val[self.name]


def atom_range(atom):
    lo, hi = atom.base_range()
    f = CTX.ranges.get(atom.key)
    if f:
        lo, hi = max(lo, f[0]), min(hi, f[1])
    if type(atom) is SliceAtom and atom.width is not None and atom.width > 1 and CTX.ranges:
        f = CTX.ranges.get('(%s)[%d:1]' % (atom.base.key(), atom.lo + atom.width - 1))
        if f:               # the top bit is decided
            half = 1 << atom.width - 1
            if f[0] >= 1:
                lo = max(lo, half)
            if f[1] <= 0:
                hi = min(hi, half - 1)
    return lo, hi


# --------------------------------------------------------------------- AbsInt
class AbsInt:
    __slots__ = ('c', 't', '_k', '_h')

    def __init__(self, c, terms):
        self.c = c
        self.t = terms          # tuple of (atom, coeff), sorted by atom key
        self._k = None
        self._h = None

    def form_key(self):
        return '+'.join('%d*%s' % (k, a.key) for a, k in self.t)

    def key(self):
        if self._k is None:
            self._k = '%d+%s' % (self.c, self.form_key())
        return self._k

    def __repr__(self):
        parts = []
        for a, k in self.t:
            parts.append(a.key if k == 1 else '%d*%s' % (k, a.key))
        if self.c or not parts:
            parts.append(str(self.c))
        return '{' + ' + '.join(parts) + '}'

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        # structural (used for dict keys); semantic comparison is compare()
        return isinstance(other, AbsInt) and self.key() == other.key()

    def ev(self, val):
        return self.c + sum(k * a.ev(val) for a, k in self.t)

    def _norm(self):
        '''(key of the primitive form with positive leading coefficient, factor)'''
        if not self.t:
            return '', 1
        g = 0
        for _, k in self.t:
            g = _gcd(g, abs(k))
            if g == 1:
                break
        if self.t[0][1] < 0:
            g = -g
        if g == 1:
            return self.form_key(), 1
        return '+'.join('%d*%s' % (k // g, a.key) for a, k in self.t), g

    def range(self):
        lo = hi = 0
        for a, k in self.t:
            alo, ahi = atom_range(a)
            if k > 0:
                lo, hi = lo + k * alo, hi + k * ahi
            else:
                lo, hi = lo + k * ahi, hi + k * alo
        if len(self.t) > 1:
            fk, s = self._norm()
            f = CTX.ranges.get('L' + fk)
            if f:
                flo, fhi = (f[0] * s, f[1] * s) if s > 0 else (f[1] * s, f[0] * s)
                lo, hi = max(lo, flo), min(hi, fhi)
            if lo != hi:
                for a, k in self.t:
                    # q * b - q * 2**l * floor(b / 2**l) is q * (b mod 2**l)
                    if type(a) is SliceAtom and a.width is None and a.lo and k % (1 << a.lo) == 0:
                        q = -(k >> a.lo)
                        mine = dict(self.t)
                        if all(mine.get(b) == kb * q for b, kb in a.base.t):
                            rest = {x: y for x, y in self.t if x != a and all(x != b for b, _ in a.base.t)}
                            rlo, rhi = mk(0, rest).range() if rest else (0, 0)
                            top = q * ((1 << a.lo) - 1)
                            rlo, rhi = rlo + min(0, top) - q * a.base.c, rhi + max(0, top) - q * a.base.c
                            lo, hi = max(lo, rlo), min(hi, rhi)
        return lo + self.c, hi + self.c

    # arithmetic -------------------------------------------------------------
    def __add__(self, o):
        return lin_add(self, o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return lin_add(self, o, -1)

    def __rsub__(self, o):
        return lin_add(as_abs(o), self, -1)

    def __neg__(self):
        return lin_scale(self, -1)

    def __mul__(self, o):
        return binop('*', self, o)

    def __rmul__(self, o):
        return binop('*', o, self)

    def __and__(self, o):
        return binop('&', self, o)
    __rand__ = __and__

    def __or__(self, o):
        return binop('|', self, o)
    __ror__ = __or__

    def __lshift__(self, o):
        return binop('<<', self, o)

    def __rshift__(self, o):
        return binop('>>', self, o)


def as_abs(v):
    if isinstance(v, AbsInt):
        return v
    if isinstance(v, bool):
        return AbsInt(int(v), ())
    if isinstance(v, int):
        return AbsInt(v, ())
    if isinstance(v, Fin):
        return v.as_int()
    raise AnalysisError('not an integer: %r' % (v,))


def mk(c, d):
    '''build from const and dict atom->coeff, demoting constants'''
    items = []
    for a, k in d.items():
        if k == 0:
            continue
        items.append((a, k))
    # collapse atoms that the facts pin to one value
    out = []
    for a, k in items:
        lo, hi = atom_range(a)
        if lo == hi:
            c += k * lo
        else:
            out.append((a, k))
    if not out:
        return c
    out.sort(key=lambda p: p[0].key)
    return AbsInt(c, tuple(out))


def lin_add(a, b, sign):
    if isinstance(b, float) or isinstance(a, float):
        raise AnalysisError('float arithmetic')
    a, b = as_abs(a), as_abs(b)
    d = dict(a.t)
    for at, k in b.t:
        d[at] = d.get(at, 0) + sign * k
    return mk(a.c + sign * b.c, d)


def lin_scale(a, n):
    a = as_abs(a)
    return mk(a.c * n, {at: k * n for at, k in a.t})


def const_of(v):
    '''int if v is a known integer else None'''
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, AbsInt):
        lo, hi = v.range()
        if lo == hi:
            return lo
    return None


def mk_slice(x, lo, w):
    '''floor(x / 2**lo) mod 2**w'''
    c = const_of(x)
    if c is not None:
        c >>= lo
        return c if w is None else c & ((1 << w) - 1)
    x = as_abs(x)
    if lo:
        g = 0
        for _, k in x.t:
            g |= k
        g &= -g                         # granularity of the variable part
        if g > 1:
            # the constant below the granularity cannot carry
            tz = min(g.bit_length() - 1, lo)
            return mk_slice(mk(x.c >> tz, {a: k >> tz for a, k in x.t}), lo - tz, w)
        m = 1 << lo
        hi_c, rest_c = x.c >> lo, x.c & (m - 1)
        hi_t, rest = {}, {}
        for a, k in x.t:
            if k % m == 0:
                hi_t[a] = k // m
            else:
                rest[a] = k
        if not rest:
            shifted = mk(hi_c, hi_t)
        else:
            r = mk(rest_c, rest)
            rc = const_of(r)
            if rc is not None:
                shifted = mk(hi_c + (rc >> lo), hi_t)
            else:
                rlo, rhi = r.range()
                if rlo > -INF and rhi < INF and int(rlo) >> lo == int(rhi) >> lo:
                    shifted = mk(hi_c + (int(rlo) >> lo), hi_t)
                else:
                    # pull a non-overlapping low part out of r
                    r2 = _drop_low(r, lo)
                    if r2 is not None:
                        shifted = lin_add(mk(hi_c, hi_t), mk_slice(r2, lo, None), 1)
                    elif (len(r.t) == 1 and r.t[0][1] == 1 and r.c == 0 and
                            isinstance(r.t[0][0], SliceAtom)):
                        sa = r.t[0][0]
                        nw = None if sa.width is None else sa.width - lo
                        at = mk_slice(sa.base, sa.lo + lo, nw) if nw is None or nw > 0 else 0
                        shifted = lin_add(mk(hi_c, hi_t), at, 1)
                    else:
                        d = dict(hi_t)
                        at = _fold_fin(r, lambda v: v >> lo) or SliceAtom(r, lo, None)
                        d[at] = d.get(at, 0) + 1
                        shifted = mk(hi_c, d)
        if w is None:
            return shifted
        return mk_slice(shifted, 0, w)
    if w is None:
        return x
    m = 1 << w
    lo_, hi_ = x.range()
    if lo_ > -INF and hi_ < INF and int(lo_) >> w == int(hi_) >> w:
        return lin_add(x, -((int(lo_) >> w) << w), 1)
    d = {}
    cc = x.c
    for a, k in x.t:
        k %= m
        if k == 0:
            continue
        if isinstance(a, SliceAtom) and a.lo == 0 and a.width is not None and a.width >= w:
            cc += k * a.base.c
            for a2, k2 in a.base.t:
                d[a2] = d.get(a2, 0) + k * k2
            continue
        d[a] = d.get(a, 0) + k
    d2 = {}
    for a, k in d.items():
        k %= m
        if k > m // 2:
            k -= m
        if k:
            d2[a] = k
    cc %= m
    y = mk(cc, d2)
    c = const_of(y)
    if c is not None:
        return c & (m - 1)
    lo_, hi_ = y.range()
    if lo_ > -INF and hi_ < INF and int(lo_) >> w == int(hi_) >> w:
        return lin_add(y, -((int(lo_) >> w) << w), 1)
    tz = 0
    for _, k in y.t:
        tz |= k
    tz = (tz & -tz).bit_length() - 1
    if 0 < tz < w:
        low = mk(y.c >> tz, {a: k >> tz for a, k in y.t})
        return lin_add(lin_scale(mk_slice(low, 0, w - tz), 1 << tz), y.c & ((1 << tz) - 1), 1)
    # single slice atom: merge
    if len(y.t) == 1 and y.t[0][1] == 1 and y.c == 0 and isinstance(y.t[0][0], SliceAtom):
        sa = y.t[0][0]
        nw = w if sa.width is None else min(w, sa.width)
        base = sa.base
        # reduce the base modulo 2**(lo+nw) for a canonical form
        cb = base.c % (1 << (sa.lo + nw))
        db = {}
        for a, k in base.t:
            mm = 1 << (sa.lo + nw)
            k %= mm
            if k > mm // 2:
                k -= mm
            if k:
                db[a] = k
        nb = mk(cb, db)
        if const_of(nb) is not None:
            return (const_of(nb) >> sa.lo) & ((1 << nw) - 1)
        return mk(0, {SliceAtom(nb, sa.lo, nw): 1})
    # split disjoint low/high parts: keep it simple
    f = _fold_fin(y, lambda v: v & (m - 1))
    if f is not None:
        return mk(0, {f: 1})
    return mk(0, {SliceAtom(y, 0, w): 1})


def _fold_fin(x, fn):
    '''x over a single FinAtom -> FinAtom of fn(x)'''
    if len(x.t) == 1 and isinstance(x.t[0][0], FinAtom):
        fa, k = x.t[0]
        return FinAtom(fa.sym, {e: fn(x.c + k * v) for e, v in fa.mapping.items()})
    return None


def _drop_low(r, lo):
    '''r = A + B with A a multiple of 2**j-aligned bits above lo and B in [0,2**lo)
    whose bits are disjoint: return A (B contributes nothing after >> lo).'''
    m = 1 << lo
    atoms = sorted(r.t, key=lambda t: abs(t[1]))
    for i in range(len(atoms) - 1, 0, -1):
        tz = 0
        for _, k in atoms[i:]:
            tz |= k
        tz &= -tz
        if tz >= m or tz < abs(atoms[i - 1][1]):
            continue
        tl = th = 0
        for a, k in atoms[:i]:
            alo, ahi = atom_range(a)
            if alo == -INF or ahi == INF:
                break
            tl, th = (tl + k * int(alo), th + k * int(ahi)) if k > 0 else (tl + k * int(ahi), th + k * int(alo))
        else:
            # the low atoms with their share of the constant stay within [0, tz)
            cl = r.c % tz
            cl -= (cl + tl) // tz * tz
            if cl + th < tz:
                return mk(r.c - cl, dict(atoms[i:]))
    return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def bitmask_of(x):
    '''superset of bits that may be set; None when x may be negative/unbounded'''
    c = const_of(x)
    if c is not None:
        return c if c >= 0 else None
    x = as_abs(x)
    lo, hi = x.range()
    if lo < 0 or hi == INF:
        return None
    rng = (1 << int(hi).bit_length()) - 1
    g = x.c
    for _, k in x.t:
        g |= k
    rng &= -(g & -g) if g else -1       # a common power of two leaves the low bits clear
    total = x.c
    off = {}
    for a, k in x.t:
        alo, ahi = atom_range(a)
        if k <= 0 or alo == -INF or ahi == INF:
            return rng
        if alo < 0:                     # counted from its least value
            off[a] = int(alo)
            total += k * int(alo)
    if total < 0:
        return rng
    for a, k in x.t:
        alo, ahi = atom_range(a)
        ahi -= off.get(a, 0)
        if isinstance(a, FinAtom):
            m = 0
            for e in a.allowed():
                m |= (a.mapping[e] - off.get(a, 0)) * k
        elif k & (k - 1) == 0:
            m = ((1 << int(ahi).bit_length()) - 1) * k
        else:
            m = (1 << int(k * ahi).bit_length()) - 1
        if total & m:
            return rng
        total |= m
    return total & rng


def bit_and(x, y):
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None:
        return cx & cy
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    if cy is not None:
        if cy == 0:
            return 0
        if cy < 0:
            return lin_add(x, bit_and(x, ~cy), -1)
        bm = bitmask_of(x)
        if bm is not None and bm & cy == bm:
            return x
        out = 0
        s = 0
        m = cy
        while m:
            if m & 1 == 0:
                z = (m & -m).bit_length() - 1
                m >>= z
                s += z
            n = 0
            while m & 1:
                n += 1
                m >>= 1
            out = lin_add(as_abs(out), lin_scale(mk_slice(x, s, n), 1 << s), 1)
            s += n
        return out
    bx, by = bitmask_of(x), bitmask_of(y)
    if bx is not None and by is not None and bx & by == 0:
        return 0
    return mk(0, {BinAtom('and', as_abs(x), as_abs(y)): 1})


def bit_or(x, y):
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None:
        return cx | cy
    bx, by = bitmask_of(x), bitmask_of(y)
    if bx is not None and by is not None and bx & by == 0:
        return lin_add(x, y, 1)
    if cx is not None or cy is not None:
        # x | c = x + c - (x & c)
        return lin_add(lin_add(x, y, 1), bit_and(x, y), -1)
    return mk(0, {BinAtom('or', as_abs(x), as_abs(y)): 1})


def bit_xor(x, y):
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None:
        return cx ^ cy
    bx, by = bitmask_of(x), bitmask_of(y)
    if bx is not None and by is not None and bx & by == 0:
        return lin_add(x, y, 1)
    if cx is not None or cy is not None:
        return lin_add(lin_add(x, y, 1), lin_scale(bit_and(x, y), 2), -1)
    return mk(0, {BinAtom('xor', as_abs(x), as_abs(y)): 1})


def binop(op, x, y):
    '''integer binary operation on AbsInt/int/Fin'''
    cx, cy = const_of(x), const_of(y)
    if cx is not None and cy is not None:
        if op == '/':
            return cx / cy
        return {'+': lambda: cx + cy, '-': lambda: cx - cy, '*': lambda: cx * cy,
                '//': lambda: cx // cy, '%': lambda: cx % cy, '&': lambda: cx & cy,
                '|': lambda: cx | cy, '^': lambda: cx ^ cy, '<<': lambda: cx << cy,
                '>>': lambda: cx >> cy, '**': lambda: cx ** cy}[op]()
    if op == '+':
        return lin_add(x, y, 1)
    if op == '-':
        return lin_add(x, y, -1)
    if op == '*':
        if cy is not None:
            return lin_scale(x, cy)
        if cx is not None:
            return lin_scale(y, cx)
        return mk(0, {BinAtom('mul', as_abs(x), as_abs(y)): 1})
    if op == '&':
        return bit_and(x, y)
    if op == '|':
        return bit_or(x, y)
    if op == '^':
        return bit_xor(x, y)
    if op == '<<':
        if cy is not None:
            if cy < 0:
                raise ValueError('negative shift count')
            return lin_scale(x, 1 << cy)
        return mk(0, {BinAtom('shl', as_abs(x), as_abs(y)): 1})
    if op == '>>':
        if cy is not None:
            if cy < 0:
                raise ValueError('negative shift count')
            return mk_slice(x, cy, None)
        return mk(0, {BinAtom('shr', as_abs(x), as_abs(y)): 1})
    if op == '//':
        if cy is not None and cy > 0 and cy & (cy - 1) == 0:
            return mk_slice(x, cy.bit_length() - 1, None)
        if cy == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return mk(0, {BinAtom('div', as_abs(x), as_abs(y)): 1})
    if op == '%':
        if cy is not None and cy > 0 and cy & (cy - 1) == 0:
            return mk_slice(x, 0, cy.bit_length() - 1)
        if cy == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return mk_mod(x, y)
    if op == '**':
        if cx == 2:
            return mk(0, {BinAtom('shl', as_abs(1), as_abs(y)): 1})
        return mk(0, {BinAtom('pow', as_abs(x), as_abs(y)): 1})
    raise AnalysisError('integer operator %s' % op)


def leads_negative(x):
    '''All symbols of the linear form are subtracted.'''
    return bool(x.t) and all(k < 0 for _, k in x.t)


def without_mod(x, y):
    '''Inside a reduction modulo y, an inner reduction modulo y changes nothing.'''
    yk = as_abs(y).key()
    r = x
    for a, k in as_abs(x).t:
        if type(a) is BinAtom and a.op == 'mod' and a.b.key() == yk:
            r = lin_add(lin_add(r, mk(0, {a: 1}), -k), without_mod(a.a, y), k)
    cy = const_of(y)
    if cy is not None and type(r) is AbsInt:
        r = lin_add(r, r.c % cy - r.c, 1)
    return r


def mk_mod(x, y):
    if type(x) is AbsInt:
        x = without_mod(x, y)
        if type(x) is int and type(y) is int:
            return x % y
    lo, hi = as_abs(x).range()
    ylo, _ = as_abs(y).range()
    if lo >= 0 and ylo > 0 and hi < ylo:
        return x
    r = mk(0, {BinAtom('mod', as_abs(x), as_abs(y)): 1})
    if ylo > 0 and const_of(y) is None:
        fact = lin_add(lin_add(r, y, -1), 1, 1)         # r < y
        refine_le(fact)
        if not any(c.op == 'le' and c.lin == fact for c in CTX.pathconds):
            CTX.pathconds.append(Cond('le', fact))
    return r


def sym(name, lo=-INF, hi=INF):
    if lo == hi:
        return lo
    return AbsInt(0, ((SymAtom(name, lo, hi), 1),))


# --------------------------------------------------------------------- Cond
class Cond:
    '''Undecided comparison.  op: 'le' (lin <= 0), 'eq' (lin == 0), 'opaque'.'''

    def __init__(self, op, lin=None, name=None, neg=False, evf=None, parts=None, memo=False):
        self.op, self.lin, self.name, self.neg, self.evf = op, lin, name, neg, evf
        self.parts, self.memo = parts, memo

    def negate(self):
        return Cond(self.op, self.lin, self.name, not self.neg, self.evf, self.parts, self.memo)

    def ev(self, val):
        if self.op == 'le':
            r = self.lin.ev(val) <= 0
        elif self.op == 'eq':
            r = self.lin.ev(val) == 0
        elif self.evf is not None:
            r = self.evf(val)
        else:
            return None
        return (not r) if self.neg else r

    def __repr__(self):
        s = {'le': '%r <= 0', 'eq': '%r == 0'}.get(self.op)
        s = s % (self.lin,) if s else str(self.name)
        return ('not ' if self.neg else '') + s

    def truth(self):
        '''decide, or partition on it'''
        if self.op == 'opaque':
            if self.memo:
                for c in CTX.pathconds:
                    if c.op == 'opaque' and c.name == self.name:
                        return c.neg == self.neg
            k = CTX.choose(2, repr(self))
            r = k == 0
            CTX.pathconds.append(self if r else self.negate())
            return r
        lin = self.lin
        c = const_of(lin)
        if c is not None:
            r = c <= 0 if self.op == 'le' else c == 0
            return r != self.neg
        lo, hi = lin.range()
        if lo > hi:
            raise Infeasible()
        if self.op == 'le':
            if hi <= 0:
                return not self.neg
            if lo > 0:
                return self.neg
            k = CTX.choose(2, repr(self))
            r = k == 0
            refine_le(lin if r else lin_add(lin_scale(lin, -1), 1, 1))
            CTX.pathconds.append(Cond('le', lin, neg=not r))
            return r != self.neg
        # eq
        if lo > 0 or hi < 0:
            return self.neg
        # Slice(x,0,w) == x  <=>  0 <= x < 2**w
        ir = _inrange_shape(lin)
        if ir is not None:
            x, w = ir
            xlo, xhi = x.range()
            if xlo >= 0 and xhi < (1 << w):
                return not self.neg
            if xhi < 0 or xlo >= (1 << w):
                return self.neg
            k = CTX.choose(3, repr(self))
            if k == 0:
                refine_ge(x, 0)
                refine_le(lin_add(x, -((1 << w) - 1), 1))
            elif k == 1:
                refine_le(lin_add(x, 1, 1))
            else:
                refine_ge(x, 1 << w)
            r = k == 0
            CTX.pathconds.append(Cond('eq', lin, neg=not r))
            return r != self.neg
        k = CTX.choose(2, repr(self))
        r = k == 0
        if r:
            refine_le(lin)
            refine_ge(lin, 0)
        else:
            lo, hi = lin.range()
            if lo == 0:
                refine_ge(lin, 1)
            elif hi == 0:
                refine_le(lin_add(lin, 1, 1))
            refine_fin_ne(lin)
        CTX.pathconds.append(Cond('eq', lin, neg=not r))
        return r != self.neg


def _inrange_shape(lin):
    if len(lin.t) < 2:
        return None
    for a, k in lin.t:
        if isinstance(a, SliceAtom) and a.lo == 0 and a.width:
            rest = lin_add(lin, AbsInt(0, ((a, k),)), -1)   # rest = lin - k*a
            # lin = k*a + rest ; want rest == -k*x with a = x mod 2**w
            if const_of(rest) is not None or rest.c % k or any(n % k for _, n in rest.t):
                continue
            x = mk(-rest.c // k, {b: -n // k for b, n in rest.t})
            if const_of(x) is not None:
                continue
            if const_of(mk_slice(lin_add(x, a.base, -1), 0, a.width)) == 0:
                return x, a.width
    return None


def refine_le(lin):
    '''assume lin <= 0'''
    if not isinstance(lin, AbsInt):
        if lin > 0:
            raise Infeasible()
        return
    if len(lin.t) == 1:
        a, k = lin.t[0]
        lo, hi = atom_range(a)
        if k > 0:
            hi = min(hi, (-lin.c) // k)
        else:
            lo = max(lo, -((-lin.c) // (-k)))   # a >= ceil(c/|k|)
        _store(a, lo, hi)
        return
    fk, s = lin._norm()
    lo, hi = CTX.ranges.get('L' + fk, (-INF, INF))
    if s > 0:
        hi = min(hi, (-lin.c) // s)
    else:
        lo = max(lo, -((-lin.c) // -s))
    if lo > hi:
        raise Infeasible()
    CTX.ranges['L' + fk] = (lo, hi)
    l, h = lin.range()
    if l > h:
        raise Infeasible()
    # interval propagation to the single terms
    rs = [atom_range(a) for a, _ in lin.t]
    lows = [(k * r[0] if k > 0 else k * r[1]) for (a, k), r in zip(lin.t, rs)]
    inf = sum(1 for x in lows if x == -INF)
    if inf <= 1:
        total = sum(x for x in lows if x != -INF)
        for (a, k), (alo, ahi), x in zip(lin.t, rs, lows):
            if type(a) is not SymAtom or (inf and x != -INF):
                continue
            room = -lin.c - (total if x == -INF else total - x)      # k * a <= room
            if k > 0 and room // k < ahi:
                _store(a, alo, int(room // k))
            elif k < 0 and -(room // -k) > alo:
                _store(a, -int(room // -k), ahi)


def refine_ge(lin, n):
    refine_le(lin_add(lin_scale(lin, -1), n, 1))


def _store(a, lo, hi):
    if lo > hi:
        raise Infeasible()
    if isinstance(a, FinAtom):
        keep = tuple(e for e in a.allowed() if lo <= a.mapping[e] <= hi)
        if not keep:
            raise Infeasible()
        CTX.fins[a.sym.name] = keep
    CTX.ranges[a.key] = (lo, hi)
    if isinstance(a, SliceAtom) and a.width is None:
        if lo > -INF:
            refine_ge(a.base, int(lo) << a.lo)
        if hi < INF:
            refine_le(lin_add(a.base, -((int(hi) << a.lo) + (1 << a.lo) - 1), 1))


def _renorm(l):
    '''the same form with its slices taken again under the present facts'''
    if not any(isinstance(a, SliceAtom) for a, _ in l.t):
        return l
    out = l.c
    for a, k in l.t:
        v = mk_slice(a.base, a.lo, a.width) if isinstance(a, SliceAtom) else AbsInt(0, ((a, 1),))
        out = binop('+', out, binop('*', v, k))
    return out


def consistent():
    '''no recorded branch condition contradicts the final facts'''
    for c in CTX.pathconds:
        if c.op == 'opaque' or not isinstance(c.lin, AbsInt):
            continue
        x = _renorm(c.lin)
        lo, hi = x.range() if isinstance(x, AbsInt) else (x, x)
        if lo > hi:
            return False
        if c.op == 'le':
            if (lo > 0 and not c.neg) or (hi <= 0 and c.neg):
                return False
        elif (lo > 0 or hi < 0) and not c.neg:
            return False
        elif lo == hi == 0 and c.neg:
            return False
    return _fm_feasible()


def _fm_feasible(limit=3000):
    '''Fourier-Motzkin elimination over the recorded linear facts (False: contradictory)'''
    cons, atoms = set(), {}

    def add(terms, c):          # sum(terms) + c <= 0
        g = 0
        for _, k in terms:
            g = _gcd(g, abs(k))
        if g > 1:
            terms = tuple((a, k // g) for a, k in terms)
            c = -((-c) // g)
        cons.add((terms, c))

    def lin(l, sign, c=0):
        for a, k in l.t:
            atoms[a.key] = a
        add(tuple(sorted((a.key, sign * k) for a, k in l.t)), sign * l.c + c)
    for c in CTX.pathconds:
        if c.op == 'opaque' or not isinstance(c.lin, AbsInt):
            continue
        if c.op == 'le':
            if not c.neg:
                lin(c.lin, 1)
            else:
                lin(c.lin, -1, 1)
        elif not c.neg:
            lin(c.lin, 1)
            lin(c.lin, -1)
    for key, a in list(atoms.items()):
        lo, hi = atom_range(a)
        if lo > -INF:
            add(((key, -1),), int(lo))
        if hi < INF:
            add(((key, 1),), -int(hi))
    names = set(atoms)
    cons = {(t, c) for t, c in cons}
    while True:
        for t, c in cons:
            if not t and c > 0:
                return False
        if not names:
            return True
        best = None
        for n in names:
            p = sum(1 for t, _ in cons for a, k in t if a == n and k > 0)
            q = sum(1 for t, _ in cons for a, k in t if a == n and k < 0)
            if best is None or p * q - p - q < best[0]:
                best = (p * q - p - q, n)
        n = best[1]
        names.discard(n)
        pos, neg, rest = [], [], set()
        for t, c in cons:
            k = dict(t).get(n)
            (rest.add((t, c)) if k is None else (pos if k > 0 else neg).append((dict(t), c)))
        for tp, cp in pos:
            for tn, cn in neg:
                a, b = -tn[n], tp[n]
                d = {}
                for t, m in ((tp, a), (tn, b)):
                    for x, k in t.items():
                        d[x] = d.get(x, 0) + k * m
                c = cp * a + cn * b
                d = {x: k for x, k in d.items() if k}
                g = 0
                for k in d.values():
                    g = _gcd(g, abs(k))
                if g > 1:
                    d = {x: k // g for x, k in d.items()}
                    c = -((-c) // g)
                rest.add((tuple(sorted(d.items())), c))
                if len(rest) > limit:
                    return True
        cons = rest


def refine_fin_ne(lin):
    if len(lin.t) == 1 and isinstance(lin.t[0][0], FinAtom):
        a, k = lin.t[0]
        keep = tuple(e for e in a.allowed() if k * a.mapping[e] + lin.c != 0)
        if not keep:
            raise Infeasible()
        CTX.fins[a.sym.name] = keep


def compare(op, x, y):
    '''-> bool or Cond'''
    if op in ('>', '>='):
        return compare('<' if op == '>' else '<=', y, x)
    if isinstance(x, float) or isinstance(y, float):
        # only infinities / exact ints occur
        x = int(x) if isinstance(x, float) and x == int(x) else x
        y = int(y) if isinstance(y, float) and y == int(y) else y
    d = lin_add(x, y, -1)
    if op == '!=':
        r = compare('==', x, y)
        return (not r) if isinstance(r, bool) else r.negate()
    c = const_of(d)
    if op == '<':
        if c is not None:
            return c < 0
        cond = Cond('le', lin_add(d, 1, 1))
        lo, hi = d.range()
        if hi < 0:
            return True
        if lo >= 0:
            return False
        return cond
    if op == '<=':
        if c is not None:
            return c <= 0
        lo, hi = d.range()
        if hi <= 0:
            return True
        if lo > 0:
            return False
        return Cond('le', d)
    if op == '==':
        if c is not None:
            return c == 0
        lo, hi = d.range()
        if lo > 0 or hi < 0:
            return False
        return Cond('eq', d)
    raise AnalysisError('comparison ' + op)


# --------------------------------------------------------------------- Fin
class FinSym:
    def __init__(self, name, elems):
        self.name, self.elems = name, tuple(elems)


def fin_allowed(fs):
    return CTX.fins.get(fs.name, fs.elems)


class Fin:
    '''mapping: element of sym -> concrete Python value'''
    __slots__ = ('sym', 'mapping')

    def __init__(self, fs, mapping):
        self.sym, self.mapping = fs, mapping

    def items(self):
        return [(e, self.mapping[e]) for e in fin_allowed(self.sym) if e in self.mapping]

    def __repr__(self):
        it = self.items()
        return 'Fin(%s:%s%s)' % (self.sym.name, [v for _, v in it[:6]], '...' if len(it) > 6 else '')

    def as_int(self):
        return AbsInt(0, ((FinAtom(self.sym, self.mapping), 1),))

    def is_int(self):
        return all(isinstance(v, int) for _, v in self.items())

    def is_str(self):
        return all(isinstance(v, str) for _, v in self.items())

    def ev(self, val):
        return self.mapping[val[self.sym.name]]

    def collapse(self):
        vals = [v for _, v in self.items()]
        if not vals:
            raise Infeasible()
        first = vals[0]
        for v in vals[1:]:
            if v is not first and not (type(v) == type(first) and
                                       isinstance(v, (int, str, bytes, bool, type(None), tuple)) and v == first):
                return self
        return first

    def force(self):
        '''partition by distinct value and return the concrete value'''
        groups = []
        for e, v in self.items():
            for g in groups:
                if g[0] is v or (type(g[0]) == type(v) and isinstance(v, (int, str, bytes, bool, type(None), tuple)) and g[0] == v):
                    g[1].append(e)
                    break
            else:
                groups.append((v, [e]))
        if not groups:
            raise Infeasible()
        k = CTX.choose(len(groups), 'value of %s' % self.sym.name)
        CTX.fins[self.sym.name] = tuple(groups[k][1])
        return groups[k][0]


def fin_restrict(fs, elems):
    elems = tuple(elems)
    if not elems:
        raise Infeasible()
    CTX.fins[fs.name] = elems


_fresh = itertools.count()


# --------------------------------------------------------------------- AbsStr
DIGITS = set('0123456789')
HEXD = set('0123456789abcdefABCDEF')
IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
ALPHA = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
PRINTABLE = set(chr(i) for i in range(32, 127))


class Piece:
    '''opaque non-empty text'''
    first = None

    def __eq__(self, o):
        return isinstance(o, Piece) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<%s>' % self.key


class NumPiece(Piece):
    '''digits (canonical text) of a non-negative number in a base'''

    def __init__(self, value, base, digits_only=None):
        self.value, self.base = value, base
        self.chars = {10: DIGITS, 2: set('01'), 8: set('01234567')}.get(base, HEXD)
        if digits_only:
            self.chars = DIGITS
        self.first = self.chars
        self.fixed = None
        self.key = 'num%d%s:%s' % (base, 'd' if digits_only else '',
                                   value.key() if isinstance(value, AbsInt) else value)

    def render(self, val):
        v = self.value.ev(val) if isinstance(self.value, AbsInt) else self.value
        return {10: '%d', 16: '%x', 8: '%o'}.get(self.base, '') % v if self.base != 2 else format(v, 'b')


class NamePiece(Piece):
    '''an identifier different from every word the program mentions'''

    def __init__(self, name, case=None):
        self.name, self.case = name, case
        self.chars = IDENT
        self.first = ALPHA
        self.fixed = None
        self.key = 'name:%s%s' % (name, ':' + case if case else '')

    def cased(self, case):
        return NamePiece(self.name, case)

    def render(self, val):
        return getattr(self.name, case) () if False else (
            self.name.upper() if self.case == 'upper' else self.name.lower() if self.case == 'lower' else self.name)


class CharPiece(Piece):
    '''exactly one character with code point `code`, drawn from chars'''

    def __init__(self, code, chars=None):
        self.code = code = as_abs(code)
        self.chars = chars if chars is not None else PRINTABLE
        self.first = self.chars
        self.fixed = 1
        self.key = 'chr:%s' % code.key()

    def render(self, val):
        return chr(self.code.ev(val))


class TextPiece(Piece):
    '''arbitrary text over chars (possibly of symbolic length)'''

    def __init__(self, name, chars=None, length=None, xform=()):
        self.name = name
        self.chars = chars if chars is not None else PRINTABLE
        self.first = self.chars
        self.fixed = None
        self.length = length
        self.xform = xform
        self.key = 'text:%s%s' % (name, ''.join(':' + x for x in xform))

    def render(self, val):
        if self.length is None or self.xform:
            return self.name
        try:
            n = as_abs(self.length).ev(val)
        except Exception:
            return self.name
        cs = [c for c in 'abcdefghijlmnopqrstuvwxyz' if c in self.chars] or sorted(self.chars)
        return ''.join(cs[i % len(cs)] for i in range(max(n, 0)))


class AbsStr:
    __slots__ = ('p',)

    def __init__(self, pieces):
        self.p = tuple(pieces)

    def __repr__(self):
        return 'S[' + ' '.join(repr(x) for x in self.p) + ']'

    def __hash__(self):
        return hash(self.p)

    def __eq__(self, o):
        return isinstance(o, AbsStr) and self.p == o.p

    def render(self, val):
        return ''.join(x if isinstance(x, str) else x.render(val) for x in self.p)


class FinPiece(Piece):
    '''text drawn from a finite choice'''

    def __init__(self, fin):
        self.fin = fin
        vals = [v for _, v in fin.items()]
        self.chars = set().union(*[set(v) for v in vals])
        self.first = {v[0] for v in vals if v}
        self.fixed = None
        self.key = 'fin:%s:%s' % (fin.sym.name, ','.join(map(str, fin.mapping.values())))

    def render(self, val):
        return self.fin.ev(val)


def fin_map(fin, fn):
    return Fin(fin.sym, {e: fn(v) for e, v in fin.items()})


def mkstr(pieces):
    out = []
    for x in pieces:
        if isinstance(x, AbsStr):
            for y in x.p:
                _push(out, y)
        else:
            _push(out, x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    if len(out) == 1 and isinstance(out[0], FinPiece):
        return out[0].fin.collapse()
    return AbsStr(out)


def _push(out, x):
    t = type(x)
    if t is Fin:
        x = FinPiece(x)
        t = FinPiece
    if t is str:
        if not x:
            return
        if out:
            if type(out[-1]) is str:
                out[-1] += x
                return
            if type(out[-1]) is FinPiece:
                out[-1] = FinPiece(fin_map(out[-1].fin, lambda v: v + x))
                return
        out.append(x)
        return
    if t.__name__ == 'RunPiece':
        return _push(out, x.inner)
    if t is FinPiece and out:
        if type(out[-1]) is str:
            pre = out.pop()
            out.append(FinPiece(fin_map(x.fin, lambda v: pre + v)))
            return
        if type(out[-1]) is FinPiece and out[-1].fin.sym.name == x.fin.sym.name:
            a = out.pop().fin
            out.append(FinPiece(Fin(a.sym, {e: v + x.fin.mapping[e] for e, v in a.items() if e in x.fin.mapping})))
            return
    out.append(x)


def piece_len(p):
    from . import strs
    return strs.plen(p)


def str_len(s):
    if isinstance(s, str):
        return len(s)
    n = 0
    for x in s.p:
        n = binop('+', n, piece_len(x))
    return n


# --------------------------------------------------------------------- bytes
class Seg:
    pass


class ByteSeg(Seg):
    '''one abstract byte (value in 0..255)'''
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<%r>' % (self.v,)

    def length(self):
        return 1


class RepSeg(Seg):
    '''value repeated n (symbolic) times'''
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __repr__(self):
        return '<%r x %r>' % (self.v, self.n)

    def length(self):
        return self.n


class OpqSeg(Seg):
    '''opaque bytes with symbolic length'''
    __slots__ = ('name', 'n')

    def __init__(self, name, n):
        self.name, self.n = name, n

    def __repr__(self):
        return '<%s:%r>' % (self.name, self.n)

    def length(self):
        return self.n


class AbsBytes:
    '''immutable'''
    __slots__ = ('s',)

    def __init__(self, segs):
        self.s = tuple(segs)

    def __repr__(self):
        return 'B[' + ' '.join(x.hex() if isinstance(x, bytes) else repr(x) for x in self.s) + ']'

    def __hash__(self):
        return hash(repr(self.s))

    def __eq__(self, o):
        return isinstance(o, AbsBytes) and repr(self.s) == repr(o.s)


class Buf:
    '''mutable bytearray; segs is a list'''

    def __init__(self, segs=()):
        self.s = list(segs)

    def __repr__(self):
        return 'Buf[' + ' '.join(x.hex() if isinstance(x, bytes) else repr(x) for x in self.s) + ']'


def segs_of(v):
    if isinstance(v, (bytes, bytearray)):
        return [bytes(v)] if v else []
    if isinstance(v, (AbsBytes, Buf)):
        return list(v.s)
    if isinstance(v, Fin):
        v = v.force()
        return segs_of(v)
    raise AnalysisError('not bytes: %r' % (v,))


def norm_segs(segs):
    out = []
    for x in segs:
        if isinstance(x, ByteSeg):
            c = const_of(x.v)
            if c is not None:
                x = bytes([c])
        elif isinstance(x, RepSeg):
            n = const_of(x.n)
            if n is not None:
                if n <= 0:
                    continue
                c = const_of(x.v)
                if n <= 65536 * 4:
                    if c is not None:
                        x = bytes([c]) * n
                    else:
                        out.extend([ByteSeg(x.v)] * n)
                        continue
            elif out and isinstance(out[-1], RepSeg) and as_abs(out[-1].v) == as_abs(x.v):
                out[-1] = RepSeg(x.v, binop('+', out[-1].n, x.n))
                continue
        elif isinstance(x, OpqSeg):
            n = const_of(x.n)
            if n == 0:
                continue
        if isinstance(x, bytes):
            if not x:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + x
                continue
        out.append(x)
    return out


def mkbytes(segs):
    out = norm_segs(segs)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], bytes):
        return out[0]
    return AbsBytes(out)


def seg_len(x):
    return len(x) if isinstance(x, bytes) else x.length()


def blen(segs):
    n = 0
    for x in segs:
        n = binop('+', n, seg_len(x))
    return n


class Top:
    '''unknown value'''

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Top(%s)' % self.name


def is_abs(v):
    return isinstance(v, (AbsInt, Fin, AbsStr, AbsBytes, Buf, Cond, Top))
