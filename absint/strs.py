'''Operations on abstract strings.'''
import re as _re
import string as _string

from .values import *
from .values import CTX
from .objects import Inst


class FnAtom(Atom):
    '''integer computed by a known function of a valuation (length of a text, a digit, ...)'''
    __slots__ = ('fn', 'lo', 'hi')

    def __init__(self, key, fn, lo=-INF, hi=INF):
        self.key, self.fn, self.lo, self.hi = key, fn, lo, hi

    def base_range(self):
        return self.lo, self.hi

    def ev(self, val):
        return self.fn(val)


def fn_int(key, fn, lo, hi):
    return AbsInt(0, ((FnAtom(key, fn, lo, hi), 1),))


class RunPiece(Piece):
    '''all the characters of an opaque piece, handled uniformly by one loop iteration'''

    def __init__(self, inner):
        self.inner = inner
        self.chars = inner.chars
        self.first = inner.chars
        self.fixed = 1
        self.key = 'run:' + inner.key

    def render(self, val):
        return self.inner.render(val)


class SubPiece(Piece):
    '''characters [a:] of an opaque piece (a >= 1), possibly empty'''

    def __init__(self, inner, a):
        self.inner, self.a = inner, a
        self.chars = inner.chars
        self.first = inner.chars
        self.fixed = None
        self.key = 'sub%d:%s' % (a, inner.key)

    def render(self, val):
        return self.inner.render(val)[self.a:]


class HeadPiece(TextPiece):
    '''the first n characters of an opaque piece, possibly none'''

    def __init__(self, inner, n):
        self.inner = inner
        TextPiece.__init__(self, 'head(%s,%r)' % (inner.key, n), inner.chars, n)

    def render(self, val):
        return self.inner.render(val)[:as_abs(self.length).ev(val)]


class CutPiece(TextPiece):
    '''a slice whose bounds are not known'''

    def __init__(self, whole, sl, chars, n):
        self.whole, self.sl = whole, sl
        TextPiece.__init__(self, 'slice(%r,%r,%r)' % (whole, sl.start, sl.stop), chars, n)

    def render(self, val):
        at = [None if x is None else as_abs(x).ev(val) for x in (self.sl.start, self.sl.stop)]
        return _ren(self.whole, val)[at[0]:at[1]]


def numlen(p):
    if not isinstance(p, NumPiece):
        if isinstance(p, SubPiece):
            return lin_add(as_abs(plen(p.inner)), -p.a, 1)
        return fn_int('len(%s)' % p.key.split(':upper')[0].split(':lower')[0],
                      lambda val: len(p.render(val)), 1, INF)
    lo, hi = as_abs(p.value).range()
    def nd(v):
        n = 1
        while v >= p.base:
            v //= p.base
            n += 1
        return n
    llo = nd(int(lo)) if lo > 0 else 1
    lhi = nd(int(hi)) if hi < INF else INF
    if llo == lhi:
        return llo
    return fn_int('len(%s)' % p.key, lambda val: len(p.render(val)), llo, lhi)


def plen(x):
    if isinstance(x, str):
        return len(x)
    if x.fixed is not None:
        return x.fixed
    if isinstance(x, TextPiece) and x.length is not None:
        return x.length
    return numlen(x)


def slen(s):
    if isinstance(s, str):
        return len(s)
    n = 0
    for x in s.p:
        n = binop('+', n, plen(x))
    return n


def pieces(s):
    if isinstance(s, str):
        return [s] if s else []
    return list(s.p)


def defin(s):
    '''make the finite-choice parts of a text concrete (partitioning)'''
    if type(s) is AbsStr and any(type(x) is FinPiece for x in s.p):
        return mkstr([x.fin.force() if type(x) is FinPiece else x for x in s.p])
    return s


def fin_iter(fin):
    '''iterate a Fin of texts: common leading characters, then one run for the rest'''
    out = []
    if fin.sym.name in CTX.force_syms:
        return None
    vals = [v for _, v in fin.items()]
    k = 0
    while all(len(v) > k for v in vals) and len({v[k] for v in vals}) == 1:
        out.append(vals[0][k])
        k += 1
    if all(len(v) == k for v in vals):
        return out
    if any(len(v) == k for v in vals):
        return None
    rest = fin_map(fin, lambda v: v[k:])
    if len({len(v) for v in vals}) == 1:
        for i in range(k, len(vals[0])):        # same length: character by character
            cs = {v[i] for v in vals}
            out.append(cs.pop() if len(cs) == 1 else fin_map(fin, lambda v, i=i: v[i]))
    else:
        out.append(AbsStr([RunPiece(FinPiece(rest))]))
    return out


def maybe_empty(p):
    if isinstance(p, SubPiece):
        return True
    if isinstance(p, TextPiece) and p.length is not None:
        return as_abs(p.length).range()[0] <= 0
    return False


def charset(s):
    out = set()
    for x in pieces(s):
        out |= set(x) if isinstance(x, str) else x.chars
    return out


def opaque(name, evf=None):
    return Cond('opaque', name=name, evf=evf)


def _ren(s, val):
    return s if isinstance(s, str) else s.render(val)


# --------------------------------------------------------------------- equality
def str_eq(it, a, b):
    a, b = defin(a), defin(b)
    pa, pb = pieces(a), pieces(b)
    # strip common prefix
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa = ([x[n:]] if x[n:] else []) + pa[1:]
            pb = ([y[n:]] if y[n:] else []) + pb[1:]
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x == y:
            pa, pb = pa[1:], pb[1:]
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa = pa[:-1] + ([x[:-n]] if x[:-n] else [])
            pb = pb[:-1] + ([y[:-n]] if y[:-n] else [])
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x == y:
            pa, pb = pa[:-1], pb[:-1]
            continue
        break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(x, str) or not maybe_empty(x) for x in rest):
            return False
        return opaque('text empty', lambda val: all(_ren(x, val) == '' for x in rest))
    x, y = pa[0], pb[0]
    # first characters incompatible?
    fx = {x[0]} if isinstance(x, str) else (None if maybe_empty(x) else x.first)
    fy = {y[0]} if isinstance(y, str) else (None if maybe_empty(y) else y.first)
    if fx is not None and fy is not None and not (fx & fy):
        return False
    lx = pa[-1]
    ly = pb[-1]
    gx = {lx[-1]} if isinstance(lx, str) else (None if maybe_empty(lx) else lx.chars)
    gy = {ly[-1]} if isinstance(ly, str) else (None if maybe_empty(ly) else ly.chars)
    if gx is not None and gy is not None and not (gx & gy):
        return False
    ra, rb = mkstr(pa), mkstr(pb)
    if type(ra) is Fin or type(rb) is Fin:
        return str_eq(it, ra.force() if type(ra) is Fin else ra, rb.force() if type(rb) is Fin else rb)
    for r, o in ((ra, rb), (rb, ra)):
        if isinstance(r, str):
            if not set(r) <= charset(o):
                return False
            # every literal piece of o must occur in r
            pos = 0
            for p in pieces(o):
                if isinstance(p, str):
                    pos = r.find(p, pos)
                    if pos < 0:
                        return False
                    pos += len(p)
            if any(isinstance(p, NamePiece) for p in pieces(o)):
                return False          # a fresh name occurs in no literal
            if len(r) < sum(len(p) if isinstance(p, str) else (0 if maybe_empty(p) else 1) for p in pieces(o)):
                return False
            fixed = [p if isinstance(p, str) else p.fixed for p in pieces(o)]
            if all(f is not None for f in fixed):
                if len(r) != sum(len(f) if isinstance(f, str) else f for f in fixed):
                    return False
    for u in (x, y):
        if isinstance(u, RunPiece):
            return run_undecided(u, '== text')
    if len(pa) == 1 and len(pb) == 1:
        for u, w in ((x, y), (y, x)):
            if isinstance(u, NumPiece) and isinstance(w, str):
                try:
                    v = int(w, u.base)
                except ValueError:
                    return False
                if w.strip() != w or '_' in w or (len(w) > 1 and w[0] == '0'):
                    return False
                return compare('==', u.value, v)
            if isinstance(u, CharPiece) and isinstance(w, str):
                if len(w) != 1:
                    return False
                return compare('==', u.code, ord(w))
            if isinstance(u, NamePiece) and isinstance(w, (NamePiece, NumPiece)):
                return False
        if isinstance(x, NumPiece) and isinstance(y, NumPiece) and x.base == y.base:
            return compare('==', x.value, y.value)
        if isinstance(x, CharPiece) and isinstance(y, CharPiece):
            return compare('==', x.code, y.code)
    # fixed-size alignment: compare char pieces one by one
    ua, ub = _units(pa), _units(pb)
    if ua is not None and ub is not None:
        if len(ua) != len(ub):
            return False
        for u, w in zip(ua, ub):
            r = compare('==', u, w)
            if r is False:
                return False
            if r is not True and not it.truth(r):
                return False
        return True
    na = [p for p in pa if isinstance(p, NamePiece)]
    nb = [p for p in pb if isinstance(p, NamePiece)]
    if na and {p.name for p in na} != {p.name for p in nb} and not any(isinstance(p, TextPiece) for p in pb):
        return False
    if nb and {p.name for p in na} != {p.name for p in nb} and not any(isinstance(p, TextPiece) for p in pa):
        return False
    if repr(rb) < repr(ra):
        ra, rb = rb, ra
    return Cond('opaque', name='%r==%r' % (ra, rb), evf=lambda val: _ren(ra, val) == _ren(rb, val), memo=True)


def _units(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        elif isinstance(p, CharPiece):
            out.append(p.code)
        else:
            return None
    return out


def str_order(it, op, a, b):
    a, b = defin(a), defin(b)
    f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
         '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
    if isinstance(a, str) and isinstance(b, str):
        return f(a, b)
    pa, pb = pieces(a), pieces(b)
    if len(pa) == 1 and isinstance(pa[0], CharPiece) and isinstance(b, str) and len(b) == 1:
        return compare(op, pa[0].code, ord(b))
    if len(pb) == 1 and isinstance(pb[0], CharPiece) and isinstance(a, str) and len(a) == 1:
        return compare(op, ord(a), pb[0].code)
    if pa and pb:
        fa = {pa[0][0]} if isinstance(pa[0], str) else pa[0].first
        fb = {pb[0][0]} if isinstance(pb[0], str) else pb[0].first
        if max(fa) < min(fb):
            return op in ('<', '<=')
        if min(fa) > max(fb):
            return op in ('>', '>=')
    return opaque('%r%s%r' % (a, op, b), lambda val: f(_ren(a, val), _ren(b, val)))


def contains_char(it, p, c):
    '''does piece p contain char c'''
    if c not in p.chars:
        return False
    if isinstance(p, NamePiece):
        return opaque('%r has %r' % (p, c), lambda val: c in p.render(val))
    if isinstance(p, CharPiece):
        return compare('==', p.code, ord(c))
    return opaque('%r has %r' % (p, c), lambda val: c in p.render(val))


def str_contains(it, s, sub):
    '''sub in s'''
    s, sub = defin(s), defin(sub)
    if isinstance(sub, str):
        if sub == '':
            return True
        ps = pieces(s)
        for p in ps:
            if isinstance(p, str) and sub in p:
                return True
        if not set(sub) <= charset(s):
            return False
        if len(ps) == 1 and isinstance(ps[0], RunPiece):
            return run_undecided(ps[0], 'has %r' % sub, lambda t: uniform(c == sub for c in t))
        if len(sub) == 1:
            res = False
            for p in ps:
                if isinstance(p, str):
                    continue
                r = contains_char(it, p, sub)
                if r is True:
                    return True
                if r is not False:
                    if it.truth(r):
                        return True
            return res
        if all(isinstance(p, (str, NamePiece)) for p in ps):
            # a fresh name overlaps no multi-character literal
            return False
        return opaque('%r in %r' % (sub, s), lambda val: sub in _ren(s, val))
    # abstract sub
    if isinstance(s, str):
        if len(pieces(sub)) == 1:
            p = pieces(sub)[0]
            if isinstance(p, (CharPiece, RunPiece)):
                inter = p.chars & set(s)
                if not inter:
                    return False
                if p.chars <= set(s):
                    return True
                if isinstance(p, CharPiece):
                    return char_in(it, p, inter)
                return run_undecided(p, 'in %r' % s, lambda t: uniform(c in s for c in t))
            if isinstance(p, NumPiece):
                if not (p.chars & set(s)):
                    return False
            if isinstance(p, NamePiece):
                return False
        if any(isinstance(p, str) and p not in s for p in pieces(sub)):
            return False
        if any(isinstance(p, NamePiece) for p in pieces(sub)):
            return False
    r = str_eq(it, s, sub)
    if r is True:
        return True
    if all(p in pieces(s) for p in pieces(sub)) and len(pieces(sub)) == 1:
        return True
    return opaque('%r in %r' % (sub, s), lambda val: _ren(sub, val) in _ren(s, val))


def in_charset(it, s, chars):
    '''membership of a one-character abstract string in a collection of characters'''
    ps = pieces(s)
    if len(ps) != 1 or not isinstance(ps[0], (RunPiece, CharPiece)):
        return None
    p = ps[0]
    if p.chars <= chars:
        return True
    if not (p.chars & chars):
        return False
    if isinstance(p, CharPiece):
        return char_in(it, p, p.chars & chars)
    return run_undecided(p, 'in chars', lambda t: uniform(c in chars for c in t))


def char_in(it, p, chars):
    '''decide the membership of an abstract character interval by interval'''
    codes = sorted(map(ord, chars))
    lo = hi = None
    runs = []
    for c in codes:
        if runs and c == runs[-1][1] + 1:
            runs[-1][1] = c
        else:
            runs.append([c, c])
    for lo, hi in runs:
        if lo == hi:
            if it.truth(compare('==', p.code, lo)):
                return True
            continue
        if it.truth(compare('<', p.code, lo)):
            return False
        if it.truth(compare('<=', p.code, hi)):
            return True
    return False


def uniform(xs):
    xs = set(xs)
    if len(xs) != 1:
        raise AnalysisError('mixed characters')
    return xs.pop()


def run_undecided(p, what, f=None):
    if isinstance(p, RunPiece) and type(p.inner) is FinPiece:
        raise ForceSym(p.inner.fin.sym.name)
    return opaque('%r %s' % (p, what), (lambda val: f(p.render(val))) if f is not None else None)


# --------------------------------------------------------------------- positions
def locate(it, ps, pos):
    '''-> (piece index, const offset) ; index len(ps) at the end; None when unknown'''
    rem = pos
    for i, p in enumerate(ps):
        c = const_of(rem)
        if c == 0:
            return i, 0
        n = plen(p)
        cn = const_of(n)
        if c is not None and cn is not None:
            if c < cn:
                return i, c
            rem = c - cn
            continue
        d = binop('-', rem, n)
        cd = const_of(d)
        if cd is not None:
            if cd >= 0:
                rem = cd
                continue
            if cn is not None:
                return i, rem
        if c is not None:
            # constant offset against a piece of unknown length
            r = compare('>', n, c)
            if r is True or (r is not False and it.truth(r)):
                return i, c
            rem = d
            continue
        r = compare('>=', d, 0)
        if r is True or (r is not False and it.truth(r)):
            rem = d
            continue
        return i, rem
    c = const_of(rem)
    if c == 0:
        return len(ps), 0
    if c is None:
        r = compare('==', rem, 0)
        if r is True or (r is not False and it.truth(r)):
            return len(ps), 0
    return None


def first_char(p, k=0):
    if isinstance(p, NumPiece):
        lo, hi = as_abs(p.value).range()
        chars = p.chars if not (k == 0 and lo > 0) else (p.chars - {'0'})
        if k == 0 and hi < p.base:
            digit = p.value
            if p.base == 10:
                return mkstr([CharPiece(binop('+', p.value, 48), p.chars)])
    else:
        chars = p.first if k == 0 else p.chars
    return mkstr([CharPiece(fn_int('ch%d(%s)' % (k, p.key), lambda val: ord((p.render(val) + '\0' * (k + 1))[k]),
                                   min(ord(c) for c in chars), max(ord(c) for c in chars)), set(chars))])


def normal_pos(it, s, i):
    c = const_of(i)
    neg = c < 0 if c is not None else it.truth(compare('<', i, 0))
    if neg:
        return binop('+', i, slen(s))
    return i if c is None else c


def str_index(it, s, i):
    s = defin(s)
    if isinstance(s, str):
        return it.getitem(s, i)
    ps = pieces(s)
    i = normal_pos(it, s, i)
    c = const_of(i)
    neg = c < 0 if c is not None else it.truth(compare('<', i, 0))
    if neg:
        it.raise_native(IndexError('string index out of range'))
    loc = locate(it, ps, i)
    if loc is None or loc[0] >= len(ps):
        it.raise_native(IndexError('string index out of range'))
    idx, off = loc
    p = ps[idx]
    co = const_of(off)
    if isinstance(p, str):
        if co is None:
            co = it.pin(off, len(p))
        return p[co]
    if isinstance(p, CharPiece):
        return mkstr([p])
    if isinstance(p, RunPiece):
        return AbsStr([p])
    if co is None:
        # position counted from the end
        return mkstr([CharPiece(fn_int('ch[%r](%s)' % (off, p.key),
                                       lambda val: ord(p.render(val)[as_abs(off).ev(val)]),
                                       min(map(ord, p.chars)), max(map(ord, p.chars))), set(p.chars))])
    return first_char(p, co)


def str_slice(it, s, sl):
    s = defin(s)
    if isinstance(s, str):
        s = AbsStr([s]) if s else s
        if isinstance(s, str):
            return ''
    ps = pieces(s)
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None:
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].fixed == 1:
                return s
            u = _units(ps)
            if u is not None:
                return mkstr(list(reversed(_split_units(ps))))
        raise AnalysisError('stepped slice of %r' % (s,))

    def cut(pos, default):
        if pos is None:
            return default
        pos = normal_pos(it, s, pos)
        c = const_of(pos)
        neg = c < 0 if c is not None else it.truth(compare('<', pos, 0))
        if neg:
            return (0, 0)
        loc = locate(it, ps, pos)
        return (len(ps), 0) if loc is None else loc
    a = cut(sl.start, (0, 0))
    b = cut(sl.stop, (len(ps), 0))
    ca, cb = const_of(a[1]), const_of(b[1])
    if ca is None and a[0] < len(ps) and isinstance(ps[a[0]], str):
        ca = it.pin(a[1], len(ps[a[0]]))
    if cb is None and b[0] < len(ps) and isinstance(ps[b[0]], str):
        cb = it.pin(b[1], len(ps[b[0]]))
    if ca is not None and cb is None and (a[0] < b[0] or ca == 0) and not isinstance(ps[b[0]], str) and \
            not isinstance(ps[b[0]], RunPiece):
        head = HeadPiece(ps[b[0]], b[1])
        if a[0] == b[0]:
            return mkstr([head])
        lead = ps[a[0]:b[0]]
        if ca:
            left = mkstr(lead)
            rest = str_slice(it, left, slice(ca, None, None))
            return mkstr(pieces(rest) + [head])
        return mkstr(lead + [head])
    if ca is None or cb is None:
        n = slen(mkstr(ps[a[0]:b[0] + 1]))
        n = binop('-', n, a[1])
        if b[0] < len(ps):
            n = binop('-', n, binop('-', plen(ps[b[0]]), b[1]))
        if const_of(n) == 1 and (b[0] == a[0] or b == (a[0] + 1, 0)) and ca is None:
            return str_index(it, mkstr([ps[a[0]]]), a[1])
        if not it.truth(compare('>', n, 0)):
            return ''
        return AbsStr([CutPiece(s, sl, charset(mkstr(ps[a[0]:b[0] + 1])), n)])
    if (a[0], ca) >= (b[0], cb):
        return ''
    out = []
    for i in range(a[0], min(b[0] + 1, len(ps))):
        p = ps[i]
        lo = ca if i == a[0] else 0
        hi = cb if i == b[0] else None
        if hi == 0:
            continue
        if isinstance(p, str):
            out.append(p[lo:hi])
            continue
        if p.fixed == 1:
            if lo == 0:
                out.append(p)
            continue
        if lo == 0 and hi is None:
            out.append(p)
            continue
        if hi is None:
            # tail of an opaque piece
            n = plen(p)
            rest = binop('-', n, lo)
            if it.truth(compare('>', rest, 0)):
                out.append(SubPiece(p, lo))
            continue
        for k in range(lo, hi):
            out.append(first_char(p, k))
    return mkstr(out)


def _split_units(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def str_iter(it, s):
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.extend(p)
        elif type(p) is FinPiece:
            xs = fin_iter(p.fin)
            out.extend(list(p.fin.force()) if xs is None else xs)
        elif isinstance(p, RunPiece):
            out.append(AbsStr([p]))
        elif p.fixed == 1:
            out.append(mkstr([p]))
        else:
            out.append(AbsStr([RunPiece(p)]))
    return out


def run_length(x):
    '''how many characters a loop variable stands for, when that is not one'''
    if type(x) is AbsStr:
        if len(x.p) == 1 and isinstance(x.p[0], RunPiece):
            n = plen(x.p[0].inner)
            return None if type(n) is int and n == 1 else n
        return None
    if type(x) is tuple:
        for y in x:
            n = run_length(y)
            if n is not None:
                return n
    return None


# --------------------------------------------------------------------- conversion
def to_str(it, v):
    from .objects import Inst, Class
    t = type(v)
    if t is str or t is AbsStr:
        return v
    if t in (int, bool, float, type(None), bytes):
        return str(v)
    if t is AbsInt:
        c = const_of(v)
        if c is not None:
            return str(c)
        if it.truth(compare('<', v, 0)):
            return mkstr(['-', NumPiece(binop('-', 0, v), 10)])
        return mkstr([NumPiece(v, 10)])
    if t is Cond:
        return 'True' if it.truth(v) else 'False'
    if t is Fin:
        return it.lift(lambda x: to_str(it, x), v)
    if t is Inst:
        f = it.class_lookup(v.cls, '__str__') or it.class_lookup(v.cls, '__repr__')
        if f is not None:
            return it.call(it.bind(f, v, v.cls), [])
        nat = it.native_base(v.cls)
        if nat is not None and issubclass(nat, BaseException):
            args = v.attrs.get('args', ())
            if len(args) == 0:
                return ''
            if len(args) == 1:
                return to_str(it, args[0])
            return to_repr(it, tuple(args))
        return '<%s object>' % v.cls.name
    if isinstance(v, BaseException):
        if isinstance(v, KeyError) and len(v.args) == 1:
            return to_repr(it, v.args[0])
        if len(v.args) == 1:
            return to_str(it, v.args[0])
        return str(v)
    return to_repr(it, v)


def to_repr(it, v):
    t = type(v)
    if t in (int, bool, float, type(None), bytes, str):
        return repr(v)
    if t is AbsInt or t is Cond:
        return to_str(it, v)
    if t is Fin:
        return it.lift(lambda x: to_repr(it, x), v)
    if t is AbsStr:
        return mkstr(["'", v, "'"])
    if t in (list, tuple):
        parts = []
        for i, x in enumerate(v):
            if i:
                parts.append(', ')
            r = to_repr(it, x) if type(x) is not Fin else AbsStr([TextPiece('repr(%r)' % (x,))])
            parts.append(r)
        if t is list:
            return mkstr(['['] + parts + [']'])
        return mkstr(['('] + parts + ([',)'] if len(v) == 1 else [')']))
    if is_abs(v):
        return AbsStr([TextPiece('repr(%r)' % (v,))])
    if t is Inst:
        f = it.class_lookup(v.cls, '__repr__')
        if f is not None:
            return it.call(it.bind(f, v, v.cls), [])
    return '<%s>' % it.tname(v)


def format_value(it, v, spec):
    if type(v) is Fin:
        return it.lift(lambda x: format_value(it, x, spec), v)
    if type(v) is Cond:
        v = it.truth(v)
    if not isinstance(spec, str):
        return AbsStr([TextPiece('format(%r)' % (v,))])
    if spec == '':
        return to_str(it, v)
    if type(v) in (int, str, float, bool):
        try:
            return format(v, spec)
        except ValueError as e:
            it.raise_native(e)
        except TypeError as e:
            it.raise_native(e)
    if type(v) is AbsInt:
        c = const_of(v)
        if c is not None:
            return format(c, spec)
        kind = spec[-1]
        body = spec[:-1] if kind in 'dxXbo' else spec
        if kind not in 'dxXbo' and kind.isdigit():
            kind = 'd'
        base = {'d': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8}.get(kind)
        if base and body.startswith('0') and body.isdigit() and int(body) > 0:
            w = int(body)
            if it.truth(compare('>=', v, 0)) and it.truth(compare('<', v, base ** w)):
                return mkstr([digit_char(v, base, k, kind) for k in range(w - 1, -1, -1)])
        if base and body == '':
            if it.truth(compare('<', v, 0)):
                return mkstr(['-', NumPiece(binop('-', 0, v), base)])
            return mkstr([NumPiece(v, base)])
        r = format_padded(it, v, spec)
        if r is not None:
            return r
        return AbsStr([TextPiece('format(%r,%s)' % (v, spec), PRINTABLE)])
    if type(v) is AbsStr:
        if spec == 's':
            return v
        return AbsStr([TextPiece('format(%r,%s)' % (v, spec))])
    if v is None or type(v) in (list, dict, tuple):
        it.raise_native(TypeError('unsupported format string passed to %s.__format__' % it.tname(v)))
    return AbsStr([TextPiece('format(%r)' % (v,))])


def expand_num(it, v, base, kind):
    '''digits of a bounded non-negative number, one partition per length; None when unbounded'''
    hi = as_abs(v).range()[1]
    if hi == INF or hi >= base ** 24:
        return None
    n = 1
    while not it.truth(compare('<', v, base ** n)):
        n += 1
    return [digit_char(v, base, k, kind) for k in range(n - 1, -1, -1)]


def expand(it, s):
    '''replace bounded numbers by their digits'''
    out, did = [], False
    for p in pieces(s):
        if isinstance(p, NumPiece):
            x = expand_num(it, p.value, p.base, {10: 'd', 16: 'x', 8: 'o', 2: 'b'}.get(p.base, 'd'))
            if x is not None:
                out += x
                did = True
                continue
        out.append(p)
    return mkstr(out) if did else None


_SPEC = _re.compile(r'(?:(.)?([<>^=]))?([+ -])?(#)?(0)?(\d+)?([,_])?([dxXbo]?)$')


def format_padded(it, v, spec):
    m = _SPEC.match(spec)
    if not m or m.group(7) or m.group(2) == '^':
        return None
    fill, align, sign, alt, zero, width, _, kind = m.groups()
    kind = kind or 'd'
    base = {'d': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8}[kind]
    neg = it.truth(compare('<', v, 0))
    ds = expand_num(it, binop('-', 0, v) if neg else v, base, kind)
    if ds is None:
        return None
    head = ('-' if neg else sign if sign in ('+', ' ') else '') + (('0' + kind) if alt and kind != 'd' else '')
    pad = max(0, int(width or 0) - len(head) - len(ds))
    if zero and not align:
        fill, align = '0', '='
    fill = fill or ' '
    align = align or '>'
    if align == '=':
        return mkstr([head + fill * pad] + ds)
    if align == '>':
        return mkstr([fill * pad + head] + ds)
    return mkstr([head] + ds + [fill * pad])


def digit_char(v, base, k, kind='d'):
    if base == 10:
        code = binop('+', binop('%', binop('//', v, 10 ** k), 10), 48)
        if const_of(code) is not None:
            return chr(const_of(code))
        return CharPiece(code, set(DIGITS))
    sh = {16: 4, 8: 3, 2: 1}[base]
    d = mk_slice(v, k * sh, sh)
    if const_of(d) is not None:
        return format(const_of(d), kind)
    if base < 16:
        return CharPiece(binop('+', d, 48), set('01234567'))
    a = ord('a' if kind == 'x' else 'A')
    d = as_abs(d)
    return CharPiece(fn_int('hexdigit%s(%s)' % (kind, d.key()),
                            lambda val: ord(format(d.ev(val), kind)), 48, a + 5), set('0123456789abcdef' if kind == 'x' else '0123456789ABCDEF'))


def str_format(it, fmt, args, kwargs):
    if not isinstance(fmt, str):
        return AbsStr([TextPiece('format(%r)' % (fmt,))])
    out = []
    auto = 0
    try:
        parsed = list(_string.Formatter().parse(fmt))
    except ValueError as e:
        it.raise_native(e)
    for lit, field, spec, conv in parsed:
        if lit:
            out.append(lit)
        if field is None:
            continue
        name = field
        rest = ''
        for i, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            k = auto
            auto += 1
        elif name.isdigit():
            k = int(name)
        else:
            k = None
        if k is None:
            if name not in kwargs:
                it.raise_native(KeyError(name))
            v = kwargs[name]
        else:
            if k >= len(args):
                it.raise_native(IndexError('Replacement index %d out of range for positional args tuple' % k))
            v = args[k]
        while rest:
            if rest[0] == '.':
                j = 1
                while j < len(rest) and rest[j] not in '.[':
                    j += 1
                v = it.getattr(v, rest[1:j])
                rest = rest[j:]
            else:
                j = rest.index(']')
                key = rest[1:j]
                v = it.getitem(v, int(key) if key.isdigit() else key)
                rest = rest[j + 1:]
        if conv == 'r':
            v = to_repr(it, v)
        elif conv == 's':
            v = to_str(it, v)
        if spec and '{' in spec:
            spec = str_format(it, spec, args, kwargs)
        out.append(format_value(it, v, spec or ''))
    return mkstr([AbsStr([TextPiece('fmt(%r)' % (x,))]) if type(x) is Fin else x for x in out])


def fmt_percent(it, fmt, args):
    if not isinstance(fmt, str):
        return AbsStr([TextPiece('percent(%r)' % (fmt,))])
    if len(args) == 1 and type(args[0]) is dict:
        return AbsStr([TextPiece('percent(%r)' % fmt)])
    out = []
    i = 0
    k = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in '#0- +.123456789':
            j += 1
        kind = fmt[j] if j < len(fmt) else ''
        flags = fmt[i + 1:j]
        i = j + 1
        if kind == '%':
            out.append('%')
            continue
        if k >= len(args):
            it.raise_native(TypeError('not enough arguments for format string'))
        v = args[k]
        k += 1
        if type(v) in (int, str, float, bool):
            try:
                out.append(('%' + flags + kind) % v)
            except (TypeError, ValueError) as e:
                it.raise_native(e)
        elif kind == 's' and not flags:
            out.append(to_str(it, v))
        elif kind == 'r':
            out.append(to_repr(it, v))
        elif kind in 'dxXo' and type(v) in (AbsInt, Fin):
            out.append(format_value(it, v, flags + kind))
        elif kind == 'i':
            out.append(format_value(it, v, flags + 'd'))
        elif kind == 'c' and type(v) is AbsInt:
            out.append(CharPiece(v))
        else:
            out.append(AbsStr([TextPiece('pct(%r)' % (v,))]))
    if k < len(args):
        it.raise_native(TypeError('not all arguments converted during string formatting'))
    return mkstr([AbsStr([TextPiece('fmt(%r)' % (x,))]) if type(x) is Fin else x for x in out])


# --------------------------------------------------------------------- int()
def str_to_int(it, s, base):
    '''int(s, base) for an abstract string'''
    s = defin(s)
    ps = pieces(s)

    def bad():
        it.raise_native(ValueError('invalid literal for int() with base %d: %r' % (base, s)))
    lead = ''
    if ps and isinstance(ps[0], str):
        lead = ps[0].lstrip()
        ps = ps[1:]
    trail = ''
    if ps and isinstance(ps[-1], str):
        trail = ps[-1].rstrip()
        ps = ps[:-1]
    if not ps:
        try:
            return int(lead + trail, base)
        except ValueError:
            bad()
    if any(isinstance(p, NamePiece) for p in ps):
        bad()
    if len(ps) != 1 and not all(isinstance(p, CharPiece) for p in ps):
        return _opaque_int(it, s, base, bad)
    neg = False
    if lead[:1] in ('+', '-'):
        neg = lead[0] == '-'
        lead = lead[1:]
    low = lead.lower()
    pre = {'0x': 16, '0b': 2, '0o': 8}.get(low[:2])
    if pre and base in (0, pre):
        base = pre
        lead = lead[2:]
    elif base == 0:
        base = 10
    p = ps[0]
    if len(ps) == 1 and isinstance(p, NumPiece):
        if any(c not in '0' for c in lead) or trail:
            if any(_digit(c) >= base for c in lead + trail if c != '_'):
                bad()
            return _opaque_int(it, s, base, bad, sure=p.base <= base)
        if p.base == base:
            v = p.value
        elif p.chars <= _digits(base):
            v = fn_int('read%d(%s)' % (base, p.key), lambda val: int(p.render(val), base), 0, INF)
        elif p.base > base:
            # only when every digit happens to be a digit of the base
            if it.truth(opaque('%r reads in base %d' % (p, base), lambda val: all(_digit(c) < base for c in p.render(val)))):
                v = fn_int('read%d(%s)' % (base, p.key), lambda val: int(p.render(val), base), 0, INF)
            else:
                bad()
        else:
            v = fn_int('read%d(%s)' % (base, p.key), lambda val: int(p.render(val), base), 0, INF)
        return binop('-', 0, v) if neg else v
    return _opaque_int(it, s, base, bad)


def _digit(c):
    try:
        return int(c, 36)
    except ValueError:
        return 99


def _digits(base):
    return {c for c in '0123456789abcdefABCDEF' if int(c, 16) < base}


def _opaque_int(it, s, base, bad, sure=False):
    cs = charset(s)
    digs = {c for c in _string.printable if _digit(c) < (base or 10)}
    if not any(c in digs for c in cs):
        bad()
    if any(isinstance(p, str) and any(_digit(c) >= base and c not in ' +-_' for c in p) for p in pieces(s)):
        bad()

    def ok(val):
        try:
            int(_ren(s, val), base)
            return True
        except ValueError:
            return False
    if not sure and not (cs <= digs) and not it.truth(opaque('%r is a numeral' % (s,), ok)):
        bad()
    return fn_int('int%d(%r)' % (base, s), lambda val: int(_ren(s, val), base), -INF if '-' in cs else 0, INF)


# --------------------------------------------------------------------- methods
def _map(s, f, tag):
    out = []
    ps = pieces(s)
    if len(ps) == 1 and isinstance(ps[0], RunPiece):
        if type(ps[0].inner) is FinPiece:
            return AbsStr([RunPiece(FinPiece(fin_map(ps[0].inner.fin, f)))])
        inner = _map(AbsStr([ps[0].inner]), f, tag)
        return AbsStr([RunPiece(pieces(inner)[0])])
    for p in pieces(s):
        if isinstance(p, str):
            out.append(f(p))
        elif isinstance(p, NumPiece):
            out.append(p)
        elif isinstance(p, NamePiece):
            out.append(NamePiece(p.name, tag))
        elif isinstance(p, SubPiece):
            out.append(SubPiece(pieces(_map(AbsStr([p.inner]), f, tag))[0], p.a))
        elif not any(f(c) != c for c in p.chars):
            out.append(p)
        elif isinstance(p, CharPiece):
            chars = {f(c) for c in p.chars}
            code = as_abs(p.code)
            out.append(CharPiece(fn_int('%s(%s)' % (tag, code.key()), lambda val, code=code: ord(f(chr(code.ev(val)))),
                                        min(map(ord, chars)), max(map(ord, chars))), chars))
        else:
            chars = {f(c) for c in p.chars}
            out.append(TextPiece(p.name, chars, p.length, tuple(x for x in p.xform if x not in ('upper', 'lower')) + (tag,)))
    return mkstr(out)


def startswith(it, s, pre, end=False):
    s = defin(s)
    if type(pre) is tuple:
        for x in pre:
            r = startswith(it, s, x, end)
            if r is True or (r is not False and it.truth(r)):
                return True
        return False
    if type(pre) is Fin:
        return it.lift(lambda x: startswith(it, s, x, end), pre)
    if not isinstance(pre, (str, AbsStr)):
        it.raise_native(TypeError('startswith first arg must be str or a tuple of str'))
    if isinstance(s, str) and isinstance(pre, str):
        return s.endswith(pre) if end else s.startswith(pre)
    ps, qs = pieces(s), pieces(pre)
    if end:
        ps, qs = ps[::-1], qs[::-1]

    def evf(val):
        return _ren(s, val).endswith(_ren(pre, val)) if end else _ren(s, val).startswith(_ren(pre, val))
    while qs:
        if not ps:
            return False
        total = set()
        for x in ps:
            total |= set(x) if isinstance(x, str) else x.chars
        if any(isinstance(y, str) and not set(y) <= total for y in qs):
            return False
        x, y = ps[0], qs[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            a, b = (x[-n:], y[-n:]) if end else (x[:n], y[:n])
            if a != b:
                return False
            rx = x[:-n] if end else x[n:]
            ry = y[:-n] if end else y[n:]
            ps = ([rx] if rx else []) + ps[1:]
            qs = ([ry] if ry else []) + qs[1:]
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x == y:
            ps, qs = ps[1:], qs[1:]
            continue
        if isinstance(y, str) and not isinstance(x, str):
            c = y[-1] if end else y[0]
            if isinstance(x, NamePiece):
                return False           # fresh names share no prefix with literals
            if maybe_empty(x):
                return opaque('%r starts %r' % (s, pre), evf)
            if c not in (x.chars if end else x.first):
                return False
            if isinstance(x, CharPiece):
                if not it.truth(compare('==', x.code, ord(c))):
                    return False
                ry = y[:-1] if end else y[1:]
                ps = ps[1:]
                qs = ([ry] if ry else []) + qs[1:]
                continue
            if len(y) > 1:
                c2 = y[-2] if end else y[1]
                if c2 not in x.chars and len(ps) == 1:
                    return False
            if isinstance(x, NumPiece) and not end and c == '0':
                if len(ps) == 1 and len(y) > 1:
                    return False
                if len(y) == 1:
                    return compare('==', x.value, 0)
                if not it.truth(compare('==', x.value, 0)):
                    return False           # no leading zeros
                ps, qs = ps[1:], [y[1:]] + qs[1:]
                continue
        return opaque('%r %s %r' % (s, 'endswith' if end else 'startswith', pre), evf)
    return True


def str_method(it, s, name, args, kwargs):
    '''method call on a str/AbsStr receiver with possibly abstract arguments'''
    if any(type(a) is Fin for a in args) and name not in ('format', 'join', 'startswith', 'endswith'):
        return it.lift(lambda *xs: str_method(it, s, name, list(xs), kwargs), *args)
    plain = isinstance(s, str) and all(_plain(a) for a in args) and all(_plain(a) for a in kwargs.values())
    if name == 'format':
        return str_format(it, s, args, kwargs)
    if name != 'encode' or True:
        s2 = defin(s)
        if s2 is not s:
            return str_method(it, s2, name, args, kwargs)
    if name == 'join':
        xs = list(it.iterate(args[0]))
        if any(type(x) is Fin for x in xs):
            if all(x.is_str() if type(x) is Fin else isinstance(x, (str, AbsStr)) for x in xs):
                # like the sum of the parts
                out = ''
                for i, x in enumerate(xs):
                    if i and s:
                        out = it.binop('+', out, s)
                    out = it.binop('+', out, x) if out != '' else x
                return out
            xs = [x.force() if type(x) is Fin else x for x in xs]
        for x in xs:
            if not isinstance(x, (str, AbsStr)):
                it.raise_native(TypeError('sequence item: expected str instance, %s found' % it.tname(x)))
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(s)
            out.append(x)
        return mkstr(out)
    if plain:
        try:
            r = getattr(s, name)(*args, **kwargs)
        except (ValueError, TypeError, IndexError, KeyError, UnicodeError, LookupError) as e:
            it.raise_native(e)
        return r
    if name in ('upper', 'lower', 'casefold', 'swapcase', 'title', 'capitalize'):
        f = {'upper': str.upper, 'lower': str.lower, 'casefold': str.casefold}.get(name)
        if f is None:
            return AbsStr([TextPiece('%s(%r)' % (name, s), charset(s))])
        return _map(s, f, 'lower' if name == 'casefold' else name)
    if name == 'startswith':
        if len(args) > 1:
            s = str_slice(it, s, slice(args[1], args[2] if len(args) > 2 else None))
        return startswith(it, s, args[0])
    if name == 'endswith':
        return startswith(it, s, args[0], True)
    if name in ('isdigit', 'isdecimal', 'isnumeric'):
        return _all(it, s, DIGITS, 'isdigit')
    if name == 'isalpha':
        return _all(it, s, set(_string.ascii_letters), 'isalpha')
    if name == 'isalnum':
        return _all(it, s, set(_string.ascii_letters + _string.digits), 'isalnum')
    if name == 'isspace':
        return _all(it, s, set(' \t\n\r\x0b\x0c'), 'isspace')
    if name == 'isidentifier':
        return _all(it, s, IDENT, 'isidentifier')
    if name == 'isascii':
        return True
    if name in ('isupper', 'islower'):
        return opaque('%s(%r)' % (name, s), lambda val: getattr(_ren(s, val), name)())
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = set(' \t\n\r\x0b\x0c') if not args or args[0] is None else set(args[0])
        ps = pieces(s)
        if name in ('strip', 'lstrip'):
            while ps and isinstance(ps[0], str):
                r = ps[0].lstrip(''.join(chars))
                if r:
                    ps[0] = r
                    break
                ps = ps[1:]
            if ps and isinstance(ps[0], NumPiece) and ps[0].first & chars:
                x = expand(it, mkstr(ps))
                if x is not None:
                    return str_method(it, x, name, args, kwargs)
            if ps and isinstance(ps[0], CharPiece) and ps[0].chars & chars:
                if char_in(it, ps[0], ps[0].chars & chars):
                    return str_method(it, mkstr(ps[1:]), name, args, kwargs)
                return mkstr([ps[0], str_method(it, mkstr(ps[1:]), 'rstrip', args, kwargs) if name == 'strip' and ps[1:] else mkstr(ps[1:])])
            if ps and not isinstance(ps[0], str) and ps[0].first & chars and not isinstance(ps[0], NamePiece):
                return AbsStr([TextPiece('strip(%r)' % (s,), charset(s))])
        if name in ('strip', 'rstrip'):
            while ps and isinstance(ps[-1], str):
                r = ps[-1].rstrip(''.join(chars))
                if r:
                    ps[-1] = r
                    break
                ps = ps[:-1]
            if ps and isinstance(ps[-1], NumPiece) and ps[-1].chars & chars:
                x = expand(it, mkstr(ps))
                if x is not None:
                    return str_method(it, x, name, args, kwargs)
            if ps and isinstance(ps[-1], CharPiece) and ps[-1].chars & chars:
                if char_in(it, ps[-1], ps[-1].chars & chars):
                    return str_method(it, mkstr(ps[:-1]), name, args, kwargs)
                return mkstr(ps)
            if ps and not isinstance(ps[-1], str) and ps[-1].chars & chars and not isinstance(ps[-1], NamePiece):
                return AbsStr([TextPiece('strip(%r)' % (s,), charset(s))])
        return mkstr(ps)
    if name == 'replace':
        a, b = args[0], args[1]
        if isinstance(a, str) and a:
            out = []
            for p in pieces(s):
                if isinstance(p, str):
                    if isinstance(b, str):
                        out.append(p.replace(a, b))
                    else:
                        for i, x in enumerate(p.split(a)):
                            if i:
                                out.append(b)
                            out.append(x)
                elif not set(a) <= p.chars or isinstance(p, NamePiece):
                    out.append(p)
                else:
                    return AbsStr([TextPiece('replace(%r)' % (s,))])
            return mkstr(out)
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
        return _split(it, s, name, args, kwargs)
    if name in ('find', 'index', 'rfind', 'rindex', 'count'):
        sub = args[0]
        if isinstance(sub, str) and len(args) == 1:
            pos = 0
            hits = []
            for p in pieces(s):
                if isinstance(p, str):
                    k = p.find(sub)
                    while k >= 0:
                        hits.append(binop('+', pos, k))
                        k = p.find(sub, k + 1)
                elif set(sub) & p.chars and not isinstance(p, NamePiece):
                    return fn_int('%s(%r,%r)' % (name, s, sub), lambda val: getattr(_ren(s, val), name)(sub), -1, INF)
                pos = binop('+', pos, plen(p))
            if name == 'count':
                return len(hits)
            if not hits:
                if name in ('index', 'rindex'):
                    it.raise_native(ValueError('substring not found'))
                return -1
            return hits[0] if name in ('find', 'index') else hits[-1]
    if name == 'encode':
        return encode(it, s, args[0] if args else kwargs.get('encoding', 'utf-8'),
                      args[1] if len(args) > 1 else kwargs.get('errors', 'strict'))
    if name in ('removeprefix', 'removesuffix'):
        r = startswith(it, s, args[0], name == 'removesuffix')
        if it.truth(r):
            n = slen(args[0])
            return str_slice(it, s, slice(n, None) if name == 'removeprefix' else slice(None, binop('-', slen(s), n)))
        return s
    if name in ('zfill', 'ljust', 'rjust', 'center'):
        w = args[0]
        if type(w) is int and len(pieces(s)) == 1 and isinstance(pieces(s)[0], NumPiece) and \
           (name == 'zfill' or (name == 'rjust' and len(args) > 1 and args[1] == '0')):
            p = pieces(s)[0]
            kind = {10: 'd', 16: 'x', 8: 'o', 2: 'b'}[p.base]
            return format_value(it, p.value, '0%d%s' % (w, kind))
        x = expand(it, s)
        if x is not None:
            return str_method(it, x, name, args, kwargs)
        n = const_of(slen(s))
        if n is not None and type(w) is int:
            fill = '0' if name == 'zfill' else args[1] if len(args) > 1 else ' '
            pad = max(0, w - n)
            if name == 'zfill' and any(isinstance(q, str) and q[:1] in '+-' for q in pieces(s)[:1]):
                raise AnalysisError('zfill of a signed text')
            left = pad if name in ('zfill', 'rjust') else 0 if name == 'ljust' else pad // 2 + (pad & w & 1)
            return mkstr([fill * left, s, fill * (pad - left)])
        return AbsStr([TextPiece('%s(%r)' % (name, s))])
    if name == 'expandtabs':
        return s
    if name == '__len__':
        return slen(s)
    if name in ('__eq__', '__contains__', '__getitem__', '__add__', '__mod__'):
        return {'__eq__': lambda: it.equal(s, args[0]), '__contains__': lambda: it.contains(s, args[0]),
                '__getitem__': lambda: it.getitem(s, args[0]), '__add__': lambda: it.binop('+', s, args[0]),
                '__mod__': lambda: it.binop('%', s, args[0])}[name]()
    if name == 'translate':
        return AbsStr([TextPiece('translate(%r)' % (s,))])
    raise AnalysisError('str.%s on %r %r' % (name, s, args))


def _plain(a):
    if isinstance(a, (str, int, bytes, type(None), dict)) and not isinstance(a, dict):
        return True
    if isinstance(a, (tuple, list)):
        return all(_plain(x) for x in a)
    if isinstance(a, dict):
        return all(_plain(k) and _plain(v) for k, v in a.items())
    return False


def _all(it, s, chars, name):
    ps = pieces(s)
    if not ps:
        return False
    und = False
    for p in ps:
        if isinstance(p, str):
            if not set(p) <= chars:
                return False
        elif isinstance(p, NamePiece):
            if name in ('isdigit', 'isspace'):
                return False
            if not p.chars <= chars:
                und = True
        elif p.chars <= chars:
            continue
        elif not (p.chars & chars):
            return False
        else:
            und = True
    if und:
        if len(ps) == 1 and isinstance(ps[0], RunPiece):
            return run_undecided(ps[0], name, lambda t: uniform(getattr(c, name)() for c in t))
        if len(ps) == 1 and isinstance(ps[0], NumPiece) and name == 'isdigit':
            p = ps[0]
            return opaque('%r all decimal digits' % p, lambda val: p.render(val).isdigit())
        return opaque('%s(%r)' % (name, s), lambda val: getattr(_ren(s, val), name)())
    return True


def _split(it, s, name, args, kwargs):
    sep = args[0] if args else kwargs.get('sep')
    ps = pieces(s)
    if not isinstance(sep, str) and sep is not None:
        raise AnalysisError('split by abstract separator')
    seps = set(sep) if sep else set(' \t\n\r\x0b\x0c')
    for p in ps:
        if not isinstance(p, str) and p.chars & seps and not isinstance(p, NamePiece):
            if sep is None or set(sep) <= p.chars:
                raise AnalysisError('split of %r on %r' % (s, sep))
    if name in ('partition', 'rpartition'):
        k = None
        rng = range(len(ps)) if name == 'partition' else range(len(ps) - 1, -1, -1)
        for i in rng:
            if isinstance(ps[i], str) and sep in ps[i]:
                k = i
                break
        if k is None:
            return (s, '', '') if name == 'partition' else ('', '', s)
        a, b, c = getattr(ps[k], name)(sep)
        return (mkstr(ps[:k] + [a]), b, mkstr([c] + ps[k + 1:]))
    maxsplit = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
    out = [[]]
    n = 0
    if name == 'rsplit' and maxsplit != -1:
        raise AnalysisError('rsplit with limit')
    for p in ps:
        if not isinstance(p, str):
            out[-1].append(p)
            continue
        if sep is None:
            cur = ''
            for ch in p:
                if ch in seps:
                    if cur:
                        out[-1].append(cur)
                        cur = ''
                    if out[-1]:
                        out.append([])
                else:
                    cur += ch
            if cur:
                out[-1].append(cur)
            continue
        parts = p.split(sep) if maxsplit == -1 else p.split(sep, max(maxsplit - n, 0))
        n += len(parts) - 1
        out[-1].append(parts[0])
        for x in parts[1:]:
            out.append([x])
    if sep is None and not out[-1]:
        out.pop()
    return [mkstr(x) for x in out]


def encode(it, s, enc, errors='strict'):
    e = str(enc).lower().replace('-', '').replace('_', '')
    if isinstance(s, str):
        try:
            return s.encode(enc)
        except (UnicodeError, LookupError) as x:
            it.raise_native(x)
    segs = []
    wide = {'utf16': (2, 'little', b'\xff\xfe'), 'utf16le': (2, 'little', b''), 'utf16be': (2, 'big', b''),
            'utf32': (4, 'little', b'\xff\xfe\0\0'), 'utf32le': (4, 'little', b''), 'utf32be': (4, 'big', b'')}.get(e)
    if wide:
        n, order, bom = wide
        if bom:
            segs.append(bom)
        for p in pieces(s):
            if isinstance(p, str):
                segs.append(p.encode('utf-%d-%se' % (n * 8, order[0])))
            elif isinstance(p, CharPiece):
                bs = [mk_slice(p.code, 8 * k, 8) for k in range(n)]
                if order == 'big':
                    bs.reverse()
                segs.extend(ByteSeg(as_abs(b)) if const_of(b) is None else bytes([const_of(b)]) for b in bs)
            else:
                segs.append(OpqSeg('%s(%s)' % (e, p.key), binop('*', n, plen(p))))
        return mkbytes(segs)
    for p in pieces(s):
        if isinstance(p, str):
            try:
                segs.append(p.encode(enc))
            except (UnicodeError, LookupError) as x:
                it.raise_native(x)
        elif isinstance(p, CharPiece):
            limit = {'ascii': 128, 'latin1': 256, 'iso88591': 256}.get(e, 128)
            if not it.truth(compare('<', p.code, limit)):
                if e.startswith('utf8'):
                    segs.append(OpqSeg('utf8(%s)' % p.key, 2))
                    continue
                if errors == 'replace':
                    segs.append(b'?')
                    continue
                if errors == 'ignore':
                    continue
                it.raise_native(UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range'))
            segs.append(ByteSeg(p.code))
        else:
            if any(ord(c) > 127 for c in p.chars) and e == 'ascii':
                if errors == 'strict' and not it.truth(opaque('%r is ascii' % p)):
                    it.raise_native(UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range'))
            if type(p) is NumPiece and p.base == 10 and as_abs(p.value).range()[0] >= 0 and as_abs(p.value).range()[1] < 1 << 40:
                n = 1
                while not it.truth(compare('<', p.value, p.base ** n)):
                    n += 1
                for k in reversed(range(n)):
                    d = digit_char(p.value, 10, k)
                    segs.append(d.encode() if isinstance(d, str) else ByteSeg(as_abs(d.code)))
                continue
            segs.append(OpqSeg('text(%s)' % p.key, plen(p)))
    return mkbytes(segs)
