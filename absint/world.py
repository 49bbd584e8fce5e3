'''Partitioned analysis of whole assembler runs, and comparison of abstract results.'''
import os
import random

from .values import *
from .values import CTX, Ctx, consistent
from .objects import *
from .interp import Interp
from . import strs
from .strs import FnAtom


class Outcome:
    '''result of one partition'''

    def __init__(self, kind, data, exc=None, where=None):
        self.kind, self.data, self.exc, self.where = kind, data, exc, where


def explore(it, fn, max_parts=20000, label='', stop=None):
    '''run fn under every partition; returns fn's results, and stop(reason) for what could not be analysed'''
    CTX.force_syms = set()
    while True:
        out = []
        try:
            for r in _explore(it, fn, max_parts, label, stop):
                out.append(r)
            return out
        except OutOfTime:
            if stop is None:
                raise AnalysisError('out of time')
            it.reset_after_error()
            return out + [stop('out of time')]
        except ForceSym as f:
            if f.name in CTX.force_syms:
                raise AnalysisError('cannot enumerate %s' % f.name)
            CTX.force_syms = CTX.force_syms | {f.name}


def _explore(it, fn, max_parts, label, stop):
    script = []
    n = failed = 0
    while True:
        CTX.reset(script)
        it.begin()
        del it.stack[:], it.handling[:], it.caught[:], it.stdout[:]
        it.steps = 0
        try:
            r = fn()
        except Infeasible:
            r = None
        except AnalysisError as e:
            failed += 1
            if stop is None or failed > 20:
                raise
            r = stop('not modelled: %s' % e)
        finally:
            it.rollback()
            del it.opened[:]
        if r is not None:
            yield r
        n += 1
        if n > max_parts:
            if stop is None:
                raise AnalysisError('too many partitions in %s' % label)
            yield stop('too many partitions')
            return
        trail = [(c, k) for c, k, _ in CTX.trail]
        while trail and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            return
        script = [c for c, _ in trail[:-1]] + [trail[-1][0] + 1]


# --------------------------------------------------------------------- substitution
def subst_int(x, env):
    '''replace finite choices by the elements in env and re-canonicalise'''
    if not isinstance(x, AbsInt):
        return x
    out = x.c
    for a, k in x.t:
        out = binop('+', out, binop('*', subst_atom(a, env), k))
    return out


def subst_atom(a, env):
    if isinstance(a, FinAtom):
        if a.sym.name in env:
            e = env[a.sym.name]
            if e not in a.mapping:
                raise Infeasible()
            return a.mapping[e]
        return AbsInt(0, ((a, 1),))
    if isinstance(a, SliceAtom):
        return mk_slice(subst_int(a.base, env), a.lo, a.width)
    if isinstance(a, BinAtom):
        op = {'mod': '%', 'mul': '*', 'div': '//', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'shr': '>>', 'pow': '**'}[a.op]
        return binop(op, subst_int(a.a, env), subst_int(a.b, env))
    return AbsInt(0, ((a, 1),))


def collect(x, syms, fins):
    if isinstance(x, AbsInt):
        for a, _ in x.t:
            collect_atom(a, syms, fins)


def collect_atom(a, syms, fins):
    if isinstance(a, (SymAtom, FunAtom)):
        syms[a.name] = a
    elif isinstance(a, FinAtom):
        fins[a.sym.name] = a.sym
    elif isinstance(a, SliceAtom):
        collect(a.base, syms, fins)
    elif isinstance(a, BinAtom):
        collect(a.a, syms, fins)
        collect(a.b, syms, fins)


# --------------------------------------------------------------------- equality of abstract ints
def provably_equal(x, y):
    '''True / False(provably different everywhere) / None'''
    d = lin_add(x, y, -1)
    c = const_of(d)
    if c is not None:
        return c == 0
    syms, fins = {}, {}
    collect(d, syms, fins)
    if fins:
        names = sorted(fins)
        total = 1
        for n in names:
            total *= len(fin_allowed(fins[n]))
        if total <= 5000:
            import itertools as _i
            res = set()
            for combo in _i.product(*[fin_allowed(fins[n]) for n in names]):
                env = dict(zip(names, combo))
                try:
                    r = subst_int(d, env)
                except Infeasible:
                    continue
                c = const_of(r)
                if c is None:
                    r = const_of(mk_norm(r))
                    if r is None:
                        return None
                    c = r
                res.add(c == 0)
            if res == {True}:
                return True
            if res == {False}:
                return False
            return None
    lo, hi = d.range()
    if lo > 0 or hi < 0:
        return False
    return None


def mk_norm(x):
    return x


# --------------------------------------------------------------------- witnesses
class Witness:
    '''search for a concrete valuation inside the current partition'''

    def __init__(self, inputs, seed=1):
        self.inputs = inputs      # name -> SymAtom-like (lo, hi) or FinSym
        self.rng = random.Random(seed)

    def valuations(self, n=400):
        if not consistent():
            return
        conds = list(CTX.pathconds)
        fins = {k: v for k, v in self.inputs.items() if isinstance(v, FinSym)}
        syms = {k: v for k, v in self.inputs.items() if not isinstance(v, FinSym)}
        rng = self.rng
        fixed = {}
        for name, (lo, hi) in syms.items():
            f = CTX.ranges.get(name)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
            fixed[name] = (lo, hi)
        lin = [c for c in conds if c.op in ('le', 'eq')]
        for attempt in range(n):
            val = {}
            for name, fs in fins.items():
                al = fin_allowed(fs)
                if not al:
                    return
                val[name] = al[attempt % len(al)] if attempt < len(al) else rng.choice(al)
            for name, (lo, hi) in fixed.items():
                val[name] = self.pick(lo, hi, attempt)
            if not self.repair(val, lin, fixed, rng):
                continue
            ok = True
            for c in conds:
                try:
                    r = c.ev(val)
                except Exception:
                    r = None
                if r is not True:
                    ok = False
                    if r is None:
                        return        # not evaluable: no witness can be certified
                    break
            if ok:
                yield val

    def pick(self, lo, hi, attempt):
        rng = self.rng
        cands = []
        lo2 = lo if lo > -INF else -(1 << 70)
        hi2 = hi if hi < INF else (1 << 70)
        cands += [lo2, hi2, lo2 + 1, hi2 - 1]
        for v in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 0x1234, 32767, 32768,
                  65535, 65536, -1, -2, -128, -129, -127, -32768, 0x12345678):
            if lo2 <= v <= hi2:
                cands.append(v)
        k = rng.random()
        if k < 0.15 and lo2 <= 255 and hi2 >= 0:
            return int(rng.randint(max(lo2, 0), min(hi2, 255)))
        if k < 0.6:
            return int(rng.choice(cands))
        if k < 0.8:
            b = rng.randint(0, 40)
            v = lo2 + rng.randint(0, 1 << b)
            return int(min(v, hi2))
        return rng.randint(int(lo2), int(hi2))

    def repair(self, val, lin, bounds, rng):
        for rnd in range(12):
            bad = []
            for c in lin:
                try:
                    if c.ev(val) is False:
                        bad.append(c)
                except Exception:
                    return True
            if not bad:
                return True
            c = rng.choice(bad)
            terms = [(a, k) for a, k in c.lin.t if isinstance(a, SymAtom) and a.name in bounds]
            if not terms:
                # try re-picking something inside
                syms, fins = {}, {}
                collect(c.lin, syms, fins)
                names = [n for n in syms if n in bounds] or sorted(bounds)
                if not names:
                    return False
                nme = rng.choice(names)
                val[nme] = self.pick(bounds[nme][0], bounds[nme][1], rnd)
                continue
            a, k = rng.choice(terms)
            cur = c.lin.ev(val)
            lo, hi = bounds[a.name]
            want_le = (c.op == 'le') != c.neg
            if c.op == 'eq' and not c.neg:
                if cur % k:
                    continue
                val[a.name] -= cur // k
            elif c.op == 'eq':
                val[a.name] += rng.choice((1, -1, 2, 16))
            elif want_le:
                # need lin <= 0
                need = rng.choice((0, 0, -1, -rng.randint(0, 64)))
                val[a.name] += -(-(need - cur) // k) if k > 0 and False else self._step(cur, need, k, True)
            else:
                need = rng.choice((1, 1, 2, rng.randint(1, 64)))
                val[a.name] += self._step(cur, need, k, False)
            if lo > val[a.name]:
                val[a.name] = int(lo)
            if hi < val[a.name]:
                val[a.name] = int(hi)
        return False

    @staticmethod
    def _step(cur, need, k, le):
        d = need - cur
        q = d // k
        for t in (q - 1, q, q + 1, q + 2):
            v = cur + t * k
            if (le and v <= need) or (not le and v >= need):
                if le and v <= need and v > need - abs(k) * 2:
                    return t
                if not le and v >= need and v < need + abs(k) * 2:
                    return t
        return q


# --------------------------------------------------------------------- bytes comparison
def seg_values(segs):
    '''segments -> list of items: ints/AbsInt for bytes, Seg for opaque parts'''
    out = []
    for s in norm_segs(segs):
        if isinstance(s, bytes):
            out.extend(s)
        elif isinstance(s, ByteSeg):
            out.append(s.v)
        else:
            out.append(s)
    return out


def opq_key(s):
    if isinstance(s, OpqSeg):
        return ('opq', s.name, repr(s.n))
    return ('rep', repr(s.v), repr(s.n))


def compare_bytes(got, exp):
    '''-> list of problems: ('len', g, e) | ('byte', index, g, e); empty when proven equal.
    Undecided bytes are reported as ('maybe', index, g, e).'''
    g, e = seg_values(got), seg_values(exp)
    # strip equal opaque prefixes/suffixes handled item by item
    probs = []
    if len(g) != len(e):
        lg, le = blen(norm_segs(got)), blen(norm_segs(exp))
        r = provably_equal(as_abs(lg), as_abs(le))
        if r is not True:
            return [('len', lg, le)]
        return [('shape', got, exp)]
    for i, (x, y) in enumerate(zip(g, e)):
        if isinstance(x, Seg) or isinstance(y, Seg):
            if isinstance(x, Seg) and isinstance(y, Seg):
                if opq_key(x) == opq_key(y):
                    continue
                if type(x) is type(y) is RepSeg:
                    if provably_equal(as_abs(x.n), as_abs(y.n)) is True and provably_equal(as_abs(x.v), as_abs(y.v)) is True:
                        continue
                if type(x) is type(y) is OpqSeg and x.name == y.name and provably_equal(as_abs(x.n), as_abs(y.n)) is True:
                    continue
            probs.append(('shape', x, y))
            continue
        r = provably_equal(as_abs(x), as_abs(y))
        if r is True:
            continue
        x, y = as_abs(subst_int(x, {})), as_abs(subst_int(y, {}))
        r = provably_equal(x, y)
        if r is True:
            continue
        if r is None and const_of(mk_slice(lin_add(x, y, -1), 0, 8)) == 0 and all(
                z.range()[0] >= 0 and z.range()[1] <= 255 for z in (x, y)):
            continue            # congruent modulo 256, both bytes
        probs.append(('byte' if r is False else 'maybe', i, x, y))
    return probs


def materialize(segs, val):
    '''canonical run-length form for a valuation: ('b', byte, count) runs and ('o', name, n) opaque parts'''
    out = []

    def put(b, n):
        if n <= 0:
            return
        if out and out[-1][0] == 'b' and out[-1][1] == b:
            out[-1] = ('b', b, out[-1][2] + n)
        else:
            out.append(('b', b, n))
    for s in norm_segs(segs):
        if isinstance(s, bytes):
            for b in s:
                put(b, 1)
        elif isinstance(s, ByteSeg):
            put(as_abs(s.v).ev(val), 1)
        elif isinstance(s, RepSeg):
            put(as_abs(s.v).ev(val), as_abs(s.n).ev(val))
        else:
            n = as_abs(s.n).ev(val)
            if n:
                out.append(('o', s.name, n))
    return out


def show(m):
    parts, run = [], []

    def flush():
        if run:
            parts.append(''.join(run[:32]) + ('..(%d)' % len(run) if len(run) > 32 else ''))
            del run[:]
    for x in m:
        if x[0] == 'o':
            flush()
            parts.append('<%s:%d>' % (x[1], x[2]))
        elif x[2] > 8:
            flush()
            parts.append('<%02x x %d>' % (x[1], x[2]))
        else:
            run.extend(['%02x' % x[1]] * x[2])
    flush()
    return ' '.join(parts)
