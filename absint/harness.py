'''Abstract runs of the assembler on classes of source programs, and the case checker.'''
import os
import sys

from .values import *
from .values import CTX, consistent
from .objects import *
from .interp import Interp
from . import strs
from .world import subst_int, explore, compare_bytes, materialize, show, Witness, provably_equal

sys.setrecursionlimit(60000)

REPO = os.environ.get('NECRO_REPO', '/repo')       # development only: the registered checks read /repo
_it = None


def interp():
    global _it
    if _it is None:
        _it = Interp(REPO, 'necroassembler')
        _it.hooks['call'] = _trace
    return _it


_trace_list = []
_trace_seen = set()


def _trace(f, args, kwargs):
    k = '%s:%s' % (f.module.path, f.qualname)
    if k not in _trace_seen:
        _trace_seen.add(k)
        _trace_list.append(k)


def load_class(mod, name):
    it = interp()
    j, it.journal = it.journal, None        # modules stay loaded across partitions
    try:
        return _load_class(it, mod, name)
    finally:
        it.journal = j


def _load_class(it, mod, name):
    if mod.startswith('client:'):
        # a client of the library: (checks.clients holds the source text)
        from checks import clients
        m = it.load_source(mod, clients.SOURCES[mod[7:]])
    else:
        m = it.load('necroassembler.' + mod if mod else 'necroassembler')
    return m.env.vars[name]


_asm_cache = {}


def fresh(mod, name, which=0):
    '''one instance per class; every run happens under the journal and is rolled back'''
    k = (mod, name, which)
    if k not in _asm_cache:
        it = interp()
        j, it.journal = it.journal, None
        try:
            _asm_cache[k] = it.instantiate(load_class(mod, name), [], {})
        finally:
            it.journal = j
    return _asm_cache[k]


def construct(mod, name):
    return interp().instantiate(load_class(mod, name), [], {})


class Run:
    '''result of one abstract run'''

    def __init__(self):
        self.stage = None
        self.exc = None         # class name
        self.msg = None
        self.is_asm = False
        self.where = None
        self.segs = None
        self.asm = None

    @property
    def ok(self):
        return self.exc is None


def exc_info(it, e, r):
    v = e.value
    r.where = e.where
    if isinstance(v, Inst):
        r.exc = v.cls.name
        base = it.load('necroassembler.exceptions').env.vars['AssemblerException']
        r.is_asm = v.cls.is_sub(base)
        r.msg = v.attrs.get('args')
        r.mro = [getattr(c, 'name', getattr(c, '__name__', '?')) for c in v.cls.mro]
    elif isinstance(v, Class):
        r.exc = v.name
    else:
        r.exc = type(v).__name__
        r.msg = v.args
        r.mro = [c.__name__ for c in type(v).__mro__]


def run(asm, text, files=None, link=True, linker=None):
    it = interp()
    r = Run()
    r.asm = asm
    if files is not None:
        it.files = files
    try:
        r.stage = 'assemble'
        for t in (text if isinstance(text, list) else [text]):
            it.call(it.getattr(asm, 'assemble'), [t])
        if link:
            r.stage = 'link'
            it.call(it.getattr(asm, 'link'), [] if linker is None else [linker])
        r.stage = 'done'
        r.segs = segs_of(it.getattr(asm, 'assembled_bytes'))
    except InterpRaise as e:
        exc_info(it, e, r)
        del it.stack[:], it.handling[:]
    return r


class Verdict:
    def __init__(self, case, kind, detail='', witness='', construct='', trace=()):
        self.case, self.kind, self.detail = case, kind, detail
        self.witness, self.construct, self.trace = witness, construct, list(trace)
        self.funcs = ()

    def __repr__(self):
        return '%s %s: %s | %s | %s' % (self.kind, self.case, self.detail, self.witness, self.construct)


def text_of(t, val):
    if isinstance(t, str):
        return t
    return t.render(val)


class Case:
    '''One class of programs with its specified outcome.

    build() -> (text, inputs, expect) evaluated inside the partition;
    expect(run) -> ('bytes', segs) | ('reject',) | ('any',) | ('bad', why) | ('ok',)
    '''

    def __init__(self, key, asm, build, files=None, prepare=None, linker=None, reject_any=False):
        self.key, self.asm, self.build = key, asm, build
        self.files, self.prepare, self.linker = files, prepare, linker
        self.reject_any = reject_any

    def decide(self):
        return one(self)

    def describe(self):
        it = interp()
        CTX.reset([])
        try:
            text = self.build()[0]
            return repr(text)[:300]
        except Exception as e:
            return 'programs of ' + self.key


def one(case):
    '''analyse one case: list of verdicts, one per partition'''
    it = interp()
    asm = fresh(*case.asm) if isinstance(case.asm, tuple) else None

    def fn():
        a = asm if asm is not None else case.asm()
        del _trace_list[:]
        _trace_seen.clear()
        text, inputs, expect = case.build()
        r = run(a, text, case.files if case.files is not None else {}, linker=case.linker(it) if case.linker else None)
        tr = list(_trace_list)
        exp = expect(r)
        v = judge(case, text, inputs, r, exp, tr)
        if v.kind == 'undecided' and not consistent():
            return None
        v.funcs = tr
        if v.kind == 'proved':
            v.trace = ()
        return v
    return [v for v in explore(it, fn, label=case.key, stop=lambda why: Verdict(case.key, 'undecided', why)) if v is not None]


def handler_of(trace):
    '''the instruction/directive logic on the analysed path'''
    for part in ('/platforms/', '/cpu/', 'linker.py:'):
        for t in trace:
            if part in t and not t.endswith(('__init__', '<module>', '.register_instructions')):
                return t
    d = [t for t in trace if 'directive_' in t or 'macro_' in t]
    rest = [t for t in d if not t.endswith(('directive_incbin', 'directive_org'))]
    return (rest or d or list(trace[-1:]) or [''])[-1]


def wit_text(text, v):
    if isinstance(text, list):
        r = ' ++ '.join(repr(text_of(t, v)) for t in text)
    else:
        r = repr(text_of(text, v))
    return r if len(r) < 900 else r[:600] + ' ... ' + r[-250:]


def judge(case, text, inputs, r, exp, tr):
    w = Witness(inputs)
    h = handler_of(tr)
    kind = exp[0]

    def first():
        for v in w.valuations(60):
            return v
        return None

    def wtext(v):
        return wit_text(text, v)

    if kind == 'any':
        return Verdict(case.key, 'proved')
    if kind == 'good':
        return Verdict(case.key, 'proved')
    if kind == 'bad':
        v = first()
        if v is None:
            return Verdict(case.key, 'undecided', exp[1], '', h, tr)
        return Verdict(case.key, 'violation', exp[1], wtext(v), h, tr)
    if kind == 'reject':
        if not r.ok and (r.is_asm or case.reject_any):
            return Verdict(case.key, 'proved')
        v = first()
        d = ('raises %s (%s) instead of an assembler error at %s' % (r.exc, r.msg, r.where)) if not r.ok \
            else 'accepted, must be refused'
        if v is None:
            return Verdict(case.key, 'undecided', d, '', h, tr)
        if r.ok:
            d += '; emits %s' % show(materialize(r.segs, v))
        return Verdict(case.key, 'violation', d, wtext(v), h, tr)
    if kind == 'ok':
        if r.ok:
            return Verdict(case.key, 'proved')
        v = first()
        d = 'refused with %s %s at %s' % (r.exc, r.msg, r.where)
        return Verdict(case.key, 'violation' if v is not None else 'undecided', d, wtext(v) if v is not None else '', h, tr)
    if kind == 'bytes_or_reject':
        if not r.ok and r.is_asm:
            return Verdict(case.key, 'proved')
        kind = 'bytes'
    if kind == 'bytes_in_or_reject':
        if not r.ok and r.is_asm:
            return Verdict(case.key, 'proved')
        kind = 'bytes_in'
    others = ()
    if kind == 'bytes_in':
        # several encodings are specified: any of them
        if r.ok and any(not compare_bytes(r.segs, alt) for alt in exp[1]):
            return Verdict(case.key, 'proved')
        others = exp[1][1:]
        kind, exp = 'bytes', ('bytes', exp[1][0])
    assert kind == 'bytes'
    if not r.ok:
        v = first()
        d = 'refused with %s %s (raised at %s)' % (r.exc, r.msg, r.where)
        if v is None:
            return Verdict(case.key, 'undecided', d + ' under %s' % CTX.pathconds, '', h, tr)
        try:
            d += '; specified bytes %s' % show(materialize(exp[1], v))
        except Exception:
            pass
        return Verdict(case.key, 'violation', d, wtext(v), h, tr)
    probs = compare_bytes(r.segs, exp[1])
    if not probs:
        return Verdict(case.key, 'proved')
    for v in w.valuations(300):
        try:
            mg, me = materialize(r.segs, v), materialize(exp[1], v)
        except Exception as e:
            return Verdict(case.key, 'undecided', 'cannot evaluate: %r' % (e,), '', h, tr)
        if mg != me and not any(mg == materialize(o, v) for o in others):
            return Verdict(case.key, 'violation', 'emits %s; specified %s' % (show(mg), show(me)), wtext(v), h, tr)
    return Verdict(case.key, 'undecided', repr(probs[:2]), '', h, tr)


# --------------------------------------------------------------------- symbols
def sym(name, lo=-INF, hi=INF):
    return AbsInt(0, ((SymAtom(name, lo, hi),))) if False else AbsInt(0, ((SymAtom(name, lo, hi), 1),))


def fin(name, mapping):
    '''finite choice: mapping spelling -> value'''
    fs = FinSym(name, list(mapping))
    return fs


def fin_text(fs):
    return FinPiece(Fin(fs, {e: e for e in fs.elems}))


def fin_val(fs, mapping):
    return Fin(fs, dict(mapping)).as_int()


def num(v, base=10):
    return NumPiece(v, base)


def S(*parts):
    return mkstr(list(parts))


def dec(c):
    '''decide a comparison inside the partition'''
    return c if isinstance(c, bool) else c.truth()


def le(a, b):
    return dec(compare('<=', a, b))


def lt(a, b):
    return dec(compare('<', a, b))


def eq(a, b):
    return dec(compare('==', a, b))


def inr(x, lo, hi):
    return le(lo, x) and le(x, hi)


def bits(x, lo, w):
    return mk_slice(x, lo, w)


def B(v):
    c = const_of(v)
    if c is not None:
        return bytes([c & 0xff])
    return ByteSeg(mk_slice(v, 0, 8))


def le_bytes(v, n):
    return [B(mk_slice(v, 8 * i, 8)) for i in range(n)]


def be_bytes(v, n):
    return [B(mk_slice(v, 8 * i, 8)) for i in reversed(range(n))]


def opq(name, n):
    return OpqSeg(name, n)


# --------------------------------------------------------------------- direct calls of the library
class FnCase(Case):
    '''One class of calls of the library with their specified result.

    body(c) -> expectation; body calls the library through c.call() and declares its inputs with c.sym()/c.fin().
    expectation: ('value', got, specified) | ('reject', Run) | ('good',) | ('bad', why) | None (infeasible)
    '''

    def __init__(self, key, body, what='', reject_any=False):
        self.key, self.body, self.what, self.reject_any = key, body, what, reject_any

    def describe(self):
        return self.what or 'calls of ' + self.key

    def sym(self, name, lo, hi):
        self.inputs[name] = (lo, hi)
        return sym(name, lo, hi)

    def fin(self, name, elems):
        fs = FinSym(name, list(elems))
        self.inputs[name] = fs
        return fin_text(fs), fs

    def call(self, f, *args, **kwargs):
        it = interp()
        r = Run()
        try:
            r.value = it.call(f, list(args), kwargs)
        except InterpRaise as e:
            exc_info(it, e, r)
            del it.stack[:], it.handling[:]
            r.value = None
        return r

    def show(self, *parts):
        '''what the witness prints'''
        self.shown = parts

    def decide(self):
        it = interp()

        def fn():
            del _trace_list[:]
            _trace_seen.clear()
            self.inputs, self.shown = {}, ()
            e = self.body(self)
            tr = list(_trace_list)
            v = self.verdict(e, tr)
            if v is None or (v.kind == 'undecided' and not consistent()):
                return None
            v.funcs = tr
            return v
        return [v for v in explore(it, fn, label=self.key, stop=lambda why: Verdict(self.key, 'undecided', why)) if v is not None]

    def verdict(self, e, tr):
        it = interp()
        h = handler_of(tr)
        if e is None:
            return None
        if e[0] == 'good':
            return Verdict(self.key, 'proved')
        if e[0] == 'bad':
            return self.bad(e[1], h, tr)
        if e[0] == 'reject':
            r = e[1]
            if not r.ok and (r.is_asm or self.reject_any):
                return Verdict(self.key, 'proved')
            return self.bad('accepted, must be refused' if r.ok else 'raises %s (%s) instead of an assembler error' % (r.exc, r.msg), h, tr,
                            got=r.value if r.ok else None)
        got, exp = e[1], e[2]
        if isinstance(got, Run):
            if not got.ok:
                return self.bad('refused with %s %s (raised at %s)' % (got.exc, got.msg, got.where), h, tr, exp=exp)
            got = got.value
        if same(it, got, exp):
            return Verdict(self.key, 'proved')
        return self.bad('differs', h, tr, got, exp)

    def bad(self, why, h, tr, got=None, exp=None):
        w = Witness(self.inputs)
        for val in w.valuations(80):
            try:
                cg, ce = conc(got, val), conc(exp, val)
            except Exception as x:
                return Verdict(self.key, 'undecided', '%s; cannot evaluate %r' % (why, x), '', h, tr)
            d = why
            if why == 'differs' and cg == ce:
                if conc(got, val, True) == conc(exp, val, True):
                    continue
                d += first_difference(conc(got, val, True), conc(exp, val, True))
            if exp is not None or got is not None:
                d += '; result %s' % (cg,) if got is not None else ''
                d += '; specified %s' % (ce,) if exp is not None else ''
            return Verdict(self.key, 'violation', d[:600], ' '.join(str(conc(x, val)) if not isinstance(x, str) else x for x in self.shown)
                           or str(val), h, tr)
        return Verdict(self.key, 'undecided', '%s: %r; specified %r' % (why, got, exp), '', h, tr)


def same(it, a, b):
    '''equality of two abstract values; undecided comparisons split the partition'''
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return False
        return all(same(it, x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(it, a[k], b[k]) for k in b)
    if isinstance(b, (bytes, bytearray, AbsBytes, Buf)) or isinstance(a, (bytes, bytearray, AbsBytes, Buf)):
        if not (isinstance(b, (bytes, bytearray, AbsBytes, Buf)) and isinstance(a, (bytes, bytearray, AbsBytes, Buf))):
            return False
        return not compare_bytes(segs_of(a), segs_of(b))
    if b is None or a is None or isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if isinstance(a, AbsInt) or isinstance(b, AbsInt):
        r = provably_equal(as_abs(a), as_abs(b)) if isinstance(a, (int, AbsInt)) and isinstance(b, (int, AbsInt)) else None
        if r is not None:
            return r
        a, b = subst_int(as_abs(a), {}), subst_int(as_abs(b), {})
        r = provably_equal(as_abs(a), as_abs(b))
        if r is not None:
            return r
    return it.truth(it.equal(a, b))


def first_difference(a, b):
    '''of two materialized byte strings'''
    if isinstance(a, list) and isinstance(b, list):
        at = 0
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, list) or not isinstance(x, tuple):
                    return first_difference(x, y)
                n = 0
                if x[:2] == y[:2]:
                    n = min(x[2], y[2])
                return ' at byte %d' % (at + n)
            at += x[2] if isinstance(x, tuple) else 0
        return ' at byte %d' % at
    return ''


def conc(x, val, raw=False):
    '''the value of an abstract value under a valuation; raw: bytes in full'''
    if isinstance(x, (list, tuple)):
        return [conc(y, val, raw) for y in x]
    if isinstance(x, dict):
        return {k: conc(y, val, raw) for k, y in x.items()}
    if isinstance(x, (bytes, bytearray, AbsBytes, Buf)):
        m = materialize(segs_of(x), val)
        return m if raw else show(m)
    if isinstance(x, AbsInt):
        return x.ev(val)
    if hasattr(x, 'render'):
        return x.render(val)
    return x
