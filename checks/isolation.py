'''C15: assembler instances do not share mutable state.'''
import os

from .model import *
from . import model
from .clients import SOURCES
from .plat import picture
from absint import harness
from absint.objects import Func, Class, Module, Env, NS, Bound, Inst, Prop, StaticM, ClassM, RepList

RULE = 'no operation of an assembler object changes what another object (made before or after, of any class) is or does; containers reachable from a module, a class or a default argument are not written'
EXPLANATION = '''Effect analysis by abstract interpretation: every heap write made while an assembler works is observed; a write into a container that a
module, a class or a default argument owns is an obligation that fails when another object is changed by it. Histories of two objects are
analysed with symbolic programs and compared with the reference semantics of each program alone.'''
ASSUMPTIONS = ['files and standard output are shared by nature', 'a cache that no result depends on is not an influence']
MIN_OBLIGATIONS = 150

CLIENT = SOURCES['core'] + '''

class Defs(LE):
    defines = {'DK': '7'}
    hex_prefixes = ['0x']

    def register_defines(self):
        self.register_define('RK', '9')


class Passes(Defs):
    done = ()

    def __init__(self):
        super().__init__()
        self.pre_link_passes.append(self.first)

    def first(self):
        self.done += ('first',)
        self.assembled_bytes += b'\\\\x01'


def outer(asm):
    asm.assembled_bytes += b'\\\\x02'
'''.replace('\\\\x', '\\x')
SOURCES['iso'] = CLIENT
LE2, DEFS, PASSES = ('client:iso', 'LE'), ('client:iso', 'Defs'), ('client:iso', 'Passes')


# ------------------------------------------------------------------ shared containers
def shared(it, extra=()):
    '''id -> (container, owner) for every container owned by a module, a class or a default argument'''
    out, seen = {}, set()
    todo = [(m.env.vars, m.name) for m in it.modules.values() if isinstance(m, Module)]
    todo += list(extra)
    while todo:
        o, own = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            out[id(o)] = (o, own)
            for k, v in list(o.items()):
                if isinstance(k, str) and k.startswith('__'):
                    continue
                todo.append((v, own + '.' + k if isinstance(k, str) else own))
        elif isinstance(o, (list, set)):
            out[id(o)] = (o, own)
            todo += [(v, own) for v in o]
        elif isinstance(o, (tuple, frozenset)):
            todo += [(v, own) for v in o]
        elif isinstance(o, Buf):
            out[id(o)] = (o, own)
        elif isinstance(o, Class):
            todo.append((o.attrs, o.module.name + '.' + o.name if isinstance(o.module, Module) else o.name))
            todo += [(b, own) for b in o.bases if isinstance(b, Class)]
        elif isinstance(o, Func):
            todo.append((o.attrs, own))
            for p in (o.params if isinstance(o.params, (list, tuple)) else list(vars(o.params).values()) if hasattr(o.params, '__dict__') else [o.params]):
                todo += [(x, own + ' (default)') for x in defaults(p)]
            e = o.env
            while e is not None and e.parent is not None:
                todo.append((e.vars, own + ' (closure)'))
                e = e.parent
        elif isinstance(o, Inst):
            todo.append((o.attrs, own))
        elif isinstance(o, Bound):
            todo += [(o.func, own), (o.self_, own)]
        elif isinstance(o, Prop):
            todo += [(o.fget, own), (o.fset, own)]
        elif isinstance(o, (StaticM, ClassM)):
            todo.append((o.f, own))
    return out


def defaults(p):
    if isinstance(p, (list, tuple)):
        return [y for x in p for y in defaults(x)]
    if isinstance(p, dict):
        return [y for x in p.values() for y in defaults(x)]
    return [p] if p is not None else []


class Watch:
    '''observe writes to shared containers'''

    def __init__(self, it):
        self.it, self.hits = it, []
        self.shared = shared(it)

    def __enter__(self):
        it = self.it
        orig = type(it).touch

        def touch(o):
            if id(o) in self.shared:
                f = it.stack[-1] if it.stack else None
                own = self.shared[id(o)][1]
                where = '%s:%s' % (f.module.path, f.qualname) if f is not None else '?'
                if (own, where) not in self.hits and not (f is None or '<module>' in where):
                    self.hits.append((own, where))
            return orig(it, o)
        it.touch = touch
        return self

    def __exit__(self, *a):
        del self.it.touch


def snap(x, depth=0, seen=None):
    '''structure of a value, independent of identity'''
    if depth > 12:
        return '...'
    if isinstance(x, (str, int, bytes, float, type(None), bool)):
        return x
    if isinstance(x, dict):
        return ('d',) + tuple((snap(k, depth + 1), snap(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted(repr(snap(v, depth + 1)) for v in x))
    if isinstance(x, Buf):
        return ('buf', repr(x.s))
    if isinstance(x, AbsBytes):
        return ('bytes', repr(segs_of(x)))
    if isinstance(x, Bound):
        return ('bound', x.func.qualname if isinstance(x.func, Func) else repr(x.func))
    if isinstance(x, Func):
        return ('func', x.qualname, x.module.name if isinstance(x.module, Module) else None)
    if isinstance(x, Inst):
        if 'assembled_bytes' in x.attrs and depth > 0:
            return ('assembler',)
        return ('i', x.cls.name) + tuple((k, snap(v, depth + 1)) for k, v in sorted(x.attrs.items()))
    if isinstance(x, Class):
        return ('c', x.name)
    return repr(x)


STD = ('__name__', '__doc__', '__module__', '__qualname__')


def view(asm):
    '''everything an assembler can see of itself: own attributes and the data attributes of its classes'''
    out = {'own': snap(asm)}
    for c in asm.cls.mro:
        if isinstance(c, Class):
            for k, v in sorted(c.attrs.items()):
                if k not in STD:
                    out['%s.%s' % (c.name, k)] = snap(v)
    return out


def differs(a, b):
    if a == b:
        return None
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k == 'own':
                x, y = dict(a[k][2:]), dict(b[k][2:])
                for n in sorted(set(x) | set(y)):
                    if x.get(n) != y.get(n):
                        return 'attribute %s: %s became %s' % (n, repr(y.get(n))[:150], repr(x.get(n))[:150])
            return 'class attribute %s: %s became %s' % (k, repr(b.get(k))[:150], repr(a.get(k))[:150])
    return 'state'


# ------------------------------------------------------------------ histories with symbolic programs
class MA(M):
    '''programs of another object: same names, other values'''

    def sym(self, name, lo, hi):
        return super().sym('a.' + name, lo, hi)

    def fin(self, name, elems):
        return super().fin('a.' + name, elems)


def program(m, frags, label=True):
    for f in frags:
        model.FRAGS[f](m)
    if label:
        m.label('Z9', 'Z9')
    m.finish()
    return S(*m.out)


def assemble(c, asm, text, files):
    it = interp()
    it.files = files
    return c.call(it.getattr(asm, 'assemble'), text)


def link(c, asm):
    it = interp()
    r = c.call(it.getattr(asm, 'link'))
    if r.ok:
        r.value = it.getattr(asm, 'assembled_bytes')
    return r


def f_uses(m):
    """a label at an address of this object only, used in every way"""
    n = m.sym(m.uid('N'), 0, 1 << 10)
    m.w('.fill ', num(binop('+', n, 1)), ' 1')
    m.emit(RepSeg(1, binop('+', n, 1)))
    m.label('LU', 'LU')
    m.w('.dd LU, LU+2')
    m.ref('LU', 4, 32)
    m.ref('LU', 4, 32, 2)
    m.w('.dd 5+LU')
    v = binop('+', m.labels['LU'], 5)
    if not inr(v, 0, (1 << 32) - 1):
        raise Infeasible()
    m.emit(*m.num(v, 4))
    m.w('.dd 0x5+3 <0x1234')
    m.emit(*m.num(8, 4))
    m.emit(*m.num(0x34, 4))


model.FRAGS['uses'] = f_uses
PROBE = ['uses', 'load', 'define', 'macro', 'repeat', 'dd', 'section', 'export', 'orgb', 'include', 'insn']
BAD = {'unknown instruction': 'nosuch 1', 'unfinished macro': '.macro um p', 'unfinished repeat': '.repeat 3', 'literal': 'LOAD8 999',
       'crash': 'CRASH', 'none': 'NONE', 'missing file': '.incbin "nofile"', 'log': '.log on', 'nothing': ''}


def history(key, first, order, bad='', acls=LE, bcls=LE2):
    '''A assembles first, B the probe; B must be the probe alone'''
    def body(c):
        it = interp()
        a, b = MA(), M()
        at, bt = program(a, first), program(b, PROBE)
        at = S(at, '\n', bad, '\n') if bad else at
        c.inputs.update(a.inputs)
        c.inputs.update(b.inputs)
        c.show(at, ' || ', bt)
        A = construct(*acls)
        B = construct(*bcls) if order != 'before' else None
        if order == 'interleaved':
            b1, b2 = M(), M()
            rb = assemble(c, B, bt, b.files)
        ra = assemble(c, A, at, a.files)
        rla = link(c, A) if ra.ok else None
        if B is None:
            B = construct(*bcls)
        if order != 'interleaved':
            rb = assemble(c, B, bt, b.files)
        if not rb.ok:
            return ('value', rb, '')
        rlb = link(c, B)
        try:
            spec = b.resolve()
        except Refused:
            return ('reject', rlb)
        return ('value', rlb, AbsBytes(spec))
    return FnCase(key, body)


def unseen(key, atext, btext, bcls=LE2, acls=LE, ok=None):
    '''what A names is unknown to B'''
    def body(c):
        A, B0 = construct(*acls), construct(*bcls)
        n = c.sym('N', 0, 255)
        c.show(atext, ' || ', btext)
        r = assemble(c, A, atext, {})
        if r.ok:
            link(c, A)
        B1 = construct(*bcls)
        for B in (B0, B1):
            rb = assemble(c, B, btext, {})
            rl = link(c, B) if rb.ok else rb
            if ok is None:
                if rl.ok:
                    return ('bad', 'B accepts a name that only A knows')
            elif not rl.ok:
                return ('bad', 'B refused: %s %s' % (rl.exc, rl.msg))
            elif not same(interp(), rl.value, ok):
                return ('bad', 'B differs: %r' % (rl.value,))
        return ('good',)
    return FnCase(key, body, reject_any=True)


# ------------------------------------------------------------------ effects of every class
def assembler_classes(it):
    import ast as _ast
    out = []
    root = os.path.join(REPO, 'necroassembler')
    for sub in ('', 'cpu', 'platforms'):
        d = os.path.join(root, sub)
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py') or f == '__init__.py':
                continue
            mod = (sub + '.' if sub else '') + f[:-3]
            try:
                _ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            out.append(mod)
    return out


SHAPES = ['', '1', 'lab', '1 , 2', 'A , 1', 'A , B', 'A', 'B , lab', '(HL)', '(HL) , A', '#1', '#lab', '(1)', '( 1 , X )', '$10 , X', '(lab) , Y', 'R1 , R2', 'R1 , R2 , R3', 'r1 , r2 , #1',
          'r1 , [ r2 , #4 ]', '$1 , $2 , $3', '$1 , $2 , 4', '$1 , 4 ( $2 )', '$1 , 4', 'D0 , D1', '#1 , D0', 'D0 , ( A0 )', '( A0 ) + , - ( A1 )', '4 ( A0 ) , D0', 'AX , BX', 'AX , 1',
          'AL , [ BX ]', '[ BX + SI ] , AX', 'r1 , r2 , r3 , r4', 'r1 , 2 ( r3 )', '{ r0 - r3 , lr }', 'IX , 4', '( IX + 1 ) , A', 'A , ( IX + lab )', 'NZ , lab', '1 , 2 , 3 , 4', '1+lab', '#lab+1', 'A , 2+lab']
DIRECTIVES = ['.db 1, "x", lab', '.dw 1, "x"', '.dd lab', '.fill 3', '.fill 3 1', '.align 4', '.define DD 4', '.macro MM p', 'db p', '.endmacro', '.repeat 2', '.endrepeat', '.org 8192', '.org 256 511',
              '.section ss RX', '.export lab', '.log off', '.ram 3', '.upto 600', '.goto 700', '.db_to_ascii 3 lab', '.dw_to_asciiz lab', '.incbin "bb"', '.inccsv "cc"', '.incjson "jj" "a.b"', '.include "ii"',
              '.cartridge', '.cartridge_title "abc"', '.cartridge_prg_roms 1', '.nosuch', '.log wrong', '.fill', '.db 999', '.org', '.endmacro', '.endrepeat', '.define D']

OPERANDS = ['', '1', '16', '"abc"', '1 2', 'lab', '"bb"', '"bb" 1', '8 "bb"']


def files():
    return {'bb': {'bytes': b'abc'}, 'cc': {'rows': [['1', '2'], ['3']]}, 'jj': {'json': {'a': {'b': [1, '2', 3]}}}, 'ii': {'text': '.db 1\nlab2:\n.define EE 4\n'}}


def exercise(it, asm, mnems, base=0):
    '''the outcome of every statement, in order'''
    out = []

    def do(text):
        n = length(asm)
        try:
            it.call(it.getattr(asm, 'assemble'), [text])
            o = 'ok'
        except InterpRaise as e:
            r = Run()
            exc_info(it, e, r)
            o = '%s %s' % (r.exc, r.msg if r.is_asm else '')
            del it.stack[:], it.handling[:]
        out.append((text, o))
    it.files = files()
    picture('bb', 'P', 8, 8, [k % 2 for k in range(64)])
    if base:
        do('.ram %d' % base)
    do('lab:')
    for d in DIRECTIVES:
        do(d)
    core = set(it.getattr(fresh('assembler', 'Assembler'), 'directives'))
    for d in sorted(k for k in it.getattr(asm, 'directives') if isinstance(k, str) and k not in core):
        for s in OPERANDS:
            do('.%s %s' % (d.lstrip('.'), s))
    do('MM 3')
    for m in mnems:
        for s in SHAPES:
            do('%s %s' % (m, s))
    try:
        it.call(it.getattr(asm, 'link'), [])
        o = 'linked'
    except InterpRaise as e:
        r = Run()
        exc_info(it, e, r)
        o = '%s' % r.exc
        del it.stack[:], it.handling[:]
    out.append(('link', o))
    out.append(('bytes', repr(segs_of(it.getattr(asm, 'assembled_bytes')))))
    return out


def length(asm):
    return 0


def effects(mod, cls, lo, hi):
    def body(c):
        it = interp()
        c.show('statements on an instance of %s' % cls)
        A, B = construct(mod, cls), construct(mod, cls)
        vb = view(B)
        mnems = sorted(x for x in A.attrs['instructions'] if isinstance(x, str))[lo:hi]
        # what two objects share from the start must not be a container
        ids = {}
        for k, v in A.attrs.items():
            for o in containers(v):
                ids[id(o)] = k
        for k, v in B.attrs.items():
            for o in containers(v):
                if id(o) in ids and (isinstance(o, (list, dict, set, Buf))):
                    shared_attr.append((k, o))
        with Watch(it) as w:
            ra = exercise(it, A, mnems)
        d = differs(view(B), vb)
        if d is not None:
            return ('bad', 'an object made before is changed: %s%s' % (d, said(w)))
        C = construct(mod, cls)
        d = differs(view(C), vb)
        if d is not None:
            return ('bad', 'an object made after is changed: %s%s' % (d, said(w)))
        rb = exercise(it, B, mnems)
        rc = exercise(it, C, mnems, 16)
        if pristine:
            ra, rb = ra + pristine, rb + rc
        for x, y in zip(ra, rb):
            if x != y:
                return ('bad', 'another object behaves differently after the same statements: %s gives %s, was %s%s' % (x[0], repr(y[1])[:200], repr(x[1])[:200], said(w)))
        return ('good',)
    c = FnCase('effects of %s.%s%s' % (mod, cls, ' mnemonics %d-%d' % (lo, hi) if lo or hi < 9999 else ''), body)
    shared_attr = []
    pristine = []
    decide = c.decide

    def first(it=None):
        '''the same statements at another address on an object nothing happened before'''
        def fn():
            it = interp()
            C = construct(mod, cls)
            mnems = sorted(x for x in C.attrs['instructions'] if isinstance(x, str))[lo:hi]
            pristine[:] = exercise(it, C, mnems, 16)
            return 1
        explore(interp(), fn)
        return decide()
    c.decide = first
    return c


def said(w):
    return ''.join('; %s writes %s' % (f, o) for o, f in w.hits[:4])


def containers(v, depth=0):
    if depth > 4:
        return
    if isinstance(v, (list, dict, set, Buf)):
        yield v
    if isinstance(v, dict):
        for x in v.values():
            yield from containers(x, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from containers(x, depth + 1)


CHUNK = 40


def main_twice(key, first, second, npasses):
    '''two command lines in one process'''
    def body(c):
        it = interp()
        mod = harness.load_class(*PASSES)
        outer = it.modules['client:iso'].env.vars['outer'] if 'client:iso' in it.modules else it.load_source('client:iso', CLIENT).env.vars['outer']
        n = c.sym('N', 0, 255)
        outs = []
        for i, (kind, text) in enumerate((first, second)):
            it.files = {'src': {'text': S(text, num(n), '\n')}}
            it.argv[:] = ['prog', 'src', 'dest']
            del it.opened[:]
            kw = {'post_link_passes': [outer] * npasses} if kind else {}
            r = c.call(it.getattr(mod, 'main'), **kw)
            w = [f for f in it.opened if f.mode == 'wb']
            outs.append((r, w[0].written if w else None))
        c.show(first[1], ' || ', second[1])
        r, w = outs[1]
        exp = [b'\x18', B(n), b'\1'] + ([b'\2'] * npasses if second[0] else [])
        if second[1].startswith('nosuch'):
            return ('reject', r)
        if not r.ok:
            return ('value', r, b'')
        if w is None:
            return ('bad', 'no file written')
        return ('value', AbsBytes([s for x in w for s in segs_of(x)]), AbsBytes(exp))
    return FnCase(key, body, reject_any=True)


def cases(tier):
    it = interp()
    for k in (LE, LE2, ('client:core', 'Zero')):
        harness.load_class(*k)
    for mod in assembler_classes(it):
        try:
            m = it.load('necroassembler.' + mod)
        except Exception:
            continue
        base = it.load('necroassembler.assembler').env.vars['Assembler']
        for name, c in sorted(m.env.vars.items()):
            if isinstance(c, Class) and c.is_sub(base) and c.module is m:
                n = None
                try:
                    x = fresh(mod, name)
                    n = len(x.attrs['instructions'])
                except Exception:
                    pass
                if n is None:
                    continue
                for lo in range(0, max(n, 1), CHUNK):
                    yield effects(mod, name, lo, min(n, lo + CHUNK))
    for cls in (LE, ('client:core', 'Zero'), DEFS, PASSES):
        yield effects(*cls, 0, 9999)
    frags = [f for f in model.FRAGS]
    for f in frags:
        for order in ('before', 'after', 'interleaved'):
            yield history('%s in A, probe in B (%s)' % (f, order), [f], order)
    for k, b in BAD.items():
        for order in ('before', 'after', 'interleaved'):
            yield history('A fails: %s (%s)' % (k, order), ['load', 'macro', 'define'], order, bad=b)
    for f in ('load', 'macro', 'repeat', 'orgb', 'define'):
        yield history('%s in A of another class, probe in B' % f, [f], 'after', acls=DEFS)
        yield history('%s in a big endian A, probe in B' % f, [f], 'before', acls=BE, bcls=LE)
        yield history('%s in a case sensitive A' % f, [f], 'before', acls=CS, bcls=LE)
    for acls, an in ((LE2, 'same class'), (DEFS, 'subclass'), (CS, 'other class')):
        yield unseen('label of A (%s)' % an, 'lx:\nNOP\n.dd lx', '.dd lx', acls=acls)
        yield unseen('macro of A (%s)' % an, '.macro mx p\nNOP\n.endmacro\nmx 1', 'mx 1', acls=acls)
        yield unseen('define of A (%s)' % an, '.define kx 5\n.db kx', '.db kx', acls=acls)
        yield unseen('define of A then define in B (%s)' % an, '.define kx 5\n.db kx', '.define kx 6\n.db kx', acls=acls, ok=b'\6')
        yield unseen('section of A (%s)' % an, '.section sx R\nNOP', '.section sx R\n.db 1', acls=acls, ok=b'\1')
        yield unseen('export of A (%s)' % an, '.export "sx"\nNOP', '.export "sx"\n.db 1', acls=acls, ok=b'\1')
        yield unseen('origin of A (%s)' % an, '.org 100 200\nNOP', 'lx:\n.dd lx', acls=acls, ok=b'\0\0\0\0')
        yield unseen('macro recording in A (%s)' % an, '.macro mx p\nNOP', '.db 1', acls=acls, ok=b'\1')
        yield unseen('repeat in A (%s)' % an, '.repeat 3\n.db 4', '.db 1\n.repeat 2\n.db 2\n.endrepeat', acls=acls, ok=b'\1\2\2')
        yield unseen('unresolved label in A (%s)' % an, '.dd nolab', '.db 1', acls=acls, ok=b'\1')
    yield unseen('class define changed in A', '.define DK 5\n.db DK', '.db DK RK', acls=DEFS, bcls=DEFS, ok=b'\7\t')
    yield unseen('class define is not in the base', '.db DK', '.db DK', acls=DEFS, bcls=LE2)
    yield unseen('registered define is not in the base', '.db RK', '.db RK', acls=DEFS, bcls=LE2)
    P = 'LOAD8 '
    for kind1 in (0, 1):
        for kind2 in (0, 1):
            for n in (1, 2):
                yield main_twice('command line twice %d%d%d' % (kind1, kind2, n), (kind1, P), (kind2, P), n)
    yield main_twice('command line after a failed one', (1, 'nosuch '), (0, P), 1)
    yield main_twice('command line after a failed link', (1, '.dd nolab '), (1, P), 1)
