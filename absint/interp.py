'''Abstract interpreter: compiles the AST of the analysed program to closures over
abstract values.  No code of the analysed program is ever executed by CPython; native
operations are applied only to literal constants (constant folding).'''
import ast
import os
import string
import struct

from .values import *
from .values import CTX, _fresh
from .objects import *
from . import strs

PRIM = frozenset((int, str, bytes, bool, type(None), float, type(Ellipsis)))
NATIVE_CONTAINERS = (list, tuple, dict, set, frozenset)


class ReturnEx(Exception):
    int_enums = False

    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
          ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}

import operator as _op
NATIVE_BIN = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv,
              '%': _op.mod, '&': _op.and_, '|': _op.or_, '^': _op.xor, '<<': _op.lshift,
              '>>': _op.rshift, '**': _op.pow, '@': _op.matmul}
NATIVE_CMP = {'==': _op.eq, '!=': _op.ne, '<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}

SAFE_NATIVE_EXC = (ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError,
                   OverflowError, StopIteration, NameError, UnboundLocalError, LookupError,
                   ArithmeticError, UnicodeError, RuntimeError, AssertionError, struct.error,
                   NotImplementedError, OSError, RecursionError, EOFError, FileNotFoundError)


def is_prim(v):
    return type(v) in PRIM


class Interp:

    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        self.journal = None
        self.line = 0
        self.stack = []
        self.steps = 0
        self.step_limit = 4000000
        self.called = set()         # (module, qualname) of every function analysed
        self.lines = set()          # (module, line) of every statement analysed
        self.track_lines = False
        self.files = {}             # model of the file system
        self.opened = []
        self.argv = ['prog']
        self.builtins = {}
        from . import builtins_ as b
        b.install(self)
        self.natives = b.native_modules(self)
        self.bounded = False
        self.hooks = {}
        self.handling = []
        self.caught = []
        self.stdout = []

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError('step limit')

    def mkset(self, xs):
        out = set()
        for x in xs:
            if type(x) is Fin:
                x = x.force()
            try:
                hash(x)
            except TypeError as e:
                self.raise_native(e)
            if is_abs(x):
                if not any(self.truth(self.equal(x, y)) for y in out):
                    out.add(x)
            else:
                out.add(x)
        return out

    def make_enum(self, cls, kind):
        vals = {}
        if self.native_base(cls) is not None:
            raise AnalysisError('enumeration over %s' % self.native_base(cls).__name__)
        last = 0
        for k, v in list(cls.attrs.items()):
            if k.startswith('_') or type(v) in (Func, StaticM, ClassM, Prop):
                continue
            if type(v) is Top and v.name == 'auto':
                v = 1 if not last else (1 << last.bit_length() if 'Flag' in kind else last + 1)
                cls.attrs[k] = v
            if type(v) is int:
                last = v
            if kind.startswith('Int'):
                vals[k] = v
                self.int_enums = True
                continue
            for old in vals.values():
                if old.attrs['value'] == v and type(old.attrs['value']) is type(v):
                    m = old
                    break
            else:
                m = Inst(cls)
                m.attrs.update(name=k, value=v, _name_=k, _value_=v)
            cls.attrs[k] = m
            vals[k] = m
        cls.attrs['__members__'] = vals
        if kind == 'Flag' or '__new__' in cls.attrs or '_missing_' in cls.attrs or '__init__' in cls.attrs:
            raise AnalysisError('enumeration %s' % cls.name)

    def members(self, cls):
        out = []
        for m in cls.attrs['__members__'].values():
            if not any(m is x for x in out):
                out.append(m)
        return out

    def reset_after_error(self):
        if self.journal is not None:
            self.rollback()
        del self.stack[:], self.handling[:], self.caught[:], self.stdout[:], self.opened[:]

    # ------------------------------------------------------------------ journal
    def begin(self):
        self.journal = {}

    def rollback(self):
        j = self.journal
        self.journal = None
        if not j:
            return
        for obj, snap in j.values():
            if type(obj) is list:
                obj[:] = snap
            elif type(obj) is dict:
                obj.clear()
                obj.update(snap)
            elif type(obj) is set:
                obj.clear()
                obj.update(snap)
            elif isinstance(obj, Buf):
                obj.s[:] = snap
            elif isinstance(obj, FileObj):
                obj.closed, obj.consumed, obj.wpos = snap[0], snap[1], snap[3]
                obj.written[:] = snap[2]

    def touch(self, obj):
        j = self.journal
        if j is None:
            return
        k = id(obj)
        if k in j:
            return
        if type(obj) is list:
            j[k] = (obj, list(obj))
        elif type(obj) is dict:
            j[k] = (obj, dict(obj))
        elif type(obj) is set:
            j[k] = (obj, set(obj))
        elif isinstance(obj, Buf):
            j[k] = (obj, list(obj.s))
        elif isinstance(obj, FileObj):
            j[k] = (obj, (obj.closed, obj.consumed, list(obj.written), obj.wpos))

    # ------------------------------------------------------------------ errors
    def raise_native(self, exc):
        raise InterpRaise(exc, self.where())

    def where(self):
        if self.stack:
            f = self.stack[-1]
            return '%s:%s (%s)' % (f.module.path or f.module.name, self.line, f.qualname)
        return '?:%s' % self.line

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return p if os.path.exists(p) else None
        return base + '.py' if os.path.exists(base + '.py') else None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split('.'))
        path = self.module_path(name)
        if path is None:
            if os.path.isdir(base):
                m = Module(name, base)
                m.loaded = True
                self.modules[name] = m
                self._bind_parent(name, m)
                return m
            self.raise_native(ImportError(name))
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, os.path.relpath(path, self.root))
        self.modules[name] = m
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        m.tree = tree
        m.env.vars['__file__'] = path
        comp = Compiler(self, m)
        body = comp.block(tree.body)
        fr = Func(tree, body, m.env, m, '<module>', None, None)
        self.stack.append(fr)
        try:
            body(m.env)
        finally:
            self.stack.pop()
        m.loaded = True
        self._bind_parent(name, m)
        return m

    def load_source(self, name, text):
        '''a client module given as text (user program using the library)'''
        if name in self.modules:
            return self.modules[name]
        m = Module(name, '<%s>' % name)
        self.modules[name] = m
        m.tree = tree = ast.parse(text, name)
        body = Compiler(self, m).block(tree.body)
        fr = Func(tree, body, m.env, m, '<module>', None, None)
        self.stack.append(fr)
        try:
            body(m.env)
        finally:
            self.stack.pop()
        m.loaded = True
        return m

    def _bind_parent(self, name, m):
        if '.' in name:
            p, _, leaf = name.rpartition('.')
            if p in self.modules:
                self.modules[p].env.vars[leaf] = m

    def import_module(self, name):
        if name == self.package or name.startswith(self.package + '.'):
            return self.load(name)
        if name in self.natives:
            return self.natives[name]
        # sibling top-level module of the repository?
        if self.module_path(name):
            return self.load(name)
        return NS(name, None, True)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        t = type(v)
        if t in PRIM:
            return bool(v)
        if t is Cond:
            return v.truth()
        if t is AbsInt:
            c = compare('!=', v, 0)
            return c if isinstance(c, bool) else c.truth()
        if t is Fin:
            w = v.collapse()
            if not isinstance(w, Fin):
                return self.truth(w)
            yes = [e for e, x in v.items() if self._fin_truth(x)]
            no = [e for e, x in v.items() if not self._fin_truth(x)]
            if not no:
                return True
            if not yes:
                return False
            k = CTX.choose(2, 'truth of %s' % v.sym.name)
            fin_restrict(v.sym, yes if k == 0 else no)
            return k == 0
        if t is AbsStr:
            n = str_len(v)
            c = compare('>', n, 0)
            return c if isinstance(c, bool) else c.truth()
        if t in (AbsBytes, Buf):
            c = compare('>', blen(v.s), 0)
            return c if isinstance(c, bool) else c.truth()
        if t in (list, tuple, dict, set, frozenset, range):
            return bool(v)
        if t is RepList:
            return self.truth(compare('>', v.n, 0))
        if t is Inst:
            f = self.class_lookup(v.cls, '__bool__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            f = self.class_lookup(v.cls, '__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            if '$v' in v.attrs:
                return self.truth(v.attrs['$v'])
            return True
        if t is Top:
            k = CTX.choose(2, 'truth of %s' % v.name)
            CTX.pathconds.append(Cond('opaque', name=v.name, neg=k == 1))
            return k == 0
        return True

    def _fin_truth(self, x):
        return bool(x) if is_prim(x) or isinstance(x, NATIVE_CONTAINERS) else True

    # ------------------------------------------------------------------ lifting
    def lift(self, fn, *args):
        '''apply fn pointwise over the Fin arguments (one choice symbol)'''
        fins = [a for a in args if type(a) is Fin]
        syms = {f.sym.name: f.sym for f in fins}
        if len(syms) > 1:
            # partition on all but the first
            first = fins[0].sym.name
            args = [a.force() if type(a) is Fin and a.sym.name != first else a for a in args]
            return fn(*args) if not any(type(a) is Fin for a in args) else self.lift(fn, *args)
        fs = fins[0].sym
        ok, bad = {}, {}
        for e in fin_allowed(fs):
            if any(e not in f.mapping for f in fins):
                continue
            xs = [a.mapping[e] if type(a) is Fin else a for a in args]
            try:
                ok[e] = fn(*xs)
            except InterpRaise as exc:
                k = type(exc.value).__name__
                bad.setdefault(k, (exc, []))[1].append(e)
        groups = []
        if ok:
            groups.append((None, list(ok)))
        for exc, es in bad.values():
            groups.append((exc, es))
        if not groups:
            raise Infeasible()
        k = CTX.choose(len(groups), 'outcome over %s' % fs.name) if len(groups) > 1 else 0
        if len(groups) > 1:
            fin_restrict(fs, groups[k][1])
        if groups[k][0] is not None:
            raise groups[k][0]
        if any(is_abs(v) for v in ok.values()):
            # not expressible pointwise: partition fully
            f = Fin(fs, {e: i for i, e in enumerate(ok)})
            i = f.force()
            return ok[list(ok)[i]] if isinstance(i, int) else None
        return Fin(fs, ok).collapse()

    # ------------------------------------------------------------------ binop
    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta in PRIM and tb in PRIM:
            try:
                return NATIVE_BIN[op](a, b)
            except SAFE_NATIVE_EXC as e:
                self.raise_native(e)
        if ta is Cond:
            a = self.truth(a)
            return self.binop(op, a, b)
        if tb is Cond:
            b = self.truth(b)
            return self.binop(op, a, b)
        if ta is Fin or tb is Fin:
            if (ta is Fin and a.is_int() or ta in (int, bool, AbsInt)) and \
               (tb is Fin and b.is_int() or tb in (int, bool, AbsInt)):
                one = (ta is not Fin) or (tb is not Fin) or a.sym.name == b.sym.name
                if one and ta is not AbsInt and tb is not AbsInt:
                    return self.lift(lambda x, y: self.binop(op, x, y), a, b)
                return binop(op, a.as_int() if ta is Fin else a, b.as_int() if tb is Fin else b)
            return self.lift(lambda x, y: self.binop(op, x, y), a, b)
        if ta is Top or tb is Top:
            return Top('%s%s%s' % (getattr(a, 'name', a), op, getattr(b, 'name', b)))
        inta = ta in (int, bool, AbsInt)
        intb = tb in (int, bool, AbsInt)
        if inta and intb:
            try:
                if op == '%' and ta is AbsInt and leads_negative(a) and as_abs(b).range()[0] > 0:
                    # -x % n is written 0 or n - x % n, so that the two ways of rounding up meet
                    m = binop('%', lin_scale(a, -1), b)
                    return 0 if self.truth(compare('==', m, 0)) else binop('-', b, m)
                return binop(op, a, b)
            except (ZeroDivisionError, ValueError) as e:
                self.raise_native(e)
        if ta in (str, AbsStr) and tb in (str, AbsStr):
            if op == '+':
                return mkstr([a, b])
            if op == '%':
                return strs.fmt_percent(self, a, (b,))
        if op == '%' and ta in (str, AbsStr):
            return strs.fmt_percent(self, a, b if tb is tuple else (b,))
        if op == '*' and ta in (str, AbsStr) and intb:
            n = const_of(b)
            if n is not None:
                return mkstr([a] * max(n, 0))
            return AbsStr([TextPiece('rep(%r)' % (a,))])
        bytesa = ta in (bytes, AbsBytes, Buf)
        bytesb = tb in (bytes, AbsBytes, Buf)
        if bytesa and op == '%':
            raise AnalysisError('formatting of bytes')
        if bytesa and bytesb and op == '+':
            segs = segs_of(a) + segs_of(b)
            if ta is Buf:
                return Buf(norm_segs(segs))
            return mkbytes(segs)
        if op == '*' and ((bytesa and intb) or (bytesb and inta)):
            if not bytesa:
                a, b = b, a
                ta = type(a)
            return self.bytes_repeat(a, b)
        if ta is list and tb is list and op == '+':
            return a + b
        if ta is tuple and tb is tuple and op == '+':
            return a + b
        if op == '*' and ta in (list, tuple) and intb:
            n = const_of(b)
            if n is not None:
                return a * n
            if self.truth(compare('>', b, 0)):
                return RepList(list(a), b)
            return a * 0
        if op == '*' and tb in (list, tuple) and inta:
            return self.binop(op, b, a)
        if ta is DictView or tb is DictView:
            if op in ('|', '&', '-', '^'):
                va = self.mkset(self.iterate(a))
                vb = self.mkset(self.iterate(b))
                return NATIVE_BIN[op](va, vb)
            raise AnalysisError('%s on a dict view' % op)
        if ta in (set, frozenset, dict) and tb in (set, frozenset, dict):
            try:
                return NATIVE_BIN[op](a, b)
            except SAFE_NATIVE_EXC as e:
                self.raise_native(e)
        if ta is Inst or tb is Inst:
            names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod',
                     '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '**': 'pow', '@': 'matmul'}
            if ta is Inst:
                f = self.class_lookup(a.cls, '__%s__' % names.get(op, '?'))
                if f is not None:
                    r = self.call(Bound(f, a), [b])
                    if r is not NotImplemented:
                        return r
            if tb is Inst:
                f = self.class_lookup(b.cls, '__r%s__' % names.get(op, '?'))
                if f is not None:
                    r = self.call(Bound(f, b), [a])
                    if r is not NotImplemented:
                        return r
            if ta is Inst and '$v' in a.attrs or tb is Inst and '$v' in b.attrs:
                return self.binop(op, a.attrs['$v'] if ta is Inst and '$v' in a.attrs else a,
                                  b.attrs['$v'] if tb is Inst and '$v' in b.attrs else b)
            for x in (a, b):
                if type(x) is Inst and self.native_base(x.cls) not in (None,) and \
                        not issubclass(self.native_base(x.cls), BaseException):
                    raise AnalysisError('%s on an instance of a subclass of %s' % (op, self.native_base(x.cls).__name__))
        for t in (ta, tb):
            if t not in KNOWN_OPERANDS:
                raise AnalysisError('%s on %s' % (op, t.__name__))
        self.raise_native(TypeError('unsupported operand type(s) for %s: %r and %r' %
                                    (op, self.tname(a), self.tname(b))))

    def bytes_repeat(self, a, n):
        segs = segs_of(a)
        c = const_of(n)
        isbuf = isinstance(a, Buf)
        if c is not None:
            out = segs * max(c, 0)
        elif not self.truth(compare('>', n, 0)):
            out = []
        else:
            one = mkbytes(segs)
            if isinstance(one, bytes) and len(one) == 1:
                out = [RepSeg(one[0], n)]
            elif isinstance(one, AbsBytes) and len(one.s) == 1 and isinstance(one.s[0], ByteSeg):
                out = [RepSeg(one.s[0].v, n)]
            elif one == b'':
                out = []
            else:
                out = [OpqSeg('rep(%r)' % (one,), binop('*', blen(segs), n))]
        return Buf(norm_segs(out)) if isbuf else mkbytes(out)

    def tname(self, v):
        t = type(v)
        if t is AbsInt or t is Cond:
            return 'int'
        if t is AbsStr:
            return 'str'
        if t is AbsBytes:
            return 'bytes'
        if t is Buf:
            return 'bytearray'
        if t is Inst:
            return v.cls.name
        return t.__name__

    def iadd(self, op, a, b):
        '''augmented assignment: in place on mutable containers'''
        if op == '+' and type(a) is list:
            self.touch(a)
            a.extend(self.iterate(b))
            return a
        if op == '+' and type(a) is Buf:
            self.touch(a)
            a.s[:] = norm_segs(a.s + self.to_segs(b))
            return a
        if op == '*' and type(a) is Buf:
            self.touch(a)
            a.s[:] = self.bytes_repeat(a, b).s
            return a
        if op in ('|', '&', '-', '^') and type(a) is set:
            self.touch(a)
            r = NATIVE_BIN[op](a, b)
            a.clear()
            a.update(r)
            return a
        if op == '|' and type(a) is dict:
            self.touch(a)
            a.update(b)
            return a
        if type(a) is Inst:
            names = {'+': 'iadd', '-': 'isub', '|': 'ior', '&': 'iand', '*': 'imul', '^': 'ixor', '<<': 'ilshift',
                     '>>': 'irshift', '//': 'ifloordiv', '%': 'imod'}
            f = self.class_lookup(a.cls, '__%s__' % names.get(op, '?'))
            if f is not None:
                return self.call(Bound(f, a), [b])
        return self.binop(op, a, b)

    def to_segs(self, b):
        t = type(b)
        if t in (bytes, bytearray, AbsBytes, Buf):
            return segs_of(b)
        if t is Fin:
            return self.to_segs(b.force())
        return segs_of(self.make_bytes(b))

    def make_bytes(self, v):
        '''bytes(v)'''
        t = type(v)
        if t in (bytes, AbsBytes):
            return v
        if t is Buf:
            return mkbytes(v.s)
        if t is bytearray:
            return bytes(v)
        if t is Fin:
            return self.make_bytes(v.force())
        if t in (int, bool):
            if v < 0:
                self.raise_native(ValueError('negative count'))
            if v > 1 << 24:
                return mkbytes([OpqSeg('zeros', v)])
            return bytes(v)
        if t is AbsInt:
            c = const_of(v)
            if c is not None:
                return self.make_bytes(c)
            if not self.truth(compare('>=', v, 0)):
                self.raise_native(ValueError('negative count'))
            return mkbytes([RepSeg(0, v)])
        if t in (str, AbsStr):
            self.raise_native(TypeError('string argument without an encoding'))
        if t is RepList:
            segs = []
            for x in v.items:
                segs.append(self.byte_seg(x))
            if len(segs) == 1:
                s = segs[0]
                val = s[0] if isinstance(s, bytes) else s.v
                return mkbytes([RepSeg(val, v.n)])
            return mkbytes([OpqSeg('rep(%r)' % (segs,), binop('*', len(segs), v.n))])
        if t is Top:
            return mkbytes([OpqSeg(v.name, sym('len(%s)' % v.name, 0))])
        if v is None:
            self.raise_native(TypeError('cannot convert NoneType to bytes'))
        segs = [self.byte_seg(x) for x in self.iterate(v)]
        return mkbytes(segs)

    def byte_seg(self, x):
        if type(x) is Fin:
            x = x.as_int() if x.is_int() else x.force()
        if type(x) is Cond:
            x = self.truth(x)
        c = const_of(x) if isinstance(x, (int, AbsInt)) else None
        if c is not None:
            if not 0 <= c <= 255:
                self.raise_native(ValueError('bytes must be in range(0, 256)'))
            return bytes([c])
        if type(x) is Inst and self.class_lookup(x.cls, '__index__') is not None:
            return self.byte_seg(self.call(self.getattr(x, '__index__'), []))
        if not isinstance(x, AbsInt):
            self.raise_native(TypeError('an integer is required, not %s' % self.tname(x)))
        if not self.truth(compare('>=', x, 0)) or not self.truth(compare('<=', x, 255)):
            self.raise_native(ValueError('bytes must be in range(0, 256)'))
        return ByteSeg(x)

    # ------------------------------------------------------------------ compare
    def equal(self, a, b):
        '''bool / Cond'''
        ta, tb = type(a), type(b)
        if ta in PRIM and tb in PRIM:
            return a == b
        if a is b:
            return True
        if ta is Fin or tb is Fin:
            if ta is AbsInt and b.is_int() or tb is AbsInt and a.is_int():
                return compare('==', as_abs(a), as_abs(b))
            if ta is Fin and tb is Fin and a.sym.name != b.sym.name and a.is_int() and b.is_int():
                return compare('==', a.as_int(), b.as_int())
            return self.lift(lambda x, y: self.equal(x, y), a, b)
        if ta is Cond:
            return self.equal(self.truth(a), b)
        if tb is Cond:
            return self.equal(a, self.truth(b))
        if ta is Top or tb is Top:
            return Cond('opaque', name='%r==%r' % (a, b))
        inta, intb = ta in (int, bool, AbsInt), tb in (int, bool, AbsInt)
        if inta and intb:
            return compare('==', a, b)
        if ta in (str, AbsStr) and tb in (str, AbsStr):
            return strs.str_eq(self, a, b)
        if ta in (bytes, AbsBytes, Buf) and tb in (bytes, AbsBytes, Buf):
            return self.bytes_eq(a, b)
        if ta in (tuple, list) and ta is tb:
            if len(a) != len(b):
                return False
            res = True
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if r is not True:
                    if not self.truth(r):
                        return False
            return res
        if ta is dict and tb is dict:
            if len(a) != len(b):
                return False
            for k in a:
                ok, v = self.dict_find(b, k)
                if not ok or not self.truth(self.equal(a[k], v)):
                    return False
            return True
        for x, y in ((a, b), (b, a)):
            if type(x) is Inst and '$v' in x.attrs and self.class_lookup(x.cls, '__eq__') is None:
                return self.equal(x.attrs['$v'], y)
            if type(x) is Inst:
                f = self.class_lookup(x.cls, '__eq__')
                if f is not None:
                    r = self.call(Bound(f, x), [y])
                    if r is not NotImplemented:
                        return r
        if ta is DictView or tb is DictView:
            va = self.mkset(a.materialize()) if ta is DictView and a.kind != 'values' else a
            vb = self.mkset(b.materialize()) if tb is DictView and b.kind != 'values' else b
            return self.equal(va, vb) if va is not a or vb is not b else False
        if ta is Bound and tb is Bound:
            return a.func is b.func and a.self_ is b.self_
        if ta is range and tb is range:
            return a == b
        if ta in (set, frozenset) and tb in (set, frozenset):
            return a == b
        return False

    def bytes_eq(self, a, b):
        sa, sb = norm_segs(segs_of(a)), norm_segs(segs_of(b))
        if repr(sa) == repr(sb):
            return True
        la, lb = blen(sa), blen(sb)
        d = compare('==', la, lb)
        if d is False:
            return False
        xa, xb = explode(sa), explode(sb)
        if xa is not None and xb is not None and len(xa) == len(xb):
            for x, y in zip(xa, xb):
                r = compare('==', as_abs(x), as_abs(y))
                if r is False:
                    return False
                if r is not True and not self.truth(r):
                    return False
            return True
        return Cond('opaque', name='bytes_eq')

    def compare(self, op, a, b):
        ta, tb = type(a), type(b)
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            r = self.contains(b, a)
            return self.neg(r)
        if op == 'is':
            return self.is_same(a, b)
        if op == 'is not':
            return self.neg(self.is_same(a, b))
        if ta in PRIM and tb in PRIM:
            try:
                return NATIVE_CMP[op](a, b)
            except SAFE_NATIVE_EXC as e:
                self.raise_native(e)
        if op == '==':
            return self.equal(a, b)
        if op == '!=':
            return self.neg(self.equal(a, b))
        if ta is Cond:
            return self.compare(op, self.truth(a), b)
        if tb is Cond:
            return self.compare(op, a, self.truth(b))
        if ta is Fin or tb is Fin:
            if ta is AbsInt or tb is AbsInt or (
                    ta is Fin and tb is Fin and a.sym.name != b.sym.name and a.is_int() and b.is_int()):
                return compare(op, as_abs(a), as_abs(b))
            return self.lift(lambda x, y: self.compare(op, x, y), a, b)
        if ta is Top or tb is Top:
            return Cond('opaque', name='%r%s%r' % (a, op, b))
        if ta in (int, bool, AbsInt, float) and tb in (int, bool, AbsInt, float):
            return compare(op, a, b)
        if ta in (tuple, list) and ta is tb:
            for x, y in zip(a, b):
                if not self.truth(self.equal(x, y)):
                    return self.compare(op, x, y)
            return NATIVE_CMP[op](len(a), len(b))
        if ta in (set, frozenset) and tb in (set, frozenset):
            return NATIVE_CMP[op](a, b)
        if ta in (str, AbsStr) and tb in (str, AbsStr):
            return strs.str_order(self, op, a, b)
        if ta is Inst:
            names = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
            f = self.class_lookup(a.cls, '__%s__' % names[op])
            if f is not None:
                r = self.call(Bound(f, a), [b])
                if r is not NotImplemented:
                    return r
        if tb is Inst:
            names = {'<': 'gt', '<=': 'ge', '>': 'lt', '>=': 'le'}
            f = self.class_lookup(b.cls, '__%s__' % names[op])
            if f is not None:
                r = self.call(Bound(f, b), [a])
                if r is not NotImplemented:
                    return r
        for x in (a, b):
            if type(x) is Inst and ('$v' in x.attrs or self.class_lookup(x.cls, '__is_namedtuple__') is not None):
                raise AnalysisError('%s on %s' % (op, x.cls.name))
        for t in (ta, tb):
            if t not in KNOWN_OPERANDS:
                raise AnalysisError('%s on %s' % (op, t.__name__))
        self.raise_native(TypeError("'%s' not supported between instances of %r and %r" %
                                    (op, self.tname(a), self.tname(b))))

    def neg(self, r):
        if isinstance(r, bool):
            return not r
        if isinstance(r, Cond):
            return r.negate()
        if isinstance(r, Fin):
            return self.lift(lambda x: not x, r)
        return not self.truth(r)

    def is_same(self, a, b):
        ta, tb = type(a), type(b)
        if ta is Fin:
            return self.lift(lambda x: self.is_same(x, b), a)
        if tb is Fin:
            return self.lift(lambda x: self.is_same(a, x), b)
        if a is b:
            return True
        if ta is Top and b is None:
            return Cond('opaque', name='%s is None' % a.name)
        if ta in (bool, type(None)) or tb in (bool, type(None)):
            if ta is Cond and tb is bool:
                return a if b else a.negate()
            return False
        if ta in PRIM and tb in PRIM:
            return a is b or (ta is tb and ta in (int, str) and a == b)
        if ta is Bound and tb is Bound:
            return False
        if ta is AbsInt and tb in (int, AbsInt):
            return compare('==', a, b)
        return False

    def contains(self, c, x):
        tc, tx = type(c), type(x)
        if tc is Inst and '$v' in c.attrs and self.class_lookup(c.cls, '__contains__') is None:
            c = c.attrs['$v']
            tc = type(c)
        if tc is Class and type(c.attrs.get('__members__')) is dict:
            return any(m is x for m in self.members(c))
        if tc is Fin:
            return self.lift(lambda y: self.contains(y, x), c)
        if tc in (str, AbsStr):
            if tx is Fin:
                return self.lift(lambda y: self.contains(c, y), x)
            if tc is str and tx is str:
                return x in c
            if tx not in (str, AbsStr):
                self.raise_native(TypeError("'in <string>' requires string as left operand"))
            return strs.str_contains(self, c, x)
        if tc in (tuple, list):
            if tx in PRIM:
                plain = True
                for y in c:
                    if type(y) not in PRIM:
                        plain = False
                        break
                if plain:
                    return x in c
            if tx is Fin:
                if all(type(y) in PRIM for y in c):
                    return self.lift(lambda y: y in c, x)
                return self.lift(lambda y: self.truth(self.contains(c, y)), x)
            if tx is AbsStr and all(type(y) is str and len(y) == 1 for y in c):
                r = strs.in_charset(self, x, set(c))
                if r is not None:
                    return r
            pend = []
            for y in c:
                r = self.equal(y, x)
                if r is True:
                    return True
                if r is not False:
                    pend.append(r)
            for r in pend:
                if self.truth(r):
                    return True
            return False
        if tc is dict:
            if tx is Fin:
                return self.lift(lambda y: self.truth(self.contains(c, y)), x)
            return self.dict_find(c, x)[0]
        if tc in (set, frozenset):
            if tx is Fin:
                return self.lift(lambda y: y in c, x)
            return self.contains(list(c), x)
        if tc is DictView:
            return self.contains(c.materialize(), x)
        if tc is range:
            if tx is int:
                return x in c
            if tx is AbsInt and c.step == 1:
                r = self.truth(compare('>=', x, c.start)) and self.truth(compare('<', x, c.stop))
                return r
        if tc in (bytes, AbsBytes, Buf):
            if tx in (bytes, AbsBytes, Buf):
                ca, xa = explode(segs_of(c)), explode(segs_of(x))
                if ca is not None and xa is not None and all(type(y) is int for y in ca + xa):
                    return bytes(xa) in bytes(ca)
                raise AnalysisError('bytes in bytes')
            ys = explode(segs_of(c))
            if ys is None:
                raise AnalysisError('search in opaque bytes')
            for y in ys:
                if self.truth(compare('==', as_abs(y), as_abs(x))):
                    return True
            return False
        if tc is Inst:
            f = self.class_lookup(c.cls, '__contains__')
            if f is not None:
                return self.truth(self.call(Bound(f, c), [x]))
        if tc is Top:
            return Cond('opaque', name='%r in %r' % (x, c))
        if tc is Class or c is None or tc in (int, AbsInt):
            self.raise_native(TypeError('argument of type %r is not iterable' % self.tname(c)))
        return self.contains(list(self.iterate(c)), x)

    # ------------------------------------------------------------------ dict
    def dict_find(self, d, k):
        tk = type(k)
        if tk is Fin:
            r = self.dict_find_fin(d, k)
            if r is not None:
                return r
            k = k.force()
            tk = type(k)
        if tk in PRIM:
            if k in d:
                return True, d[k]
            for kk in d:
                if type(kk) not in PRIM and is_abs(kk):
                    r = self.equal(kk, k)
                    if r is True or (r is not False and self.truth(r)):
                        return True, d[kk]
            return False, None
        try:
            if k in d:
                return True, d[k]
        except TypeError as e:
            self.raise_native(e)
        for kk in list(d):
            r = self.equal(kk, k)
            if r is True or (r is not False and self.truth(r)):
                return True, d[kk]
        return False, None

    def dict_find_fin(self, d, k):
        '''a finite choice of keys: one partition with those present, one with the others'''
        els = k.items()
        if any(type(x) not in PRIM for x in d) or any(type(x) not in PRIM for _, x in els):
            return None
        here = [e for e, x in els if x in d]
        if len(here) != len(els):
            there = [e for e, x in els if x not in d]
            if here and CTX.choose(2, 'key %s present' % k.sym.name) == 0:
                fin_restrict(k.sym, here)
            else:
                if here:
                    fin_restrict(k.sym, there)
                return False, None
        vals = {e: d[k.mapping[e]] for e in here}
        first = vals[here[0]]
        if all(v is first for v in vals.values()):
            return True, first
        kinds = {type(v) for v in vals.values()}
        if kinds == {str} or kinds == {int} or kinds == {bytes}:
            return True, Fin(k.sym, vals).collapse()
        return None

    def dict_set(self, d, k, v):
        self.touch(d)
        if type(k) is Fin:
            k = k.force()
        if type(k) in PRIM:
            if k not in d:
                for kk in d:
                    if type(kk) not in PRIM and is_abs(kk):
                        r = self.equal(kk, k)
                        if r is True or (r is not False and self.truth(r)):
                            d[kk] = v
                            return
            d[k] = v
            return
        try:
            hash(k)
        except TypeError as e:
            self.raise_native(e)
        if k in d:
            d[k] = v
            return
        for kk in list(d):
            r = self.equal(kk, k)
            if r is True or (r is not False and self.truth(r)):
                d[kk] = v
                return
        d[k] = v

    # ------------------------------------------------------------------ length
    def length(self, v):
        t = type(v)
        if t in (str, bytes, list, tuple, dict, set, frozenset, range, bytearray):
            return len(v)
        if t is AbsStr:
            return str_len(v)
        if t in (AbsBytes, Buf):
            return blen(v.s)
        if t is Fin:
            return self.lift(self.length, v)
        if t is RepList:
            return binop('*', len(v.items), v.n)
        if t is DictView:
            return len(v.d)
        if t is Inst:
            f = self.class_lookup(v.cls, '__len__')
            if f is not None:
                return self.call(Bound(f, v), [])
            if '$v' in v.attrs:
                return self.length(v.attrs['$v'])
        if t is Class and type(v.attrs.get('__members__')) is dict:
            return len(self.members(v))
        if t is Top:
            return sym('len(%s)' % v.name, 0)
        self.raise_native(TypeError('object of type %r has no len()' % self.tname(v)))

    # ------------------------------------------------------------------ indexing
    def getitem(self, o, i):
        t = type(o)
        ti = type(i)
        if ti is Cond:
            i = self.truth(i)
            ti = bool
        if ti is Inst and t in (list, tuple, str, bytes, range, AbsStr, AbsBytes, Buf):
            f = self.class_lookup(i.cls, '__index__')
            if f is not None:
                i = self.call(Bound(f, i), [])
                ti = type(i)
        if t is dict:
            ok, v = self.dict_find(o, i)
            if not ok:
                self.raise_native(KeyError(i if is_prim(i) else repr(i)))
            return v
        if t is Fin:
            return self.lift(lambda x: self.getitem(x, i), o)
        if ti is Fin:
            if t in (str, tuple, list, bytes):
                return self.lift(lambda x: self.getitem(o, x), i)
            i = i.force()
            ti = type(i)
        if ti is slice:
            i = slice(*[self.concrete_index(x) for x in (i.start, i.stop, i.step)])
        if t in (list, tuple, str, bytes, range):
            if ti in (int, bool) or (ti is slice and all(x is None or type(x) is int for x in (i.start, i.stop, i.step))):
                try:
                    return o[i]
                except SAFE_NATIVE_EXC as e:
                    self.raise_native(e)
            if ti is AbsInt:
                c = const_of(i)
                if c is not None:
                    return self.getitem(o, c)
                # partition over positions
                n = len(o)
                for k in range(-n, n):
                    if self.truth(compare('==', i, k)):
                        return o[k]
                self.raise_native(IndexError('index out of range'))
            if ti is slice:
                if t is str:
                    return strs.str_slice(self, AbsStr([o]) if o else o, i)
                if t is bytes:
                    return self.bytes_slice([o], i)
                n = len(o)
                st = self.pin(i.start, n)
                sp = self.pin(i.stop, n)
                return o[slice(st, sp, i.step)]
            self.raise_native(TypeError('indices must be integers or slices, not %s' % self.tname(i)))
        if t is AbsStr:
            if ti is slice:
                return strs.str_slice(self, o, i)
            if ti not in (int, bool, AbsInt):
                self.raise_native(TypeError('string indices must be integers'))
            return strs.str_index(self, o, i)
        if t in (AbsBytes, Buf):
            if ti is slice:
                r = self.bytes_slice(o.s, i)
                if t is Buf:
                    return Buf(norm_segs(segs_of(r)))
                return r
            if ti not in (int, bool, AbsInt):
                self.raise_native(TypeError('byte indices must be integers'))
            return self.byte_at(o, i)
        if t is RepList:
            if len(o.items) == 1:
                return o.items[0]
        if t is Inst:
            f = self.class_lookup(o.cls, '__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [i])
            if '$v' in o.attrs:
                raw = o.attrs['$v']
                f = self.class_lookup(o.cls, '__missing__')
                if f is not None and type(raw) is dict:
                    ok, v = self.dict_find(raw, i)
                    return v if ok else self.call(Bound(f, o), [i])
                return self.getitem(raw, i)
        if t is Top:
            return Top('%s[]' % o.name)
        if isinstance(o, NS):
            return Top('%s[]' % o.name)
        if t is Class and type(o.attrs.get('__members__')) is dict:
            ok, v = self.dict_find(o.attrs['__members__'], i)
            if not ok:
                self.raise_native(KeyError(i))
            return v
        if t is Class:
            cg = self.class_lookup(o, '__class_getitem__')
            if cg is not None:
                return self.call(cg.f if type(cg) is ClassM else cg, [o, i])
        if t is Class or isinstance(o, type):
            return o            # generic alias, e.g. list[int]
        if t is DictView:
            pass
        self.raise_native(TypeError('%r object is not subscriptable' % self.tname(o)))

    def pin(self, x, n):
        '''make an abstract position concrete by partitioning (small sequences)'''
        if x is None or type(x) is int:
            return x
        for k in range(-n - 1, n + 2):
            if self.truth(compare('==', x, k)):
                return k
        return n + 1 if self.truth(compare('>', x, n)) else -n - 1

    def concrete_index(self, x):
        if x is None or type(x) is int:
            return x
        if type(x) is bool:
            return int(x)
        if type(x) is Fin:
            x = x.force()
            return x
        if type(x) is AbsInt:
            c = const_of(x)
            return x if c is None else c
        self.raise_native(TypeError('slice indices must be integers'))

    def locate(self, segs, pos):
        '''position -> (index, inner) where inner is the offset inside segs[index]
        (0 at a boundary); index may be len(segs) when pos is the end.'''
        rem = pos
        for idx, s in enumerate(segs):
            c = const_of(rem)
            if c == 0:
                return idx, 0
            n = seg_len(s)
            after = binop('-', rem, n)
            ca = const_of(after)
            if ca is not None:
                if ca >= 0:
                    rem = after
                    continue
                return idx, rem
            r = compare('>=', after, 0)
            if r is True or (r is not False and self.truth(r)):
                rem = after
                continue
            return idx, rem
        c = const_of(rem)
        if c == 0:
            return len(segs), 0
        if c is None:
            r = compare('==', rem, 0)
            if r is True or (r is not False and self.truth(r)):
                return len(segs), 0
        return len(segs), rem

    def norm_pos(self, segs, i):
        c = const_of(i)
        if c is not None:
            i = c
            neg = c < 0
        else:
            neg = self.truth(compare('<', i, 0))
        if neg:
            i = binop('+', i, blen(segs))
        return i

    def byte_at(self, o, i):
        segs = o.s
        i = self.norm_pos(segs, i)
        if not self.truth(compare('>=', i, 0)):
            self.raise_native(IndexError('index out of range'))
        idx, inner = self.locate(segs, i)
        if idx >= len(segs):
            self.raise_native(IndexError('index out of range'))
        s = segs[idx]
        if isinstance(s, bytes):
            c = const_of(inner)
            if c is not None:
                return s[c]
            return self.getitem(s, inner)
        if isinstance(s, (ByteSeg, RepSeg)):
            return s.v
        return AbsInt(0, ((FunAtom('%s[%r]' % (s.name, inner), 0, 255), 1),))

    def split_at(self, segs, pos):
        '''split the segment list at a position; returns (left, right)'''
        idx, inner = self.locate(segs, pos)
        if idx >= len(segs):
            return list(segs), []
        if const_of(inner) == 0:
            return list(segs[:idx]), list(segs[idx:])
        s = segs[idx]
        if isinstance(s, bytes):
            c = const_of(inner)
            if c is None:
                c = self.pin(inner, len(s))
            a, b = s[:c], s[c:]
        elif isinstance(s, RepSeg):
            a, b = RepSeg(s.v, inner), RepSeg(s.v, binop('-', s.n, inner))
        elif isinstance(s, OpqSeg):
            a = OpqSeg('%s[:%r]' % (s.name, inner), inner)
            b = OpqSeg('%s[%r:]' % (s.name, inner), binop('-', s.n, inner))
        else:
            raise AnalysisError('split inside a byte')
        return list(segs[:idx]) + [a], [b] + list(segs[idx + 1:])

    def bytes_slice(self, segs, sl):
        segs = list(segs)
        if sl.step not in (None, 1):
            xs = explode(segs)
            if xs is None or not all(x is None or type(x) is int for x in (sl.start, sl.stop)):
                raise AnalysisError('stepped slice of opaque bytes')
            return mkbytes([self.byte_seg(x) for x in xs[sl]])
        total = blen(segs)
        start = 0 if sl.start is None else self.norm_pos(segs, sl.start)
        stop = total if sl.stop is None else self.norm_pos(segs, sl.stop)
        if not self.truth(compare('>=', start, 0)):
            start = 0
        if not self.truth(compare('<', start, stop)):
            return b''
        if sl.stop is not None and not self.truth(compare('<=', stop, total)):
            stop = total
        if not self.truth(compare('<', start, total)):
            return b''
        _, right = self.split_at(segs, start)
        left, _ = self.split_at(right, binop('-', stop, start))
        return mkbytes(left)

    def setitem(self, o, i, v):
        t = type(o)
        if type(i) is Cond:
            i = self.truth(i)
        if t is Inst and '$v' in o.attrs and self.class_lookup(o.cls, '__setitem__') is None:
            o = o.attrs['$v']
            t = type(o)
        if t is dict:
            self.dict_set(o, i, v)
            return
        if t is list:
            if type(i) is Fin:
                i = i.force()
            if type(i) is slice:
                self.touch(o)
                st, sp, step = [self.concrete_index(x) for x in (i.start, i.stop, i.step)]
                st, sp = self.pin(st, len(o)), self.pin(sp, len(o))
                o[slice(st, sp, step)] = list(self.iterate(v))
                return
            c = const_of(i) if isinstance(i, (int, AbsInt)) else None
            if c is None:
                if isinstance(i, AbsInt):
                    c = self.pin(i, len(o))
                else:
                    self.raise_native(TypeError('list indices must be integers or slices'))
            self.touch(o)
            try:
                o[c] = v
            except SAFE_NATIVE_EXC as e:
                self.raise_native(e)
            return
        if t is Buf:
            self.touch(o)
            if type(i) is slice:
                segs = o.s
                start = 0 if i.start is None else self.norm_pos(segs, self.concrete_index(i.start))
                total = blen(segs)
                stop = total if i.stop is None else self.norm_pos(segs, self.concrete_index(i.stop))
                if i.step not in (None, 1):
                    raise AnalysisError('stepped slice store')
                # clamp like Python does
                if not self.truth(compare('<=', start, total)):
                    start = total
                if not self.truth(compare('<=', stop, total)):
                    stop = total
                if not self.truth(compare('<=', start, stop)):
                    stop = start
                left, rest = self.split_at(segs, start)
                _, right = self.split_at(rest, binop('-', stop, start))
                o.s[:] = norm_segs(left + self.to_segs(v) + right)
                return
            if type(i) is Fin:
                i = i.force()
            seg = self.byte_seg(v)
            i = self.norm_pos(o.s, i)
            if not self.truth(compare('>=', i, 0)):
                self.raise_native(IndexError('bytearray index out of range'))
            idx, inner = self.locate(o.s, i)
            if idx >= len(o.s):
                self.raise_native(IndexError('bytearray index out of range'))
            left, rest = self.split_at(o.s, i)
            first = rest[0]
            if isinstance(first, bytes):
                right = [first[1:]] + rest[1:]
            elif isinstance(first, ByteSeg):
                right = rest[1:]
            elif isinstance(first, RepSeg):
                right = [RepSeg(first.v, binop('-', first.n, 1))] + rest[1:]
            else:
                right = [OpqSeg('%s[1:]' % first.name, binop('-', first.n, 1))] + rest[1:]
            o.s[:] = norm_segs(left + [seg] + right)
            return
        if t is Inst:
            f = self.class_lookup(o.cls, '__setitem__')
            if f is not None:
                self.call(Bound(f, o), [i, v])
                return
        self.raise_native(TypeError('%r object does not support item assignment' % self.tname(o)))

    def delitem(self, o, i):
        t = type(o)
        if t is Inst and '$v' in o.attrs and self.class_lookup(o.cls, '__delitem__') is None:
            o = o.attrs['$v']
            t = type(o)
        if t is dict:
            ok, _ = self.dict_find(o, i)
            if not ok:
                self.raise_native(KeyError(i))
            self.touch(o)
            for k in list(o):
                if k is i or self.truth(self.equal(k, i)):
                    del o[k]
                    return
            return
        if t is list:
            self.touch(o)
            try:
                del o[i]
            except SAFE_NATIVE_EXC as e:
                self.raise_native(e)
            return
        if t is Buf:
            self.touch(o)
            sl = i if type(i) is slice else slice(i, binop('+', i, 1))
            segs = o.s
            total = blen(segs)
            start = 0 if sl.start is None else self.norm_pos(segs, self.concrete_index(sl.start))
            stop = total if sl.stop is None else self.norm_pos(segs, self.concrete_index(sl.stop))
            if not self.truth(compare('<', start, stop)):
                return
            left, rest = self.split_at(segs, start)
            if not self.truth(compare('<=', stop, total)):
                stop = total
            _, right = self.split_at(rest, binop('-', stop, start))
            o.s[:] = norm_segs(left + right)
            return
        raise AnalysisError('del on %r' % (o,))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        t = type(v)
        if t in (list, tuple, str, range, bytes, bytearray):
            return v
        if t is dict:
            return list(v)
        if t in (set, frozenset):
            try:
                return sorted(v)
            except TypeError:
                return list(v)
        if t is DictView:
            return v.materialize()
        if t is Fin:
            if v.is_str():
                xs = strs.fin_iter(v)
                if xs is not None:
                    return xs
            return self.iterate(v.force())
        if t is AbsStr:
            return strs.str_iter(self, v)
        if t in (AbsBytes, Buf):
            xs = explode(v.s)
            if xs is not None:
                return xs
            raise AnalysisError('iteration over bytes of unknown length')
        if t is LazyIter or t is LazyGen:
            return v
        if t is RepList:
            raise AnalysisError('iteration over a list of unknown length')
        if t is FileObj:
            return self.file_lines(v)
        if t is Inst:
            f = self.class_lookup(v.cls, '__iter__')
            if f is not None:
                it = self.call(Bound(f, v), [])
                if type(it) is Inst:
                    return self._iter_inst(it)
                return self.iterate(it)
            f = self.class_lookup(v.cls, '__getitem__')
            if f is not None:
                return self._iter_getitem(v, f)
        if t is AbsRange:
            return v.iterate(self)
        if t is Inst and '$v' in v.attrs:
            return self.iterate(v.attrs['$v'])
        if t is Class and type(v.attrs.get('__members__')) is dict:
            return self.members(v)
        if t is NS:
            raise AnalysisError('iteration over %s' % v.name)
        if t is Top:
            raise AnalysisError('iteration over %s' % v.name)
        self.raise_native(TypeError('%r object is not iterable' % self.tname(v)))

    def _iter_inst(self, it):
        f = self.class_lookup(it.cls, '__next__')
        while True:
            try:
                yield self.call(Bound(f, it), [])
            except InterpRaise as e:
                if isinstance(e.value, StopIteration):
                    return
                raise

    def _iter_getitem(self, v, f):
        i = 0
        while True:
            try:
                yield self.call(Bound(f, v), [i])
            except InterpRaise as e:
                if isinstance(e.value, IndexError):
                    return
                raise
            i += 1

    def file_lines(self, f):
        if f.closed:
            self.raise_native(ValueError('I/O operation on closed file.'))
        if 'lines' in f.spec:
            return f.spec['lines']
        raise AnalysisError('line iteration over %s' % f.name)

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        for c in cls.mro:
            if isinstance(c, Class):
                if name in c.attrs:
                    return c.attrs[name]
            elif isinstance(c, type) and c is not object:
                if name in ('__init__', '__str__', '__repr__', '__eq__', '__new__', '__bool__', '__len__',
                            '__contains__', '__iter__', '__getitem__', '__call__'):
                    continue
        return None

    def getattr(self, o, name):
        t = type(o)
        if t is Inst:
            ca = self.class_lookup(o.cls, name)
            if type(ca) is Prop:
                if ca.fget is None:
                    self.raise_native(AttributeError(name))
                return self.call(ca.fget, [o])
            if type(ca) is Inst:
                dg = self.class_lookup(ca.cls, '__get__')
                if dg is not None and (name not in o.attrs or self.class_lookup(ca.cls, '__set__') is not None):
                    return self.call(Bound(dg, ca), [o, o.cls])
            if name in o.attrs:
                return o.attrs[name]
            if ca is not None:
                return self.bind(ca, o, o.cls)
            if '$v' in o.attrs and hasattr(type(o.attrs['$v']), name) and not name.startswith('__class'):
                return NativeMethod(o.attrs['$v'], name)
            for c in o.cls.mro:
                if isinstance(c, Class) and name in c.attrs:
                    return None
            if name == '__class__':
                return o.cls
            if name in ('__doc__', '__weakref__'):
                return None
            if name == '__module__':
                return o.cls.module.name if o.cls.module else None
            if name in ('__eq__', '__repr__', '__hash__', '__ne__'):
                return Builtin(name, lambda it, a, k: None)
            if name == '__dict__':
                return o.attrs
            nat = self.native_base(o.cls)
            if nat is not None and issubclass(nat, BaseException):
                if name == 'args':
                    return o.attrs.get('args', ())
                if name in ('__cause__', '__context__', '__traceback__'):
                    return o.attrs.get('$cause') if name == '__cause__' else None
                if name == 'with_traceback':
                    return Builtin('with_traceback', lambda it, a, k: o)
                if name == 'add_note':
                    return Builtin('add_note', lambda it, a, k: None)
            if name == '__str__':
                return Builtin('__str__', lambda it, a, k: it.to_str(o))
            if name == '__init__':
                return Builtin('__init__', lambda it, a, k: None)
            ga = self.class_lookup(o.cls, '__getattr__')
            if ga is not None:
                return self.call(Bound(ga, o), [name])
            self.raise_native(AttributeError("%r object has no attribute %r" % (o.cls.name, name)))
        if t is Module:
            if name in o.env.vars:
                return o.env.vars[name]
            sub = o.name + '.' + name
            if self.module_path(sub) or os.path.isdir(os.path.join(self.root, *sub.split('.'))):
                return self.load(sub)
            self.raise_native(AttributeError('module %r has no attribute %r' % (o.name, name)))
        if t is NS:
            from . import pylib, builtins_ as b
            src = pylib.SOURCES.get(o.name)
            if src is not None and name in src[0] and o.from_import:
                return self.load_source('%s.py' % o.name, src[1]).env.vars[name]
            if o.attrs is not None and name in o.attrs:
                return o.attrs[name]
            return b.foreign(self, o, name)
        if t is Class:
            for c in o.mro:
                if isinstance(c, Class) and name in c.attrs:
                    v = c.attrs[name]
                    if type(v) is StaticM:
                        return v.f
                    if type(v) is ClassM:
                        return Bound(v.f, o)
                    return v
                if isinstance(c, type) and c is not object and hasattr(c, name) and name not in ('__name__', '__mro__', '__dict__', '__doc__', '__bases__', '__qualname__', '__module__', '__subclasses__'):
                    return NativeUnbound(c, name)
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.name
            if name == '__module__':
                return o.module.name if o.module else None
            if name == '__mro__':
                return tuple(o.mro) + ((object,) if object not in o.mro else ())
            if name == '__members__' or o.attrs.get('__members__') is not None and name in ('_member_map_', '_value2member_map_'):
                raise AnalysisError('enum internals')
            if name == '__dict__':
                return o.attrs
            if name == '__doc__':
                return o.attrs.get('__doc__')
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            if name == '__subclasses__':
                raise AnalysisError('__subclasses__')
            self.raise_native(AttributeError('type object %r has no attribute %r' % (o.name, name)))
        if t is Bound:
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name)
        if t is Func:
            if name in o.attrs:
                return o.attrs[name]
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return o.attrs
            self.raise_native(AttributeError("'function' object has no attribute %r" % name))
        if t is Super:
            mro = o.self_.mro if isinstance(o.self_, Class) else o.self_.cls.mro
            seen = False
            for c in mro:
                if c is o.owner:
                    seen = True
                    continue
                if not seen:
                    continue
                if isinstance(c, Class):
                    if name in c.attrs:
                        v = c.attrs[name]
                        if type(v) is Prop:
                            return self.call(v.fget, [o.self_])
                        return self.bind(v, o.self_, o.owner)
                elif isinstance(c, type) and c is not object:
                    return Bound(NativeUnbound(c, name), o.self_)
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda it, a, k: it.setattr(o.self_, a[0], a[1], True))
            if name == '__init_subclass__':
                return Builtin('object.__init_subclass__', lambda it, a, k: None)
            if name == '__new__':
                return Builtin('object.__new__', lambda it, a, k: it.fresh_inst(a[0]))
            if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__getattribute__', '__delattr__', '__format__'):
                raise AnalysisError('super().%s' % name)
            self.raise_native(AttributeError("'super' object has no attribute %r" % name))
        if t is Prop:
            if name == 'setter':
                return Builtin('setter', lambda it, a, k: Prop(o.fget, a[0]))
            if name == 'fget':
                return o.fget
        if t is Top:
            return Top('%s.%s' % (o.name, name))
        if t is Fin:
            if o.is_str() or o.is_int():
                return NativeMethod(o, name)
            return self.getattr(o.force(), name)
        if isinstance(o, BaseException):
            if name == 'args':
                return o.args
            if name == '__cause__' or hasattr(o, name) and is_prim(getattr(o, name)):
                return getattr(o, name)
            if name in ('__class__',):
                return type(o)
            if name == 'with_traceback':
                return Builtin('with_traceback', lambda it, a, k: o)
            self.raise_native(AttributeError(name))
        if t in (int, AbsInt, Fin) and name in ('name', 'value', '_name_', '_value_') and self.int_enums:
            if name in ('value', '_value_'):
                return o
            raise AnalysisError('name of an IntEnum member')
        if t in (bytes, AbsBytes) and name in ('tobytes', 'release', 'toreadonly'):
            return Builtin(name, lambda it, a, k: o if name != 'release' else None)
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            if hasattr(o, name):
                return NativeUnbound(o, name)
            self.raise_native(AttributeError('type object %r has no attribute %r' % (o.__name__, name)))
        if t is FileObj:
            if name == 'closed':
                return o.closed
            if name == 'name':
                return o.name
            return NativeMethod(o, name)
        if t is slice:
            return getattr(o, name)
        if t in (DictView, LazyIter, LazyGen):
            return NativeMethod(o, name)
        proto = {AbsInt: int, AbsStr: str, AbsBytes: bytes, Buf: bytearray, Cond: bool, RepList: list}.get(t, t)
        if hasattr(proto, name):
            if name == '__class__':
                return proto
            if name in ('real', 'numerator') and proto is int:
                return o
            if name in ('imag',) and proto is int:
                return 0
            if name == '__doc__':
                return None
            return NativeMethod(o, name)
        if t is Builtin:
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == 'from_iterable' and o.name == 'chain':
                return Builtin('from_iterable', lambda it, a, k: [y for x in it.iterate(a[0]) for y in it.iterate(x)])
            if name in ('from_bytes', 'fromhex', 'fromkeys', 'maketrans', 'join'):
                return NativeUnbound({'int': int, 'bytes': bytes, 'dict': dict, 'str': str, 'bytearray': bytearray}[o.name], name)
            base = {'int': int, 'str': str, 'bytes': bytes, 'dict': dict, 'list': list, 'tuple': tuple,
                    'bytearray': bytearray, 'object': object}.get(o.name)
            if base is not None and hasattr(base, name):
                return NativeUnbound(base, name)
        self.raise_native(AttributeError('%r object has no attribute %r' % (self.tname(o), name)))

    def native_base(self, cls):
        for c in cls.mro:
            if isinstance(c, type) and c is not object:
                return c
        return None

    def bind(self, v, o, cls):
        t = type(v)
        if t is Func:
            return Bound(v, o)
        if t is StaticM:
            return v.f
        if t is ClassM:
            return Bound(v.f, o.cls if isinstance(o, Inst) else o)
        if t is Builtin and getattr(v, 'name', '').startswith('partialmethod'):
            return Bound(v, o)
        return v

    def setattr(self, o, name, v, plain=False):
        t = type(o)
        if t is Inst:
            if not plain:
                sa = self.class_lookup(o.cls, '__setattr__')
                if sa is not None:
                    self.call(Bound(sa, o), [name, v])
                    return
            ca = self.class_lookup(o.cls, name)
            if type(ca) is Inst:
                ds = self.class_lookup(ca.cls, '__set__')
                if ds is not None:
                    self.call(Bound(ds, ca), [o, v])
                    return
            if type(ca) is Prop:
                if ca.fset is None:
                    self.raise_native(AttributeError("can't set attribute"))
                self.call(ca.fset, [o, v])
                return
            self.touch(o.attrs)
            h = self.hooks.get('setattr')
            if h:
                h(o, name, v)
            o.attrs[name] = v
            return
        if t in (Func, Class):
            self.touch(o.attrs)
            o.attrs[name] = v
            return
        if t is Bound:
            self.raise_native(AttributeError("'method' object has no attribute %r" % name))
        if t is Module:
            self.touch(o.env.vars)
            o.env.vars[name] = v
            return
        if isinstance(o, BaseException):
            if name == 'args':
                try:
                    o.args = tuple(v)
                except TypeError:
                    o.args = (str(v),)
                return
            setattr(o, name, v)
            return
        if t is NS:
            if o.attrs is not None:
                self.touch(o.attrs)
                o.attrs[name] = v
            return
        if t is Top:
            return
        self.raise_native(AttributeError('%r object has no attribute %r' % (self.tname(o), name)))

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except InterpRaise as e:
            if isinstance(e.value, AttributeError):
                return False
            raise

    # ------------------------------------------------------------------ calls
    def is_callable(self, v):
        t = type(v)
        if t in (Func, Bound, Class, Builtin, NativeMethod, NativeUnbound) or isinstance(v, type):
            return True
        if t is Inst:
            return self.class_lookup(v.cls, '__call__') is not None
        if t is Top:
            return True
        if t is Fin:
            return self.is_callable(v.force())
        return False

    def call(self, f, args, kwargs=None):
        t = type(f)
        if t is Bound:
            if type(f.func) is Func:
                return self.call_func(f.func, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if t is Func:
            return self.call_func(f, args, kwargs)
        if t is Builtin:
            return f.fn(self, list(args), kwargs or {})
        if t is NativeMethod:
            from . import builtins_ as b
            return b.native_method(self, f.o, f.name, list(args), kwargs or {})
        if t is Class:
            return self.instantiate(f, args, kwargs)
        if t is NativeUnbound:
            from . import builtins_ as b
            return b.native_unbound(self, f.cls, f.name, list(args), kwargs or {})
        if t is Inst:
            m = self.class_lookup(f.cls, '__call__')
            if m is None:
                self.raise_native(TypeError('%r object is not callable' % f.cls.name))
            return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, type):
            from . import builtins_ as b
            return b.call_type(self, f, list(args), kwargs or {})
        if t is Fin:
            return self.call(f.force(), args, kwargs)
        if t is Top:
            return Top('%s()' % f.name)
        if t is StaticM or t is ClassM:
            return self.call(f.f, args, kwargs)
        self.raise_native(TypeError('%r object is not callable' % self.tname(f)))

    def instantiate(self, cls, args, kwargs):
        if type(cls.attrs.get('__members__')) is dict:
            for m in self.members(cls):
                v = m.attrs['value'] if type(m) is Inst else m
                if args[0] is m or self.truth(self.equal(v, args[0])):
                    return m
            self.raise_native(ValueError('not a valid %s' % cls.name))
        nt = self.class_lookup(cls, '__is_namedtuple__')
        if nt is not None:
            inst = self.call(nt, args, kwargs)
            inst.cls = cls
            return inst
        new = self.class_lookup(cls, '__new__')
        if type(new) in (StaticM, Func):
            fn = new.f if type(new) is StaticM else new
            inst = self.call(fn, [cls] + list(args), kwargs)
            if type(inst) is not Inst or not inst.cls.is_sub(cls):
                return inst
        else:
            inst = self.fresh_inst(cls)
        nat = self.native_base(cls)
        if nat is not None and issubclass(nat, BaseException):
            inst.attrs['args'] = tuple(args)
        init = self.class_lookup(cls, '__init__')
        if init is not None:
            self.call(self.bind(init, inst, cls), args, kwargs)
        elif '$v' in inst.attrs:
            from . import builtins_ as b
            b.native_unbound(self, nat, '__init__', [inst] + list(args), kwargs or {})
        elif (args or kwargs) and (nat is None or not issubclass(nat, BaseException)) and type(new) not in (StaticM, Func):
            self.raise_native(TypeError('%s() takes no arguments' % cls.name))
        return inst

    def fresh_inst(self, cls):
        inst = Inst(cls)
        nat = self.native_base(cls)
        if nat is not None and not issubclass(nat, BaseException):
            if nat not in (dict, list, set):
                raise AnalysisError('instance of a subclass of %s' % nat.__name__)
            inst.attrs['$v'] = nat()
        return inst

    def call_func(self, f, args, kwargs):
        if len(self.stack) > 220:
            self.raise_native(RecursionError('maximum recursion depth exceeded'))
        env = Env(f.env, f.module, f.code['locals'], f)
        self.bind_args(f, env, args, kwargs or {})
        env.globals_ = f.code['globals']
        env.nonlocals = f.code['nonlocals']
        self.called.add((f.module.name, f.qualname))
        h = self.hooks.get('call')
        if h:
            h(f, args, kwargs)
        if f.is_gen:
            return LazyGen(self.drive(f, env))
        self.stack.append(f)
        line = self.line
        try:
            f.body(env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.stack.pop()
            self.line = line

    def drive(self, f, env):
        '''runs the body of a generator function on demand'''
        g = f.body(env)
        send = None
        exc = None
        while True:
            if len(self.stack) > 220:
                self.raise_native(RecursionError('maximum recursion depth exceeded'))
            self.stack.append(f)
            depth = len(self.stack)
            line = self.line
            try:
                if exc is not None:
                    e, exc = exc, None
                    x = g.throw(e)
                else:
                    x = g.send(send)
            except StopIteration:
                return None
            except ReturnEx as r:
                return r.value
            finally:
                del self.stack[depth - 1:]
                self.line = line
            send = None
            try:
                send = yield x
            except InterpRaise as e:
                exc = e

    def bind_args(self, f, env, args, kwargs):
        p = f.params
        v = env.vars
        pos = p['pos']
        n = len(args)
        if n > len(pos) and not p['vararg']:
            self.raise_native(TypeError('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), n)))
        for name, a in zip(pos, args):
            v[name] = a
        if p['vararg']:
            v[p['vararg']] = tuple(args[len(pos):])
        extra = {}
        for k, a in kwargs.items():
            if k in p['names']:
                if k in v:
                    self.raise_native(TypeError('%s() got multiple values for argument %r' % (f.name, k)))
                v[k] = a
            elif p['kwarg']:
                extra[k] = a
            else:
                self.raise_native(TypeError('%s() got an unexpected keyword argument %r' % (f.name, k)))
        if p['kwarg']:
            v[p['kwarg']] = extra
        d = p['defaults']
        for name in pos:
            if name not in v:
                if name in d:
                    v[name] = d[name]
                else:
                    self.raise_native(TypeError('%s() missing required argument %r' % (f.name, name)))
        for name in p['kwonly']:
            if name not in v:
                if name in d:
                    v[name] = d[name]
                else:
                    self.raise_native(TypeError('%s() missing keyword argument %r' % (f.name, name)))

    # ------------------------------------------------------------------ strings
    def to_str(self, v):
        return strs.to_str(self, v)

    # ------------------------------------------------------------------ exceptions
    def exc_matches(self, exc, typ):
        if type(typ) is tuple:
            return any(self.exc_matches(exc, t) for t in typ)
        if type(exc) is Inst:
            if type(typ) is Class:
                return exc.cls.is_sub(typ)
            if isinstance(typ, type):
                return exc.cls.is_sub(typ)
            if type(typ) is Builtin:
                return False
            return False
        if isinstance(typ, type):
            return isinstance(exc, typ)
        return False


KNOWN_OPERANDS = (int, bool, str, bytes, float, type(None), list, tuple, dict, set, frozenset, slice, AbsInt, AbsStr, AbsBytes,
                  Buf, Cond, Inst, Class, Func, Bound, Module)


class DictView:
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def materialize(self):
        if self.kind == 'keys':
            return list(self.d)
        if self.kind == 'values':
            return list(self.d.values())
        return list(self.d.items())


class LazyIter:
    '''iterator over an already known sequence'''

    def __init__(self, items):
        self.items = items
        self.i = 0

    def __iter__(self):
        while self.i < len(self.items):
            x = self.items[self.i]
            self.i += 1
            yield x


class LazyGen(LazyIter):
    '''generator expression: evaluated on demand'''

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self.gen


class AbsRange:
    '''range() with abstract bounds: partitioned by trip count up to a bound'''
    LIMIT = 4

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def iterate(self, it):
        i = self.start
        n = 0
        step = const_of(self.step)
        if step is None or step == 0:
            raise AnalysisError('range with unknown step')
        # a constant distance between the bounds gives the trip count
        distance = const_of(binop('-', self.stop, self.start))
        if distance is not None:
            for k in range(0, distance, step):
                yield binop('+', self.start, k)
            return
        while it.truth(compare('<' if step > 0 else '>', i, self.stop)):
            if n >= self.LIMIT:
                it.bounded = True
                raise Infeasible()
            yield i
            i = binop('+', i, step)
            n += 1


class NativeMethod:
    __slots__ = ('o', 'name')

    def __init__(self, o, name):
        self.o, self.name = o, name


class NativeUnbound:
    __slots__ = ('cls', 'name')

    def __init__(self, cls, name):
        self.cls, self.name = cls, name


def explode(segs):
    '''list of byte values, or None when a length is unknown'''
    out = []
    for s in norm_segs(segs):
        if isinstance(s, bytes):
            out.extend(s)
        elif isinstance(s, ByteSeg):
            out.append(s.v)
        else:
            return None
    return out


from .compiler import Compiler  # noqa: E402
