'''C14: a malformed statement is refused with a located error; no error is built and dropped.'''
import ast
import builtins
import os
import re

from .model import *
from absint import harness

RULE = 'an instruction logic that fails in any way is refused with an assembler error naming its line and emits nothing; every constructed error is raised; no broad handler swallows assembler errors'
EXPLANATION = '''Abstract interpretation of the instruction dispatch for every way a logic can fail, at several lines, sources, includes and macros,
followed by more statements on the same assembler; and a syntax tree analysis of the whole package: each place where an exception object is
built must flow into a raise, each broad handler around code that can raise assembler errors must raise.'''
ASSUMPTIONS = ['exceptions that are not errors of the program (exit, interrupt) are out of scope']
MIN_OBLIGATIONS = 250

FAIL = '''
from necroassembler import Assembler, opcode
from necroassembler.exceptions import AssemblerException, UnknownRegister, InvalidRegister, NotInBitRange, InvalidOpCodeArguments, UnknownLabel


class Own(AssemblerException):
    message = 'own error'


class Fail(Assembler):
    hex_prefixes = ('0x',)
    fill_value = 0x5a

    def register_instructions(self):
        self.register_instruction('NOP', b'\\x90')
        self.register_instruction('FLAMBDA', lambda instr: None)

    @opcode('LOAD8')
    def _load8(self, instr):
        return b'\\x18' + bytes((self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1),))

    @opcode('FNONE')
    def _f0(self, instr):
        pass

    @opcode('FVALUE')
    def _f1(self, instr):
        raise ValueError('x')

    @opcode('FINDEX')
    def _f2(self, instr):
        return instr.tokens[99]

    @opcode('FKEY')
    def _f3(self, instr):
        return {}[instr.tokens[0]]

    @opcode('FTYPE')
    def _f4(self, instr):
        return 1 + instr.tokens[0]

    @opcode('FATTR')
    def _f5(self, instr):
        return instr.nothing

    @opcode('FASSERT')
    def _f6(self, instr):
        assert instr.tokens == []

    @opcode('FZERO')
    def _f7(self, instr):
        return b'' * (1 // (len(instr.tokens) - len(instr.tokens)))

    @opcode('FREG')
    def _f8(self, instr):
        raise UnknownRegister(instr)

    @opcode('FREG0')
    def _f9(self, instr):
        raise InvalidRegister()

    @opcode('FRANGE')
    def _f10(self, instr):
        raise NotInBitRange(999, 8)

    @opcode('FLABEL')
    def _f11(self, instr):
        raise UnknownLabel('lab')

    @opcode('FOWN')
    def _f12(self, instr):
        raise Own()

    @opcode('FCLASS')
    def _f13(self, instr):
        raise InvalidOpCodeArguments

    @opcode('FPARSE')
    def _f14(self, instr):
        return bytes((self.parse_integer('300', 8, False),))

    @opcode('FNEST')
    def _f15(self, instr):
        try:
            return {}[0]
        except KeyError:
            raise InvalidOpCodeArguments(instr)

    @opcode('FUNICODE')
    def _f16(self, instr):
        return '\\xe9'.encode('ascii')

    @opcode('FNAME')
    def _f17(self, instr):
        return not_defined_anywhere
'''
KINDS = ['FNONE', 'FLAMBDA'] + re.findall(r"'(F[A-Z0-9]+)'\)\n    def _f(?!0\()", FAIL)
OTHER = {'unknown instruction': 'nosuch 1', 'literal too big': 'LOAD8 256', 'negative hex': 'LOAD8 0x-1', 'missing operand': 'LOAD8',
         'operand of a plain instruction': 'NOP 1', 'bad literal': 'LOAD8 0xzz', 'division by zero': 'LOAD8 4/0', 'unknown label in a formula': 'LOAD8 3+nolab'}
ANY = ('client:fail', 'Fail')


def lineno(r, n):
    m = r.msg
    if not m or not isinstance(m[0], (str, AbsStr)):
        return False
    t = m[0] if isinstance(m[0], str) else ''.join(x if isinstance(x, str) else '?' for x in m[0].p)
    return re.search(r'\b%d\b' % n, t) is not None


def named(r, name):
    m = r.msg
    return bool(m) and isinstance(m[0], (str, AbsStr)) and name in (m[0] if isinstance(m[0], str) else repr(m[0]))


def check(r, n, ctx, what):
    if r.ok:
        return 'bad', '%s is accepted' % what
    if not r.is_asm:
        return 'bad', '%s raises %s (%s at %s) instead of an assembler error' % (what, r.exc, r.msg, r.where)
    if not lineno(r, n):
        return 'bad', '%s: the error does not carry the line %d: %s' % (what, n, r.msg)
    if ctx and not named(r, ctx):
        return 'bad', '%s: the error does not carry the source %s: %s' % (what, ctx, r.msg)
    return None


def located(src, kind, what, before, way):
    def body(c):
        it = interp()
        asm = fresh(*ANY)
        v = c.sym('V', 0, 255)
        w = c.sym('W', 0, 255)
        pre = ['\n' * before, 'LOAD8 ', num(v), '\n']
        n = before + 2
        bad = S(*pre, src, '\nNOP\n')
        ctx = None
        exp = [b'\x18', B(v)]
        if way == 'plain':
            r = c.call(it.getattr(asm, 'assemble'), bad)
        elif way == 'context':
            ctx = 'some.S'
            r = c.call(it.getattr(asm, 'assemble'), bad, ctx)
        elif way == 'file':
            ctx = 'file.S'
            it.files = {'file.S': {'text': bad}}
            r = c.call(it.getattr(asm, 'assemble_file'), 'file.S')
        elif way == 'include':
            ctx = 'inner.S'
            it.files = {'inner.S': {'text': bad}}
            r = c.call(it.getattr(asm, 'assemble'), '\n\n\n\n\n\n\n\n\n\n\n\n\n.include "inner.S"\n', 'outer.S')
        elif way == 'macro':
            ctx = 'some.S'
            bad = S('.macro mm\n', '\n' * before, src, '\n.endmacro\n\n\n\n\n\n\n\n\n\n\n\nLOAD8 ', num(v), '\nmm\nNOP\n')
            r = c.call(it.getattr(asm, 'assemble'), bad, ctx)
        c.show('%s source:' % way, bad)
        e = check(r, n, ctx, what)
        if e:
            return e
        # nothing is emitted by the failed statement, and the assembler goes on from there
        r2 = c.call(it.getattr(asm, 'assemble'), S('lx:\nLOAD8 ', num(w), '\n.dd lx\n'))
        if not r2.ok:
            return 'bad', 'after %s a correct source is refused with %s %s' % (what, r2.exc, r2.msg)
        r3 = c.call(it.getattr(asm, 'link'))
        if not r3.ok:
            return 'bad', 'after %s linking is refused with %s %s' % (what, r3.exc, r3.msg)
        return 'value', it.getattr(asm, 'assembled_bytes'), AbsBytes(exp + [b'\x18', B(w), b'\2\0\0\0'])
    return FnCase('%s at line %d (%s)' % (kind, before + 2, way), body, reject_any=False)


# --------------------------------------------------------------------- errors that are built must be raised
BASE_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Package:
    def __init__(self):
        self.trees = {}
        root = os.path.join(harness.REPO, 'necroassembler')
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p, encoding='utf-8').read(), p)
                    for n in ast.walk(t):
                        for ch in ast.iter_child_nodes(n):
                            ch.parent = n
                    self.trees[os.path.relpath(p, harness.REPO)] = t
        self.exc = set(BASE_EXC)
        self.asm = {'AssemblerException'}
        grew = True
        while grew:
            grew = False
            for t in self.trees.values():
                for n in ast.walk(t):
                    if isinstance(n, ast.ClassDef):
                        bases = {name_of(b) for b in n.bases}
                        for s in (self.exc, self.asm):
                            if bases & s and n.name not in s:
                                s.add(n.name)
                                grew = True
        # names of functions of the package from which an assembler error can escape
        self.defs = {}
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef):
                    self.defs.setdefault(n.name, []).append(n)
        self.raising = set()
        grew = True
        while grew:
            grew = False
            for name, fs in self.defs.items():
                if name in self.raising:
                    continue
                if any(self.may_raise(f.body) for f in fs):
                    self.raising.add(name)
                    grew = True
        for c, init in (('', ''),):
            pass

    def may_raise(self, body):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Raise) and n.exc is not None and name_of(n.exc) in self.asm:
                    return True
                if isinstance(n, ast.Call) and (name_of(n.func) in self.raising):
                    return True
        return False


def name_of(n):
    if isinstance(n, ast.Call):
        n = n.func
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Name):
        return n.id
    return None


def func_of(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        n = getattr(n, 'parent', None)
    return n


def qual(path, n):
    names = []
    m = n
    while m is not None:
        if isinstance(m, (ast.FunctionDef, ast.ClassDef)):
            names.append(m.name)
        m = getattr(m, 'parent', None)
    return '%s:%s (%s)' % (path, n.lineno, '.'.join(reversed(names)) or 'module')


class Site(Case):
    '''one construction of an error object'''

    def __init__(self, pkg, path, node):
        self.pkg, self.path, self.node = pkg, path, node
        self.key = 'error built at %s' % qual(path, node)
        self.reject_any = False

    def describe(self):
        return ast.unparse(self.node)

    def decide(self):
        r = self.flow(self.node, 0)
        if r is True:
            return [Verdict(self.key, 'proved', trace=[self.path])]
        if r is None:
            return [Verdict(self.key, 'undecided', 'the error object escapes', '', qual(self.path, self.node))]
        return [Verdict(self.key, 'violation', 'the error is built and not raised: %s' % r, ast.unparse(self.node), qual(self.path, self.node))]

    def flow(self, node, depth):
        '''True: raised; str: dropped; None: unknown'''
        p = node.parent
        if isinstance(p, ast.Raise):
            return True
        if isinstance(p, ast.Expr):
            return 'expression statement'
        if isinstance(p, (ast.IfExp, ast.BoolOp)):
            return self.flow(p, depth)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func is not node:
            return None if not (isinstance(p.parent, ast.Expr) and p.func.attr in ('append', 'add', 'extend')) else None
        if isinstance(p, ast.Attribute):        # Err(...).with_traceback(...)
            return self.flow(p.parent, depth) if isinstance(p.parent, ast.Call) else None
        if isinstance(p, ast.Assign):
            f = func_of(p)
            names = [t.id for t in p.targets if isinstance(t, ast.Name)]
            if len(names) != len(p.targets) or f is None:
                return None
            uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)]
            if not uses:
                return 'assigned to %s, which is never used' % names[0]
            rs = [self.flow(u, depth) for u in uses if not isinstance(u.parent, (ast.Compare, ast.If))]
            if True in rs:
                return True
            if rs and all(isinstance(r, str) for r in rs):
                return rs[0]
            return None
        if isinstance(p, ast.Return):
            f = func_of(p)
            if not isinstance(f, ast.FunctionDef) or depth > 3:
                return None
            calls = [(n) for t in self.pkg.trees.values() for n in ast.walk(t) if isinstance(n, ast.Call) and name_of(n) == f.name]
            if not calls:
                return 'returned by %s, whose result is not raised anywhere' % f.name
            rs = [self.flow(c, depth + 1) for c in calls]
            for r in rs:
                if isinstance(r, str):
                    return 'returned by %s: %s' % (f.name, r)
            return True if all(r is True for r in rs) else None
        return None


class Handler(Case):
    '''one broad exception handler around code that can raise assembler errors'''

    def __init__(self, pkg, path, tr, h):
        self.pkg, self.path, self.tr, self.h = pkg, path, tr, h
        self.key = 'handler at %s' % qual(path, h)
        self.reject_any = False

    def describe(self):
        return ast.unparse(self.h)[:200]

    def decide(self):
        types = [] if self.h.type is None else [name_of(x) for x in (self.h.type.elts if isinstance(self.h.type, ast.Tuple) else [self.h.type])]
        broad = self.h.type is None or any(t in ('Exception', 'BaseException', 'AssemblerException') for t in types)
        if not broad:
            return [Verdict(self.key, 'proved')]
        # earlier handlers of the same try may already take the assembler errors
        for o in self.tr.handlers:
            if o is self.h:
                break
            if o.type is not None and name_of(o.type) == 'AssemblerException':
                broad = False
        body = self.tr.body
        can = self.pkg.may_raise(body) or any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and self.unknown(n) for s in body for n in ast.walk(s))
        if not (can if broad else True) or always_raises(self.h.body):
            return [Verdict(self.key, 'proved')]
        if not any(isinstance(n, ast.Raise) for s in self.h.body for n in ast.walk(s)):
            used = [n for s in self.h.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == self.h.name]
            if used:
                return [Verdict(self.key, 'undecided', 'the caught error is kept', '', qual(self.path, self.h))]
            if self.pkg.may_raise(body):
                return [Verdict(self.key, 'violation', 'assembler errors raised by the guarded code are dropped', ast.unparse(self.h)[:120], qual(self.path, self.h))]
        return [Verdict(self.key, 'undecided', 'some path of the handler does not raise', '', qual(self.path, self.h))]

    def unknown(self, call):
        return False


def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
    return False


def cases(tier):
    from checks import clients
    clients.SOURCES['fail'] = FAIL
    for k in KINDS:
        for way in ('plain', 'context', 'file', 'include', 'macro'):
            for before in (0, 5) if tier == 'quick' else (0, 1, 5, 8, 40):
                yield located('%s 77 88' % k, 'logic %s' % k, 'a failing logic (%s)' % k, before, way)
    for what, src in OTHER.items():
        for way in ('plain', 'context', 'file', 'include', 'macro'):
            yield located(src, what, what, 6, way)
    pkg = Package()
    n = 0
    for path, t in pkg.trees.items():
        seen = {}
        for node in ast.walk(t):
            if isinstance(node, ast.Call) and name_of(node) in pkg.exc and isinstance(node.func, (ast.Name, ast.Attribute)):
                yield Site(pkg, path, node)
            elif isinstance(node, ast.Expr) and isinstance(node.value, (ast.Name, ast.Attribute)) and name_of(node.value) in pkg.exc:
                yield Site(pkg, path, node.value)
            elif isinstance(node, ast.Try):
                for h in node.handlers:
                    yield Handler(pkg, path, node, h)
