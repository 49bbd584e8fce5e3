'''C06: every label has one meaning.'''
from .model import *

RULE = 'a label is defined at most once, is never also a number, is visible from every statement of every source, and a reference to an undefined label refuses the program'
EXPLANATION = '''Abstract interpretation of label definition and lookup over symbolic names (finite sets of spellings, symbolic
characters), positions and orders of definition and use.'''
ASSUMPTIONS = []
MIN_OBLIGATIONS = 40


def cases(tier):
    # uniqueness
    for mid in ('', 'insn', 'org', 'section', 'include', 'macro', 'repeat', 'db', 'orgb', 'align'):
        def dup(m, mid=mid):
            m.prefix()
            x, _ = m.fin('X', ('foo', 'Foo', 'f', 'foo2', '_foo', 'a.b'))
            y, _ = m.fin('Y', ('foo', 'FOO', 'f', 'foo3', 'foo_', 'a.b'))
            m.w(x, ':')
            if mid:
                FRAGS[mid](m)
            m.w(y, ':')
            if dec(_same(x, y)):
                raise Refused()
            m.w('nop')
            m.emit(b'\x90')
        yield case('defined twice %s' % mid, dup, reject_any=False)

        def dupsame(m, mid=mid):
            m.prefix()
            m.w(NamePiece('labX'), ':')
            if mid:
                FRAGS[mid](m)
            m.w(NamePiece('labX'), ':')
            raise Refused()
        yield case('defined twice, any name %s' % mid, dupsame, reject_any=False)

    def dup2(m):
        m.w(NamePiece('labX'), ':')
        raise Refused()
    # unknown references
    for ins in ('.db', '.dw', '.dd', 'LOAD8', 'REL8', 'ABS24', '.db_to_ascii', '.dw_to_ascii'):
        def unk(m, ins=ins):
            m.prefix()
            m.label(NamePiece('labY'), 'Y')
            m.w(ins, ' ', NamePiece('labX'))
            raise Refused()
        yield case('unknown label in %s' % ins, unk, reject_any=False)
    for f in (('labX', '+1'), ('labX', '-labY'), ('labY', '+labX'), ('labX', '*2'), ('labY', '&labX')):
        def unkf(m, f=f):
            m.prefix()
            m.label(NamePiece('labY'), 'Y')
            m.w('.dd ', NamePiece(f[0]), *([f[1]] if 'lab' not in f[1] else [f[1][0], NamePiece(f[1][1:])]))
            raise Refused()
        yield case('unknown label in formula %s%s' % f, unkf, reject_any=False)
    # case matters
    for a, b in (('foo', 'FOO'), ('Foo', 'foo')):
        def cs(m, a=a, b=b):
            m.prefix()
            f_load(m)
            m.label(a, a)
            m.w('nop')
            m.emit(b'\x90')
            m.label(b, b)
            m.w('.dd %s %s' % (a, b))
            m.ref(a, 4, 32)
            m.ref(b, 4, 32)
        yield case('labels %s and %s are different' % (a, b), cs)
    # names
    def chars(m):
        m.prefix()
        k = m.sym('C', 33, 126)
        for c in ' ,;:"\'()[]{}\\':
            if eq(k, ord(c)):
                raise Infeasible()
        cp = CharPiece(k, chars=set(map(chr, range(33, 127))) - set(' ,;:"\'()[]{}\\'))
        m.w('lab', cp, 'x:')
        m.w('nop')
        m.emit(b'\x90')
        ok = inr(k, 48, 57) or inr(k, 65, 90) or inr(k, 97, 122) or eq(k, 95) or eq(k, 46)
        if not ok:
            raise Refused()
    yield case('any character in a name', chars, reject_any=False)
    for pre, base, suf in (('', 10, ''), ('0x', 16, ''), ('0b', 2, ''), ('0o', 8, ''), ('0t', 10, ''), ('', 10, 'd'), ('', 2, 'y'), ('', 8, 'q')):
        def number(m, pre=pre, base=base, suf=suf):
            m.prefix()
            m.w(pre, NumPiece(m.sym('N', 0, 1 << 40), base), suf, ':')
            raise Refused()
        yield case('number as a label %s%d%s' % (pre, base, suf), number)

    def after(m):
        m.prefix()
        m.w('nop lab:')
        raise Refused()
    yield case('label after an instruction', after, reject_any=False)

    def empty(m):
        m.prefix()
        m.w(' :')
        raise Refused()
    yield case('label without a name', empty, reject_any=False)
    # several sources share the labels
    for order in ('def-use', 'use-def'):
        for frag in ('load', 'fill', 'db'):
            yield TwoSources('two sources %s %s' % (order, frag), order, frag)

    # a label inside an included file
    for way in ('in-out', 'out-in'):
        def inc(m, way=way):
            m.prefix()
            d, u = S('lab1:\nnop\n'), S('.dw lab1\n')
            m.files['inc'] = {'text': d if way == 'in-out' else u}
            if way == 'in-out':
                m.w('.include "inc"')
                m.labels['lab1'] = m.pc
                m.emit(b'\x90')
                m.w('.dw lab1')
                m.ref('lab1', 2, 16)
            else:
                m.w('.include "inc"')
                m.ref('lab1', 2, 16)
                m.label('lab1', 'lab1')
        yield case('label across an include %s' % way, inc)
    # label followed by a statement on the same line
    def same(m):
        m.prefix()
        n = m.sym('N', 0, 255)
        m.labels['here'] = m.pc
        m.w('here: LOAD8 ', num(n))
        m.emit(b'\x18', B(n))
        m.labels['x'] = m.labels['y'] = m.pc
        m.w('x: y: .dw here x y')
        for k in ('here', 'x', 'y'):
            m.ref(k, 2, 16)
    yield case('label on the line of a statement', same)


def _same(x, y):
    return x.fin.force() == y.fin.force()


class TwoSources(Case):
    def __init__(self, key, order, frag):
        self.key, self.asm, self.order, self.frag = key, LE, order, frag
        self.files, self.prepare, self.linker, self.reject_any = {}, None, None, False
        self.build = self._build

    def _build(self):
        m = M()
        a, b = M(), M()
        b.n = 50
        self.files = {}
        for q in (a, b):
            q.inputs, q.files = m.inputs, self.files
        if self.order == 'def-use':
            a.label('lab1', 'lab1')
            FRAGS[self.frag](a)
            b.cnt = a.cnt
            b.w('.dd lab1 Z9')
            b.ref('lab1', 4, 32)
            b.ref('Z9', 4, 32)
        else:
            a.w('.dd lab1 Z9')
            a.ref('lab1', 4, 32)
            a.ref('Z9', 4, 32)
            FRAGS[self.frag](a)
            b.cnt = a.cnt
            b.label('lab1', 'lab1')
            f_load(b)
        b.label('Z9', 'Z9')
        m.segs = a.segs + b.segs
        m.labels = {**a.labels, **b.labels}

        def expect(r):
            try:
                return ('bytes', m.resolve())
            except Refused:
                return ('reject',)
        return [S(*a.out), S(*b.out)], m.inputs, expect
