'''C17: sources, link passes and output follow the command line.'''
import ast
import os

from .model import *
from . import clients
from absint import harness

RULE = ('every source in order into one program; own passes then given passes, pre-link before and post-link after the label resolution, the linker last, '
        'each once; exactly the linked bytes to the last argument; no file is written when anything fails or an argument is missing; '
        'every declared console script names a callable')
EXPLANATION = '''Abstract interpretation of the command line entry points with symbolic source contents and file names; passes and linkers are clients that
leave a mark for every call, so that the order and the number of calls are visible in the bytes written. The console scripts are read from setup.py.'''
ASSUMPTIONS = ['the destination differs from the sources']
MIN_OBLIGATIONS = 60

clients.SOURCES['cli'] = clients.SOURCES['core'] + '''

from necroassembler import pre_link, post_link


class Marks(LE):

    @pre_link
    def own_pre(self):
        self.assemble('LOAD8 early')

    @post_link
    def own_post(self):
        total = 0
        for x in self.assembled_bytes[-2:]:
            total += x
        self.assembled_bytes += pack_le16u(total)


class Plain(LE):
    pass


def pre_a(asm):
    asm.assemble('.db 0xa1')


def pre_b(asm):
    asm.assemble('.db 0xa2')


def post_a(asm):
    asm.assembled_bytes.append(0xb1)


def post_b(asm):
    asm.assembled_bytes += asm.assembled_bytes[:1]


def failing(asm):
    raise ValueError('pass')


class Helper:
    def __init__(self, mark):
        self.mark = mark

    def apply(self, asm):
        asm.assembled_bytes.append(self.mark)


class Linker:
    def __init__(self, fail=False):
        self.calls = 0
        self.fail = fail

    def resolve_unknown_symbol(self, assembler, address, symbol_data):
        return 0x77

    def link(self, assembler):
        self.calls += 1
        if self.fail:
            raise ValueError('link')
        return b'HD' + bytes([self.calls]) + assembler.assembled_bytes + b'TL'
'''


def get(name):
    return interp().modules['client:cli'].env.vars[name]


class Files:
    def __init__(self, c):
        self.it = interp()
        self.c = c
        self.it.files = {}
        del self.it.opened[:]

    def put(self, name, *text):
        self.it.files[name] = {'text': S(*text)}

    def argv(self, *names):
        self.it.argv[:] = ['/bin/prog'] + list(names)

    def written(self):
        return [f for f in self.it.opened if 'w' in f.mode or 'a' in f.mode or '+' in f.mode or 'x' in f.mode]

    def result(self, r, dest, exp):
        '''exactly one file, the destination, with exactly these bytes'''
        if not r.ok:
            return ('value', r, b'')
        w = self.written()
        if len(w) != 1:
            return ('bad', '%d files written' % len(w))
        if not self.it.truth(self.it.equal(w[0].name, dest)):
            return ('bad', 'written to another file')
        if 'b' not in w[0].mode or 'w' not in w[0].mode:
            return ('bad', 'output opened as %s' % w[0].mode)
        got = AbsBytes([s for x in w[0].written for s in segs_of(x)])
        return ('value', got, AbsBytes(exp))

    def nothing(self, r, refused=True):
        if self.written():
            return ('bad', 'a file is written although the command line fails')
        return ('reject', r) if refused else ('good',)


def src(c, i):
    '''one source: (text, segments with label fixups)'''
    n = c.sym('N%d' % i, 0, 255)
    return S('LOAD8 ', num(n), '\n'), [b'\x18', B(n)]


def sources(k, cls, passes, lk):
    '''k sources; labels referenced across them'''
    def body(c):
        f = Files(c)
        names = ['s%d.S' % i for i in range(k)]
        dest = S(NamePiece('D'), '.bin')
        exp = []
        mark = cls == 'Marks'
        for i, n in enumerate(names):
            t, s = src(c, i)
            nxt = 'l%d' % ((i + 1) % k)
            # nop keeps the addresses apart: each label is 2 + 5 i
            f.put(n, t, 'l%d: LOAD8 %s\n' % (i, nxt), *(['early: nop'] if i == 0 else ['nop']))
            exp += s + [b'\x18', bytes([2 + 5 * ((i + 1) % k)]), b'\x90']
        f.argv(*(names + [dest]))
        kw = {}
        if passes:
            kw = {'pre_link_passes': [get('pre_a'), get('pre_b')],
                  'post_link_passes': [get('post_a'), get('post_b'), f.it.getattr(f.it.instantiate(get('Helper'), [0xc7], {}), 'apply')]}
        if mark:
            exp += [b'\x18\4']
        if passes:
            exp += [b'\xa1\xa2']
        if mark:
            last = exp[-1] if passes else b'\x18\4'
            exp += le_bytes(sum(last[-2:]), 2)
        if passes:
            exp += [b'\xb1', b'\x18', b'\xc7']
        if lk:
            kw['linker'] = f.it.instantiate(get('Linker'), [], {})
            exp = [b'HD\1'] + exp + [b'TL']
        c.show('sources %d' % k)
        r = c.call(f.it.getattr(get(cls), 'main'), **kw)
        return f.result(r, dest, exp)
    return FnCase('%d sources of %s%s%s' % (k, cls, ' with passes' if passes else '', ' with a linker' if lk else ''), body)


def order(names):
    '''any names; the same source may be given twice'''
    def body(c):
        f = Files(c)
        vals = {}
        for n in names:
            if n not in vals:
                t, vals[n] = src(c, len(vals))
                f.put(n, t)
        f.argv(*(names + ['out']))
        c.show(' '.join(names))
        r = c.call(f.it.getattr(get('Plain'), 'main'))
        return f.result(r, 'out', [s for n in names for s in vals[n]])
    return FnCase('order of ' + ' '.join(names), body)


def unresolved_by_linker():
    def body(c):
        f = Files(c)
        f.put('a', 'LOAD8 nowhere\n')
        f.argv('a', 'out')
        c.show('linker resolves a label')
        r = c.call(f.it.getattr(get('Plain'), 'main'), linker=f.it.instantiate(get('Linker'), [], {}))
        return f.result(r, 'out', [b'HD\1\x18\x77TL'])
    return FnCase('label resolved by the linker', body)


def usage(args, cls):
    def body(c):
        f = Files(c)
        for a in args:
            f.put(a, 'nop\n')
        f.argv(*args)
        c.show('prog', *args)
        r = c.call(f.it.getattr(get(cls), 'main'))
        if f.it.opened:
            return ('bad', 'a file is opened although an argument is missing')
        if r.ok and not f.it.stdout:
            return ('bad', 'nothing is reported')
        return ('good',)
    return FnCase('usage of %s with %d arguments' % (cls, len(args)), body)


FAILS = {
    'unknown instruction in the first source': ({'a': 'BOGUS\n', 'b': 'nop\n'}, {}),
    'unknown instruction in the last source': ({'a': 'nop\n', 'b': 'BOGUS\n'}, {}),
    'missing source': ({'a': 'nop\n'}, {}),
    'missing first source': ({'b': 'nop\n'}, {}),
    'label defined in both sources': ({'a': 'x: nop\n', 'b': 'x: nop\n'}, {}),
    'unknown label': ({'a': 'nop\n', 'b': 'LOAD8 nowhere\n'}, {}),
    'label out of range': ({'a': '.org 255\nx: nop\ny:', 'b': 'LOAD8 y\n'}, {}),
    'failing pre-link pass': ({'a': 'nop\n', 'b': 'nop\n'}, {'pre_link_passes': 1}),
    'failing post-link pass': ({'a': 'nop\n', 'b': 'nop\n'}, {'post_link_passes': 1}),
    'failing linker': ({'a': 'nop\n', 'b': 'nop\n'}, {'linker': 1}),
}


def fails(key, files, kw):
    def body(c):
        f = Files(c)
        for n, t in files.items():
            f.put(n, t)
        f.argv('a', 'b', 'out')
        k = {}
        for n in kw:
            k[n] = f.it.instantiate(get('Linker'), [True], {}) if n == 'linker' else [get('failing')]
        c.show('a b out', repr(files))
        return f.nothing(c.call(f.it.getattr(get('Plain'), 'main'), **k))
    return FnCase('fails: ' + key, body, reject_any=True)


def api(files, save):
    '''assemble, assemble_file, link and save from a program'''
    def body(c):
        f = Files(c)
        it = f.it
        a = it.instantiate(get('Marks'), [], {})
        exp = []
        for i in range(files):
            t, s = src(c, i)
            f.put('f%d' % i, t, 'early: nop' if i == 0 else 'nop')
            r = c.call(it.getattr(a, 'assemble_file'), 'f%d' % i)
            if not r.ok:
                return ('value', r, b'')
            exp += s + [b'\x90']
        exp += [b'\x18\2']
        exp += le_bytes(26, 2)
        r = c.call(it.getattr(a, 'link'))
        if not r.ok:
            return ('value', r, b'')
        c.show('assemble_file x%d, link' % files)
        if not save:
            return ('value', it.getattr(a, 'assembled_bytes'), AbsBytes(exp))
        return f.result(c.call(it.getattr(a, 'save'), 'o'), 'o', exp)
    return FnCase('%d files %s' % (files, 'saved' if save else 'linked'), body)


class Scripts(Case):
    '''every console script of setup.py names a callable of the package'''

    def __init__(self):
        self.key = 'console scripts'

    def describe(self):
        return 'entry_points of setup.py'

    def decide(self):
        out = []
        it = interp()
        for name, target in scripts():
            mod, _, attr = target.partition(':')
            why = None
            try:
                o = it.load(mod)
                for i, part in enumerate(attr.split('.')):
                    if i == 0:
                        if part not in o.env.vars:
                            why = '%s has no %s' % (mod, part)
                            break
                        o = o.env.vars[part]
                    else:
                        o = it.getattr(o, part)
            except InterpRaise as e:
                why = 'loading %s fails' % target
            out.append(Verdict('console script %s' % name, 'violation' if why else 'proved', why or '', '%s=%s' % (name, target), 'setup.py'))
        return out


def scripts():
    tree = ast.parse(open(os.path.join(harness.REPO, 'setup.py')).read())
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == 'console_scripts' and isinstance(v, ast.List):
                    for e in v.elts:
                        a, _, b = e.value.partition('=')
                        out.append((a.strip(), b.strip()))
    return out


def script_case(name, target):
    '''source, destination through the entry point'''
    def body(c):
        f = Files(c)
        mod, _, attr = target.partition(':')
        o = f.it.load(mod).env.vars[attr.split('.')[0]]
        for p in attr.split('.')[1:]:
            o = f.it.getattr(o, p)
        n = c.sym('N', 0, 255)
        f.put('in.S', '.db ', num(n), ' 7\n.fill 3')
        f.argv('in.S', 'out.bin')
        c.show(name, 'in.S out.bin')
        r = c.call(o)
        if not r.ok:
            return ('value', r, b'')
        w = [x for x in f.written() if f.it.truth(f.it.equal(x.name, 'out.bin'))]
        if len(w) != 1:
            return ('bad', 'the destination is written %d times' % len(w))
        return ('value', AbsBytes([s for x in w[0].written for s in segs_of(x)]), AbsBytes([B(n), b'\7\0\0\0']))
    return FnCase('entry point %s' % name, body)


def script_fails(name, target):
    def body(c):
        f = Files(c)
        mod, _, attr = target.partition(':')
        o = f.it.load(mod).env.vars[attr.split('.')[0]]
        for p in attr.split('.')[1:]:
            o = f.it.getattr(o, p)
        f.put('in.S', '.db 1\nNOSUCHTHING 3\n')
        f.argv('in.S', 'out.bin')
        c.show(name, 'in.S out.bin')
        return f.nothing(c.call(o))
    return FnCase('failing source with %s' % name, body, reject_any=True)


def entry(name, target):
    mod, _, attr = target.partition(':')
    try:
        m = interp().load(mod)
    except Exception:
        return None
    return m if attr.split('.')[0] in m.env.vars else None


def cases(tier):
    for n in ('LE', 'Marks', 'Plain'):
        load_class('client:cli', n)
    for k in (1, 2, 3, 4):
        for cls in ('Plain', 'Marks'):
            for passes in (False, True):
                for lk in (False, True):
                    yield sources(k, cls, passes, lk)
    for names in (['a', 'b'], ['b', 'a'], ['a', 'a'], ['c', 'a', 'b'], ['b', 'a', 'b', 'a']):
        yield order(names)
    yield unresolved_by_linker()
    for cls in ('Plain', 'Marks'):
        yield usage([], cls)
        yield usage(['only.S'], cls)
    for k, (a, b) in FAILS.items():
        yield fails(k, a, b)
    for n in (1, 2):
        for s in (False, True):
            yield api(n, s)
    yield Scripts()
    for name, target in scripts():
        if entry(name, target) is None:
            continue
        yield script_fails(name, target)
        if name not in ('necro_gba', 'necro_psx', 'necro_genesis', 'necro_gb'):        # images with headers: C30, C33, C34
            yield script_case(name, target)
