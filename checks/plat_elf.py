'''C35: the ELF entry points write an object for their processor.'''
from .plat import *
from .core_elf import P, BODIES, BAD

RULE = ('the entry points of the ELF platforms write exactly one file, the destination: a relocatable ELF object of the class, byte order and machine number of '
        'the processor, describing the sections and exported labels of the sources; a refused program writes nothing')
EXPLANATION = '''Abstract interpretation of the entry points on command lines with one and with two sources: sections with unknown contents and addresses, exported labels,
and instructions of the processor.'''
ASSUMPTIONS = ['section contents of symbolic length and content; the instruction encodings themselves are the subject of the processor properties']
MIN_OBLIGATIONS = 20

# bits, big endian, machine, section alignment, some instructions (text, bytes)
TARGETS = {
    'i386_elf32': (32, False, 3, 0, ('NOP\nCLC\nHLT\n', b'\x90\xf8\xf4')),
    'ppc_elf32': (32, True, 0x14, 4, ('li r3, 5\nnop\nblr\n', bytes.fromhex('38600005600000004e800020'))),
    'x86_64_elf64': (64, False, 0x3e, 0, ('CLC\nHLT\n', b'\xf8\xf4')),
}


def program(target, key, parts):
    bits_, big, machine, align, _ = TARGETS[target]

    def body(c):
        p = P(big, bits_)
        p.inputs = c.inputs
        p.filler = 0
        texts, bad = [], False
        try:
            for b in parts:
                p.out = []
                texts.append(p.out)
                b(p)
            p.finish()
            exp = p.elf(1, machine, align, p.resolve())
        except Refused:
            bad = True
        names = ['in%d.S' % i for i in range(len(texts))]
        f, main = entry(c, 'necroassembler.platforms.' + target, *names, 'out.o')
        for n, t in zip(names, texts):
            f.put(n, *t)
        f.it.files.update(p.files)
        c.show(*[S(*t) for t in texts])
        r = c.call(main)
        if bad:
            return f.nothing(r)
        return f.result(r, 'out.o', exp)
    return FnCase('%s: %s' % (target, key), body, reject_any=True)


def instructions(target):
    text, code = TARGETS[target][4]

    def body(p):
        p.section('.text', ('RX', 6))
        p.lab('start')
        p.w(text)
        p.emit(code)
        p.lab('end', export=False)
        p.blob()
        p.export('start')
    return body


def one(p):
    p.section('.text', ('RX', 6))
    p.lab('start')
    p.blob()
    p.lab('inner', export=False)
    p.w('.dd later')
    p.ref('later', 4, 32)


def two(p):
    p.lab('later')
    p.blob()
    p.section('.data', ('RW', 3))
    p.lab('words')
    p.w('.dd inner')
    p.ref('inner', 4, 32)
    p.export('start', 'words', 'later')


def fails(target, text):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.' + target, 'in.S', 'out.o')
        f.put('in.S', text)
        c.show(text)
        return f.nothing(c.call(main))
    return FnCase('%s: nothing is written for a refused program: %s' % (target, ' '.join(text.split())), body, reject_any=True)


def usage(target, names):
    def body(c):
        f, main = entry(c, 'necroassembler.platforms.' + target, *names)
        f.put('in.S', 'x:\n')
        r = c.call(main)
        c.show('command line', *names)
        if not r.ok:
            return ('bad', 'fails with %s' % r.exc)
        return f.nothing(r, refused=False)
    return FnCase('%s: usage with %d arguments' % (target, len(names)), body)


def cases(tier):
    for t in TARGETS:
        interp().load('necroassembler.platforms.' + t)
        bodies = dict(BODIES, instructions=instructions(t))
        for k, b in bodies.items():
            if k != 'source in parts':      # uses the instructions of the stand-in assembler
                yield program(t, k, [b])
        yield program(t, 'two sources', [one, two])
        for x in ('.section ".text" RX\nBOGUS\n', '.section ".text" RX\n.incbin "missing"\n', '.section ".text" RX\n.dd nowhere\n', '.export nowhere\n.section\n'):
            yield fails(t, x)
        yield usage(t, [])
        yield usage(t, ['in.S'])
