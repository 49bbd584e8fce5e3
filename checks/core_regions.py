'''C03: bounded origin regions are filled up to their end (or the next region) and never overlap.'''
from .model import *

RULE = 'the bytes of a bounded region always span exactly from its start to its end, or to the start of the next region inside it; a region that starts before the current position is refused'
EXPLANATION = '''Abstract interpretation of sequences of origin directives and section directives with symbolic starts, ends and
contents; the output is compared with a reference layout in every partition of the relative order of the addresses.'''
ASSUMPTIONS = ['contents do not exceed the declared region', 'addresses below 2**24']
MIN_OBLIGATIONS = 30
A24 = 1 << 24


def region(m, i, bounded, content, via='org'):
    p = m.sym('P%d' % i, 0, A24)
    if bounded:
        k = m.sym('K%d' % i, 0, A24)
        e = binop('+', p, k)
        if eq(e, 0):
            raise Infeasible()      # an end of 0 means "unbounded"
        m.w('.org ', num(p), ' ', num(e))
    elif via == 'section':
        e = None
        m.w('.section s%d RW ' % i, num(p))
    else:
        e = None
        m.w('.org ', num(p))
    if m.end is not None and eq(m.org, p) and eq(m.cnt, 0):
        raise Infeasible()          # reopening an empty region at its own start: not specified
    m.set_org(p, e)
    if content:
        n = m.sym('N%d' % i, 1, A24)
        m.w('.fill ', num(n), ' %d' % (0x10 + i))
        m.emit(RepSeg(0x10 + i, n))
        if e is not None and not le(n, binop('+', k, 1)):
            raise Infeasible()      # contents beyond the declared end: not specified


def cases(tier):
    kinds = [('b', True, 'org'), ('u', False, 'org'), ('s', False, 'section')]
    for n1, b1, v1 in kinds:
        for c1 in (False, True):
            def one_(m, b1=b1, c1=c1, v1=v1):
                m.prefix(org=False)
                region(m, 1, b1, c1, v1)
            yield case('%s%d' % (n1, c1), one_)
            for n2, b2, v2 in kinds:
                for c2 in (False, True):
                    def two(m, b1=b1, c1=c1, b2=b2, c2=c2, v1=v1, v2=v2):
                        m.prefix(org=False)
                        region(m, 1, b1, c1, v1)
                        region(m, 2, b2, c2, v2)
                        if not c2:
                            m.label('x', 'x')
                            m.w('.dd x')
                            if b2:
                                if not le(4, binop('+', binop('-', m.end, m.org), 1)):
                                    raise Infeasible()
                            m.ref('x', 4, 32)
                    yield case('%s%d %s%d' % (n1, c1, n2, c2), two)
                    if tier == 'thorough' or (n1 == 'b' and c1 and c2):
                        for n3, b3, v3 in kinds:
                            def three(m, b1=b1, c1=c1, b2=b2, c2=c2, b3=b3, v1=v1, v2=v2, v3=v3):
                                m.prefix(org=False)
                                region(m, 1, b1, c1, v1)
                                region(m, 2, b2, c2, v2)
                                region(m, 3, b3, True, v3)
                            yield case('%s%d %s%d %s1' % (n1, c1, n2, c2, n3), three)
    # reserved space counts as occupied
    def ram(m):
        m.prefix(org=False)
        p, k = m.sym('P', 0, A24), m.sym('K', 8, A24)
        m.w('.org ', num(p), ' ', num(binop('+', p, k)))
        m.set_org(p, binop('+', p, k))
        r = m.sym('R', 1, A24)
        if not le(r, k):
            raise Infeasible()
        m.w('.ram ', num(r))
        m.cnt = binop('+', m.cnt, r)
        q = m.sym('Q', 0, A24)
        m.w('.org ', num(q))
        m.set_org(q)
    yield case('reserved space in a bounded region', ram)

    # several sources: the region of the first is completed before the second starts
    def inverted(m):
        m.prefix(org=False)
        p, e = m.sym('P', 1, A24), m.sym('E', 1, A24)
        if le(p, e):
            raise Infeasible()
        m.w('.org ', num(p), ' ', num(e))
        raise Refused()
    yield case('inverted region', inverted)
    for args in ('', ' nolabel', ' 1 2 3', ' 1 nolabel', ' nolabel 1'):
        def bad(m, args=args):
            m.prefix()
            m.w('.org', args)
            raise Refused()
        yield case('malformed org%s' % args, bad)
