'''C01: every label names the address of the byte that follows it.'''
from .model import *

RULE = 'a label placed after any sequence of statements reads back (through .dd) as origin + bytes emitted + bytes reserved since that origin'
EXPLANATION = 'core addresses'
ASSUMPTIONS = []
MIN_OBLIGATIONS = 300


def cases(tier):
    for big in (False, True):
        names = list(FRAGS)
        for a in names:
            for b in [None] + names:
                if big and b is not None and tier == 'quick':
                    continue

                def body(m, a=a, b=b):
                    m.prefix()
                    m.label('Z9', 'Z9')
                    m.labels['Z9'] = m.pc
                    FRAGS[a](m)
                    m.label('q1', 'q1')
                    if b:
                        FRAGS[b](m)
                        m.label('q2', 'q2')
                        m.w('.dd q1 q2 q3')
                        m.ref('q1', 4, 32)
                        m.ref('q2', 4, 32)
                        m.ref('q3', 4, 32)
                    else:
                        m.w('.dd q1 q3')
                        m.ref('q1', 4, 32)
                        m.ref('q3', 4, 32)
                    m.label('q3', 'q3')
                yield case('%s %s%s' % (a, b or '', ' be' if big else ''), body, big)
