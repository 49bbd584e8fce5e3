'''C08: the source text is split into statements.'''
from itertools import product
from .model import *

RULE = 'the statements (kind, words, line) of a text are those of the reference splitter, for every sequence of character classes; unterminated strings and misplaced colons are refused'
EXPLANATION = '''Abstract interpretation of the tokenizer over texts given as sequences of character classes (blank, line end, carriage
return, comment start, bracket, colon, double quote, single quote, backslash, any other character, any word, any text). Each class is one
abstract character or an opaque text of any length; all sequences up to a bound and all pairs of classes in every situation are covered.
The abstract statements are compared with those of a reference splitter.'''
ASSUMPTIONS = ['characters are printable ascii, tab, newline and carriage return', 'empty strings between quotes are not specified']
MIN_OBLIGATIONS = 1500
BRACKETS = '()[]{}'
SPECIAL = ' \t,\n\r;:"\'\\' + BRACKETS
WORDCH = set(map(chr, range(33, 127))) - set(SPECIAL) - {'.'}
CLASSES = 's n r ; b : " \' \\ c w .'.split()
QUOTED = set(map(chr, range(32, 127))) - set('"\'\\')


class Text:
    '''the symbolic text and its units: (class, piece)'''

    def __init__(self, c):
        self.c, self.n = c, 0

    def unit(self, k):
        self.n += 1
        u = 'u%d' % self.n
        if k == 's':
            return k, self.c.fin(u, (' ', '\t', ','))[0]
        if k == 'b':
            return k, self.c.fin(u, BRACKETS)[0]
        if k == 'c':
            v = self.c.sym(u, 33, 126)
            return k, CharPiece(v, chars=WORDCH)
        if k == 'w':        # a word of any length
            return k, NamePiece('name' + u)
        if k == 't':        # any text free of quotes, backslashes and line ends, any length
            return k, TextPiece(u, chars=QUOTED, length=self.c.sym('len' + u, 1, 1 << 12))
        return k, {'n': '\n', 'r': '\r'}.get(k, k)


def units_chars(units):
    return units


def reference(units):
    '''-> list of (kind, words, line) or None when the text must be refused; raises Infeasible when not specified'''
    out, words, cur, line = [], [], [], 1
    state = 'tok'

    def flush():
        if cur:
            words.append(S(*cur))
            del cur[:]
    for k, p in list(units) + [('n', '\n')]:
        if state in ('"', "'"):
            if k == '\\':
                state += 'e'
            elif k == state:
                if not cur:
                    raise Infeasible()
                words.append(S(state, *cur, state))
                del cur[:]
                state = 'tok'
            else:
                cur.append(p)
        elif state in ('"e', "'e"):
            cur.append(p)
            state = state[0]
        elif state == 'com':
            if k in 'nr':
                state = 'tok'
        elif k == 't':
            raise Infeasible()      # an arbitrary text is only used between quotes and in comments
        elif k in 'snr;':
            flush()
            if k != 's':
                if words:
                    first = words[0]
                    dot = isinstance(first, str) and first.startswith('.') or not isinstance(first, str) and pieces0(first).startswith('.')
                    out.append(('Directive' if dot else 'Instruction', list(words), line))
                words = []
                if k == ';':
                    state = 'com'
        elif k == 'b':
            flush()
            words.append(S(p))
        elif k == ':':
            if words or not cur:
                return None
            out.append(('Label', [S(*cur)], line))
            del cur[:]
        elif k in '"\'':
            flush()
            state = k
        else:
            cur.append(p)
        if k == 'n':
            line += 1
    if state not in ('tok', 'com'):
        return None
    return out


def pieces0(s):
    from absint import strs
    if not hasattr(s, 'p'):
        return ''
    p = strs.pieces(s)[0]
    return p if isinstance(p, str) else ''


def tcase(classes):
    def body(c):
        it = interp()
        t = Text(c)
        units = [t.unit(k) for k in classes]
        text = S(*[p for _, p in units])
        c.show(S('text: ', text))
        mod = it.load('necroassembler.tokenizer').env.vars
        tk = it.instantiate(mod['Tokenizer'], [], {'context': 'ctx.s'})
        exp = reference(units)
        r = c.call(it.getattr(tk, 'parse'), text)
        if exp is None:
            return ('reject', r)
        if not r.ok:
            return ('value', r, exp)
        got = []
        for s in it.getattr(tk, 'statements'):
            got.append([s.cls.name, it.getattr(s, 'tokens'), it.getattr(s, 'line')])
            if not same(it, it.getattr(s, 'context'), 'ctx.s'):
                return ('bad', 'a statement does not carry the name of its source')
        return ('value', got, [list(e) for e in exp])
    return FnCase('text %s' % ' '.join(classes), body, what='texts of the classes ' + ' '.join(classes))


# contexts reaching every lexical situation, and continuations that expose it
SITUATIONS = ['', 'w', 'w s', 'w s w', '.', '. s w', 'w :', 'w : s', ';', 'w ;', '; t', '"', '" t', '" \\', '" t "', '" t " w', "'", "' c", "' \\",
              "' c '", 'w "', 'w " t', 'b', 'w b', 'w n', 'w s n w', 'w r', 'n', 'n n w', '" n', '; n', '; r', 'w s w b', '. " t "', "w ' t \\",
              '" t \\ "', 'w : w :', 'w s " t " n . s w']
ENDINGS = ['', 'n', '"', "'", 'w n w', 's w ;', '" n w', "' n w", 't " w n', "t ' w n", ': w']


def cases(tier):
    seen = set()

    def once(cl):
        k = ' '.join(cl)
        if k not in seen and cl:
            seen.add(k)
            try:
                reference([(x, x) for x in cl])
            except Infeasible:
                return              # not specified
            yield tcase(cl)
    for n in range(1, 4 if tier == 'quick' else 5):
        for cl in product(CLASSES, repeat=n):
            yield from once(cl)
    for s in SITUATIONS:
        for k in CLASSES:
            for e in ENDINGS:
                yield from once(tuple(s.split()) + (k,) + tuple(e.split()))
    for s in SITUATIONS:
        for k in CLASSES:
            for k2 in CLASSES:
                yield from once(tuple(s.split()) + (k, k2))
