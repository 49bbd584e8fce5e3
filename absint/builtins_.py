'''Models of the Python builtins and of the standard modules the analysed program uses.'''
import string
import struct

from .values import *
from .values import CTX
from .objects import *
from . import strs


def isinstance_(it, v, typ):
    if type(typ) is tuple:
        return any(isinstance_(it, v, t) for t in typ)
    if type(v) is Fin:
        r = it.lift(lambda x: isinstance_(it, x, typ), v)
        return it.truth(r)
    if type(typ) is NS or type(typ) is Top:
        raise AnalysisError('isinstance against %r' % (typ,))
    if type(v) is Inst:
        if type(typ) is Class:
            return v.cls.is_sub(typ)
        if typ is object:
            return True
        if isinstance(typ, type):
            return v.cls.is_sub(typ)
        return False
    if type(typ) is Class:
        return False
    if type(typ) is Builtin:
        typ = {'int': int, 'str': str, 'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict,
               'bool': bool, 'bytearray': bytearray, 'set': set, 'float': float, 'object': object,
               'type': type}.get(typ.name, None)
        if typ is None:
            return False
    t = type(v)
    rt = {AbsInt: int, Cond: bool, AbsStr: str, AbsBytes: bytes, Buf: bytearray, RepList: list}.get(t, t)
    if t is Top:
        return it.truth(v)
    if typ is object:
        return True
    if t in (Class,):
        return typ is type
    if t in (Func, Bound, Builtin):
        return False
    return issubclass(rt, typ) if isinstance(typ, type) and isinstance(rt, type) else False


def _type(it, v):
    if type(v) is Inst:
        return v.cls
    if type(v) is Fin:
        return _type(it, v.force())
    rt = {AbsInt: int, Cond: bool, AbsStr: str, AbsBytes: bytes, Buf: bytearray, RepList: list}.get(type(v), type(v))
    if rt is Class:
        return type
    return rt


def _num_fold(it, args, op):
    if len(args) == 1:
        xs = list(it.iterate(args[0]))
    else:
        xs = list(args)
    return xs


def _minmax(it, a, k, op):
    xs = _num_fold(it, a, op)
    if not xs:
        if 'default' in k:
            return k['default']
        it.raise_native(ValueError('arg is an empty sequence'))
    key = k.get('key')
    best = xs[0]
    bk = it.call(key, [best]) if key else best
    for x in xs[1:]:
        xk = it.call(key, [x]) if key else x
        if it.truth(it.compare(op, xk, bk)):
            best, bk = x, xk
    return best


def _range(it, a, k):
    xs = []
    for x in a:
        if type(x) is Fin:
            x = x.force()
        if type(x) is Cond:
            x = int(it.truth(x))
        if type(x) is Inst and it.class_lookup(x.cls, '__index__') is not None:
            x = it.call(it.getattr(x, '__index__'), [])
        if type(x) is AbsInt:
            c = const_of(x)
            x = x if c is None else c
        elif type(x) not in (int, bool):
            it.raise_native(TypeError("%r object cannot be interpreted as an integer" % it.tname(x)))
        xs.append(x)
    if all(isinstance(x, int) for x in xs):
        try:
            return range(*xs)
        except (ValueError, TypeError) as e:
            it.raise_native(e)
    from .interp import AbsRange
    if len(xs) == 1:
        xs = [0, xs[0], 1]
    elif len(xs) == 2:
        xs = xs + [1]
    return AbsRange(*xs)


def _sorted(it, a, k):
    xs = list(it.iterate(a[0]))
    key = k.get('key')
    rev = it.truth(k.get('reverse', False))
    ks = [it.call(key, [x]) if key else x for x in xs]
    if all(type(x) in (int, bool, str, bytes, float) for x in ks):
        try:
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)
            return [xs[i] for i in idx]
        except TypeError as e:
            it.raise_native(e)
    # insertion sort with partitioning
    out = []
    for x, kx in zip(xs, ks):
        i = len(out)
        while i > 0 and it.truth(it.compare('<' if not rev else '>', kx, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def _int(it, a, k):
    if not a:
        return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if type(v) is Fin:
        if v.is_int() and base is None:
            return v
        return it.lift(lambda x: _int(it, [x] + ([base] if base is not None else []), {}), v)
    if type(base) is Fin:
        base = base.force()
    if type(v) is Cond:
        return int(it.truth(v))
    if type(v) is AbsInt:
        if base is not None:
            it.raise_native(TypeError("int() can't convert non-string with explicit base"))
        return v
    if type(v) is AbsStr:
        return strs.str_to_int(it, v, 10 if base is None else base)
    if type(v) in (int, bool, float):
        if base is not None:
            it.raise_native(TypeError("int() can't convert non-string with explicit base"))
        return int(v)
    if type(v) is Inst:
        for n in ('__int__', '__index__'):
            f = it.class_lookup(v.cls, n)
            if f is not None:
                return it.call(Bound(f, v), [])
    if type(v) in (str, bytes):
        try:
            return int(v) if base is None else int(v, base)
        except (ValueError, TypeError) as e:
            it.raise_native(e)
    if type(v) in (AbsBytes, Buf):
        return strs.fn_int('int(%r)' % (v,), lambda val: None, -INF, INF) if it.truth(strs.opaque('%r is a numeral' % (v,))) \
            else it.raise_native(ValueError('invalid literal for int()'))
    if type(v) is Inst:
        for m in ('__int__', '__index__'):
            f = it.class_lookup(v.cls, m)
            if f is not None:
                return it.call(Bound(f, v), [])
    if type(v) is Top:
        return strs.fn_int('int(%s)' % v.name, lambda val: None, -INF, INF)
    it.raise_native(TypeError("int() argument must be a string, a bytes-like object or a real number, not %r" % it.tname(v)))


def _str(it, a, k):
    if not a:
        return ''
    if type(a[0]) in (bytes, AbsBytes, Buf) and len(a) > 1:
        return native_method(it, a[0], 'decode', a[1:], k)
    return strs.to_str(it, a[0])


def _bytes(it, a, k):
    if not a:
        return b''
    if len(a) > 1 or 'encoding' in k:
        return strs.str_method(it, a[0], 'encode', a[1:], k) if isinstance(a[0], (str, AbsStr)) else it.raise_native(TypeError('encoding without a string argument'))
    return it.make_bytes(a[0])


def _bytearray(it, a, k):
    r = _bytes(it, a, k)
    return Buf(segs_of(r))


def _ord(it, v):
    if type(v) is Fin:
        return it.lift(lambda x: _ord(it, x), v)
    if type(v) is str:
        if len(v) != 1:
            it.raise_native(TypeError('ord() expected a character, but string of length %d found' % len(v)))
        return ord(v)
    if type(v) is AbsStr:
        ps = v.p
        if len(ps) == 1 and isinstance(ps[0], CharPiece):
            return ps[0].code
        n = strs.slen(v)
        if const_of(n) != 1:
            c = compare('==', n, 1)
            if not it.truth(c):
                it.raise_native(TypeError('ord() expected a character'))
        cs = strs.charset(v)
        return strs.fn_int('ord(%r)' % (v,), lambda val: ord(v.render(val)), min(map(ord, cs)), max(map(ord, cs)))
    if type(v) is bytes and len(v) == 1:
        return v[0]
    if type(v) in (AbsBytes, Buf):
        return it.byte_at(v, 0)
    it.raise_native(TypeError('ord() expected string of length 1, but %s found' % it.tname(v)))


def _chr(it, v):
    if type(v) is Fin:
        return it.lift(lambda x: _chr(it, x), v)
    if type(v) in (int, bool):
        try:
            return chr(v)
        except (ValueError, OverflowError) as e:
            it.raise_native(e)
    if type(v) is AbsInt:
        if not it.truth(compare('>=', v, 0)) or not it.truth(compare('<=', v, 0x10ffff)):
            it.raise_native(ValueError('chr() arg not in range'))
        lo, hi = v.range()
        chars = {chr(i) for i in range(int(lo), min(int(hi), 255) + 1)}
        return mkstr([CharPiece(v, chars)])
    it.raise_native(TypeError('an integer is required'))


def _abs(it, v):
    if type(v) is Fin:
        return it.lift(lambda x: _abs(it, x), v)
    if type(v) in (int, float, bool):
        return abs(v)
    if type(v) is AbsInt:
        return v if it.truth(compare('>=', v, 0)) else binop('-', 0, v)
    it.raise_native(TypeError('bad operand type for abs()'))


def _pow(it, a):
    if len(a) == 3:
        if all(type(x) is int for x in a):
            return pow(*a)
        return it.binop('%', it.binop('**', a[0], a[1]), a[2])
    return it.binop('**', a[0], a[1])


def _divmod(it, x, y):
    return (it.binop('//', x, y), it.binop('%', x, y))


def _sum(it, a, k):
    tot = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it.iterate(a[0]):
        tot = it.binop('+', tot, x)
    return tot


def _any(it, xs):
    for x in it.iterate(xs):
        if it.truth(x):
            return True
    return False


def _all(it, xs):
    for x in it.iterate(xs):
        if not it.truth(x):
            return False
    return True


def _fmt_base(it, v, kind, pre):
    if type(v) is Fin:
        return it.lift(lambda x: _fmt_base(it, x, kind, pre), v)
    if type(v) in (int, bool):
        return {'x': hex, 'b': bin, 'o': oct}[kind](v)
    if type(v) is AbsInt:
        if it.truth(compare('<', v, 0)):
            return mkstr(['-' + pre, strs.format_value(it, binop('-', 0, v), kind)])
        return mkstr([pre, strs.format_value(it, v, kind)])
    if type(v) is Inst and it.class_lookup(v.cls, '__index__') is not None:
        return _fmt_base(it, it.call(it.getattr(v, '__index__'), []), kind, pre)
    it.raise_native(TypeError('%r object cannot be interpreted as an integer' % it.tname(v)))


def _dir(it, a):
    if not a:
        raise AnalysisError('dir()')
    o = a[0]
    names = set()
    if type(o) is Inst:
        names |= set(o.attrs)
        mro = o.cls.mro
    elif type(o) is Class:
        mro = o.mro
    elif type(o) is Module:
        return sorted(o.env.vars)
    else:
        return []
    for c in mro:
        if isinstance(c, Class):
            names |= set(c.attrs)
        elif isinstance(c, type):
            names |= set(dir(c))
    names |= {'__class__', '__init__', '__dict__', '__doc__', '__module__', '__repr__', '__str__', '__eq__'}
    return sorted(names)


def _getattr(it, a):
    o, name = a[0], a[1]
    if type(name) is Fin:
        name = name.force()
    if type(name) is AbsStr:
        if len(a) > 2:
            return a[2]
        it.raise_native(AttributeError(name))
    if len(a) == 2:
        return it.getattr(o, name)
    try:
        return it.getattr(o, name)
    except InterpRaise as e:
        if isinstance(e.value, AttributeError):
            return a[2]
        raise


def _print(it, a, k):
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(' ')
        r = strs.to_str(it, x)
        out.append(AbsStr([TextPiece('str(%r)' % (x,))]) if type(r) is Fin else r)
    it.stdout.append(mkstr(out))
    return None


def _open(it, a, k):
    name = a[0]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if type(name) is Fin:
        name = name.force()
    spec = None
    for key, sp in it.files.items():
        r = it.equal(key, name)
        if r is True or (r is not False and it.truth(r)):
            spec = sp
            break
    if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
        spec = spec if spec is not None else {}
    elif spec is None:
        it.raise_native(FileNotFoundError(2, 'No such file or directory', repr(name)))
    f = FileObj(name, mode, spec)
    it.touch(it.opened)
    it.opened.append(f)
    return f


def _next(it, a):
    x = a[0]
    from .interp import LazyIter, LazyGen
    if type(x) is LazyIter:
        if x.i < len(x.items):
            v = x.items[x.i]
            x.i += 1
            return v
    elif type(x) is LazyGen:
        for v in x.gen:
            return v
    elif type(x) is Inst:
        try:
            return it.call(it.getattr(x, '__next__'), [])
        except InterpRaise as e:
            if isinstance(e.value, StopIteration) and len(a) > 1:
                return a[1]
            raise
    elif hasattr(x, '__next__'):
        for v in x:
            return v
    if len(a) > 1:
        return a[1]
    it.raise_native(StopIteration())


def _iter(it, a):
    from .interp import LazyIter, LazyGen
    if type(a[0]) in (LazyIter, LazyGen):
        return a[0]
    if len(a) == 2:
        def calls():
            while True:
                v = it.call(a[0], [])
                if it.truth(it.equal(v, a[1])):
                    return
                yield v
        return LazyGen(calls())
    if type(a[0]) is Inst:
        m = it.class_lookup(a[0].cls, '__iter__')
        if m is not None:
            return it.call(Bound(m, a[0]), [])
    x = it.iterate(a[0])
    if type(x) in (LazyIter, LazyGen):
        return x
    if hasattr(x, 'send'):
        return LazyGen(x)
    return LazyIter(x if type(x) is list else list(x))


def _hash(it, v):
    if is_abs(v) or isinstance(v, (Inst, Class, Func, Bound)):
        return id(v)
    try:
        return hash(v)
    except TypeError as e:
        it.raise_native(e)


def _zip(it, a, k):
    seqs = [it.iterate(x) for x in a]
    if len(a) > 1:
        for x in seqs:
            if type(x) is list and any(type(y) is AbsStr and strs.run_length(y) is not None for y in x):
                raise AnalysisError('zip over a string of unknown length')
    if k.get('strict'):
        from .interp import LazyIter, LazyGen
        if any(type(x) in (LazyIter, LazyGen) or hasattr(x, 'send') for x in seqs):
            raise AnalysisError('zip(strict) over iterators')
        n = [it.length(x) for x in a]
        if any(it.truth(it.compare('!=', x, n[0])) for x in n[1:]):
            it.raise_native(ValueError('zip() arguments have different lengths'))
    if all(isinstance(s, (list, tuple, str, range, bytes)) for s in seqs):
        return [tuple(t) for t in zip(*seqs)]
    from .interp import LazyGen

    def pairs():
        its = [iter(s) for s in seqs]
        while True:
            row = []
            for s in its:
                try:
                    row.append(next(s))
                except StopIteration:
                    return
            yield tuple(row)
    return LazyGen(pairs())


def _dict(it, a, k):
    d = {}
    if a:
        src = a[0]
        if type(src) is dict:
            d.update(src)
        elif type(src) is Inst and it.class_lookup(src.cls, 'keys') is not None:
            for kk in it.iterate(it.call(it.getattr(src, 'keys'), [])):
                it.dict_set(d, kk, it.getitem(src, kk))
        else:
            for p in it.iterate(src):
                kk, vv = list(it.iterate(p))
                it.dict_set(d, kk, vv)
    d.update(k)
    return d


def _set_(it, a, k):
    return it.mkset(it.iterate(a[0])) if a else set()


def _super(it, a):
    return Super(a[0], a[1])


def _round(it, a):
    if type(a[0]) in (int, float):
        return round(*a)
    return a[0]


def _map(it, a):
    from .interp import LazyGen
    f = a[0]
    if len(a) == 2:
        seq = it.iterate(a[1])
        return LazyGen(it.call(f, [x]) for x in seq)
    seqs = [list(it.iterate(x)) for x in a[1:]]
    return LazyGen(it.call(f, list(t)) for t in zip(*seqs))


def _filter(it, a):
    from .interp import LazyGen
    f = a[0]
    seq = it.iterate(a[1])
    return LazyGen(x for x in seq if (it.truth(x) if f is None else it.truth(it.call(f, [x]))))


def _id(it, v):
    return id(v)


def _issub(it, a, b):
    if type(b) is tuple:
        return any(_issub(it, a, x) for x in b)
    if type(a) is Class:
        return a.is_sub(b)
    return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)


def install(it):
    B = it.builtins

    def add(name, fn):
        B[name] = Builtin(name, fn)
    add('len', lambda it, a, k: it.length(a[0]))
    add('range', _range)
    add('enumerate', lambda it, a, k: _enum(it, a, k))
    add('zip', lambda it, a, k: _zip(it, a, k))
    add('map', lambda it, a, k: _map(it, a))
    add('filter', lambda it, a, k: _filter(it, a))
    add('sum', _sum)
    add('min', lambda it, a, k: _minmax(it, a, k, '<'))
    add('max', lambda it, a, k: _minmax(it, a, k, '>'))
    add('any', lambda it, a, k: _any(it, a[0]))
    add('all', lambda it, a, k: _all(it, a[0]))
    add('sorted', _sorted)
    add('reversed', lambda it, a, k: list(it.iterate(a[0]))[::-1])
    add('abs', lambda it, a, k: _abs(it, a[0]))
    add('ord', lambda it, a, k: _ord(it, a[0]))
    add('chr', lambda it, a, k: _chr(it, a[0]))
    add('hex', lambda it, a, k: _fmt_base(it, a[0], 'x', '0x'))
    add('bin', lambda it, a, k: _fmt_base(it, a[0], 'b', '0b'))
    add('oct', lambda it, a, k: _fmt_base(it, a[0], 'o', '0o'))
    add('format', lambda it, a, k: strs.format_value(it, a[0], a[1] if len(a) > 1 else ''))
    add('isinstance', lambda it, a, k: isinstance_(it, a[0], a[1]))
    add('issubclass', lambda it, a, k: _issub(it, a[0], a[1]))
    add('callable', lambda it, a, k: it.is_callable(a[0]))
    add('hasattr', lambda it, a, k: it.hasattr(a[0], a[1]))
    add('getattr', lambda it, a, k: _getattr(it, a))
    add('setattr', lambda it, a, k: it.setattr(a[0], a[1], a[2]))
    add('delattr', lambda it, a, k: a[0].attrs.pop(a[1], None))
    add('dir', lambda it, a, k: _dir(it, a))
    add('vars', lambda it, a, k: a[0].attrs)
    add('print', _print)
    add('open', _open)
    add('pow', lambda it, a, k: _pow(it, a))
    add('divmod', lambda it, a, k: _divmod(it, a[0], a[1]))
    add('round', lambda it, a, k: _round(it, a))
    add('iter', lambda it, a, k: _iter(it, a))
    add('next', lambda it, a, k: _next(it, a))
    add('repr', lambda it, a, k: strs.to_repr(it, a[0]))
    add('ascii', lambda it, a, k: strs.to_repr(it, a[0]))
    add('id', lambda it, a, k: _id(it, a[0]))
    add('hash', lambda it, a, k: _hash(it, a[0]))
    add('super', lambda it, a, k: _super(it, a))
    add('property', lambda it, a, k: Prop(*a))
    add('staticmethod', lambda it, a, k: StaticM(a[0]))
    add('classmethod', lambda it, a, k: ClassM(a[0]))
    add('input', lambda it, a, k: Top('input'))
    for t in (int, str, bytes, bytearray, list, tuple, dict, set, frozenset, bool, float, object, type, slice,
              complex, memoryview):
        B[t.__name__] = t
    import builtins as pb
    for n in dir(pb):
        v = getattr(pb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            B[n] = v
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__name__'] = 'builtins'
    B['__import__'] = Builtin('__import__', lambda it, a, k: it.import_module(a[0]))


def _enum(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    from .interp import LazyGen
    seq = it.iterate(a[0])

    def pairs():
        at = start
        for x in seq:
            yield at, x
            n = strs.run_length(x) if type(x) is AbsStr else None
            at = it.binop('+', at, 1 if n is None else n)
    return LazyGen(pairs())


def call_type(it, t, a, k):
    if t is int:
        return _int(it, a, k)
    if t is str:
        return _str(it, a, k)
    if t is bytes:
        return _bytes(it, a, k)
    if t is bytearray:
        return _bytearray(it, a, k)
    if t is list:
        return list(it.iterate(a[0])) if a else []
    if t is tuple:
        return tuple(it.iterate(a[0])) if a else ()
    if t is dict:
        return _dict(it, a, k)
    if t is set:
        return _set_(it, a, k)
    if t is frozenset:
        return frozenset(_set_(it, a, k))
    if t is bool:
        return it.truth(a[0]) if a else False
    if t is float:
        if a and isinstance(a[0], (int, float, str)):
            try:
                return float(a[0])
            except ValueError as e:
                it.raise_native(e)
        raise AnalysisError('float()')
    if t is object:
        return Inst(Class('object', [], {}, None))
    if t is type:
        if len(a) == 1:
            return _type(it, a[0])
        name, bases, attrs = a
        c = Class(name, [b for b in bases if b is not object], dict(attrs), None)
        from .compiler import _own
        for v in attrs.values():
            _own(v, c)
        return c
    if t is slice:
        return slice(*a)
    if t is memoryview:
        if type(a[0]) in (bytes, AbsBytes):
            return a[0]
        raise AnalysisError('memoryview of %s' % it.tname(a[0]))
    if issubclass(t, BaseException):
        try:
            return t(*[x if is_plain(x) else repr(x) for x in a])
        except TypeError:
            return Exception(*[repr(x) for x in a])
    raise AnalysisError('call of %s' % t.__name__)


def is_plain(x):
    return isinstance(x, (int, str, bytes, type(None), float, tuple))


# --------------------------------------------------------------------- methods
def native_unbound(it, cls, name, a, k):
    if cls is int and name == 'from_bytes':
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        signed = k.get('signed', False)
        from .interp import explode
        xs = explode(segs_of(a[0] if not isinstance(a[0], (list, tuple)) else it.make_bytes(a[0])))
        if xs is None:
            raise AnalysisError('int.from_bytes of opaque bytes')
        if order == 'big':
            xs = xs[::-1]
        v = 0
        for i, x in enumerate(xs):
            v = binop('+', v, binop('*', x, 1 << (8 * i)))
        if it.truth(signed) and xs:
            top = mk_slice(xs[-1], 7, 1)
            v = binop('-', v, binop('*', top, 1 << (8 * len(xs))))
        return v
    if cls is dict and name == 'fromkeys':
        d = {}
        for x in it.iterate(a[0]):
            it.dict_set(d, x, a[1] if len(a) > 1 else None)
        return d
    if cls in (bytes, bytearray) and name == 'fromhex':
        if isinstance(a[0], str):
            try:
                r = bytes.fromhex(a[0])
            except ValueError as e:
                it.raise_native(e)
            return r if cls is bytes else Buf([r])
        raise AnalysisError('fromhex')
    if cls is str and name == 'maketrans':
        return str.maketrans(*a)
    if cls in (bytes, bytearray) and name == 'maketrans':
        return bytes.maketrans(*a)
    if a and type(a[0]) is Inst and '$v' in a[0].attrs and cls in (dict, list, set):
        raw = a[0].attrs['$v']
        if name == '__init__':
            it.touch(raw)
            raw.clear()
            if cls is dict:
                raw.update(_dict(it, a[1:], k))
            elif cls is list:
                raw.extend(it.iterate(a[1]) if len(a) > 1 else [])
            else:
                raw.update(_set_(it, a[1:], {}))
            return None
        if name == '__new__':
            return it.fresh_inst(a[0])
        return native_unbound(it, cls, name, [raw] + list(a[1:]), k)
    if name in ('__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', '__eq__') and a and \
            type(a[0]) in (dict, list, set, str, bytes, tuple, Buf):
        if name == '__getitem__':
            return it.getitem(a[0], a[1])
        if name == '__setitem__':
            return it.setitem(a[0], a[1], a[2])
        if name == '__delitem__':
            return it.delitem(a[0], a[1])
        if name == '__contains__':
            return it.contains(a[0], a[1])
        if name == '__len__':
            return it.length(a[0])
        if name == '__eq__':
            return it.equal(a[0], a[1])
        return _iter(it, [a[0]])
    if isinstance(cls, type) and issubclass(cls, BaseException):
        if name == '__init__':
            if type(a[0]) is Inst:
                it.touch(a[0].attrs)
                a[0].attrs['args'] = tuple(a[1:])
            return None
        if name in ('__str__', '__repr__'):
            o = a[0]
            args = o.attrs.get('args', ()) if type(o) is Inst else o.args
            return strs.to_str(it, args[0]) if len(args) == 1 else ('' if not args else strs.to_repr(it, tuple(args)))
        if name == '__new__':
            i = Inst(a[0])
            i.attrs['args'] = tuple(a[1:])
            return i
        if name in ('with_traceback',):
            return a[0]
    if cls is object:
        if name == '__new__':
            return it.fresh_inst(a[0])
        if name == '__setattr__':
            it.setattr(a[0], a[1], a[2], True)
            return None
        if name in ('__init__', '__init_subclass__'):
            return None
    return native_method(it, a[0], name, a[1:], k)


def native_method(it, o, name, a, k):
    t = type(o)
    if t is Fin:
        if name in ('append', 'pop') or not (o.is_str() or o.is_int()):
            return it.call(it.getattr(o.force(), name), a, k)
        return it.lift(lambda x: native_method(it, x, name, a, k), o)
    if t is Cond:
        return native_method(it, it.truth(o), name, a, k)
    if t in (str, AbsStr):
        return strs.str_method(it, o, name, a, k)
    if t is list:
        return list_method(it, o, name, a, k)
    if t is tuple:
        if name == 'index':
            if type(a[0]) is Fin and len(a) == 1:
                r = index_fin(it, o, a[0])
                if r is not None:
                    return r
            for i, x in enumerate(o):
                if it.truth(it.equal(x, a[0])):
                    return i
            it.raise_native(ValueError('tuple.index(x): x not in tuple'))
        if name == 'count':
            return sum(1 for x in o if it.truth(it.equal(x, a[0])))
        if name == '__len__':
            return len(o)
        if name == '__contains__':
            return it.contains(o, a[0])
        if name == '__getitem__':
            return it.getitem(o, a[0])
    if t is dict:
        return dict_method(it, o, name, a, k)
    if t in (set, frozenset):
        return set_method(it, o, name, a, k)
    if t in (bytes, AbsBytes, Buf, bytearray):
        return bytes_method(it, o, name, a, k)
    if t in (int, AbsInt, bool):
        return int_method(it, o, name, a, k)
    if t is FileObj:
        return file_method(it, o, name, a, k)
    from .interp import LazyIter, LazyGen, DictView
    if t is DictView:
        if o.kind in ('keys', 'items') and (name in ('isdisjoint', 'mapping') or name.startswith('__') and name != '__len__'):
            return native_method(it, it.mkset(o.materialize()), name, a, k)
        return native_method(it, o.materialize(), name, a, k)
    if t in (LazyIter, LazyGen):
        if name == '__next__':
            return _next(it, [o])
        if name == '__iter__':
            return o
        if t is LazyGen and name in ('send', 'throw', 'close') and hasattr(o.gen, 'send'):
            if name == 'close':
                o.gen.close()
                return None
            try:
                if name == 'throw':
                    return o.gen.throw(InterpRaise(a[0] if not isinstance(a[0], (type, Class)) else it.call(a[0], [])))
                return o.gen.send(a[0])
            except StopIteration as e:
                it.raise_native(StopIteration(*([e.value] if e.value is not None else [])))
    if t is range:
        if name in ('index', 'count'):
            return getattr(o, name)(a[0])
    if t is float:
        return getattr(o, name)(*a)
    if t is RepList and name == 'append':
        pass
    if isinstance(o, type):
        return native_unbound(it, o, name, a, k)
    raise AnalysisError('method %s of %r' % (name, o))


def index_fin(it, o, x):
    '''position of a finite choice of values in a sequence of plain values'''
    first = {}
    for i, y in enumerate(o):
        if type(y) not in (str, int, bool, bytes):
            return None
        first.setdefault(y, i)
    r = it.dict_find_fin(first, x)
    if r is None:
        return None
    if not r[0]:
        it.raise_native(ValueError('x not in sequence'))
    return r[1].as_int() if type(r[1]) is Fin else r[1]


def list_method(it, o, name, a, k):
    if name == 'append':
        it.touch(o)
        o.append(a[0])
        return None
    if name == 'extend':
        it.touch(o)
        o.extend(list(it.iterate(a[0])))
        return None
    if name == 'insert':
        it.touch(o)
        i = a[0]
        if type(i) is not int:
            i = it.pin(it.concrete_index(i), len(o))
        o.insert(i, a[1])
        return None
    if name == 'pop':
        it.touch(o)
        i = a[0] if a else -1
        if type(i) is Fin:
            i = i.force()
        if type(i) is AbsInt:
            i = it.pin(i, len(o))
        try:
            return o.pop(i)
        except IndexError as e:
            it.raise_native(e)
    if name == 'clear':
        it.touch(o)
        o.clear()
        return None
    if name == 'copy':
        return list(o)
    if name == 'reverse':
        it.touch(o)
        o.reverse()
        return None
    if name == 'index':
        lo = a[1] if len(a) > 1 else 0
        if type(a[0]) is Fin and len(a) == 1:
            r = index_fin(it, o, a[0])
            if r is not None:
                return r
        for i, x in enumerate(o):
            if i >= lo and it.truth(it.equal(x, a[0])):
                return i
        it.raise_native(ValueError('x not in list'))
    if name == 'count':
        return sum(1 for x in o if it.truth(it.equal(x, a[0])))
    if name == 'remove':
        for i, x in enumerate(o):
            if it.truth(it.equal(x, a[0])):
                it.touch(o)
                del o[i]
                return None
        it.raise_native(ValueError('list.remove(x): x not in list'))
    if name == 'sort':
        r = _sorted(it, [o], k)
        it.touch(o)
        o[:] = r
        return None
    if name == '__len__':
        return len(o)
    if name == '__contains__':
        return it.contains(o, a[0])
    if name == '__getitem__':
        return it.getitem(o, a[0])
    if name == '__setitem__':
        return it.setitem(o, a[0], a[1])
    if name == '__iter__':
        return _iter(it, [o])
    raise AnalysisError('list.%s' % name)


def dict_method(it, o, name, a, k):
    from .interp import DictView
    if name == 'get':
        ok, v = it.dict_find(o, a[0])
        return v if ok else (a[1] if len(a) > 1 else k.get('default'))
    if name in ('items', 'keys', 'values'):
        return DictView(o, name)
    if name == 'copy':
        return dict(o)
    if name == 'update':
        it.touch(o)
        if a:
            src = a[0]
            if type(src) is dict:
                for kk, vv in list(src.items()):
                    it.dict_set(o, kk, vv)
            else:
                for p in it.iterate(src):
                    kk, vv = list(it.iterate(p))
                    it.dict_set(o, kk, vv)
        for kk, vv in k.items():
            it.dict_set(o, kk, vv)
        return None
    if name == 'setdefault':
        ok, v = it.dict_find(o, a[0])
        if ok:
            return v
        v = a[1] if len(a) > 1 else None
        it.dict_set(o, a[0], v)
        return v
    if name == 'pop':
        ok, v = it.dict_find(o, a[0])
        if not ok:
            if len(a) > 1:
                return a[1]
            it.raise_native(KeyError(a[0]))
        it.delitem(o, a[0])
        return v
    if name == 'popitem':
        if not o:
            it.raise_native(KeyError('popitem(): dictionary is empty'))
        it.touch(o)
        return o.popitem()
    if name == 'clear':
        it.touch(o)
        o.clear()
        return None
    if name == '__contains__':
        return it.contains(o, a[0])
    if name == '__getitem__':
        return it.getitem(o, a[0])
    if name == '__setitem__':
        return it.setitem(o, a[0], a[1])
    if name == '__len__':
        return len(o)
    if name == 'fromkeys':
        return native_unbound(it, dict, 'fromkeys', a, k)
    raise AnalysisError('dict.%s' % name)


def set_method(it, o, name, a, k):
    if name == 'add':
        x = a[0].force() if type(a[0]) is Fin else a[0]
        if not it.truth(it.contains(o, x)):
            it.touch(o)
            try:
                o.add(x)
            except TypeError as e:
                it.raise_native(e)
        return None
    if name == 'update':
        it.touch(o)
        for s in a:
            o |= it.mkset(it.iterate(s))
        return None
    if name in ('discard', 'remove'):
        for x in list(o):
            if it.truth(it.equal(x, a[0])):
                it.touch(o)
                o.discard(x)
                return None
        if name == 'remove':
            it.raise_native(KeyError(repr(a[0])))
        return None
    if name == 'copy':
        return set(o)
    if name == 'clear':
        it.touch(o)
        o.clear()
        return None
    if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
        others = [x if isinstance(x, (set, frozenset)) else it.mkset(it.iterate(x)) for x in a]
        return getattr(o, name)(*others)
    if name == 'pop':
        it.touch(o)
        return o.pop()
    if name == '__contains__':
        return it.contains(o, a[0])
    raise AnalysisError('set.%s' % name)


def bytes_method(it, o, name, a, k):
    from .interp import explode
    if type(o) is Buf:
        if name == 'append':
            it.touch(o)
            o.s[:] = norm_segs(o.s + segs_of(mkbytes([it.byte_seg(a[0])])))
            return None
        if name == 'extend':
            it.touch(o)
            o.s[:] = norm_segs(o.s + it.to_segs(a[0]))
            return None
        if name == 'insert':
            it.setitem(o, slice(a[0], a[0]), mkbytes([it.byte_seg(a[1])]))
            return None
        if name == 'clear':
            it.touch(o)
            o.s[:] = []
            return None
        if name == 'copy':
            return Buf(o.s)
        if name == 'pop':
            i = a[0] if a else -1
            v = it.getitem(o, i)
            i = it.norm_pos(o.s, i)
            it.delitem(o, slice(i, binop('+', i, 1)))
            return v
        if name == 'reverse':
            xs = explode(o.s)
            if xs is None:
                raise AnalysisError('reverse of opaque bytes')
            it.touch(o)
            o.s[:] = norm_segs([it.byte_seg(x) for x in reversed(xs)])
            return None
    if isinstance(o, bytes) and all(strs._plain(x) for x in a) and name not in ('join',):
        try:
            return getattr(o, name)(*a, **k)
        except (ValueError, TypeError, UnicodeError, LookupError) as e:
            it.raise_native(e)
    if name == 'join':
        out = []
        for i, x in enumerate(it.iterate(a[0])):
            if i:
                out.extend(segs_of(o))
            out.extend(it.to_segs(x) if not isinstance(x, (int, str, AbsInt)) else it.raise_native(TypeError('expected bytes')))
        return mkbytes(out) if type(o) is not Buf else Buf(norm_segs(out))
    if name in ('ljust', 'rjust'):
        w = a[0]
        fill = a[1] if len(a) > 1 else b' '
        n = blen(segs_of(o))
        if it.truth(compare('<', n, w)):
            pad = segs_of(it.bytes_repeat(fill, binop('-', w, n)))
            return mkbytes(segs_of(o) + pad if name == 'ljust' else pad + segs_of(o))
        return o
    if name == 'decode':
        xs = explode(segs_of(o))
        if xs is not None:
            return mkstr([chr(x) if isinstance(x, int) else CharPiece(x, {chr(i) for i in range(256)}) for x in xs])
        out = []
        for s in segs_of(o):
            if isinstance(s, bytes):
                out.append(s.decode('latin1'))
            elif isinstance(s, OpqSeg) and s.name.startswith('text('):
                raise AnalysisError('decode of encoded text')
            else:
                out.append(TextPiece('decode(%r)' % (s,), None, seg_len(s)))
        return mkstr(out)
    if name == 'hex' and explode(segs_of(o)) is not None and all(type(x) is int for x in explode(segs_of(o))):
        return bytes(explode(segs_of(o))).hex(*a)
    if name == 'hex':
        return AbsStr([TextPiece('hex(%r)' % (o,), HEXD, binop('*', blen(segs_of(o)), 2))])
    if name in ('startswith', 'endswith', 'find', 'index', 'count'):
        if name in ('startswith', 'endswith') and isinstance(a[0], bytes):
            n = len(a[0])
            total = blen(segs_of(o))
            if not it.truth(compare('>=', total, n)):
                return False
            part = it.bytes_slice(segs_of(o), slice(0, n) if name == 'startswith' else slice(-n, None))
            return it.bytes_eq(part, a[0])
        return Top('bytes.%s' % name)
    if name == 'copy':
        return o
    if name == 'replace':
        return mkbytes([OpqSeg('replace(%r)' % (o,), sym('len', 0))])
    if name == '__len__':
        return it.length(o)
    if name == '__getitem__':
        return it.getitem(o, a[0])
    if name == '__setitem__':
        return it.setitem(o, a[0], a[1])
    raise AnalysisError('bytes.%s' % name)


def int_method(it, o, name, a, k):
    if name == 'to_bytes':
        n = a[0] if a else k.get('length', 1)
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        signed = it.truth(k.get('signed', False))
        if type(n) is not int:
            n = const_of(n)
            if n is None:
                raise AnalysisError('to_bytes with unknown length')
        if signed:
            ok = it.truth(compare('>=', o, -(1 << (8 * n - 1)))) and it.truth(compare('<', o, 1 << (8 * n - 1)))
        else:
            if not it.truth(compare('>=', o, 0)):
                it.raise_native(OverflowError("can't convert negative int to unsigned"))
            ok = it.truth(compare('<', o, 1 << (8 * n)))
        if not ok:
            it.raise_native(OverflowError('int too big to convert'))
        return mkbytes(int_segs(o, n, order == 'little'))
    if isinstance(o, int):
        try:
            return getattr(o, name)(*a, **k)
        except (TypeError, ValueError, OverflowError) as e:
            it.raise_native(e)
    if name == 'bit_length':
        lo, hi = o.range()
        for n in range(0, 66):
            if it.truth(compare('<', o if lo >= 0 else _abs(it, o), 1 << n)):
                return n
        return strs.fn_int('bit_length(%s)' % o.key(), lambda val: o.ev(val).bit_length(), 0, INF)
    if name in ('__add__', '__sub__', '__and__', '__or__', '__mul__', '__lshift__', '__rshift__', '__xor__', '__mod__', '__floordiv__'):
        op = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'mul': '*', 'lshift': '<<', 'rshift': '>>', 'xor': '^', 'mod': '%', 'floordiv': '//'}[name.strip('_')]
        return it.binop(op, o, a[0])
    if name in ('__index__', '__int__', 'conjugate'):
        return o
    raise AnalysisError('int.%s' % name)


def int_segs(v, n, little):
    out = []
    for i in range(n):
        b = mk_slice(v, 8 * i, 8)
        c = const_of(b)
        out.append(bytes([c]) if c is not None else ByteSeg(b))
    if not little:
        out.reverse()
    return out


def written_segs(it, f):
    if 'b' not in f.mode:
        raise AnalysisError('position in a text file')
    return [s for x in f.written for s in segs_of(x)]


def pad_to(it, segs, n):
    '''the bytes of a file that is written at position n'''
    total = blen(segs)
    if it.truth(compare('<', total, n)):
        return list(segs) + [RepSeg(0, binop('-', n, total))]
    return segs


def file_method(it, f, name, a, k):
    if name in ('close', '__exit__'):
        it.touch(f)
        f.closed = True
        return None
    if name == '__enter__':
        return f
    if name == 'flush':
        return None
    if f.closed:
        it.raise_native(ValueError('I/O operation on closed file.'))
    writable = any(c in f.mode for c in 'wax+')
    if name == 'writelines':
        for x in it.iterate(a[0]):
            file_method(it, f, 'write', [x], {})
        return None
    if writable and name in ('seek', 'tell'):
        if name == 'tell':
            return f.wpos if f.wpos is not None else blen(written_segs(it, f))
        it.touch(f)
        how = a[1] if len(a) > 1 else k.get('whence', 0)
        p = a[0]
        if how == 1:
            p = binop('+', f.wpos if f.wpos is not None else blen(written_segs(it, f)), p)
        elif how == 2:
            p = binop('+', blen(written_segs(it, f)), p)
        f.wpos = p
        return p
    if name == 'truncate' and writable:
        it.touch(f)
        segs = written_segs(it, f)
        n = a[0] if a and a[0] is not None else (f.wpos if f.wpos is not None else blen(segs))
        f.written[:] = [it.bytes_slice(pad_to(it, segs, n), slice(0, n))]
        return n
    if name == 'write':
        if not writable:
            it.raise_native(OSError('not writable'))
        x = a[0]
        if 'b' in f.mode and isinstance(x, (str, AbsStr)):
            it.raise_native(TypeError("a bytes-like object is required, not 'str'"))
        if 'b' not in f.mode and not isinstance(x, (str, AbsStr)):
            it.raise_native(TypeError('write() argument must be str'))
        it.touch(f)
        x = mkbytes(x.s) if type(x) is Buf else x
        if f.wpos is None or 'a' in f.mode:
            f.written.append(x)
            return it.length(x)
        n = it.length(x)
        segs = pad_to(it, written_segs(it, f), f.wpos)
        after = binop('+', f.wpos, n)
        f.written[:] = [it.bytes_slice(segs, slice(0, f.wpos)), x, it.bytes_slice(segs, slice(after, None))]
        f.wpos = after
        return n
    if name in ('read', 'readlines', 'readline'):
        binary = 'b' in f.mode
        if name == 'readline' or a:
            if a and const_of(a[0]) == -1 or (a and a[0] is None):
                pass
            elif name == 'read' and binary:
                n = a[0]
                pos = getattr(f, 'pos', 0)
                data = f.spec['bytes']
                r = it.bytes_slice(segs_of(data), slice(pos, binop('+', pos, n)))
                f.pos = binop('+', pos, n)
                return r
            else:
                raise AnalysisError('partial read')
        if name == 'readlines':
            if 'lines' in f.spec:
                return list(f.spec['lines'])
            v = f.spec.get('text')
            if isinstance(v, str):
                return v.splitlines(True)
            raise AnalysisError('readlines')
        if f.consumed:
            return b'' if binary else ''
        it.touch(f)
        f.consumed = True
        key = 'bytes' if binary else 'text'
        if key in f.spec:
            v = f.spec[key]
            pos = getattr(f, 'pos', 0)
            if binary and const_of(pos) != 0:
                return it.bytes_slice(segs_of(v), slice(pos, None))
            return v
        raise AnalysisError('read of %s in mode %s' % (f.name, f.mode))
    if name in ('seek', 'tell'):
        if name == 'seek':
            f.consumed = False
            f.pos = a[0] if (len(a) < 2 or a[1] == 0) else (
                binop('+', blen(segs_of(f.spec['bytes'])), a[0]) if a[1] == 2 else binop('+', getattr(f, 'pos', 0), a[0]))
            return f.pos
        if f.consumed:
            return blen(segs_of(f.spec['bytes']))
        return getattr(f, 'pos', 0)
    raise AnalysisError('file.%s' % name)


# --------------------------------------------------------------------- struct
SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def struct_pack(it, a, k):
    fmt, args = a[0], list(a[1:])
    if type(fmt) is Fin:
        fmt = fmt.force()
    if not isinstance(fmt, str):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        else:
            it.raise_native(TypeError('Struct() argument 1 must be a str or bytes object'))
    order = '@'
    body = fmt
    if fmt[:1] in '@=<>!' and fmt:
        order = fmt[0]
        body = fmt[1:]
    little = order in '@=<'
    codes = []
    num = ''
    for ch in body:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        if ch == 's':
            codes.append(('s', n))
        elif ch == 'x':
            codes.append(('x', n))
        elif ch in SIZES or ch in 'c?':
            codes.extend([(ch, 1)] * n)
        else:
            it.raise_native(struct.error('bad char in struct format'))
    need = sum(1 for c, _ in codes if c != 'x')
    if need != len(args):
        it.raise_native(struct.error('pack expected %d items for packing (got %d)' % (need, len(args))))
    segs = []
    i = 0
    total = 0
    for c, n in codes:
        if c == 'x':
            segs.append(bytes(n))
            total += n
            continue
        v = args[i]
        i += 1
        if c == 's':
            if not isinstance(v, (bytes, AbsBytes, Buf)):
                it.raise_native(struct.error("argument for 's' must be a bytes object"))
            ss = segs_of(v)
            ln = blen(ss)
            if it.truth(compare('>', ln, n)):
                ss = segs_of(it.bytes_slice(ss, slice(0, n)))
            elif const_of(ln) != n:
                ss = ss + segs_of(it.bytes_repeat(b'\0', binop('-', n, ln)))
            segs.extend(ss)
            continue
        if c == 'c':
            segs.extend(segs_of(v))
            continue
        if c == '?':
            segs.append(bytes([int(it.truth(v))]))
            continue
        size, signed = SIZES[c]
        if order == '@':
            if c in 'lL':
                size = 8
            # native alignment
            pad = -total % size
            if pad:
                segs.append(bytes(pad))
                total += pad
        total += size
        if type(v) is Fin:
            v = v.as_int() if v.is_int() else v.force()
        if type(v) is Cond:
            v = int(it.truth(v))
        if not isinstance(v, (int, AbsInt)):
            it.raise_native(struct.error('required argument is not an integer'))
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if not it.truth(compare('>=', v, lo)) or not it.truth(compare('<=', v, hi)):
            it.raise_native(struct.error('argument out of range'))
        segs.extend(int_segs(v, size, little))
    return mkbytes(segs)


def struct_unpack(it, a, k):
    fmt = a[0]
    from .interp import explode
    xs = explode(segs_of(a[1]))
    if xs is None:
        raise AnalysisError('unpack of opaque bytes')
    order = fmt[0] if fmt[:1] in '@=<>!' else '@'
    body = fmt.lstrip('@=<>!')
    little = order in '@=<'
    out = []
    pos = 0
    if struct.calcsize(fmt) != len(xs):
        it.raise_native(struct.error('unpack requires a buffer of %d bytes' % struct.calcsize(fmt)))
    num = ''
    for ch in body:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        if ch in 'sx':
            if ch == 's':
                out.append(mkbytes([it.byte_seg(x) for x in xs[pos:pos + n]]))
            pos += n
            continue
        for _ in range(n):
            if ch == 'c':
                out.append(mkbytes([it.byte_seg(xs[pos])]))
                pos += 1
                continue
            if ch == '?':
                out.append(it.truth(it.compare('!=', xs[pos], 0)))
                pos += 1
                continue
            if order == '@' and ch in 'lL':
                raise AnalysisError('native sizes')
            size, signed = SIZES[ch]
            part = xs[pos:pos + size]
            pos += size
            out.append(native_unbound(it, int, 'from_bytes', [mkbytes([it.byte_seg(x) for x in part]),
                                                             'little' if little else 'big'], {'signed': signed}))
    return tuple(out)


# --------------------------------------------------------------------- modules
def native_modules(it):
    def bi(name, fn):
        return Builtin(name, fn)

    mods = {}
    mods['struct'] = NS('struct', {
        'pack': bi('struct.pack', struct_pack),
        'unpack': bi('struct.unpack', struct_unpack),
        'calcsize': bi('struct.calcsize', lambda it, a, k: struct.calcsize(a[0])),
        'error': struct.error})
    mods['string'] = NS('string', {n: getattr(string, n) for n in (
        'ascii_lowercase', 'ascii_uppercase', 'ascii_letters', 'digits', 'hexdigits', 'octdigits',
        'punctuation', 'whitespace', 'printable')})
    path = NS('os.path', {
        'basename': bi('basename', lambda it, a, k: a[0].rsplit('/', 1)[-1] if isinstance(a[0], str) else AbsStr([TextPiece('basename')])),
        'join': bi('join', lambda it, a, k: strs.str_method(it, '/', 'join', [a], {})),
        'dirname': bi('dirname', lambda it, a, k: a[0].rpartition('/')[0] if isinstance(a[0], str) else AbsStr([TextPiece('dirname')])),
        'exists': bi('exists', lambda it, a, k: Top('exists')),
        'splitext': bi('splitext', lambda it, a, k: __import__('posixpath').splitext(a[0]) if isinstance(a[0], str) else Top('splitext')),
        'abspath': bi('abspath', lambda it, a, k: a[0]),
        'isfile': bi('isfile', lambda it, a, k: Top('isfile'))})
    mods['os.path'] = path
    mods['os'] = NS('os', {'path': path, 'sep': '/', 'environ': {}, 'getcwd': bi('getcwd', lambda it, a, k: '/'),
                           'linesep': '\n'})
    mods['sys'] = NS('sys', {'argv': it.argv, 'exit': bi('exit', lambda it, a, k: it.raise_native(SystemExit(*a))),
                             'stderr': Top('stderr'), 'stdout': Top('stdout'), 'byteorder': 'little',
                             'version_info': (3, 12, 3), 'platform': 'linux', 'modules': {}, 'maxsize': 2 ** 63 - 1,
                             'path': []})

    def csv_reader(it, a, k):
        f = a[0]
        if type(f) is FileObj:
            if f.closed:
                it.raise_native(ValueError('I/O operation on closed file.'))
            if 'rows' in f.spec:
                return list(f.spec['rows'])
        raise AnalysisError('csv.reader')
    mods['csv'] = NS('csv', {'reader': bi('csv.reader', csv_reader)})

    def json_load(it, a, k):
        f = a[0]
        if type(f) is FileObj and 'json' in f.spec:
            return f.spec['json']
        raise AnalysisError('json.load')

    def json_loads(it, a, k):
        import json
        if isinstance(a[0], (str, bytes)):
            try:
                return json.loads(a[0])
            except ValueError as e:
                it.raise_native(e)
        raise AnalysisError('json.loads')
    mods['json'] = NS('json', {'load': bi('json.load', json_load), 'loads': bi('json.loads', json_loads),
                               'JSONDecodeError': ValueError})

    def partial(it, a, k):
        f, pre = a[0], list(a[1:])
        return Builtin('partial', lambda it, b, kk: it.call(f, pre + b, {**k, **kk}))

    def reduce(it, a, k):
        xs = list(it.iterate(a[1]))
        acc = a[2] if len(a) > 2 else None
        if len(a) <= 2:
            if not xs:
                it.raise_native(TypeError('reduce() of empty iterable'))
            acc = xs.pop(0)
        for x in xs:
            acc = it.call(a[0], [acc, x])
        return acc
    ident = bi('identity', lambda it, a, k: a[0])
    deco = bi('wraps', lambda it, a, k: ident)

    mods['functools'] = NS('functools', {'partial': bi('partial', partial), 'reduce': bi('reduce', reduce),
                                         'wraps': deco, '_plain_key': bi('plain', _plain_key),
                                         'partialmethod': bi('partialmethod', lambda it, a, k: Builtin(
                                             'partialmethod', lambda it, b, kk: it.call(a[0], [b[0]] + list(a[1:]) + b[1:], {**k, **kk}))),
                                         })

    def chain(it, a, k):
        return [y for x in a for y in it.iterate(x)]

    def product(it, a, k):
        import itertools as _i
        return list(_i.product(*[list(it.iterate(x)) for x in a], repeat=k.get('repeat', 1)))

    def islice(it, a, k):
        import itertools as _i
        from .interp import LazyGen
        return LazyGen(iter(_i.islice(iter(it.iterate(a[0])), *a[1:])))

    def takewhile(it, a, k):
        from .interp import LazyGen

        def g():
            for x in it.iterate(a[1]):
                if not it.truth(it.call(a[0], [x])):
                    return
                yield x
        return LazyGen(g())

    def dropwhile(it, a, k):
        out = []
        on = True
        for x in it.iterate(a[1]):
            if on and it.truth(it.call(a[0], [x])):
                continue
            on = False
            out.append(x)
        return out

    def repeat(it, a, k):
        if len(a) < 2:
            raise AnalysisError('itertools.repeat without a count')
        n = const_of(a[1])
        if n is None:
            return it.binop('*', [a[0]], a[1])
        return [a[0]] * n

    def count(it, a, k):
        from .interp import LazyGen
        import itertools as _i
        return LazyGen(it.binop('+', a[0] if a else 0, it.binop('*', i, a[1] if len(a) > 1 else 1)) for i in _i.count())

    def zip_longest(it, a, k):
        import itertools as _i
        return list(_i.zip_longest(*[list(it.iterate(x)) for x in a], fillvalue=k.get('fillvalue')))

    def accumulate(it, a, k):
        out = []
        for x in it.iterate(a[0]):
            out.append(x if not out else (it.call(a[1], [out[-1], x]) if len(a) > 1 else it.binop('+', out[-1], x)))
        return out
    mods['itertools'] = NS('itertools', {'chain': bi('chain', chain), 'product': bi('product', product),
                                         'islice': bi('islice', islice), 'takewhile': bi('takewhile', takewhile),
                                         'dropwhile': bi('dropwhile', dropwhile), 'repeat': bi('repeat', repeat),
                                         'count': bi('count', count), 'zip_longest': bi('zip_longest', zip_longest),
                                         'accumulate': bi('accumulate', accumulate)})
    ops = {'add': '+', 'sub': '-', 'mul': '*', 'and_': '&', 'or_': '|', 'xor': '^', 'lshift': '<<', 'rshift': '>>',
           'mod': '%', 'floordiv': '//', 'truediv': '/', 'pow': '**'}
    od = {n: bi(n, (lambda s: lambda it, a, k: it.binop(s, a[0], a[1]))(s)) for n, s in ops.items()}
    for n, s in {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'is_': 'is'}.items():
        od[n] = bi(n, (lambda s: lambda it, a, k: it.compare(s, a[0], a[1]))(s))
    od['contains'] = bi('contains', lambda it, a, k: it.contains(a[0], a[1]))
    od['not_'] = bi('not_', lambda it, a, k: not it.truth(a[0]))
    od['neg'] = bi('neg', lambda it, a, k: it.binop('-', 0, a[0]))
    od['getitem'] = bi('getitem', lambda it, a, k: it.getitem(a[0], a[1]))
    od['itemgetter'] = bi('itemgetter', lambda it, a, k: Builtin('itemgetter', lambda it, b, kk: it.getitem(b[0], a[0]) if len(a) == 1 else tuple(it.getitem(b[0], x) for x in a)))
    od['attrgetter'] = bi('attrgetter', lambda it, a, k: Builtin('attrgetter', lambda it, b, kk: it.getattr(b[0], a[0])))
    od['index'] = bi('index', lambda it, a, k: a[0])
    mods['operator'] = NS('operator', od)
    import math

    def ceil(it, a, k):
        if isinstance(a[0], (int, float)):
            return math.ceil(a[0])
        raise AnalysisError('math.ceil')
    mods['math'] = NS('math', {'ceil': bi('ceil', ceil),
                               'floor': bi('floor', lambda it, a, k: math.floor(a[0])),
                               'log2': bi('log2', lambda it, a, k: math.log2(a[0])),
                               'inf': math.inf, 'pi': math.pi,
                               'gcd': bi('gcd', lambda it, a, k: math.gcd(*a))})

    def namedtuple(it, a, k):
        name, fields = a[0], a[1]
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        fields = list(fields)
        dflt = list(k.get('defaults', ()) or ())
        cls = Class(name, [], {'_fields': tuple(fields)}, None)

        def make(it, b, kk):
            i = Inst(cls)
            vals = list(b)
            for j, f in enumerate(fields):
                if j < len(vals):
                    i.attrs[f] = vals[j]
                elif f in kk:
                    i.attrs[f] = kk[f]
                elif j >= len(fields) - len(dflt):
                    i.attrs[f] = dflt[j - (len(fields) - len(dflt))]
                else:
                    it.raise_native(TypeError('missing required argument'))
            return i
        cls.attrs['__is_namedtuple__'] = Builtin('namedtuple', make)
        cls.attrs['__iter__'] = Builtin('iter', lambda it, b, kk: [b[0].attrs[f] for f in fields])
        cls.attrs['__getitem__'] = Builtin('getitem', lambda it, b, kk: it.getitem([b[0].attrs[f] for f in fields], b[1]))
        cls.attrs['__len__'] = Builtin('len', lambda it, b, kk: len(fields))
        cls.attrs['_replace'] = Builtin('replace', lambda it, b, kk: make(it, [kk.get(f, b[0].attrs[f]) for f in fields], {}))
        def same(it, b, kk):
            if type(b[1]) is Inst and it.class_lookup(b[1].cls, '__is_namedtuple__') or type(b[1]) is tuple:
                return it.equal([b[0].attrs[f] for f in fields], list(it.iterate(b[1])))
            return False

        def plus(it, b, kk):
            return tuple(b[0].attrs[f] for f in fields) + tuple(it.iterate(b[1]))
        cls.attrs['__eq__'] = Builtin('eq', same)
        cls.attrs['__add__'] = Builtin('add', plus)
        cls.attrs['_asdict'] = Builtin('asdict', lambda it, b, kk: {f: b[0].attrs[f] for f in fields})
        cls.attrs['_make'] = StaticM(Builtin('make', lambda it, b, kk: make(it, list(it.iterate(b[0])), {})))
        return cls

    mods['collections'] = NS('collections', {
        'namedtuple': bi('namedtuple', namedtuple), 'OrderedDict': dict})
    abc = {n: object for n in ('Iterable', 'Sequence', 'Mapping', 'Callable')}
    mods['collections.abc'] = NS('collections.abc', abc)

    generic = {n: Top('typing.%s' % n) for n in ('Any', 'List', 'Dict', 'Tuple', 'Optional', 'Union', 'Callable', 'Iterable',
                                                'Sequence', 'Set', 'Type', 'Generator', 'Iterator', 'Literal', 'Final', 'Mapping')}
    generic['NamedTuple'] = bi('NamedTuple', lambda it, a, k: namedtuple(it, [a[0], [x[0] for x in a[1]]], {}))
    generic['TYPE_CHECKING'] = False
    generic['cast'] = bi('cast', lambda it, a, k: a[1])
    generic['TypeVar'] = bi('TypeVar', lambda it, a, k: Top('TypeVar'))
    mods['typing'] = NS('typing', generic)
    mods['enum'] = NS('enum', {n: NS(n, {}) for n in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'unique')})
    mods['enum'].attrs['auto'] = bi('auto', lambda it, a, k: Top('auto'))
    mods['copy'] = NS('copy', {'copy': bi('copy', lambda it, a, k: _copy(it, a[0])),
                               'deepcopy': bi('deepcopy', lambda it, a, k: _deepcopy(it, a[0], {}))})
    mods['contextlib'] = NS('contextlib', {
        'suppress': bi('suppress', lambda it, a, k: NS('suppress', {'types': tuple(a)})),
        })
    mods['warnings'] = NS('warnings', {'warn': bi('warn', lambda it, a, k: None)})
    mods['logging'] = NS('logging', None)
    mods['__future__'] = NS('__future__', {n: None for n in ('annotations', 'print_function', 'division', 'absolute_import')})
    mods['abc'] = NS('abc', {'ABC': object, 'abstractmethod': ident, 'ABCMeta': type})
    import re
    mods['re'] = NS('re', _re_model(it))
    from . import pylib
    for n in pylib.SOURCES:
        if n not in mods:
            mods[n] = NS(n, {})
    for m in mods.values():
        m.from_import = True
    return mods


def _plain_key(it, a, k):
    def ok(x):
        if type(x) in (int, str, bytes, bool, float, type(None)):
            return True
        if type(x) is tuple:
            return all(ok(y) for y in x)
        return type(x) in (Inst, Class, Func, Bound) and it_noeq(x)

    def it_noeq(x):
        return type(x) is not Inst or it.class_lookup(x.cls, '__eq__') is None
    return ok(a[0])


PURE = ('shlex', 'math', 'os.path', 'posixpath', 'binascii', 'zlib', 'string', 'operator', 'bisect', 'base64', 'hashlib', 'textwrap',
        'itertools', 'functools', 'struct', 'heapq', 'keyword', 'unicodedata', 'numbers', 'fractions', 'decimal')


def plain_arg(v):
    if type(v) in (int, str, bytes, bool, float, type(None)):
        return v
    if type(v) is AbsInt:
        c = const_of(v)
        if c is not None:
            return c
    if type(v) in (AbsBytes, Buf):
        from .interp import explode
        xs = explode(v.s)
        if xs is not None and all(isinstance(x, int) for x in xs):
            return bytes(xs)
    if type(v) in (list, tuple):
        return type(v)(plain_arg(x) for x in v)
    raise AnalysisError('not a constant')


def foreign(it, o, name):
    """attribute of a standard module without a model: computed for constants when the function is
    pure, unknown otherwise; only what the real module does not have is an AttributeError"""
    if not o.from_import:
        if o.attrs is None:
            return Top('%s.%s' % (o.name, name))
        it.raise_native(AttributeError('%r has no attribute %r' % (o.name, name)))
    import importlib
    try:
        real = importlib.import_module(o.name)
    except Exception:
        return Top('%s.%s' % (o.name, name))
    if not hasattr(real, name):
        if o.attrs is None:
            return Top('%s.%s' % (o.name, name))
        it.raise_native(AttributeError('module %r has no attribute %r' % (o.name, name)))
    v = getattr(real, name)
    if type(v) in (int, str, bytes, bool, float, type(None)) and o.name in PURE:
        return v
    if isinstance(v, type) and issubclass(v, BaseException):
        return v
    label = '%s.%s' % (o.name, name)
    if o.name in PURE and callable(v) and not isinstance(v, type):
        def call(it, a, k):
            try:
                aa = [plain_arg(x) for x in a]
                kk = {n: plain_arg(x) for n, x in k.items()}
            except AnalysisError:
                return Top(label + '()')
            try:
                r = v(*aa, **kk)
            except Exception as e:
                it.raise_native(e)
            try:
                return plain_arg(r)
            except AnalysisError:
                return Top(label + '()')
        return Builtin(label, call)
    return Top(label)


def _copy(it, v):
    if type(v) in (list, dict, set):
        return type(v)(v)
    if type(v) is Buf:
        return Buf(v.s)
    if type(v) is Inst:
        i = Inst(v.cls)
        i.attrs.update(v.attrs)
        return i
    return v


def _deepcopy(it, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if type(v) is list:
        r = []
        memo[id(v)] = r
        r.extend(_deepcopy(it, x, memo) for x in v)
        return r
    if type(v) is dict:
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = _deepcopy(it, x, memo)
        return r
    if type(v) is tuple:
        return tuple(_deepcopy(it, x, memo) for x in v)
    if type(v) is Buf:
        return Buf(v.s)
    if type(v) is set:
        return set(v)
    if type(v) is Inst:
        i = Inst(v.cls)
        memo[id(v)] = i
        for k, x in v.attrs.items():
            i.attrs[k] = _deepcopy(it, x, memo)
        return i
    return v


def _re_model(it):
    import re

    def match_obj(m):
        if m is None:
            return None
        cls = Class('Match', [], {}, None)
        cls.attrs['group'] = Builtin('group', lambda it, a, k: m.group(*a))
        cls.attrs['groups'] = Builtin('groups', lambda it, a, k: m.groups(*a))
        cls.attrs['groupdict'] = Builtin('groupdict', lambda it, a, k: m.groupdict())
        cls.attrs['start'] = Builtin('start', lambda it, a, k: m.start(*a))
        cls.attrs['end'] = Builtin('end', lambda it, a, k: m.end(*a))
        cls.attrs['span'] = Builtin('span', lambda it, a, k: m.span(*a))
        cls.attrs['__getitem__'] = Builtin('getitem', lambda it, a, k: m[a[1]])
        return Inst(cls)

    def on(fn):
        def f(it, a, k):
            s = a[1]
            if type(s) is Fin:
                return it.lift(lambda x: f(it, [a[0], x] + a[2:], k), s)
            if not isinstance(s, str):
                raise AnalysisError('regular expression over abstract text')
            r = getattr(re, fn)(a[0], s, *a[2:], **k)
            return match_obj(r) if fn in ('match', 'fullmatch', 'search') else r
        return Builtin('re.' + fn, f)

    def compile_(it, a, k):
        flags = a[1] if len(a) > 1 else k.get('flags', 0)
        cls = Class('Pattern', [], {}, None)
        for fn in ('match', 'fullmatch', 'search', 'findall', 'split'):
            def f(it, b, kk, fn=fn):
                return it.call(on(fn), [a[0], b[0]], {'flags': flags} if flags else {})
            cls.attrs[fn] = Builtin(fn, f)
        return Inst(cls)
    d = {fn: on(fn) for fn in ('match', 'fullmatch', 'search', 'findall', 'split')}
    d['compile'] = Builtin('re.compile', compile_)
    def on_sub(it, a, k):
        if all(isinstance(x, (str, int)) for x in a):
            return re.sub(*a, **k)
        raise AnalysisError('re.sub')

    def on_iter(it, a, k):
        if isinstance(a[1], str):
            return [match_obj(m) for m in re.finditer(*a, **k)]
        raise AnalysisError('re.finditer')
    d['sub'] = Builtin('re.sub', on_sub)
    d['finditer'] = Builtin('re.finditer', on_iter)
    d.update(IGNORECASE=int(re.I), I=int(re.I), escape=Builtin('re.escape', lambda it, a, k: re.escape(a[0])))
    return d
