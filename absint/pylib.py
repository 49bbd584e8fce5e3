'''Models of standard library classes, written in the interpreted language itself.'''

SOURCES = {}

SOURCES['contextlib'] = (('contextmanager', 'ContextDecorator', 'nullcontext', 'closing', 'ExitStack'), '''
class _GeneratorContext:
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration:
            return True
        except BaseException as e:
            if e is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(f):
    def helper(*args, **kwargs):
        return _GeneratorContext(f(*args, **kwargs))
    return helper


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self.stack = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        v = cm.__enter__()
        self.stack.append(cm.__exit__)
        return v

    def callback(self, f, *a, **k):
        self.stack.append(lambda *exc: f(*a, **k) and None)
        return f

    def push(self, exit):
        self.stack.append(exit)
        return exit

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        swallowed = False
        while self.stack:
            if self.stack.pop()(typ, value, tb):
                swallowed = True
                typ = value = tb = None
        return swallowed
''')

SOURCES['collections'] = (('deque', 'defaultdict', 'Counter', 'UserDict', 'UserList'), '''
class deque:
    def __init__(self, items=(), maxlen=None):
        self.d = []
        self.maxlen = maxlen
        for x in items:
            self.append(x)

    def append(self, x):
        self.d.append(x)
        if self.maxlen is not None and len(self.d) > self.maxlen:
            del self.d[0]

    def appendleft(self, x):
        self.d.insert(0, x)
        if self.maxlen is not None and len(self.d) > self.maxlen:
            self.d.pop()

    def pop(self):
        if not self.d:
            raise IndexError('pop from an empty deque')
        return self.d.pop()

    def popleft(self):
        if not self.d:
            raise IndexError('pop from an empty deque')
        return self.d.pop(0)

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def extendleft(self, xs):
        for x in list(xs):
            self.appendleft(x)

    def clear(self):
        self.d.clear()

    def copy(self):
        return deque(self.d, self.maxlen)

    def count(self, x):
        return self.d.count(x)

    def index(self, x):
        return self.d.index(x)

    def remove(self, x):
        self.d.remove(x)

    def reverse(self):
        self.d.reverse()

    def insert(self, i, x):
        self.d.insert(i, x)

    def rotate(self, n=1):
        for _ in range(abs(n)):
            if n > 0:
                self.d.insert(0, self.d.pop())
            else:
                self.d.append(self.d.pop(0))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __iter__(self):
        return iter(self.d)

    def __reversed__(self):
        return iter(self.d[::-1])

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __getitem__(self, i):
        return self.d[i]

    def __setitem__(self, i, v):
        self.d[i] = v

    def __delitem__(self, i):
        del self.d[i]

    def __contains__(self, x):
        return x in self.d

    def __eq__(self, o):
        return isinstance(o, deque) and self.d == o.d

    def __repr__(self):
        return 'deque(' + repr(self.d) + ')'


class UserDict:
    def __init__(self, items=(), **kw):
        self.data = dict(items, **kw)

    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        return self.__missing__(k)

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return len(self.data) > 0

    def __eq__(self, o):
        return self.data == (o.data if isinstance(o, UserDict) else o)

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def get(self, k, d=None):
        return self.data.get(k, d)

    def pop(self, *a):
        return self.data.pop(*a)

    def popitem(self):
        return self.data.popitem()

    def setdefault(self, k, d=None):
        return self.data.setdefault(k, d)

    def update(self, *a, **k):
        self.data.update(*a, **k)

    def clear(self):
        self.data.clear()

    def copy(self):
        c = type(self)()
        c.data = dict(self.data)
        return c

    def __repr__(self):
        return repr(self.data)


class defaultdict(UserDict):
    def __init__(self, default_factory=None, items=(), **kw):
        UserDict.__init__(self, items, **kw)
        self.default_factory = default_factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self.data[k] = v
        return v

    def copy(self):
        return defaultdict(self.default_factory, self.data)


class Counter(UserDict):
    def __init__(self, items=(), **kw):
        UserDict.__init__(self)
        self.update(items, **kw)

    def __missing__(self, k):
        return 0

    def update(self, items=(), **kw):
        if hasattr(items, 'items'):
            for k, v in items.items():
                self[k] = self[k] + v
        else:
            for k in items:
                self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def most_common(self, n=None):
        xs = sorted(self.data.items(), key=lambda kv: kv[1], reverse=True)
        return xs if n is None else xs[:n]

    def elements(self):
        for k, n in self.data.items():
            for _ in range(n):
                yield k


class UserList:
    def __init__(self, items=()):
        self.data = list(items)

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, v):
        self.data[i] = v

    def append(self, x):
        self.data.append(x)

    def extend(self, xs):
        self.data.extend(xs)
''')

SOURCES['types'] = (('SimpleNamespace', 'MappingProxyType'), '''
class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, o):
        return isinstance(o, SimpleNamespace) and vars(self) == vars(o)


def MappingProxyType(d):
    return d
''')

SOURCES['struct'] = (('Struct', 'pack_into', 'unpack_from', 'iter_unpack'), '''
import struct as _s


def pack_into(fmt, buf, offset, *args):
    data = _s.pack(fmt, *args)
    if offset < 0:
        offset += len(buf)
    if offset < 0 or offset + len(data) > len(buf):
        raise _s.error('pack_into requires a buffer of at least %d bytes' % (offset + len(data)))
    buf[offset:offset + len(data)] = data


def unpack_from(fmt, buf, offset=0):
    n = _s.calcsize(fmt)
    if offset < 0:
        offset += len(buf)
    if offset < 0 or offset + n > len(buf):
        raise _s.error('unpack_from requires a buffer of at least %d bytes' % (offset + n))
    return _s.unpack(fmt, buf[offset:offset + n])


def iter_unpack(fmt, buf):
    n = _s.calcsize(fmt)
    if n == 0 or len(buf) % n:
        raise _s.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    for i in range(0, len(buf), n):
        yield _s.unpack(fmt, buf[i:i + n])


class Struct:
    def __init__(self, format):
        self.format = format
        self.size = _s.calcsize(format)

    def pack(self, *args):
        return _s.pack(self.format, *args)

    def unpack(self, buf):
        return _s.unpack(self.format, buf)

    def pack_into(self, buf, offset, *args):
        pack_into(self.format, buf, offset, *args)

    def unpack_from(self, buf, offset=0):
        return unpack_from(self.format, buf, offset)

    def iter_unpack(self, buf):
        return iter_unpack(self.format, buf)
''')

SOURCES['dataclasses'] = (('dataclass', 'field', 'fields', 'asdict', 'astuple', 'replace', 'MISSING'), '''
class _Missing:
    pass


MISSING = _Missing()


class Field:
    def __init__(self, name, default, default_factory, init, repr, compare):
        self.name = name
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.compare = compare


def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True,
          metadata=None, kw_only=False):
    return Field(None, default, default_factory, init, repr, compare)


def _build(cls, init, repr_, eq, order):
    fs = {}
    for b in reversed(cls.__mro__):
        for f in getattr(b, '__own_fields__', []) if b is not object and b is not cls else []:
            fs[f.name] = f
    own = []
    for name in cls.__dict__.get('__annotations__', {}):
        v = cls.__dict__.get(name, MISSING)
        if isinstance(v, Field):
            f = Field(name, v.default, v.default_factory, v.init, v.repr, v.compare)
            if f.default is not MISSING:
                setattr(cls, name, f.default)
            else:
                delattr(cls, name)
        else:
            f = Field(name, v, MISSING, True, True, True)
        fs[name] = f
        own.append(f)
    cls.__own_fields__ = list(fs.values())
    fields_ = list(fs.values())
    takes = [f for f in fields_ if f.init]

    def __init__(self, *args, **kw):
        if len(args) > len(takes):
            raise TypeError('__init__() takes %d positional arguments' % (len(takes) + 1))
        for i, f in enumerate(takes):
            if i < len(args):
                if f.name in kw:
                    raise TypeError('__init__() got multiple values for argument ' + f.name)
                v = args[i]
            elif f.name in kw:
                v = kw.pop(f.name)
            elif f.default_factory is not MISSING:
                v = f.default_factory()
            elif f.default is not MISSING:
                v = f.default
            else:
                raise TypeError('__init__() missing required argument: ' + f.name)
            setattr(self, f.name, v)
        if kw:
            raise TypeError('__init__() got an unexpected keyword argument')
        for f in fields_:
            if not f.init:
                if f.default_factory is not MISSING:
                    setattr(self, f.name, f.default_factory())
                elif f.default is not MISSING:
                    setattr(self, f.name, f.default)
        if hasattr(self, '__post_init__'):
            self.__post_init__()

    def key(self):
        return tuple([getattr(self, f.name) for f in fields_ if f.compare])

    def __eq__(self, o):
        if type(o) is not type(self):
            return NotImplemented
        return key(self) == key(o)

    def __lt__(self, o):
        return key(self) < key(o)

    def __le__(self, o):
        return key(self) <= key(o)

    def __gt__(self, o):
        return key(self) > key(o)

    def __ge__(self, o):
        return key(self) >= key(o)

    def __repr__(self):
        return cls.__name__ + '(' + ', '.join([f.name + '=' + repr(getattr(self, f.name)) for f in fields_ if f.repr]) + ')'
    d = cls.__dict__
    if init and '__init__' not in d:
        cls.__init__ = __init__
    if eq and '__eq__' not in d:
        cls.__eq__ = __eq__
    if repr_ and '__repr__' not in d:
        cls.__repr__ = __repr__
    if order:
        cls.__lt__ = __lt__
        cls.__le__ = __le__
        cls.__gt__ = __gt__
        cls.__ge__ = __ge__
    return cls


def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False,
              match_args=True, kw_only=False, slots=False, weakref_slot=False):
    def wrap(c):
        return _build(c, init, repr, eq, order)
    if cls is None:
        return wrap
    return wrap(cls)


def fields(x):
    return tuple(x.__own_fields__)


def asdict(x):
    return {f.name: getattr(x, f.name) for f in x.__own_fields__}


def astuple(x):
    return tuple([getattr(x, f.name) for f in x.__own_fields__])


def replace(x, **kw):
    d = asdict(x)
    d.update(kw)
    return type(x)(**d)
''')

SOURCES['io'] = (('BytesIO', 'StringIO'), '''
class BytesIO:
    def __init__(self, data=b''):
        self.buf = bytearray(data)
        self.pos = 0
        self.closed = False

    def write(self, data):
        if self.pos > len(self.buf):
            self.buf += bytes(self.pos - len(self.buf))
        self.buf[self.pos:self.pos + len(data)] = data
        self.pos += len(data)
        return len(data)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, n=-1):
        r = bytes(self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n])
        self.pos += len(r)
        return r

    def getvalue(self):
        return bytes(self.buf)

    def getbuffer(self):
        return self.buf

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.buf) + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.buf[n:]
        return n

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class StringIO:
    def __init__(self, text=''):
        self.text = text
        self.pos = 0

    def write(self, text):
        self.text = self.text + text
        return len(text)

    def getvalue(self):
        return self.text

    def read(self):
        r = self.text[self.pos:]
        self.pos = len(self.text)
        return r

    def __iter__(self):
        return iter(self.text.splitlines(True))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass
''')

SOURCES['array'] = (('array',), '''
class array:
    def __init__(self, typecode, items=()):
        self.typecode = typecode
        self.d = []
        if isinstance(items, (bytes, bytearray)) and typecode != 'B':
            raise NotImplementedError('array from bytes')
        self.itemsize = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8}[typecode]
        for x in items:
            self.append(x)

    def _check(self, x):
        n = 8 * self.itemsize
        if self.typecode.isupper():
            if x < 0 or x >= (1 << n):
                raise OverflowError('unsigned value out of range')
        elif x < -(1 << (n - 1)) or x >= (1 << (n - 1)):
            raise OverflowError('signed value out of range')
        return x

    def append(self, x):
        self.d.append(self._check(x))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def frombytes(self, b):
        if self.itemsize != 1:
            raise NotImplementedError('frombytes')
        for x in b:
            self.d.append(x)

    def tobytes(self):
        return b''.join([x.to_bytes(self.itemsize, 'little', signed=not self.typecode.isupper()) for x in self.d])

    def tolist(self):
        return list(self.d)

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return array(self.typecode, self.d[i])
        return self.d[i]

    def __setitem__(self, i, v):
        self.d[i] = self._check(v)

    def __bytes__(self):
        return self.tobytes()
''')

SOURCES['functools'] = (('lru_cache', 'cache', 'cached_property', 'total_ordering'), '''
import functools as _f


def _cached(f):
    memo = {}

    def wrapper(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        if not _f._plain_key(key):
            return f(*args, **kw)
        if key in memo:
            return memo[key]
        v = f(*args, **kw)
        memo[key] = v
        return v
    wrapper.__wrapped__ = f
    wrapper.cache_clear = memo.clear
    return wrapper


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached


def cache(f):
    return _cached(f)


class cached_property:
    def __init__(self, func):
        self.func = func
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        v = self.func(obj)
        obj.__dict__[self.name] = v
        return v


def total_ordering(cls):
    d = cls.__dict__
    if '__lt__' in d:
        lt = d['__lt__']
        if '__gt__' not in d:
            cls.__gt__ = lambda self, o: not (lt(self, o) or self == o)
        if '__le__' not in d:
            cls.__le__ = lambda self, o: lt(self, o) or self == o
        if '__ge__' not in d:
            cls.__ge__ = lambda self, o: not lt(self, o)
    else:
        raise NotImplementedError('total_ordering')
    return cls
''')

SOURCES['operator'] = (('methodcaller', 'setitem', 'delitem', 'concat', 'pos', 'invert', 'inv', 'truth', 'is_not',
                       'iadd', 'ior', 'iand', 'attrgetter'), '''
def methodcaller(name, *args, **kw):
    return lambda o: getattr(o, name)(*args, **kw)


def attrgetter(*names):
    def one(o, name):
        for part in name.split('.'):
            o = getattr(o, part)
        return o
    if len(names) == 1:
        return lambda o: one(o, names[0])
    return lambda o: tuple([one(o, n) for n in names])


def setitem(o, i, v):
    o[i] = v


def delitem(o, i):
    del o[i]


def concat(a, b):
    return a + b


def pos(a):
    return +a


def invert(a):
    return ~a


inv = invert


def truth(a):
    return bool(a)


def is_not(a, b):
    return a is not b


def iadd(a, b):
    a += b
    return a


def ior(a, b):
    a |= b
    return a


def iand(a, b):
    a &= b
    return a
''')

SOURCES['itertools'] = (('groupby', 'starmap', 'tee', 'pairwise', 'batched', 'combinations', 'permutations', 'cycle', 'compress',
                        'filterfalse'), '''
def groupby(xs, key=None):
    cur = None
    group = []
    first = True
    for x in xs:
        k = x if key is None else key(x)
        if first or not (k == cur):
            if not first:
                yield cur, iter(group)
            cur = k
            group = []
            first = False
        group.append(x)
    if not first:
        yield cur, iter(group)


def starmap(f, xs):
    for x in xs:
        yield f(*x)


def tee(xs, n=2):
    xs = list(xs)
    return tuple([iter(list(xs)) for _ in range(n)])


def pairwise(xs):
    first = True
    prev = None
    for x in xs:
        if not first:
            yield prev, x
        prev = x
        first = False


def batched(xs, n):
    group = []
    for x in xs:
        group.append(x)
        if len(group) == n:
            yield tuple(group)
            group = []
    if group:
        yield tuple(group)


def combinations(xs, r):
    xs = list(xs)
    if r == 0:
        yield ()
        return
    for i in range(len(xs)):
        for rest in combinations(xs[i + 1:], r - 1):
            yield (xs[i],) + rest


def permutations(xs, r=None):
    xs = list(xs)
    r = len(xs) if r is None else r
    if r == 0:
        yield ()
        return
    for i in range(len(xs)):
        for rest in permutations(xs[:i] + xs[i + 1:], r - 1):
            yield (xs[i],) + rest


def cycle(xs):
    xs = list(xs)
    while xs:
        for x in xs:
            yield x


def compress(xs, sel):
    for x, s in zip(xs, sel):
        if s:
            yield x


def filterfalse(f, xs):
    for x in xs:
        if not (x if f is None else f(x)):
            yield x
''')
