'''Heap objects of the interpreted program.'''


class InterpRaise(Exception):
    '''an exception of the analysed program in flight'''

    def __init__(self, value, where=None):
        self.value = value
        self.where = where


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'globals_', 'nonlocals', 'func', 'module', 'is_class')

    def __init__(self, parent, module, locals_=None, func=None, is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.globals_ = ()
        self.nonlocals = ()
        self.func = func
        self.is_class = is_class


class Func:
    def __init__(self, node, body, env, module, name, params, code):
        self.node, self.body, self.env, self.module = node, body, env, module
        self.name = name
        self.params = params
        self.code = code
        self.owner = None
        self.attrs = {'__name__': name, '__doc__': None}
        self.is_gen = False
        self.qualname = name

    def __repr__(self):
        return 'Func(%s)' % self.qualname


class Bound:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return 'Bound(%r)' % (self.func,)


class Class:
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
        self.mro = self._mro()

    def _mro(self):
        # C3 over interpreted bases; native bases are appended at the end
        seqs = []
        for b in self.bases:
            if isinstance(b, Class):
                seqs.append(list(b.mro))
            else:
                seqs.append([b])
        seqs.append(list(self.bases))
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                head = seqs[0][0]
            out.append(head)
            for s in seqs:
                if s and s[0] is head:
                    s.pop(0)

    def __repr__(self):
        return 'Class(%s)' % self.name

    def is_sub(self, other):
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, type) and isinstance(other, type) and issubclass(c, other):
                return True
        return False


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.env = Env(None, self)
        self.env.vars['__name__'] = name
        self.loaded = False

    def __repr__(self):
        return 'Module(%s)' % self.name


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Super:
    def __init__(self, owner, self_):
        self.owner, self.self_ = owner, self_


class RepList:
    '''[items] * n with unknown n'''

    def __init__(self, items, n):
        self.items, self.n = items, n


class FileObj:
    def __init__(self, name, mode, spec):
        self.name, self.mode, self.spec = name, mode, spec
        self.closed = False
        self.written = []
        self.wpos = None        # position of the next write; None: the end
        self.consumed = False


class NS:
    '''native namespace module model'''

    def __init__(self, name, attrs, module=False):
        self.name, self.attrs = name, attrs
        self.from_import = module
