'''AST -> closures.  Every closure takes an Env and works on abstract values.'''
import ast

from .values import *
from .values import CTX
from .objects import *
from . import strs


def step_of(s):
    if isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and \
            isinstance(s.value, ast.Constant) and type(s.value.value) is int:
        return s.target.id, s.value.value if isinstance(s.op, ast.Add) else -s.value.value


def counter(old, delta=0):
    '''a variable while one iteration stands for several: it can only be stepped'''
    c = Top('a counter during a run of characters')
    c.old, c.delta = old, delta
    return c


def is_counter(x):
    return type(x) is Top and hasattr(x, 'delta')


def plain(e):
    '''an expression that only reads names and computes: no effect, cannot fail on numbers'''
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.UnaryOp):
        return plain(e.operand)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr)) and plain(e.left) and plain(e.right)
    return False


def merged(fs, found):
    '''(one value,) for the values found for the elements of a finite choice, None when they are of different shapes'''
    vs = list(found.values())
    if all(type(v) is tuple and len(v) == len(vs[0]) for v in vs):
        parts = [merged(fs, {e: v[i] for e, v in found.items()}) for i in range(len(vs[0]))]
        return None if None in parts else (tuple(x[0] for x in parts),)
    if all(v is vs[0] for v in vs):
        return (vs[0],)
    if all(type(v) is type(vs[0]) and type(v) in (int, str) for v in vs):
        return (Fin(fs, found).collapse(),)
    return None


def fins_force(fs, found):
    return Fin(fs, found).force()


def bit_of(x):
    '''the truth of x as a number 0 or 1, when it hangs on one undecided bit'''
    if type(x) is AbsInt:
        x = compare('!=', x, 0)
    if type(x) is not Cond or x.op not in ('le', 'eq'):
        return None
    lin = x.lin
    if not isinstance(lin, AbsInt) or len(lin.t) != 1:
        return None
    a, k = lin.t[0]
    if tuple(atom_range(a)) != (0, 1):
        return None
    at = [((v <= 0) if x.op == 'le' else (v == 0)) != x.neg for v in (lin.c, lin.c + k)]
    if at[0] == at[1]:
        return None
    bit = AbsInt(0, ((a, 1),))
    return bit if at[1] else binop('-', 1, bit)



class _Locals(ast.NodeVisitor):
    '''names bound in one function scope'''

    def __init__(self):
        self.names, self.globals, self.nonlocals = set(), set(), set()
        self.gen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus inside a comprehension binds in the enclosing scope
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)


class Compiler:

    def __init__(self, interp, module):
        self.it = interp
        self.m = module
        self.names = []        # qualname stack

    # ------------------------------------------------------------- statements
    def block(self, stmts):
        it = self.it
        code = [(s.lineno, self.stmt(s)) for s in stmts
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        mod = self.m.name

        if len(code) == 1:
            ln, f = code[0]

            def run1(env):
                it.line = ln
                it.steps += 1
                if it.track_lines:
                    it.lines.add((mod, ln))
                f(env)
            return run1

        def run(env):
            for ln, f in code:
                it.line = ln
                it.steps += 1
                if it.track_lines:
                    it.lines.add((mod, ln))
                f(env)
        return run

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            m = self.no_statement
        try:
            return m(s)
        except AnalysisError as e:
            # only an execution that gets here is undecided
            return self.unsupported(s, e)

    def no_statement(self, s):
        raise AnalysisError('statement %s' % type(s).__name__)

    def unsupported(self, s, e, gen=False):
        msg = '%s:%d: %s' % (self.m.name, s.lineno, e)

        def f(env):
            raise AnalysisError(msg)

        def g(env):
            raise AnalysisError(msg)
            yield
        return g if gen else f

    def s_Expr(self, s):
        return self.expr(s.value)

    def s_Pass(self, s):
        return lambda env: None

    def s_Assign(self, s):
        v = self.expr(s.value)
        ts = [self.target(t) for t in s.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def f1(env):
                t0(env, v(env))
            return f1

        def f(env):
            x = v(env)
            for t in ts:
                t(env, x)
        return f

    def s_AnnAssign(self, s):
        name = s.target.id if isinstance(s.target, ast.Name) else None
        v = self.expr(s.value) if s.value is not None else None
        t = self.target(s.target)

        def f(env):
            if name is not None and env.is_class:
                env.vars.setdefault('__annotations__', {})[name] = Top('annotation')
            if v is not None:
                t(env, v(env))
        return f

    def s_AugAssign(self, s):
        it = self.it
        from .interp import BINOPS
        op = BINOPS[type(s.op)]
        v = self.expr(s.value)
        if isinstance(s.target, ast.Name):
            get = self.load_name(s.target.id)
            put = self.store_name(s.target.id)
            if step_of(s) is not None:
                step = step_of(s)[1]

                def fc(env):
                    x = get(env)
                    put(env, counter(x.old, x.delta + step) if is_counter(x) else it.iadd(op, x, v(env)))
                return fc
            return lambda env: put(env, it.iadd(op, get(env), v(env)))
        if isinstance(s.target, ast.Attribute):
            o = self.expr(s.target.value)
            name = s.target.attr

            def fa(env):
                x = o(env)
                it.setattr(x, name, it.iadd(op, it.getattr(x, name), v(env)))
            return fa
        if isinstance(s.target, ast.Subscript):
            o = self.expr(s.target.value)
            i = self.expr(s.target.slice)

            def fs(env):
                x = o(env)
                k = i(env)
                it.setitem(x, k, it.iadd(op, it.getitem(x, k), v(env)))
            return fs
        raise AnalysisError('augmented target')

    def target(self, t):
        it = self.it
        if isinstance(t, ast.Name):
            return self.store_name(t.id)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            name = t.attr
            return lambda env, v: it.setattr(o(env), name, v)
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            i = self.expr(t.slice)
            return lambda env, v: it.setitem(o(env), i(env), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            ts = [self.target(e.value if isinstance(e, ast.Starred) else e) for e in elts]
            n = len(ts)

            def f(env, v):
                xs = list(it.iterate(v))
                if star:
                    k = star[0]
                    if len(xs) < n - 1:
                        it.raise_native(ValueError('not enough values to unpack'))
                    tail = n - 1 - k
                    parts = xs[:k] + [xs[k:len(xs) - tail]] + xs[len(xs) - tail:]
                    for tt, x in zip(ts, parts):
                        tt(env, x)
                    return
                if len(xs) < n:
                    it.raise_native(ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(xs))))
                if len(xs) > n:
                    it.raise_native(ValueError('too many values to unpack (expected %d)' % n))
                for tt, x in zip(ts, xs):
                    tt(env, x)
            return f
        if isinstance(t, ast.Starred):
            return self.target(t.value)
        raise AnalysisError('target %s' % type(t).__name__)

    def store_name(self, name):
        it = self.it

        def f(env, v):
            if name in env.globals_:
                it.touch(env.module.env.vars)
                env.module.env.vars[name] = v
                return
            if name in env.nonlocals:
                e = env.parent
                while e is not None:
                    if name in e.vars and not e.is_class:
                        it.touch(e.vars)
                        e.vars[name] = v
                        return
                    e = e.parent
            env.vars[name] = v
        return f

    def load_name(self, name):
        it = self.it

        def f(env):
            v = env.vars
            if name in v:
                return v[name]
            if env.locals is not None and name in env.locals:
                it.raise_native(UnboundLocalError(
                    "cannot access local variable '%s' where it is not associated with a value" % name))
            e = env.parent
            while e is not None:
                if not e.is_class:
                    if name in e.vars:
                        return e.vars[name]
                    if e.locals is not None and name in e.locals:
                        it.raise_native(NameError("cannot access free variable '%s'" % name))
                e = e.parent
            g = env.module.env.vars
            if name in g:
                return g[name]
            b = it.builtins
            if name in b:
                return b[name]
            it.raise_native(NameError("name '%s' is not defined" % name))
        return f

    def s_Return(self, s):
        from .interp import ReturnEx
        if s.value is None:
            def r0(env):
                raise ReturnEx(None)
            return r0
        v = self.expr(s.value)

        def r(env):
            raise ReturnEx(v(env))
        return r

    def s_If(self, s):
        it = self.it
        c = self.cond(s.test)
        a = self.block(s.body)
        b = self.block(s.orelse) if s.orelse else None

        def f(env):
            if c(env):
                a(env)
            elif b is not None:
                b(env)
        if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.AugAssign) and isinstance(s.body[0].op, (ast.Add, ast.BitOr)) and \
                plain(s.body[0].value) and not isinstance(s.test, ast.BoolOp):
            return self.masked(s, a)
        return f

    def masked(self, s, a):
        '''x += k under a condition that is one bit of a value: no partition'''
        from .interp import BINOPS
        it = self.it
        test, k = self.expr(s.test), self.expr(s.body[0].value)
        t = s.body[0].target
        read = ast.copy_location(type(t)(**{**{n: getattr(t, n) for n in t._fields}, 'ctx': ast.Load()}), t)
        get = self.expr(read) if plain(t.value if isinstance(t, (ast.Attribute, ast.Subscript)) else t) and (
            not isinstance(t, ast.Subscript) or plain(t.slice)) else None
        put = self.target(t)
        op = BINOPS[type(s.body[0].op)]
        add = isinstance(s.body[0].op, ast.Add)

        def f(env):
            x = test(env)
            b = bit_of(x) if get is not None else None
            if b is not None:
                n = k(env)
                v = get(env)
                if type(n) is int and type(v) in (int, AbsInt) and (add or n > 0 and not n & n - 1):
                    put(env, it.iadd(op, v, binop('*', b, n)))
                    return
            if it.truth(x):
                a(env)
        return f

    def s_For(self, s):
        from .interp import BreakEx, ContinueEx
        it = self.it
        seq = self.expr(s.iter)
        t = self.target(s.target)
        body = self.block(s.body)
        orelse = self.block(s.orelse) if s.orelse else None
        ln = s.lineno
        names = sorted({step_of(x)[0] for b in s.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and step_of(x)})
        counters = [(self.load_name(n), self.store_name(n)) for n in names]

        def stepping(env, length):
            '''one iteration stands for all the characters of a run: a counter moves by as many steps'''
            saved = []
            for get, put in counters:
                try:
                    old = get(env)
                except Exception:
                    continue
                saved.append((get, put, old))
                put(env, counter(old))

            def settle(times):
                for get, put, old in saved:
                    c = get(env)
                    if is_counter(c):
                        put(env, it.binop('+', old, it.binop('*', c.delta, times)) if c.delta else old)
            try:
                body(env)
            except ContinueEx:
                pass
            except BreakEx:
                settle(1)
                raise
            settle(length)

        def f(env):
            for x in it.iterate(seq(env)):
                it.line = ln
                it.tick()
                t(env, x)
                try:
                    if counters:
                        n = strs.run_length(x)
                        if n is not None:
                            stepping(env, n)
                            continue
                    body(env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            if orelse is not None:
                orelse(env)
        if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and isinstance(s.body[0].test, ast.Compare) and \
                len(s.body[0].test.ops) == 1 and isinstance(s.body[0].test.ops[0], (ast.Eq, ast.In)) and not any(
                    isinstance(x, ast.Call) and getattr(x.func, 'attr', '') not in ('upper', 'lower') for x in ast.walk(s.body[0].test)):
            inner = s.body[0].body
            if len(inner) == 1 and isinstance(inner[0], ast.Return) or len(inner) == 2 and isinstance(inner[1], ast.Break) and \
                    isinstance(inner[0], ast.Assign) and len(inner[0].targets) == 1 and isinstance(inner[0].targets[0], ast.Name):
                v = inner[0].value
                if v is not None and (plain(v) or isinstance(v, ast.Tuple) and all(map(plain, v.elts))):
                    return self.searching(s, f, seq, t, orelse)
        return f

    def searching(self, s, loop, seq, t, orelse):
        '''the first item for which a finite choice matches: one partition for all the matches'''
        from .interp import ReturnEx
        it = self.it
        test, inner = s.body[0].test, s.body[0].body
        cond = self.expr(test)
        value = self.expr(inner[0].value)
        put = None if isinstance(inner[0], ast.Return) else self.target(inner[0].targets[0])
        ln = s.lineno

        def f(env):
            items = seq(env)
            if type(items) in (tuple, str, range):
                items = list(items)
            elif type(items) is not list:
                items = list(it.iterate(items))
            fs, found, last = None, {}, None
            for n, x in enumerate(items):
                it.line = ln
                it.tick()
                t(env, x)
                c = cond(env)
                if type(c) is Fin:
                    c = c.collapse()
                if type(c) is not Fin or fs is not None and c.sym.name != fs.name or any(type(b) is not bool for _, b in c.items()):
                    if type(c) is bool and not c:
                        continue
                    break
                fs = c.sym
                v = None
                for e, b in c.items():
                    if b and e not in found:
                        if v is None:
                            v = value(env)
                        found[e] = n, v
            else:
                if fs is None:
                    if orelse is not None:
                        orelse(env)
                    return
                rest = [e for e in fin_allowed(fs) if e not in found]
                hit = [e for e in fin_allowed(fs) if e in found]
                if hit and (not rest or CTX.choose(2, 'found by %s' % fs.name) == 0):
                    fin_restrict(fs, hit)
                    v = merged(fs, {e: found[e][1] for e in hit})
                    if v is not None:
                        if put is None:
                            raise ReturnEx(v[0])
                        put(env, v[0])
                        return
                    n = fins_force(fs, {e: found[e][0] for e in hit})
                    t(env, items[n])
                    if put is None:
                        raise ReturnEx(value(env))
                    put(env, value(env))
                    return
                if rest:
                    fin_restrict(fs, rest)
                if orelse is not None:
                    orelse(env)
                return
            # not a plain search: item by item
            rerun(env, items)

        body = self.block(s.body)

        def rerun(env, items):
            from .interp import BreakEx
            for x in items:
                it.line = ln
                t(env, x)
                try:
                    body(env)
                except BreakEx:
                    return
            if orelse is not None:
                orelse(env)
        return f

    def s_While(self, s):
        from .interp import BreakEx, ContinueEx
        it = self.it
        c = self.cond(s.test)
        body = self.block(s.body)
        orelse = self.block(s.orelse) if s.orelse else None
        ln = s.lineno

        def f(env):
            n = 0
            forks = len(CTX.trail)
            while True:
                it.line = ln
                before = len(CTX.trail)
                if not c(env):
                    break
                n += 1
                it.tick()
                if n > 6 and len(CTX.trail) > before:
                    # loop whose exit test keeps splitting: bound the unrolling
                    it.bounded = True
                    raise Infeasible()
                if n > 100000:
                    raise AnalysisError('loop bound at %s' % it.where())
                try:
                    body(env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            if orelse is not None:
                orelse(env)
        return f

    def s_Break(self, s):
        from .interp import BreakEx

        def f(env):
            raise BreakEx()
        return f

    def s_Continue(self, s):
        from .interp import ContinueEx

        def f(env):
            raise ContinueEx()
        return f

    def s_Global(self, s):
        return lambda env: None
    s_Nonlocal = s_Global

    def s_Delete(self, s):
        it = self.it
        fs = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                name = t.id

                def dn(env, name=name):
                    if name not in env.vars:
                        it.raise_native(NameError(name))
                    del env.vars[name]
                fs.append(dn)
            elif isinstance(t, ast.Subscript):
                o, i = self.expr(t.value), self.expr(t.slice)
                fs.append(lambda env, o=o, i=i: it.delitem(o(env), i(env)))
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)

                def da(env, o=o, name=t.attr):
                    x = o(env)
                    it.touch(x.attrs)
                    if name not in x.attrs:
                        it.raise_native(AttributeError(name))
                    del x.attrs[name]
                fs.append(da)
            else:
                raise AnalysisError('del target')

        def f(env):
            for x in fs:
                x(env)
        return f

    def s_Assert(self, s):
        it = self.it
        c = self.cond(s.test)
        m = self.expr(s.msg) if s.msg else None

        def f(env):
            if not c(env):
                it.raise_native(AssertionError(m(env) if m else ''))
        return f

    def s_Raise(self, s):
        it = self.it
        if s.exc is None:
            def reraise(env):
                if not it.handling:
                    it.raise_native(RuntimeError('No active exception to reraise'))
                raise it.handling[-1]
            return reraise
        e = self.expr(s.exc)
        cause = self.expr(s.cause) if s.cause else None

        def f(env):
            v = e(env)
            cv = cause(env) if cause else None
            if type(v) is Fin:
                v = v.force()
            if type(v) is Class:
                v = it.instantiate(v, [], {})
            elif isinstance(v, type):
                v = v()
            elif type(v) is Builtin:
                v = it.call(v, [])
            if type(v) is Inst and it.native_base(v.cls) is None or \
                    not (type(v) is Inst or isinstance(v, BaseException)):
                it.raise_native(TypeError('exceptions must derive from BaseException'))
            if cv is not None:
                if type(cv) is Class or isinstance(cv, type):
                    cv = it.call(cv, [])
                if type(v) is Inst:
                    v.attrs['$cause'] = cv
                elif isinstance(cv, BaseException):
                    v.__cause__ = cv
            raise InterpRaise(v, it.where())
        return f

    def s_Try(self, s):
        it = self.it
        body = self.block(s.body)
        handlers = []
        for h in s.handlers:
            handlers.append((self.expr(h.type) if h.type else None, h.name, self.block(h.body)))
        orelse = self.block(s.orelse) if s.orelse else None
        final = self.block(s.finalbody) if s.finalbody else None
        put = {h.name: self.store_name(h.name) for h in s.handlers if h.name}

        def core(env):
            depth = len(it.stack)
            try:
                body(env)
            except InterpRaise as e:
                del it.stack[depth:]
                for typ, name, hb in handlers:
                    if typ is not None:
                        t = typ(env)
                        if not it.exc_matches(e.value, t):
                            continue
                    if name:
                        put[name](env, e.value)
                    it.handling.append(e)
                    it.caught.append((it.where(), e))
                    try:
                        hb(env)
                    finally:
                        it.handling.pop()
                        if name:
                            env.vars.pop(name, None)
                    return
                raise
            if orelse is not None:
                orelse(env)

        if final is None:
            return core

        def f(env):
            from .interp import ReturnEx, BreakEx, ContinueEx
            try:
                core(env)
            except (InterpRaise, ReturnEx, BreakEx, ContinueEx):
                final(env)
                raise
            final(env)
        return f

    s_TryStar = s_Try

    def with_parts(self, s):
        from .interp import is_prim
        it = self.it
        items = [(self.expr(i.context_expr), self.target(i.optional_vars) if i.optional_vars else None)
                 for i in s.items]

        def enter(env, opened):
            for e, t in items:
                x = e(env)
                if type(x) is Fin:
                    x = x.force()
                v = x
                if type(x) is Inst:
                    v = it.call(it.getattr(x, '__enter__'), [])
                    it.getattr(x, '__exit__')
                elif type(x) is Top:
                    v = Top(x.name + '.__enter__()')
                elif type(x) is not FileObj and not (type(x) is NS and x.name == 'suppress'):
                    if is_prim(x) or type(x) in (Class, Func, list, dict, set):
                        it.raise_native(TypeError('%r object does not support the context manager protocol' % it.tname(x)))
                    raise AnalysisError('with %s' % it.tname(x))
                opened.append(x)
                if t:
                    t(env, v)

        def leave(opened, exc):
            swallowed = False
            for x in reversed(opened):
                if type(x) is FileObj:
                    it.touch(x)
                    x.closed = True
                elif type(x) is Inst:
                    cls = None if exc is None else exc.cls if type(exc) is Inst else type(exc)
                    r = it.call(it.getattr(x, '__exit__'), [cls, exc, None if exc is None else Top('traceback')])
                    if exc is not None and it.truth(r):
                        swallowed = True
                        exc = None
                elif type(x) is NS and exc is not None and any(
                        it.exc_matches(exc, t) for t in x.attrs['types']):
                    swallowed = True
                    exc = None
            return swallowed

        def swallow(opened, e):
            if leave(opened, e.value):
                it.caught.append((it.where(), e))
                return True
            return False
        return enter, leave, swallow

    def s_With(self, s):
        from .interp import ReturnEx, BreakEx, ContinueEx
        body = self.block(s.body)
        enter, leave, swallow = self.with_parts(s)

        def f(env):
            opened = []
            try:
                enter(env, opened)
                body(env)
            except InterpRaise as e:
                if swallow(opened, e):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                leave(opened, None)
                raise
            leave(opened, None)
        return f

    def s_Import(self, s):
        it = self.it
        names = [(a.name, a.asname) for a in s.names]

        def f(env):
            for name, asname in names:
                m = it.import_module(name)
                if asname:
                    env.vars[asname] = m
                else:
                    top = name.split('.')[0]
                    env.vars[top] = m if top == name else it.import_module(top)
        return f

    def s_ImportFrom(self, s):
        it = self.it
        modname = s.module or ''
        names = [(a.name, a.asname or a.name) for a in s.names]
        level = s.level
        me = self.m

        def f(env):
            name = modname
            if level:
                pkg = me.name.split('.')
                is_pkg = (me.path or '').endswith('__init__.py')
                up = level - (1 if is_pkg else 0)
                base = pkg[:len(pkg) - up] if up else pkg
                name = '.'.join(base + ([modname] if modname else []))
            m = it.import_module(name)
            for a, b in names:
                if a == '*':
                    src = m.env.vars if isinstance(m, Module) else (m.attrs or {})
                    allv = src.get('__all__')
                    for k, v in list(src.items()):
                        if (allv is not None and k in allv) or (allv is None and not k.startswith('_')):
                            env.vars[k] = v
                    continue
                try:
                    env.vars[b] = it.getattr(m, a)
                except InterpRaise as e:
                    if isinstance(e.value, AttributeError):
                        it.raise_native(ImportError('cannot import name %r' % a))
                    raise
        return f

    # ------------------------------------------------------------- functions
    def s_FunctionDef(self, s):
        it = self.it
        mk = self.make_func(s, s.name, s.args, s.body)
        decos = [self.expr(d) for d in s.decorator_list]
        name = s.name
        put = self.store_name(name)

        def f(env):
            ds = [d(env) for d in decos]
            v = mk(env)
            for d in reversed(ds):
                v = it.call(d, [v])
            put(env, v)
        return f

    def s_AsyncFunctionDef(self, s):
        raise AnalysisError('async function')

    # ------------------------------------------------------- generator functions
    # statements of a generator function become Python generators over the same closures
    def g_block(self, stmts):
        it = self.it
        mod = self.m.name
        code = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            y = has_yield(s)
            code.append((s.lineno, y, self.g_stmt(s) if y else self.stmt(s)))

        def run(env):
            for ln, y, f in code:
                it.line = ln
                it.steps += 1
                if it.track_lines:
                    it.lines.add((mod, ln))
                if y:
                    yield from f(env)
                else:
                    f(env)
        return run

    def g_stmt(self, s):
        m = getattr(self, 'g_' + type(s).__name__, None)
        if m is None:
            return self.unsupported(s, 'yield inside %s' % type(s).__name__, True)
        try:
            return m(s)
        except AnalysisError as e:
            return self.unsupported(s, e, True)

    def g_expr(self, e):
        '''generator function for an expression that is a yield, or a plain one'''
        it = self.it
        if isinstance(e, ast.Yield):
            if e.value is not None and has_yield(e.value):
                raise AnalysisError('nested yield')
            v = self.expr(e.value) if e.value else (lambda env: None)

            def fy(env):
                return (yield v(env))
            return fy
        if isinstance(e, ast.YieldFrom):
            if has_yield(e.value):
                raise AnalysisError('nested yield')
            v = self.expr(e.value)

            def ff(env):
                src = it.iterate(v(env))
                return (yield from src)
            return ff
        if e is None or not has_yield(e):
            v = self.expr(e) if e is not None else (lambda env: None)

            def fn(env):
                return v(env)
                yield
            return fn
        raise AnalysisError('%s:%d: yield inside an expression' % (self.m.name, e.lineno))

    def g_Expr(self, s):
        return self.g_expr(s.value)

    def g_Assign(self, s):
        v = self.g_expr(s.value)
        ts = [self.target(t) for t in s.targets]

        def f(env):
            x = yield from v(env)
            for t in ts:
                t(env, x)
        return f

    def g_Return(self, s):
        from .interp import ReturnEx
        v = self.g_expr(s.value)

        def f(env):
            raise ReturnEx((yield from v(env)))
        return f

    def g_If(self, s):
        c = self.cond(s.test)
        a = self.g_block(s.body)
        b = self.g_block(s.orelse)

        def f(env):
            if c(env):
                yield from a(env)
            else:
                yield from b(env)
        return f

    def g_For(self, s):
        from .interp import BreakEx, ContinueEx
        it = self.it
        if has_yield(s.iter):
            raise AnalysisError('yield in the iterable of a loop')
        seq = self.expr(s.iter)
        t = self.target(s.target)
        body = self.g_block(s.body)
        orelse = self.g_block(s.orelse)
        ln = s.lineno

        def f(env):
            for x in it.iterate(seq(env)):
                it.line = ln
                it.tick()
                t(env, x)
                try:
                    yield from body(env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            yield from orelse(env)
        return f

    def g_While(self, s):
        from .interp import BreakEx, ContinueEx
        it = self.it
        c = self.cond(s.test)
        body = self.g_block(s.body)
        orelse = self.g_block(s.orelse)
        ln = s.lineno

        def f(env):
            n = 0
            while True:
                it.line = ln
                before = len(CTX.trail)
                if not c(env):
                    break
                n += 1
                it.tick()
                if n > 6 and len(CTX.trail) > before:
                    it.bounded = True
                    raise Infeasible()
                if n > 100000:
                    raise AnalysisError('loop bound at %s' % it.where())
                try:
                    yield from body(env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            yield from orelse(env)
        return f

    def g_Try(self, s):
        it = self.it
        body = self.g_block(s.body)
        handlers = [(self.expr(h.type) if h.type else None, h.name, self.g_block(h.body)) for h in s.handlers]
        orelse = self.g_block(s.orelse)
        final = self.g_block(s.finalbody)
        put = {h.name: self.store_name(h.name) for h in s.handlers if h.name}

        def core(env):
            try:
                yield from body(env)
            except InterpRaise as e:
                for typ, name, hb in handlers:
                    if typ is not None and not it.exc_matches(e.value, typ(env)):
                        continue
                    if name:
                        put[name](env, e.value)
                    it.handling.append(e)
                    it.caught.append((it.where(), e))
                    try:
                        yield from hb(env)
                    finally:
                        if e in it.handling:
                            it.handling.remove(e)
                        if name:
                            env.vars.pop(name, None)
                    return
                raise
            yield from orelse(env)

        def f(env):
            from .interp import ReturnEx, BreakEx, ContinueEx
            try:
                yield from core(env)
            except (InterpRaise, ReturnEx, BreakEx, ContinueEx):
                yield from final(env)
                raise
            yield from final(env)
        return f

    def g_With(self, s):
        from .interp import ReturnEx, BreakEx, ContinueEx
        body = self.g_block(s.body)
        enter, leave, swallow = self.with_parts(s)

        def f(env):
            opened = []
            try:
                enter(env, opened)
                yield from body(env)
            except InterpRaise as e:
                if swallow(opened, e):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                leave(opened, None)
                raise
            leave(opened, None)
        return f

    def g_Match(self, s):
        subj = self.expr(s.subject)
        cases = [(self.pattern(c.pattern), self.cond(c.guard) if c.guard else None, self.g_block(c.body))
                 for c in s.cases]

        def f(env):
            v = subj(env)
            for p, g, b in cases:
                if p(env, v) and (g is None or g(env)):
                    yield from b(env)
                    return
        return f

    def make_func(self, node, name, args, body):
        it = self.it
        vis = _Locals()
        if isinstance(body, list):
            for st in body:
                vis.visit(st)
        else:
            vis.visit(body)
        pos = [a.arg for a in args.posonlyargs + args.args]
        kwonly = [a.arg for a in args.kwonlyargs]
        vararg = args.vararg.arg if args.vararg else None
        kwarg = args.kwarg.arg if args.kwarg else None
        locs = (vis.names | set(pos) | set(kwonly)) - vis.globals - vis.nonlocals
        if vararg:
            locs.add(vararg)
        if kwarg:
            locs.add(kwarg)
        code = {'locals': frozenset(locs), 'globals': frozenset(vis.globals),
                'nonlocals': frozenset(vis.nonlocals)}
        self.names.append(name)
        qual = '.'.join(self.names)
        if isinstance(body, list):
            b = self.g_block(body) if vis.gen else self.block(body)
        else:
            from .interp import ReturnEx
            e = self.expr(body)

            def b(env):
                raise ReturnEx(e(env))
        self.names.pop()
        dflt = [(p, self.expr(d)) for p, d in zip(pos[len(pos) - len(args.defaults):], args.defaults)]
        dflt += [(p, self.expr(d)) for p, d in zip(kwonly, args.kw_defaults) if d is not None]
        names = set(pos) | set(kwonly)
        gen = vis.gen
        mod = self.m

        def mk(env):
            params = {'pos': pos, 'vararg': vararg, 'kwarg': kwarg, 'kwonly': kwonly, 'names': names,
                      'defaults': {p: d(env) for p, d in dflt}}
            fn = Func(node, b, env, mod, name, params, code)
            fn.qualname = qual
            fn.is_gen = gen
            return fn
        return mk

    def s_ClassDef(self, s):
        it = self.it
        bases = [self.expr(b) for b in s.bases]
        decos = [self.expr(d) for d in s.decorator_list]
        kws = [(k.arg, self.expr(k.value)) for k in s.keywords]
        self.names.append(s.name)
        body = self.block(s.body)
        self.names.pop()
        name = s.name
        put = self.store_name(name)
        doc = ast.get_docstring(s)

        def f(env):
            bs = []
            enum_like = named = False
            for b in bases:
                v = b(env)
                if type(v) is Builtin:
                    v = {'object': object, 'int': int, 'str': str, 'list': list, 'dict': dict, 'set': set,
                         'tuple': tuple, 'bytes': bytes, 'bytearray': bytearray}.get(v.name, v)
                if type(v) is Builtin and v.name == 'NamedTuple':
                    named = True
                    continue
                if type(v) is NS or type(v) is Builtin:
                    if v.name in ('Enum', 'IntEnum', 'Flag', 'IntFlag'):
                        enum_like = v.name
                    continue
                if v is object:
                    continue
                bs.append(v)
            cenv = Env(env, env.module, None, env.func, is_class=True)
            cenv.vars['__doc__'] = doc
            body(cenv)
            if named:
                fs = list(cenv.vars.get('__annotations__', {}))
                dfl = [cenv.vars.pop(x) for x in fs if x in cenv.vars]
                base = it.call(it.natives['collections'].attrs['namedtuple'], [name, fs], {'defaults': dfl})
                bs.append(base)
            cls = Class(name, bs, cenv.vars, env.module)
            for v in cenv.vars.values():
                _own(v, cls)
            if enum_like:
                it.make_enum(cls, enum_like)
            v = cls
            for k, val in kws:
                mv = val(env)
                if k == 'metaclass' and not (mv is type or type(mv) is NS or type(mv) is Top and 'Meta' in mv.name):
                    raise AnalysisError('metaclass')
            for k, x in list(cls.attrs.items()):
                if type(x) is Inst:
                    sn = it.class_lookup(x.cls, '__set_name__')
                    if sn is not None:
                        it.call(Bound(sn, x), [cls, k])
            sub = None
            for c in cls.mro[1:]:
                if isinstance(c, Class) and '__init_subclass__' in c.attrs:
                    sub = c.attrs['__init_subclass__']
                    break
            if sub is not None:
                it.call(sub.f if type(sub) is ClassM else sub, [cls], {k: val(env) for k, val in kws if k != 'metaclass'})
            for d in reversed([d(env) for d in decos]):
                v = it.call(d, [v])
            put(env, v)
        return f

    def s_Match(self, s):
        it = self.it
        subj = self.expr(s.subject)
        cases = [(self.pattern(c.pattern), self.cond(c.guard) if c.guard else None, self.block(c.body))
                 for c in s.cases]

        def f(env):
            v = subj(env)
            for p, g, b in cases:
                if p(env, v) and (g is None or g(env)):
                    b(env)
                    return
        return f

    def pattern(self, p):
        it = self.it
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value)
            return lambda env, v: it.truth(it.equal(v, e(env)))
        if isinstance(p, ast.MatchSingleton):
            return lambda env, v: it.truth(it.is_same(v, p.value))
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern) if p.pattern else None
            put = self.store_name(p.name) if p.name else None

            def fa(env, v):
                if sub and not sub(env, v):
                    return False
                if put:
                    put(env, v)
                return True
            return fa
        if isinstance(p, ast.MatchOr):
            subs = [self.pattern(x) for x in p.patterns]
            return lambda env, v: any(x(env, v) for x in subs)
        if isinstance(p, ast.MatchClass):
            cls = self.expr(p.cls)
            pos = [self.pattern(x) for x in p.patterns]
            kw = [(n, self.pattern(x)) for n, x in zip(p.kwd_attrs, p.kwd_patterns)]

            def fc(env, v):
                from .builtins_ import isinstance_
                c = cls(env)
                if not isinstance_(it, v, c):
                    return False
                if pos:
                    if type(c) is not Class:
                        if len(pos) != 1:
                            raise AnalysisError('class pattern')
                        if not pos[0](env, v):
                            return False
                    else:
                        names = it.class_lookup(c, '__match_args__')
                        if names is None:
                            names = it.class_lookup(c, '_fields') or ()
                        if len(names) < len(pos):
                            it.raise_native(TypeError('%s() accepts %d positional sub-patterns' % (c.name, len(names))))
                        for n, x in zip(names, pos):
                            if not it.hasattr(v, n) or not x(env, it.getattr(v, n)):
                                return False
                for n, x in kw:
                    if not it.hasattr(v, n) or not x(env, it.getattr(v, n)):
                        return False
                return True
            return fc
        if isinstance(p, ast.MatchMapping):
            keys = [self.expr(k) for k in p.keys]
            subs = [self.pattern(x) for x in p.patterns]
            rest = self.store_name(p.rest) if p.rest else None

            def fm(env, v):
                if type(v) is not dict:
                    return False
                ks = [k(env) for k in keys]
                for k, x in zip(ks, subs):
                    ok, val = it.dict_find(v, k)
                    if not ok or not x(env, val):
                        return False
                if rest:
                    rest(env, {k: val for k, val in v.items() if k not in ks})
                return True
            return fm
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            subs = [None if isinstance(x, ast.MatchStar) else self.pattern(x) for x in p.patterns]
            sname = p.patterns[star[0]].name if star else None
            put = self.store_name(sname) if sname else None

            def fs(env, v):
                if type(v) is Fin:
                    v = v.force()
                if type(v) not in (list, tuple):
                    return False
                n = len(subs)
                if star:
                    if len(v) < n - 1:
                        return False
                    k = star[0]
                    tail = n - 1 - k
                    for sp, x in zip(subs[:k], v[:k]):
                        if not sp(env, x):
                            return False
                    for sp, x in zip(subs[k + 1:], v[len(v) - tail:] if tail else []):
                        if not sp(env, x):
                            return False
                    if put:
                        put(env, list(v[k:len(v) - tail]))
                    return True
                return len(v) == n and all(sp(env, x) for sp, x in zip(subs, v))
            return fs
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls)
            if p.kwd_patterns or len(p.patterns) > 1:
                raise AnalysisError('class pattern')
            sub = self.pattern(p.patterns[0]) if p.patterns else None
            from . import builtins_ as b
            return lambda env, v: b.isinstance_(it, v, c(env)) and (sub is None or sub(env, v))
        raise AnalysisError('pattern %s' % type(p).__name__)

    # ------------------------------------------------------------- conditions
    def cond(self, e):
        it = self.it
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(x) for x in e.values]
            if isinstance(e.op, ast.And):
                def fand(env):
                    for c in cs:
                        if not c(env):
                            return False
                    return True
                return fand

            def f_or(env):
                for c in cs:
                    if c(env):
                        return True
                return False
            return f_or
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return lambda env: not c(env)
        v = self.expr(e)
        truth = it.truth

        def f(env):
            x = v(env)
            if x is True:
                return True
            if x is False or x is None:
                return False
            return truth(x)
        return f

    # ------------------------------------------------------------- expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('%s:%d: expression %s' % (self.m.name, e.lineno, type(e).__name__))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        return lambda env: v

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        name = e.target.id
        put = self.store_name(name)

        def f(env):
            x = v(env)
            en = env
            while en.vars.get('$comp'):
                en = en.parent
            put(en, x)
            return x
        return f

    def e_BinOp(self, e):
        from .interp import BINOPS
        it = self.it
        op = BINOPS[type(e.op)]
        a, b = self.expr(e.left), self.expr(e.right)
        bo = it.binop
        return lambda env: bo(op, a(env), b(env))

    def e_UnaryOp(self, e):
        it = self.it
        if isinstance(e.op, ast.Not):
            c = self.expr(e.operand)

            def fnot(env):
                v = c(env)
                if v is True or v is False:
                    return not v
                if type(v) is Cond:
                    return v.negate()
                return not it.truth(v)
            return fnot
        v = self.expr(e.operand)
        if isinstance(e.op, ast.USub):
            def neg(env):
                x = v(env)
                if type(x) in (int, float, bool):
                    return -x
                if type(x) is Inst:
                    return it.call(it.getattr(x, '__neg__'), [])
                return it.binop('-', 0, x)
            return neg
        if isinstance(e.op, ast.UAdd):
            return v

        def inv(env):
            x = v(env)
            if type(x) in (int, bool):
                return ~x
            if type(x) is Inst:
                return it.call(it.getattr(x, '__invert__'), [])
            return it.binop('-', -1, x)
        return inv

    def e_BoolOp(self, e):
        it = self.it
        vs = [self.expr(x) for x in e.values]
        isand = isinstance(e.op, ast.And)

        def f(env):
            last = len(vs) - 1
            for i, v in enumerate(vs):
                x = v(env)
                if i == last:
                    return x
                t = it.truth(x)
                if isand and not t:
                    return x if type(x) is not Cond else False
                if not isand and t:
                    return x if type(x) is not Cond else True
        return f

    def e_Compare(self, e):
        from .interp import CMPOPS
        it = self.it
        first = self.expr(e.left)
        ops = [CMPOPS[type(o)] for o in e.ops]
        rest = [self.expr(c) for c in e.comparators]
        cmp = it.compare
        if len(ops) == 1:
            op, r = ops[0], rest[0]
            return lambda env: cmp(op, first(env), r(env))

        def f(env):
            a = first(env)
            n = len(ops)
            for i in range(n):
                b = rest[i](env)
                r = cmp(ops[i], a, b)
                if i == n - 1:
                    return r
                if not it.truth(r):
                    return False
                a = b
        return f

    def e_IfExp(self, e):
        c, a, b = self.cond(e.test), self.expr(e.body), self.expr(e.orelse)
        if plain(e.body) and plain(e.orelse) and not isinstance(e.test, ast.BoolOp):
            it = self.it
            test = self.expr(e.test)

            def f(env):
                x = test(env)
                bit = bit_of(x)
                if bit is not None:
                    v, w = a(env), b(env)
                    if type(v) is int and type(w) is int:
                        return binop('+', binop('*', bit, v - w), w)
                return a(env) if it.truth(x) else b(env)
            return f
        return lambda env: a(env) if c(env) else b(env)

    def e_Attribute(self, e):
        it = self.it
        v = self.expr(e.value)
        name = e.attr
        ga = it.getattr
        return lambda env: ga(v(env), name)

    def e_Subscript(self, e):
        it = self.it
        v, i = self.expr(e.value), self.expr(e.slice)
        return lambda env: it.getitem(v(env), i(env))

    def e_Slice(self, e):
        a = self.expr(e.lower) if e.lower else (lambda env: None)
        b = self.expr(e.upper) if e.upper else (lambda env: None)
        c = self.expr(e.step) if e.step else (lambda env: None)
        return lambda env: slice(a(env), b(env), c(env))

    def _elts(self, elts):
        it = self.it
        fs = [(isinstance(x, ast.Starred), self.expr(x.value if isinstance(x, ast.Starred) else x)) for x in elts]
        if not any(s for s, _ in fs):
            fl = [f for _, f in fs]
            return lambda env: [f(env) for f in fl]

        def g(env):
            out = []
            for s, f in fs:
                if s:
                    out.extend(it.iterate(f(env)))
                else:
                    out.append(f(env))
            return out
        return g

    def e_List(self, e):
        return self._elts(e.elts)

    def e_Tuple(self, e):
        g = self._elts(e.elts)
        return lambda env: tuple(g(env))

    def e_Set(self, e):
        it = self.it
        g = self._elts(e.elts)
        return lambda env: it.mkset(g(env))

    def e_Dict(self, e):
        it = self.it
        ks = [(self.expr(k) if k is not None else None, self.expr(v)) for k, v in zip(e.keys, e.values)]

        def f(env):
            d = {}
            for k, v in ks:
                if k is None:
                    d.update(v(env))
                else:
                    kk = k(env)
                    it.dict_set(d, kk, v(env))
            return d
        return f

    def e_Starred(self, e):
        raise AnalysisError('starred')

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>', e.args, e.body)

    def e_Call(self, e):
        it = self.it
        call = it.call
        ln = e.lineno
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            def sup(env):
                en = env
                while en is not None and (en.func is None or en.func.owner is None):
                    en = en.parent
                if en is None:
                    it.raise_native(RuntimeError('super(): no arguments'))
                # first positional parameter of the method
                fn = en.func
                x = en
                while x is not None and x.func is not fn:
                    x = x.parent
                return Super(fn.owner, x.vars[fn.params['pos'][0]])
            return sup
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            return lambda env: dict(env.vars)
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args:
            return lambda env: env.module.env.vars
        fn = self.expr(e.func)
        simple = not any(isinstance(a, ast.Starred) for a in e.args) and not e.keywords
        if simple:
            args = [self.expr(a) for a in e.args]
            if len(args) == 0:
                def c0(env):
                    f = fn(env)
                    it.line = ln
                    return call(f, [])
                return c0

            def cs(env):
                f = fn(env)
                a = [x(env) for x in args]
                it.line = ln
                return call(f, a)
            return cs
        ga = self._elts(e.args)
        kws = [(k.arg, self.expr(k.value)) for k in e.keywords]

        def cg(env):
            f = fn(env)
            a = ga(env)
            kw = {}
            for k, v in kws:
                if k is None:
                    for kk, vv in v(env).items():
                        if kk in kw:
                            it.raise_native(TypeError('multiple values for keyword argument %r' % kk))
                        kw[kk] = vv
                else:
                    kw[k] = v(env)
            it.line = ln
            return call(f, a, kw)
        return cg

    # comprehensions
    def comp(self, gens, emit):
        it = self.it
        gs = [(self.expr(g.iter), self.target(g.target), [self.cond(c) for c in g.ifs]) for g in gens]

        def run(env, out):
            cenv = Env(env, env.module, None, env.func)
            cenv.vars['$comp'] = True
            if env.is_class:
                pass

            def rec(i):
                if i == len(gs):
                    emit(cenv, out)
                    return
                seq, t, ifs = gs[i]
                for x in it.iterate(seq(env if i == 0 else cenv)):
                    it.tick()
                    t(cenv, x)
                    for c in ifs:
                        if not c(cenv):
                            break
                    else:
                        rec(i + 1)
            rec(0)
            return out
        return run

    def e_ListComp(self, e):
        v = self.expr(e.elt)
        run = self.comp(e.generators, lambda env, out: out.append(v(env)))
        return lambda env: run(env, [])

    def e_SetComp(self, e):
        it = self.it
        v = self.expr(e.elt)
        run = self.comp(e.generators, lambda env, out: out.append(v(env)))
        return lambda env: it.mkset(run(env, []))

    def e_GeneratorExp(self, e):
        from .interp import LazyIter, LazyGen
        it = self.it
        v = self.expr(e.elt)
        gens = e.generators
        gs = [(self.expr(g.iter), self.target(g.target), [self.cond(c) for c in g.ifs]) for g in gens]

        def f(env):
            cenv = Env(env, env.module, None, env.func)
            cenv.vars['$comp'] = True
            first = it.iterate(gs[0][0](env))

            def rec(i):
                if i == len(gs):
                    yield v(cenv)
                    return
                seq, t, ifs = gs[i]
                for x in (first if i == 0 else it.iterate(seq(cenv))):
                    t(cenv, x)
                    for c in ifs:
                        if not c(cenv):
                            break
                    else:
                        yield from rec(i + 1)
            return LazyGen(rec(0))
        return f

    def e_DictComp(self, e):
        it = self.it
        k, v = self.expr(e.key), self.expr(e.value)
        run = self.comp(e.generators, lambda env, out: it.dict_set(out, k(env), v(env)))
        return lambda env: run(env, {})

    def e_JoinedStr(self, e):
        it = self.it
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append((lambda env, s=v.value: s))
            else:
                parts.append(self.e_FormattedValue(v))
        return lambda env: mkstr([p(env) for p in parts])

    def e_FormattedValue(self, e):
        it = self.it
        v = self.expr(e.value)
        spec = self.expr(e.format_spec) if e.format_spec else None
        conv = e.conversion

        def f(env):
            x = v(env)
            if conv in (114, 97):
                x = strs.to_repr(it, x)
            elif conv == 115:
                x = strs.to_str(it, x)
            return strs.format_value(it, x, spec(env) if spec else '')
        return f

    def e_Yield(self, e):
        raise AnalysisError('%s:%d: yield inside an expression' % (self.m.name, e.lineno))

    e_YieldFrom = e_Yield


def has_yield(n):
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        return True
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
        return False
    return any(has_yield(c) for c in ast.iter_child_nodes(n))


def _own(v, cls):
    t = type(v)
    if t is Func:
        if v.owner is None:
            v.owner = cls
    elif t in (StaticM, ClassM):
        _own(v.f, cls)
    elif t is Prop:
        _own(v.fget, cls)
        if v.fset is not None:
            _own(v.fset, cls)
