"""pyvc interpreter: symbolic execution of the real functions of /repo from their AST."""
import ast, types, inspect, builtins, sys, os, operator, contextlib, functools
from .core import *
from .values import *

REPO_PKG = 'bloscpack'
STATE = {('bloscpack.log', 'LEVEL'), ('bloscpack.log', 'PREFIX')}     # module state that calls may change
REPO_PKGS = {REPO_PKG}


class Signal(Exception):
    pass


class GenAbandon(Signal):
    def __init__(self, token, sig):
        self.token, self.sig = token, sig


class ConsumerExc(Signal):
    def __init__(self, token, exc):
        self.token, self.exc = token, exc


class AtYield:
    def __init__(self, f):
        self.f = f

    def __call__(self, v):
        raise Unsupported('yield from in a context manager')


CTX_HELPER = contextlib.contextmanager(lambda: None).__code__


class Frame:
    __slots__ = ('env', 'func', 'cb', 'token', 'exc')

    def __init__(self, env, func, cb=None, token=None):
        self.env, self.func, self.cb, self.token = env, func, cb, token
        self.exc = None


class ModuleAST:
    _cache = {}

    def __init__(self, filename):
        src = open(filename, encoding='utf-8').read()
        self.tree = ast.parse(src, filename)
        self.funcs = {}
        self.lambdas = []
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
                self.funcs[(n.name, ln)] = n
            elif isinstance(n, ast.Lambda):
                self.lambdas.append(n)

    @classmethod
    def of(cls, filename):
        m = cls._cache.get(filename)
        if m is None:
            m = cls._cache[filename] = ModuleAST(filename)
        return m


def contains_yield(node):
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


CONC = (type(None), bool, int, float, str, bytes, type, types.ModuleType, types.FunctionType,
        types.BuiltinFunctionType, type(Ellipsis), complex)


def is_conc(v, depth=0):
    if isinstance(v, CONC):
        return True
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(is_conc(x) for x in v)
    if isinstance(v, dict):
        return all(is_conc(x) for x in v.values()) and all(is_conc(x) for x in v)
    if isinstance(v, (range, slice)):
        return True
    return False


class Interp:
    def __init__(self, ctx):
        from . import models
        self.ctx = ctx
        self.contracts = {}
        self.globals_over = Store(ctx)
        self.depth = 0
        self.trace = []
        self.events = []
        self.hooks = {}
        self.called = set()
        self.models = models.build(self)
        self.methods = models.build_methods(self)
        self.fs = Store(ctx)
        self.inlined = set()
        self.extern_used = set()

    # ------------------------------------------------------------ helpers
    def exc(self, cls, *args):
        raise PyExc(ExcVal(cls, args))

    def opaque_str(self):
        return SStr(None)

    def newlist(self, vals, kind=list):
        return ListV(self.ctx, tuple(LE(v) for v in vals), kind)

    def pytype(self, v):
        if sym(v):
            return bool if z3.is_bool(v) else int
        if isinstance(v, SBytes):
            return v.kind
        if isinstance(v, ByteArr):
            return bytearray
        if isinstance(v, (SStr, SChars, SBin)):
            return str
        if isinstance(v, SEnum):
            ts = {self.pytype(x) for x in v.vals}
            if len(ts) == 1:
                return ts.pop()
            raise Unsupported('type of mixed union')
        if isinstance(v, SFloat):
            return float
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, ListV):
            return v.kind
        if isinstance(v, DictV):
            return v.kind
        if isinstance(v, SetV):
            return set
        if isinstance(v, (FuncV, SFunc)):
            return types.FunctionType
        if isinstance(v, (BoundV,)):
            return types.MethodType
        if isinstance(v, ModelFn):
            return types.BuiltinFunctionType
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, RangeV):
            return range
        if isinstance(v, GenV):
            return types.GeneratorType
        if isinstance(v, FileV):
            import io
            return io.BytesIO if v.kind == 'bytesio' else io.BufferedRandom
        if isinstance(v, (SObj, SOther)):
            raise Unsupported('type of an opaque value')
        if isinstance(v, SModel):
            return v.py
        return type(v)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return bor(*[self.isinstance_(v, c) for c in cls])
        if isinstance(v, SOther):
            if any(issubclass(cls, e) for e in v.excluded):
                return False
            raise Unsupported('isinstance of an arbitrary value against %r' % cls)
        if isinstance(v, SEnum) and len({self.pytype(x) for x in v.vals}) > 1:
            return bor(*[v.idx == i for i, x in enumerate(v.vals) if issubclass(self.pytype(x), cls)])
        if isinstance(v, SObj):
            if cls is type(None):
                return self.obj_isnone(v)
            return self.models_isinstance_obj(v, cls)
        if isinstance(cls, ClassV):
            return False
        if not isinstance(cls, type):
            raise Unsupported('isinstance against %r' % (cls,))
        return issubclass(self.pytype(v), cls)

    def models_isinstance_obj(self, v, cls):
        f = F('isinst_' + cls.__name__, OS, BOOL)
        return f(v.term)

    def obj_isnone(self, v):
        return F('obj_isnone', OS, BOOL)(v.term)

    def pick(self, v):
        """case split on a finite union"""
        if isinstance(v, SEnum):
            for i, x in enumerate(v.vals):
                if i == len(v.vals) - 1 or self.ctx.branch(zb(ieq(v.idx, i))):
                    if i == len(v.vals) - 1:
                        self.ctx.assume(zb(ieq(v.idx, i)))
                    return x
        return v

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if sym(v):
            if z3.is_bool(v):
                return v
            return bnot(ieq(v, 0))
        if isinstance(v, SBytes):
            return bnot(ieq(rlen(v.r), 0))
        if isinstance(v, ByteArr):
            return bnot(ieq(rlen(v.slots['content']), 0))
        if isinstance(v, ListV):
            return bnot(ieq(self.list_len(v), 0))
        if isinstance(v, DictV):
            return len(v.d) > 0
        if isinstance(v, SEnum):
            ts = [self.truth(x) for x in v.vals]
            if all(t is True for t in ts):
                return True
            if all(t is False for t in ts):
                return False
            return bor(*[band(v.idx == i, t) for i, t in enumerate(ts)])
        if isinstance(v, SChars):
            return len(v.c) > 0
        if isinstance(v, SStr):
            if v.term is not None or isinstance(v, SText):
                return bnot(ieq(self.str_len(v), 0))
            raise Unsupported('truth of arbitrary text')
        if isinstance(v, SObj):
            t = F('obj_truth', OS, BOOL)(v.term)
            self.ctx.assume(z3.Implies(zb(self.obj_isnone(v)), z3.Not(t)))
            return t
        if isinstance(v, Obj):
            f = self.class_attr(v.cls, '__bool__')
            if f is not None:
                return self.truth(self.call(self.bind(f, v), []))
            f = self.class_attr(v.cls, '__len__')
            if f is not None:
                return self.truth(self.call(self.bind(f, v), []))
            return True
        if isinstance(v, SFloat):
            raise Unsupported('truth of float')
        if isinstance(v, RangeV):
            return bnot(ieq(self.range_len(v), 0))
        if isinstance(v, SetV):
            return len(v.slots['s']) > 0
        if isinstance(v, (FuncV, BoundV, ModelFn, ExcVal, GenV, FileV, SFunc, ClassV)):
            return True
        if isinstance(v, Poison):
            raise PoisonRead(v.slot)
        return bool(v)

    def test(self, v):
        return self.ctx.branch(zb(self.truth(v)) if sym(self.truth(v)) else self.truth(v))

    # ------------------------------------------------------------ functions
    def wrap_real_function(self, f):
        code = f.__code__
        m = ModuleAST.of(code.co_filename)
        node = None
        if code.co_name == '<lambda>':
            pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[3]]
            cands = []
            for l in m.lambdas:
                if l.lineno > code.co_firstlineno or l.end_lineno < code.co_firstlineno:
                    continue
                b = l.body
                if all((b.lineno, b.col_offset) <= (p[0], p[2]) and (p[1], p[3]) <= (b.end_lineno, b.end_col_offset)
                       for p in pos):
                    cands.append(l)
            cands = [l for l in cands if [a.arg for a in l.args.args] == list(code.co_varnames[:code.co_argcount])]
            if len(cands) > 1:
                cands = sorted(cands, key=lambda l: (l.body.end_lineno - l.body.lineno, l.body.end_col_offset - l.body.col_offset))[:1]
            if cands:
                node = cands[0]
        else:
            node = m.funcs.get((code.co_name, code.co_firstlineno))
        if node is None:
            raise Unsupported('no source for %s' % f.__qualname__)
        module = sys.modules[f.__module__]
        env = None
        if f.__closure__:
            env = Env(self.ctx, None, module)
            for n, c in zip(code.co_freevars, f.__closure__):
                try:
                    env.slots[n] = c.cell_contents
                except ValueError:
                    pass
        kwd = dict(f.__kwdefaults__ or {})
        return FuncV(node, module, env, tuple(f.__defaults__ or ()), kwd, f.__name__,
                     f.__module__ + '.' + f.__qualname__, contains_yield(node))

    def is_repo_fn(self, f):
        return isinstance(f, types.FunctionType) and (f.__module__ or '').split('.')[0] in REPO_PKGS

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        slots = {}
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            self.exc(TypeError, '%s() takes %d positional arguments' % (fn.name, len(names)))
        for n, v in zip(names, args):
            slots[n] = v
        if a.vararg is not None:
            slots[a.vararg.arg] = tuple(args[len(names):])
        ndef = len(fn.defaults)
        for i, n in enumerate(names):
            if n in kwargs:
                if n in slots:
                    self.exc(TypeError, 'multiple values for argument %s' % n)
                slots[n] = kwargs.pop(n)
            elif n not in slots:
                j = i - (len(names) - ndef)
                if j >= 0:
                    slots[n] = fn.defaults[j]
                else:
                    self.exc(TypeError, '%s() missing argument %s' % (fn.name, n))
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                slots[n] = kwargs.pop(n)
            elif n in fn.kwdefaults:
                slots[n] = fn.kwdefaults[n]
            else:
                self.exc(TypeError, 'missing keyword argument %s' % n)
        if a.kwarg is not None:
            slots[a.kwarg.arg] = DictV(self.ctx, kwargs)
        elif kwargs:
            self.exc(TypeError, '%s() got an unexpected keyword argument %s' % (fn.name, sorted(kwargs)[0]))
        return slots

    def call(self, fv, args, kwargs=None):
        kwargs = kwargs or {}
        self.ctx.tick()
        if isinstance(fv, Poison):
            raise PoisonRead(fv.slot)
        if isinstance(fv, FuncV):
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, BoundV):
            return self.call(fv.fn, [fv.self_] + list(args), kwargs)
        if isinstance(fv, ModelFn):
            return fv.fn(self, args, kwargs)
        if isinstance(fv, SFunc):
            return fv.fn(self, args)
        if isinstance(fv, SEnum):
            h = self.hooks.get('enum_call')
            if h is not None:
                r = h(self, fv, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call(self.pick(fv), args, kwargs)
        if isinstance(fv, (types.FunctionType, types.BuiltinFunctionType, type, types.MethodType,
                           types.MethodDescriptorType, types.BuiltinMethodType, types.WrapperDescriptorType)) \
                or fv in self.models_hashable(fv):
            return self.call_real(fv, args, kwargs)
        if isinstance(fv, Obj):
            f = self.class_attr(fv.cls, '__call__')
            if f is not None:
                return self.call(self.bind(f, fv), args, kwargs)
            self.exc(TypeError, 'object is not callable')
        if isinstance(fv, ClassV):
            raise Unsupported('instantiating a local class')
        if isinstance(fv, (SOther, SObj)):
            raise Unsupported('call of an arbitrary value')
        # real instance (Hash, ...)
        t = type(fv)
        if (t.__module__ or '').split('.')[0] in REPO_PKGS:
            f = self.class_attr(t, '__call__')
            if f is not None:
                h = self.hooks.get('inst_call')
                if h is not None:
                    r = h(self, fv, args, kwargs)
                    if r is not NotImplemented:
                        return r
                return self.call(self.bind(f, fv), args, kwargs)
        if callable(fv):
            return self.call_real(fv, args, kwargs)
        self.exc(TypeError, '%s object is not callable' % type(fv).__name__)

    def new_namedtuple(self, cls, args, kwargs):
        names = cls._fields
        if len(args) > len(names):
            self.exc(TypeError, '%s() takes %d arguments' % (cls.__name__, len(names)))
        for n in names[len(args):]:
            if n in kwargs:
                args.append(kwargs.pop(n))
            elif n in cls._field_defaults:
                args.append(self.lift(cls._field_defaults[n]))
            else:
                self.exc(TypeError, '%s() missing argument %s' % (cls.__name__, n))
        if kwargs:
            self.exc(TypeError, '%s() got an unexpected keyword argument' % cls.__name__)
        return tuple.__new__(cls, args)

    def models_hashable(self, fv):
        return ()

    def lookup_model(self, f):
        m = self.models.get(id(f))
        if m is not None and m[0] is f:
            return m[1]
        return None

    def call_real(self, f, args, kwargs):
        m = self.lookup_model(f)
        if m is not None:
            return m(self, list(args), dict(kwargs))
        if isinstance(f, types.FunctionType) and f.__code__ is CTX_HELPER:
            # made by @contextlib.contextmanager
            return CtxV('gen', self.call(f.__wrapped__, args, kwargs))
        if self.is_repo_fn(f):
            return self.call_func(self.wrap_real_function(f), args, kwargs)
        if isinstance(f, (operator.itemgetter, operator.attrgetter, operator.methodcaller, functools.partial)):
            if isinstance(f, functools.partial):
                return self.call(f.func, list(f.args) + list(args), dict(f.keywords, **kwargs))
            cls, (a, *kw) = f.__reduce__()[0], f.__reduce__()[1:]
            if cls in (operator.itemgetter, operator.attrgetter):
                return self.call(self.lookup_model(cls)(self, list(a), {}), args, kwargs)
        if isinstance(f, type):
            if issubclass(f, tuple) and hasattr(f, '_fields') and hasattr(f, '_field_defaults'):
                return self.new_namedtuple(f, list(args), dict(kwargs))
            if issubclass(f, BaseException):
                return ExcVal(f, tuple(args))
            if (f.__module__ or '').split('.')[0] in REPO_PKGS:
                return self.instantiate(f, args, kwargs)
        if isinstance(f, types.MethodType) and self.is_repo_fn(f.__func__):
            return self.call_func(self.wrap_real_function(f.__func__), [f.__self__] + list(args), kwargs)
        # wrappers such as the objects made by deprecated()
        w = getattr(f, '__wrapped__', None)
        if w is not None and self.is_repo_fn(w):
            return self.call(w, args, kwargs)
        pure = self.models.get('pure')
        if id(f) in pure or getattr(f, '__self__', None) is not None and isinstance(
                f.__self__, (str, bytes, int, tuple, float, dict, list, frozenset, set)):
            cargs = [self.concretize(a) for a in args]
            ckw = {k: self.concretize(v) for k, v in kwargs.items()}
            if all(c is not _NC for c in cargs) and all(c is not _NC for c in ckw.values()):
                try:
                    return self.lift(f(*cargs, **ckw))
                except Exception as e:
                    raise PyExc(ExcVal(type(e), e.args))
        raise Unsupported('call of external %s' % (getattr(f, '__qualname__', None) or repr(f)))

    def concretize(self, v):
        """plain Python value equal to v, or _NC"""
        if is_conc(v):
            return v
        if isinstance(v, ListV):
            out = []
            for s in v.items:
                if type(s) is not LE:
                    return _NC
                x = self.concretize(s.v)
                if x is _NC:
                    return _NC
                out.append(x)
            return v.kind(out) if v.kind in (list, tuple) else out
        if isinstance(v, DictV):
            out = {}
            for k, x in v.d.items():
                x = self.concretize(x)
                if x is _NC:
                    return _NC
                out[k] = x
            return out
        if isinstance(v, SetV):
            return set(v.slots['s']) if all(is_conc(x) for x in v.slots['s']) else _NC
        if isinstance(v, tuple):
            out = [self.concretize(x) for x in v]
            return _NC if any(x is _NC for x in out) else tuple(out)
        if isinstance(v, RangeV) and is_conc((v.lo, v.hi, v.step)):
            return range(v.lo, v.hi, v.step)
        if isinstance(v, SChars) and all(not sym(c) for c in v.c):
            return ''.join(map(chr, v.c))
        if isinstance(v, GenV):
            if v.name in ('list_iterator', 'dict_view', 'gen'):
                l = v.st.get('mat')
                if l is None:
                    l = self.to_list(v)
                    self.ctx.dset(v.st, 'mat', l)
                return self.concretize(l)
        return _NC

    def lift(self, v):
        if isinstance(v, list):
            return self.newlist([self.lift(x) for x in v])
        if isinstance(v, dict):
            return DictV(self.ctx, {k: self.lift(x) for k, x in v.items()}, type(v))
        if isinstance(v, set):
            return SetV(self.ctx, sorted(v, key=repr))
        if isinstance(v, range):
            return RangeV(v.start, v.stop, v.step)
        return v

    def instantiate(self, cls, args, kwargs):
        if getattr(cls, '__abstractmethods__', None):
            self.exc(TypeError, "Can't instantiate abstract class %s" % cls.__name__)
        o = Obj(self.ctx, cls)
        f = self.class_attr(cls, '__init__')
        if f is not None:
            self.call(self.bind(f, o), args, kwargs)
        elif args or kwargs:
            self.exc(TypeError, '%s() takes no arguments' % cls.__name__)
        return o

    def call_func(self, fn, args, kwargs):
        c = self.contracts.get(fn.qual)
        if c is not None:
            bound = self.bind_args(fn, args, kwargs)
            r = c(self, bound)
            if r is not NotImplemented:
                self.called.add(fn.qual)
                return r
        self.inlined.add(fn.qual)
        slots = self.bind_args(fn, args, kwargs)
        env = Env(self.ctx, fn.env, fn.module)
        env.slots.update(slots)
        if fn.is_gen:
            def run(itp, cb, fn=fn, env=env):
                tok = object()
                fr = Frame(env, fn, cb, tok)
                itp.depth += 1
                try:
                    itp.exec_block(fn.node.body, fr)
                except GenAbandon as g:
                    if g.token is tok:
                        return g.sig
                    raise
                except ConsumerExc as c:
                    if c.token is tok:
                        raise c.exc
                    raise
                finally:
                    itp.depth -= 1
                return None
            return GenV('gen', run)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion too deep (%s)' % fn.qual)
        fr = Frame(env, fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            sig = self.exec_block(fn.node.body, fr)
            if sig is not None and sig[0] == 'ret':
                return sig[1]
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if k is object:
                return None
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def bind(self, f, self_):
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return BoundV(f.__func__, self_.cls if isinstance(self_, Obj) else type(self_))
        if isinstance(f, (types.FunctionType, FuncV)):
            return BoundV(f, self_)
        return f

    def getattr(self, v, name):
        if isinstance(v, Poison):
            raise PoisonRead(v.slot)
        if isinstance(v, SModel):
            return v.attr(self, name)
        if isinstance(v, types.ModuleType):
            key = (v.__name__, name)
            if key in self.globals_over.slots:
                return self.globals_over.slots[key]
            try:
                return getattr(v, name)
            except AttributeError:
                self.exc(AttributeError, name)
        if isinstance(v, Obj):
            d = self.class_attr(v.cls, name)
            if isinstance(d, property):
                if d.fget is None:
                    self.exc(AttributeError, name)
                return self.call(d.fget, [v])
            if name in v.slots:
                x = v.slots[name]
                if isinstance(x, Poison):
                    raise PoisonRead(x.slot)
                return x
            if name == '__dict__':
                return DictV(self.ctx, {k: x for k, x in v.slots.items()})
            if d is not None:
                m = self.mapping_method(v, name, d)
                if m is not None:
                    return m
                return self.bind(d, v)
            if name == '__class__':
                return v.cls
            m = self.mapping_method(v, name, None)
            if m is not None:
                return m
            f = self.class_attr(v.cls, '__getattr__')
            if f is not None:
                return self.call(self.bind(f, v), [name])
            self.exc(AttributeError, "'%s' object has no attribute '%s'" % (v.cls.__name__, name))
        if isinstance(v, SEnum):
            vals = [self.getattr(x, name) for x in v.vals]
            return self.merge_enum(v.idx, vals)
        if isinstance(v, ExcVal):
            if name == 'args':
                return tuple(v.args)
            if name in v.attrs:
                return v.attrs[name]
            if name in ('errno', 'strerror', 'filename') and issubclass(v.cls, OSError):
                return SStr(None) if name != 'errno' else 2
            if name == 'code' and issubclass(v.cls, SystemExit):
                return v.args[0] if v.args else None
            if name == '__class__':
                return v.cls
            d = self.class_attr(v.cls, name)
            if isinstance(d, (types.FunctionType, property)):
                if isinstance(d, property):
                    return self.call(d.fget, [v])
                return BoundV(d, v)
            if name == 'with_traceback':
                return ModelFn('with_traceback', lambda itp, a, k: v)
            self.exc(AttributeError, "'%s' object has no attribute '%s'" % (v.cls.__name__, name))
        if isinstance(v, SuperV):
            mro = (v.self_.cls if isinstance(v.self_, Obj) else type(v.self_)).__mro__
            i = mro.index(v.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if k is object and name == '__init__':
                        return ModelFn('object.__init__', lambda itp, a, kw: None)
                    if isinstance(d, property):
                        return self.call(d.fget, [v.self_])
                    if isinstance(v.self_, Obj):
                        m = self.mapping_method(v.self_, name, d)
                        if m is not None:
                            return m
                    return self.bind(d, v.self_)
            self.exc(AttributeError, name)
        if isinstance(v, ClassV):
            if name in v.ns:
                return v.ns[name]
            raise Unsupported('attribute of a local class')
        if isinstance(v, (FuncV, BoundV, SFunc)):
            if name == '__call__':
                return v
            if name == '__name__' and isinstance(v, FuncV):
                return v.name
            raise Unsupported('function attribute %s' % name)
        # symbolic builtins: methods
        if isinstance(v, (SBytes, ByteArr, SStr, SChars, SBin, ListV, DictV, SetV, FileV, SObj, RangeV, SFloat, GenV)) or sym(v) \
                or isinstance(v, SOther):
            t = ('int' if sym(v) and not z3.is_bool(v) else 'bool') if sym(v) else type(v).__name__
            m = self.methods.get((t, name))
            if m is None:
                m = self.methods.get((t, '*'))
                if m is not None:
                    return m(self, v, name)
                pt = None
                if not isinstance(v, (SObj, SOther)):
                    try:
                        pt = self.pytype(v)
                    except Unsupported:
                        pt = None
                if pt is not None and not hasattr(pt, name):
                    self.exc(AttributeError, "'%s' object has no attribute '%s'" % (pt.__name__, name))
                raise Unsupported('attribute %s of %s' % (name, t))
            if isinstance(m, tuple):     # property
                return m[0](self, v)
            return ModelFn('%s.%s' % (t, name), lambda itp, a, k, m=m, v=v: m(itp, v, a, k))
        if isinstance(v, tuple) and hasattr(type(v), '_fields'):
            if name == '_replace':
                return ModelFn(name, lambda itp, a, k: tuple.__new__(type(v), [k.get(n, x) for n, x in zip(type(v)._fields, v)]))
            if name == '_asdict':
                return ModelFn(name, lambda itp, a, k: DictV(itp.ctx, dict(zip(type(v)._fields, v))))
        if isinstance(v, type) and issubclass(v, tuple) and hasattr(v, '_fields') and name == '_make':
            return ModelFn(name, lambda itp, a, k: itp.new_namedtuple(v, itp.seq_vals(a[0]), {}))
        if isinstance(v, CtxV):
            if v.kind == 'stack':
                return self.stack_method(v, name)
            raise Unsupported('attribute of a context manager')
        # concrete python object
        if isinstance(v, (str, bytes)) and name in ('join', 'format', '__mod__', 'encode', 'decode', 'strip', 'rstrip',
                                                    'lstrip', 'ljust', 'rjust', 'startswith', 'endswith', 'split', 'zfill',
                                                    'replace', 'index', 'find', 'count'):
            return ModelFn('conc.' + name, lambda itp, a, k, v=v, name=name: itp.conc_method(v, name, a, k))
        if isinstance(v, (dict, list, set, tuple)) and not isinstance(v, type):
            m = self.methods.get((type(v).__name__ if type(v) in (dict, list, set, tuple) else 'dict', name))
            if m is not None:
                return ModelFn('conc.%s' % name, lambda itp, a, k, m=m, v=v: m(itp, v, a, k))
        if type(v).__name__ == 'Struct' and type(v).__module__ == '_struct':
            f = {'pack': models.s_pack, 'unpack': models.s_unpack, 'unpack_from': models.s_unpack_off}.get(name)
            if f is not None:
                return ModelFn('Struct.' + name, lambda itp, a, k: f(itp, [v.format] + list(a), k))
            if name in ('size', 'format'):
                return getattr(v, name)
            raise Unsupported('Struct.' + name)
        if v is dict and name == 'fromkeys':
            return ModelFn('dict.fromkeys', models.d_fromkeys)
        if v is int and name == 'from_bytes':
            return ModelFn('int.from_bytes', models.i_from_bytes)
        if isinstance(v, type) or isinstance(v, types.FunctionType):
            key = ('attr', v, name)
            if (getattr(v, '__module__', '') or '').split('.')[0] in REPO_PKGS and isinstance(v, type):
                d = self.class_attr(v, name)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return BoundV(d.__func__, v)
                if d is not None:
                    return d
        try:
            r = getattr(v, name)
        except AttributeError:
            self.exc(AttributeError, "'%s' object has no attribute '%s'" % (type(v).__name__, name))
        t = type(v)
        if (t.__module__ or '').split('.')[0] in REPO_PKGS and not isinstance(v, type):
            d = self.class_attr(t, name)
            if isinstance(d, types.FunctionType):
                h = self.hooks.get('inst_method')
                if h is not None:
                    m = h(self, v, name)
                    if m is not None:
                        return m
                return BoundV(d, v)
            if isinstance(d, property):
                return self.call(d.fget, [v])
        return r

    def conc_method(self, v, name, args, kwargs):
        cargs = [self.concretize(a) for a in args]
        if not any(c is _NC for c in cargs) and not kwargs:
            try:
                return self.lift(getattr(v, name)(*cargs))
            except Exception as e:
                raise PyExc(ExcVal(type(e), e.args))
        if isinstance(v, bytes):
            m = self.methods.get(('SBytes', name))
            if m is not None:
                return m(self, SBytes(to_rope(v)), args, kwargs)
        m = self.methods.get(('str', name))
        if m is not None:
            return m(self, v, args, kwargs)
        raise Unsupported('method %s.%s on symbolic arguments' % (type(v).__name__, name))

    def mapping_method(self, v, name, d):
        """methods inherited from collections.abc.MutableMapping, by their documented meaning"""
        import collections.abc as cabc
        if not issubclass(v.cls, cabc.Mapping):
            return None
        if d is not None and getattr(d, '__module__', None) not in ('collections.abc', '_collections_abc', None):
            return None
        if isinstance(d, (types.FunctionType,)) and not (d.__module__ or '').endswith('collections_abc') \
                and d.__module__ != 'collections.abc':
            return None

        def keys(itp):
            return itp.to_list(itp.call(itp.getattr(v, '__iter__'), []))
        get = lambda itp, k: itp.subscript(v, k)
        if name == 'keys':
            return ModelFn('keys', lambda itp, a, k: keys(itp))
        if name == 'items':
            return ModelFn('items', lambda itp, a, k: itp.newlist([(x, get(itp, x)) for x in itp.list_vals(keys(itp))]))
        if name == 'values':
            return ModelFn('values', lambda itp, a, k: itp.newlist([get(itp, x) for x in itp.list_vals(keys(itp))]))
        if name == 'get':
            def get_(itp, a, k):
                try:
                    return get(itp, a[0])
                except PyExc as e:
                    if issubclass(e.val.cls, KeyError):
                        return a[1] if len(a) > 1 else None
                    raise
            return ModelFn('get', get_)
        if name == '__contains__':
            def cont(itp, a, k):
                try:
                    get(itp, a[0])
                    return True
                except PyExc as e:
                    if issubclass(e.val.cls, KeyError):
                        return False
                    raise
            return ModelFn('__contains__', cont)
        if name == 'update':
            def upd(itp, a, k):
                for src in a:
                    for kk, vv in itp.mapping_items(src):
                        itp.setitem(v, kk, vv)
                for kk, vv in k.items():
                    itp.setitem(v, kk, vv)
            return ModelFn('update', upd)
        if name == 'setdefault':
            def sd(itp, a, k):
                try:
                    return get(itp, a[0])
                except PyExc as e:
                    if issubclass(e.val.cls, KeyError):
                        itp.setitem(v, a[0], a[1] if len(a) > 1 else None)
                        return a[1] if len(a) > 1 else None
                    raise
            return ModelFn('setdefault', sd)
        return None

    def mapping_items(self, m):
        if isinstance(m, DictV):
            return list(m.d.items())
        if isinstance(m, dict):
            return list(m.items())
        if isinstance(m, Obj):
            ks = self.list_vals(self.to_list(self.call(self.getattr(m, 'keys'), [])))
            return [(k, self.subscript(m, k)) for k in ks]
        raise Unsupported('mapping %r' % (m,))

    def merge_enum(self, idx, vals):
        if all(is_int(x) and not isinstance(x, bool) for x in vals):
            if all(same(x, vals[0]) for x in vals):
                return vals[0]
            if all(not sym(x) and x == i for i, x in enumerate(vals)):
                return idx
            r = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                r = iite(zb(ieq(idx, i)), vals[i], r)
            return r
        if all(isinstance(x, bool) for x in vals):
            if len(set(vals)) == 1:
                return vals[0]
            return bor(*[idx == i for i, x in enumerate(vals) if x])
        try:
            if all(x is vals[0] or (is_conc(x) and type(x) is type(vals[0]) and x == vals[0]) for x in vals):
                return vals[0]
        except Exception:
            pass
        return SEnum(idx, vals)

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            d = self.class_attr(v.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.exc(AttributeError, "can't set attribute '%s'" % name)
                self.call(d.fset, [v, val])
                return
            self.ctx.set(v, name, val)
            return
        if isinstance(v, types.ModuleType):
            self.set_global(v.__name__, name, val)
            return
        if isinstance(v, ExcVal):
            v.attrs[name] = val
            return
        raise Unsupported('attribute assignment on %r' % (v,))

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        if name in env.globals_:
            return self.module_global(env.module, name)
        while e is not None:
            if name in e.slots:
                v = e.slots[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.slot)
                return v
            e = e.parent
        return self.module_global(env.module, name)

    def module_global(self, module, name):
        key = (module.__name__, name)
        if key in self.globals_over.slots:
            v = self.globals_over.slots[key]
            if isinstance(v, Poison):
                raise PoisonRead(v.slot)
            return v
        d = module.__dict__
        if name in d:
            return d[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.exc(NameError, "name '%s' is not defined" % name)

    def set_global(self, module, name, val):
        # the proofs are about a call in any state the earlier calls can leave: only the verbosity may be different
        if module.split('.')[0] in REPO_PKGS and (module, name) not in STATE:
            raise Unsupported('module state %s.%s: a later call would start in another state' % (module, name))
        self.ctx.set(self.globals_over, (module, name), val)

    def assign_name(self, env, name, val):
        if name in env.globals_:
            self.set_global(env.module.__name__, name, val)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.slots:
                    self.ctx.set(e, name, val)
                    return
                e = e.parent
        self.ctx.set(env, name, val)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.ctx.tick()
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        return None

    def x_Global(self, s, fr):
        fr.env.globals_.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.env.nonlocals.update(s.names)

    def x_Import(self, s, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            __import__(a.name)
            self.assign_name(fr.env, a.asname or top, sys.modules[a.name] if a.asname else sys.modules[top])

    def x_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ''
        if s.level:
            pkg = fr.env.module.__package__
            parts = pkg.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = importlib.import_module(name)
        for a in s.names:
            try:
                v = self.getattr(m, a.name)
            except PyExc:
                v = importlib.import_module(name + '.' + a.name)
            self.assign_name(fr.env, a.asname or a.name, v)

    def x_Return(self, s, fr):
        return ('ret', self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        return ('break',)

    def x_Continue(self, s, fr):
        return ('continue',)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr.env, t.id)
            self.assign_name(fr.env, t.id, self.aug(s.op, old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_slice(t.slice, fr)
            old = self.subscript(o, i)
            self.setitem(o, i, self.aug(s.op, old, self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, old, val):
        if isinstance(old, ListV) and isinstance(op, ast.Add) and old.kind is list:
            self.list_extend(old, val)
            return old
        if isinstance(old, ByteArr) and isinstance(op, ast.Add):
            models.ba_extend(self, old, [val], {})
            return old
        return self.binop(type(op), old, val)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.delete(fr.env, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Obj):
                    self.ctx.delete(o, t.attr)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def x_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            self.exc(AssertionError)

    def x_If(self, s, fr):
        v = self.eval(s.test, fr)
        c = self.truth(v)
        if sym(c) and not s.orelse and self.hooks.get('pure_if') and self.hooks['pure_if'](c):
            if self.branch_is_noop(c, s.body, fr):
                return None
        if self.ctx.branch(zb(c) if sym(c) else c):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def branch_is_noop(self, c, body, fr):
        """True if running body under c always ends normally without any visible write;
        then the if statement can be skipped on both sides (the condition is not assumed)."""
        ctx = self.ctx
        ok = [True]
        start = len(ctx.trail)
        sid0 = ctx.next_sid
        ev0 = len(self.events)

        def run():
            ctx.assume(zb(c))
            t0 = len(ctx.trail)
            try:
                sig = self.exec_block(body, fr)
            except (PyExc, Signal):
                ok[0] = False
                return
            if sig is not None:
                ok[0] = False
                return
            for (d, k, old, st) in ctx.trail[t0:]:
                if st is not None and st.sid <= sid0 and st.slots.get(k, None) is not old:
                    ok[0] = False
        saved = len(ctx.results)
        d0 = ctx.discovery
        ctx.discovery += 1
        try:
            ctx.explore(run)
        except Unsupported:
            ok[0] = False
        finally:
            ctx.discovery = d0
        return ok[0]

    def x_With(self, s, fr):
        return self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, FileV):
            val = cm
            exit_ = lambda e: self.file_close(cm)
        elif isinstance(cm, Obj):
            val = self.call(self.getattr(cm, '__enter__'), [])

            def exit_(e):
                if e is None:
                    self.call(self.getattr(cm, '__exit__'), [None, None, None])
                    return False
                return self.test(self.call(self.getattr(cm, '__exit__'), [e.val.cls, e.val, None]))
        elif isinstance(cm, CtxV):
            if cm.kind == 'gen':
                return self.with_gen(cm.d, it, items, body, fr)
            val, exit_ = self.ctx_enter(cm)
        else:
            raise Unsupported('with %r' % (cm,))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        try:
            r = self.with_items(items[1:], body, fr)
        except PyExc as e:
            if exit_(e):
                return None
            raise
        except Signal:
            exit_(None)
            raise
        exit_(None)
        return r

    def ctx_enter(self, cm):
        if isinstance(cm, FileV):
            return cm, lambda e: self.file_close(cm)
        if isinstance(cm, CtxV):
            if cm.kind == 'null':
                return cm.d, lambda e: False
            if cm.kind == 'closing':
                return cm.d, lambda e: bool(self.call(self.getattr(cm.d, 'close'), [])) and False
            if cm.kind == 'suppress':
                return None, lambda e: e is not None and issubclass(e.val.cls, tuple(cm.d))
            if cm.kind == 'stack':
                self.ctx.dset(cm.st, 'l', cm.st.get('l', ()))
                return cm, lambda e: self.stack_exit(cm, e)
        raise Unsupported('entering %r' % (cm,))

    def stack_exit(self, cm, e):
        l = cm.st.get('l', ())
        self.ctx.dset(cm.st, 'l', ())
        done = False
        for x in reversed(l):
            try:
                if x(None if done else e):
                    done = True
            except PyExc as e2:
                e, done = e2, False
                if x is l[0]:
                    raise
                raise Unsupported('failing exit of a stack')
        return done

    def stack_method(self, cm, name):
        def enter(itp, a, k):
            if isinstance(a[0], Obj):
                o = a[0]
                v = itp.call(itp.getattr(o, '__enter__'), [])
                x = lambda e: itp.test(itp.call(itp.getattr(o, '__exit__'), [None] * 3 if e is None else [e.val.cls, e.val, None]))
            else:
                v, x = itp.ctx_enter(a[0])
            itp.ctx.dset(cm.st, 'l', cm.st.get('l', ()) + (x,))
            return v

        def callback(itp, a, k):
            f, rest = a[0], list(a[1:])

            def x(e):
                itp.call(f, rest, k)
                return False
            itp.ctx.dset(cm.st, 'l', cm.st.get('l', ()) + (x,))
            return f
        f = {'enter_context': enter, 'callback': callback,
             'close': lambda itp, a, k: itp.stack_exit(cm, None) and None}.get(name)
        if f is None:
            raise Unsupported('ExitStack.' + name)
        return ModelFn('ExitStack.' + name, f)

    def with_gen(self, gen, it, items, body, fr):
        """a with statement on @contextmanager: the generator runs, the body is what happens at its yield"""
        st = {'n': 0, 'sig': None}

        def cb(v):
            if st['n']:
                self.exc(RuntimeError, "generator didn't stop")
            st['n'] = 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            st['sig'] = self.with_items(items[1:], body, fr)
        if not isinstance(gen, GenV):
            raise Unsupported('context manager that is no generator')
        gen.run(self, AtYield(cb))
        if not st['n']:
            self.exc(RuntimeError, "generator didn't yield")
        return st['sig']

    def file_close(self, f):
        self.ctx.set(f, 'closed', True)
        return False

    def match_exc(self, ev, h, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, type) and issubclass(ev.cls, x):
                return True
        return False

    def x_Try(self, s, fr):
        sig = None
        try:
            try:
                sig = self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if self.match_exc(e.val, h, fr):
                        if h.name:
                            self.assign_name(fr.env, h.name, e.val)
                        saved = fr.exc
                        fr.exc = e
                        try:
                            sig = self.exec_block(h.body, fr)
                        finally:
                            fr.exc = saved
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.exec_block(s.orelse, fr)
        except (PyExc, Signal):
            if s.finalbody:
                r = self.exec_block(s.finalbody, fr)
                if r is not None:
                    return r
            raise
        if s.finalbody:
            r = self.exec_block(s.finalbody, fr)
            if r is not None:
                return r
        return sig

    def x_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is not None:
                raise fr.exc
            raise Unsupported('bare raise')
        v = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v, ())
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        raise PyExc(v)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f])
        self.assign_name(fr.env, s.name, f)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.eval(d, fr)
        return FuncV(node, fr.env.module, fr.env, defaults, kwd, name,
                     (fr.func.qual if fr.func else '?') + '.<locals>.' + name, contains_yield(node))

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        ns = {}
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                ns[st.name] = self.make_func(st, fr, st.name)
        self.assign_name(fr.env, s.name, ClassV(s.name, bases, ns))

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, (tuple, list, str, dict, set, frozenset)) and len(it) > 1 and self.is_search(s, fr):
            return self.merged(lambda: self.for_over(s, it, fr))
        return self.for_over(s, it, fr)

    def is_search(self, s, fr):
        """a loop that only looks at its elements and ends, goes on or raises: it leaves no trace but its variable,
        and nothing else reads that"""
        cache = self.__dict__.setdefault('_search', {})
        if s in cache:
            return cache[s]
        ok = isinstance(s.target, ast.Name) and fr.func is not None
        inside = set()
        for n in [x for b in s.body + s.orelse for x in ast.walk(b)]:
            inside.add(n)
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.If, ast.Raise, ast.Break, ast.Continue, ast.Pass)):
                ok = False
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp,
                                ast.DictComp, ast.GeneratorExp)):
                ok = False
        raised = set()
        for n in inside:
            if isinstance(n, ast.Raise):
                raised.update(ast.walk(n))
        if any(isinstance(n, ast.Call) and n not in raised for n in inside):
            ok = False
        if ok:
            for n in ast.walk(fr.func.node):
                if isinstance(n, ast.Name) and n.id == s.target.id and n not in inside and n is not s.target:
                    ok = False
        cache[s] = ok
        return ok

    def merged(self, run):
        """run something that changes nothing, with the ways in which it ends normally taken together"""
        ctx = self.ctx
        normal, other = [], []

        def fn():
            a0 = len(ctx.assumelog)
            try:
                sig = run()
            except PyExc:
                sig = ('exc',)
            conds = [c if isinstance(c, bool) else zb(c) for c in ctx.assumelog[a0:]]
            (normal if sig is None else other).append(z3.And(*conds) if conds else z3.BoolVal(True))
        depth = self.depth
        ctx.discovery += 1
        try:
            ctx.explore(fn)
        finally:
            ctx.discovery -= 1
            self.depth = depth
        if len(normal) < 2:
            return run()
        which = ctx.choose(1 + len(other))
        if which == 0:
            ctx.assume(z3.Or(*normal))
            return None
        ctx.assume(other[which - 1])
        return run()

    def for_over(self, s, it, fr):
        def cb(v):
            self.assign(s.target, v, fr)
            r = self.exec_block(s.body, fr)
            if r is not None and r[0] == 'continue':
                return None
            return r
        sig = self.iterate(it, cb)
        if sig is not None:
            if sig[0] == 'break':
                return None
            return sig
        if s.orelse:
            return self.exec_block(s.orelse, fr)
        return None

    def x_While(self, s, fr):
        from . import loops
        def cond():
            return self.truth(self.eval(s.test, fr))

        def body():
            r = self.exec_block(s.body, fr)
            if r is not None and r[0] == 'continue':
                return None
            return r
        gen = self.pulled_generator(s, fr)
        if gen is not None:
            sig = self.pull_loop(gen, cond, body)
        else:
            sig = loops.while_loop(self, cond, body, '%s line %d' % (getattr(fr.func, 'qual', '?'), s.lineno),
                                   isinstance(s.test, ast.Constant) and bool(s.test.value))
        if sig is not None:
            if sig[0] == 'break':
                return None
            return sig
        if s.orelse:
            return self.exec_block(s.orelse, fr)
        return None

    def pulled_generator(self, s, fr):
        """the generator of `while True: x = next(g) ...`: next is the first thing a round does"""
        e = s.test
        if isinstance(e, ast.Constant) and e.value:
            st = s.body[0]
            while isinstance(st, ast.Try):
                st = st.body[0]
            e = st.value if isinstance(st, (ast.Assign, ast.Expr, ast.AnnAssign)) else None
        if isinstance(e, ast.Compare) and all(isinstance(c, (ast.Constant, ast.Name)) for c in e.comparators):
            e = e.left
        if isinstance(e, ast.NamedExpr):
            e = e.value
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'next'
                and e.args and isinstance(e.args[0], ast.Name) and not e.keywords
                and all(isinstance(x, (ast.Constant, ast.Name)) for x in e.args)):
            return None
        if self.eval(e.func, fr) is not next:
            return None
        g = self.eval(e.args[0], fr)
        if not isinstance(g, GenV) or g.name != 'gen' or g.st.get('used') or g.st.get('mat') is not None:
            return None
        return g

    def pull_loop(self, g, cond, body):
        """every round takes one element, as its first action: the rounds are the
        iterations over g, followed by the round that finds it exhausted"""
        ctx = self.ctx
        mine = []

        def one(pending):
            ctx.dset(g.st, 'pending', pending)
            c = self.test(cond())
            if g.st.get('pending') is pending and not c:
                raise Unsupported('while loop over next()')
            if not c:
                return ('break-else',)
            sig = body()
            if g.st.get('pending') is pending:
                raise Unsupported('while loop over next()')
            return sig

        def cb(v):
            try:
                return one(('val', v))
            except PyExc as x:
                mine.append(x.val)
                raise
        try:
            sig = self.iterate(g, cb)
        except PyExc as x:
            if any(x.val is y for y in mine):
                raise
            sig = one(('exc', x.val))
            if sig is None:
                sig = one(('stop', 1))
        else:
            if sig is None:
                sig = one(('stop', 0))
        if sig is None:
            raise Unsupported('next() of an exhausted iterator, again and again')
        return None if sig == ('break-else',) else sig

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vals = self.seq_vals(v)
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    self.exc(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.newlist(vals[k:len(vals) - after]), fr)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
                return
            vals = self.seq_vals(v)
            if len(vals) != len(t.elts):
                self.exc(ValueError, 'wrong number of values to unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def seq_vals(self, v):
        """python list of the elements of a sequence of known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (ListV,)):
            return self.list_vals(v)
        if isinstance(v, SEnum):
            return self.seq_vals(self.pick(v))
        if isinstance(v, (list,)):
            return [self.lift(x) for x in v]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SChars):
            return [SChars([c]) for c in v.c]
        if v is None or is_int(v):
            self.exc(TypeError, 'cannot unpack non-iterable')
        return self.list_vals(self.to_list(v))

    # ------------------------------------------------------------ iteration
    def iterate(self, it, cb):
        """call cb for every element; returns a control signal or None"""
        from . import loops
        ctx = self.ctx
        if isinstance(it, Poison):
            raise PoisonRead(it.slot)
        if isinstance(it, GenV):
            if it.st.get('mat') is not None and not it.st.get('mat_used'):
                # the elements were already produced when the argument was looked at
                ctx.dset(it.st, 'mat_used', True)
                return self.iterate(it.st['mat'], cb)
            if it.st.get('used') == 'up':
                return None          # exhausted
            if it.st.get('used'):
                raise Unsupported('iterator consumed twice')
            ctx.dset(it.st, 'used', True)
            r = it.run(self, cb)
            if r is None:
                ctx.dset(it.st, 'used', 'up')
            return r
        if isinstance(it, (tuple, list)):
            for v in it:
                r = cb(self.lift(v) if isinstance(it, list) else v)
                if r is not None:
                    return r
            return None
        if isinstance(it, (dict, set, frozenset)) or type(it).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'odict_keys', 'odict_items', 'odict_values'):
            for v in list(it):
                r = cb(self.lift(v))
                if r is not None:
                    return r
            return None
        if isinstance(it, DictV):
            return self.iterate(tuple(it.d), cb)
        if isinstance(it, SetV):
            if len(it.slots['s']) > 1 and not all(is_conc(x) for x in it.slots['s']):
                raise Unsupported('order of a set of symbolic values')
            return self.iterate(tuple(it.slots['s']), cb)
        if isinstance(it, (str,)):
            for c in it:
                r = cb(c)
                if r is not None:
                    return r
            return None
        if isinstance(it, SChars):
            for c in it.c:
                r = cb(SChars([c]) if sym(c) else chr(c))
                if r is not None:
                    return r
            return None
        if isinstance(it, bytes):
            for c in it:
                r = cb(c)
                if r is not None:
                    return r
            return None
        if isinstance(it, range):
            it = RangeV(it.start, it.stop, it.step)
        if isinstance(it, RangeV):
            n = self.range_len(it)
            if not sym(n) and n <= 64:
                for i in range(n):
                    r = cb(iadd(it.lo, imul(it.step, i)))
                    if r is not None:
                        return r
                return None
            return loops.sym_loop(self, n, lambda k: iadd(it.lo, imul(it.step, k)), cb)
        if isinstance(it, ListV):
            segs = it.items
            for s in segs:
                if type(s) is LE:
                    r = cb(s.v)
                elif type(s) is LRep:
                    if not sym(s.n) and s.n <= 64:
                        r = None
                        for _ in range(max(s.n, 0)):
                            r = cb(s.v)
                            if r is not None:
                                break
                    else:
                        r = loops.sym_loop(self, imax(s.n, 0) if sym(s.n) and not ctx.valid(zi(s.n) >= 0) else s.n,
                                           lambda k, s=s: s.v, cb)
                else:
                    r = loops.sym_loop(self, isub(s.hi, s.lo), lambda k, s=s: self.lbig_elem(s.d, iadd(s.lo, k)), cb)
                if r is not None:
                    return r
            if it.items is not segs:
                raise Unsupported('list changed while iterating')
            return None
        if isinstance(it, ByteArr):
            it = SBytes(it.slots['content'], bytearray)
        if isinstance(it, SBytes):
            n = rlen(it.r)
            if not sym(n) and n <= 64:
                for i in range(n):
                    r = cb(rd_uint(ctx, rslice(ctx, it.r, i, i + 1)))
                    if r is not None:
                        return r
                return None
            return loops.sym_loop(self, n, lambda k: rd_uint(ctx, rslice(ctx, it.r, k, iadd(k, 1))), cb)
        if isinstance(it, Obj):
            f = self.class_attr(it.cls, '__iter__')
            if f is None:
                self.exc(TypeError, "'%s' object is not iterable" % it.cls.__name__)
            return self.iterate(self.call(self.bind(f, it), []), cb)
        if isinstance(it, SEnum):
            return self.iterate(self.pick(it), cb)
        if it is None or is_int(it):
            self.exc(TypeError, 'object is not iterable')
        m = self.methods.get((type(it).__name__, '__iter__'))
        if m is not None:
            return self.iterate(m(self, it, [], {}), cb)
        if is_conc(it) is False and hasattr(it, '__iter__') and type(it).__module__ in ('builtins', 'itertools'):
            raise Unsupported('iteration over a Python iterator')
        raise Unsupported('iteration over %r' % (it,))

    def lbig_elem(self, d, i):
        self.ctx.instantiate(i)
        return vsubst(d.tmpl, d.var, i)

    def range_len(self, r):
        if not sym(r.lo) and not sym(r.hi) and not sym(r.step):
            return len(range(r.lo, r.hi, r.step))
        if sym(r.step):
            if not self.ctx.valid(zi(r.step) != 0) and self.ctx.branch(zi(r.step) == 0):
                self.exc(ValueError, 'range() arg 3 must not be zero')
            up = self.ctx.branch(zi(r.step) > 0)
            d, st = (isub(r.lo, r.hi), r.step) if up else (isub(r.hi, r.lo), imul(r.step, -1))
            q = models.floordiv(self, d, st)[0]
            q = imul(q, -1)
            return q if not sym(q) and q >= 0 or sym(q) and self.ctx.valid(zi(q) >= 0) else imax(q, 0)
        if r.step > 0:
            d = isub(r.hi, r.lo)
            d = iadd(d, r.step - 1)
        else:
            d = iadd(isub(r.lo, r.hi), -r.step - 1)
        st = abs(r.step)
        if st == 1:
            q = d
        else:
            q, rem = poly_divmod(d, st)
            if q is None:
                q = norm(zi(d) / st)
        if not sym(q):
            return max(q, 0)
        if self.ctx.valid(zi(q) >= 0):
            return q
        return imax(q, 0)

    def to_list(self, it):
        """materialise an iterable into a new ListV"""
        if isinstance(it, ListV):
            return ListV(self.ctx, it.items, list)
        if isinstance(it, (tuple,)):
            return self.newlist(it)
        out = ListV(self.ctx, ())

        def cb(v):
            self.list_append(out, v)
        self.iterate(it, cb)
        return out

    # ------------------------------------------------------------ lists
    def list_len(self, l):
        n = 0
        for s in l.items:
            if type(s) is LE:
                n = iadd(n, 1)
            elif type(s) is LRep:
                n = iadd(n, s.n)
            else:
                n = iadd(n, isub(s.hi, s.lo))
        return n

    def list_vals(self, l):
        out = []
        for s in l.items:
            if type(s) is LE:
                out.append(s.v)
            elif type(s) is LRep and not sym(s.n):
                out.extend([s.v] * s.n)
            elif type(s) is LBig and not sym(isub(s.hi, s.lo)):
                out.extend(self.lbig_elem(s.d, iadd(s.lo, i)) for i in range(isub(s.hi, s.lo)))
            else:
                raise Unsupported('sequence of symbolic length')
        return out

    def list_norm(self, segs):
        out = []
        for s in segs:
            if type(s) is LRep and not sym(s.n) and s.n <= 0:
                continue
            if type(s) is LBig and same(s.lo, s.hi):
                continue
            if out and type(s) is LBig and type(out[-1]) is LBig and out[-1].d is s.d and same(out[-1].hi, s.lo):
                out[-1] = LBig(s.d, out[-1].lo, s.hi)
                continue
            out.append(s)
        return tuple(out)

    def list_append(self, l, v):
        self.ctx.set(l, 'items', self.list_norm(l.items + (LE(v),)))

    def list_segs(self, v):
        if isinstance(v, ListV):
            return v.items
        if isinstance(v, (tuple, list)):
            return tuple(LE(self.lift(x)) for x in v)
        return self.to_list(v).items

    def list_extend(self, l, v):
        self.ctx.set(l, 'items', self.list_norm(l.items + tuple(self.list_segs(v))))

    def lsplit(self, segs, pos):
        left = []
        rem = pos
        ctx = self.ctx
        for k, s in enumerate(segs):
            if not sym(rem) and rem == 0:
                return tuple(left), tuple(segs[k:])
            L = 1 if type(s) is LE else (s.n if type(s) is LRep else isub(s.hi, s.lo))
            d = isub(rem, L)
            if not sym(d):
                whole = d >= 0
            elif ctx.valid(zb(icmp('>=', d, 0))):
                whole = True
            elif ctx.valid(zb(icmp('<=', d, 0))):
                whole = False
            else:
                whole = ctx.branch(zb(icmp('>=', d, 0)))
            if whole:
                left.append(s)
                rem = d
                continue
            if sym(rem) and ctx.valid(zb(ieq(rem, 0))):
                return tuple(left), tuple(segs[k:])
            if type(s) is LRep:
                return tuple(left) + (LRep(s.v, rem),), (LRep(s.v, isub(s.n, rem)),) + tuple(segs[k + 1:])
            if type(s) is LBig:
                m = iadd(s.lo, rem)
                return tuple(left) + (LBig(s.d, s.lo, m),), (LBig(s.d, m, s.hi),) + tuple(segs[k + 1:])
            raise Unsupported('list split')
        return tuple(left), ()

    def norm_index(self, i, n, what='list'):
        """bounds-check an index, returning it in [0, n)"""
        ctx = self.ctx
        if isinstance(i, bool) or (sym(i) and z3.is_bool(i)):
            i = zi(i) if sym(i) else int(i)
        if not sym(i) and i < 0 or (sym(i) and not ctx.valid(zb(icmp('>=', i, 0))) and ctx.branch(zb(icmp('<', i, 0)))):
            i = iadd(n, i)
            if not ctx.branch(zb(icmp('>=', i, 0))):
                self.exc(IndexError, what + ' index out of range')
        c = icmp('<', i, n)
        if not ctx.branch(zb(c) if sym(c) else c):
            self.exc(IndexError, what + ' index out of range')
        return i

    def list_get(self, l, i):
        n = self.list_len(l)
        i = self.norm_index(i, n)
        a, b = self.lsplit(l.items, i)
        s = b[0]
        if type(s) is LE:
            return s.v
        if type(s) is LRep:
            return s.v
        return self.lbig_elem(s.d, s.lo)

    def list_set(self, l, i, v):
        n = self.list_len(l)
        i = self.norm_index(i, n)
        a, b = self.lsplit(l.items, i)
        _, c = self.lsplit(b, 1)
        self.ctx.set(l, 'items', self.list_norm(a + (LE(v),) + c))

    def clamp(self, i, n, default):
        """slice bound -> [0, n]"""
        if i is None:
            return default
        ctx = self.ctx
        if not sym(i) and not sym(n):
            if i < 0:
                i += n
            return min(max(i, 0), n)
        if not sym(i):
            if i < 0:
                if ctx.branch(zb(icmp('>=', n, -i))):
                    return iadd(n, i)
                return 0
            if i == 0:
                return 0
            if ctx.branch(zb(icmp('<=', i, n))):
                return i
            return n
        if not ctx.branch(zb(icmp('>=', i, 0))):
            i = iadd(n, i)
            if not ctx.branch(zb(icmp('>=', i, 0))):
                return 0
        c = icmp('<=', i, n)
        if ctx.branch(zb(c) if sym(c) else c):
            return i
        return n

    def slice_bounds(self, sl, n):
        if sl.step not in (None, 1):
            raise Unsupported('slice step')
        a = self.clamp(sl.start, n, 0)
        b = self.clamp(sl.stop, n, n)
        c = icmp('<=', a, b)
        if not self.ctx.branch(zb(c) if sym(c) else c):
            b = a
        return a, b

    # ------------------------------------------------------------ subscripts
    def subscript(self, o, i):
        ctx = self.ctx
        if isinstance(o, Poison):
            raise PoisonRead(o.slot)
        if isinstance(o, Obj):
            f = self.class_attr(o.cls, '__getitem__')
            if f is None:
                self.exc(TypeError, 'object is not subscriptable')
            return self.call(self.bind(f, o), [i])
        if isinstance(o, (DictV, dict)):
            d = o.d if isinstance(o, DictV) else o
            return self.dict_get(d, i)
        if isinstance(o, ByteArr):
            x = self.subscript(SBytes(o.slots['content']), i)
            return ByteArr(ctx, to_rope(x)) if isinstance(i, slice) else x
        if isinstance(o, SBytes) or (isinstance(o, bytes) and not is_conc(i if not isinstance(i, slice) else (i.start, i.stop, i.step))):
            r = to_rope(o)
            kind = o.kind if isinstance(o, SBytes) else bytes
            n = rlen(r)
            if isinstance(i, slice):
                if i.step == -1 and i.start is None and i.stop is None and not sym(n):
                    parts = []
                    for q in range(n):
                        parts.append(rslice(ctx, r, n - 1 - q, n - q))
                    return mk_bytes(rcat(*parts), kind)
                a, b = self.slice_bounds(i, n)
                return mk_bytes(rslice(ctx, r, a, b), kind)
            i = self.norm_index(i, n, 'index')
            return rd_uint(ctx, rslice(ctx, r, i, iadd(i, 1)))
        if isinstance(o, ListV):
            if isinstance(i, slice):
                if i.step == -1 and i.start is None and i.stop is None:
                    return self.newlist(reversed(self.list_vals(o)), o.kind)
                n = self.list_len(o)
                a, b = self.slice_bounds(i, n)
                _, t = self.lsplit(o.items, a)
                m, _ = self.lsplit(t, isub(b, a))
                return ListV(ctx, m, o.kind)
            return self.list_get(o, i)
        if isinstance(o, (tuple, list, str, range)):
            if isinstance(i, SEnum):
                i = self.pick(i)
            if isinstance(i, slice):
                if not is_conc((i.start, i.stop, i.step)):
                    raise Unsupported('symbolic slice of a concrete sequence')
                return self.lift(o[i]) if not isinstance(o, tuple) else o[i]
            if sym(i):
                n = len(o)
                if isinstance(o, str):
                    i = self.norm_index(i, n, 'string')
                    return self.merge_enum(i, list(o))
                i = self.norm_index(i, n)
                return self.merge_enum(i, list(o))
            if not isinstance(i, (int, slice)) and not hasattr(i, '__index__'):
                self.exc(TypeError, 'indices must be integers')
            try:
                return self.lift(o[i])
            except Exception as e:
                raise PyExc(ExcVal(type(e), e.args))
        if isinstance(o, bytes):
            try:
                return o[i]
            except Exception as e:
                raise PyExc(ExcVal(type(e), e.args))
        if isinstance(o, SChars):
            if isinstance(i, slice):
                if not is_conc((i.start, i.stop, i.step)):
                    raise Unsupported('symbolic slice of text')
                return SChars(o.c[i])
            if sym(i):
                raise Unsupported('symbolic index of text')
            try:
                return SChars([o.c[i]])
            except IndexError as e:
                self.exc(IndexError, 'string index out of range')
        if isinstance(o, SText):
            n = rlen(o.r)
            if isinstance(i, slice):
                a, b = self.slice_bounds(i, n)
                return mk_text(rslice(ctx, o.r, a, b))
            i = self.norm_index(i, n, 'string')
            return SChars([rd_uint(ctx, rslice(ctx, o.r, i, iadd(i, 1)))])
        if isinstance(o, SBin):
            if isinstance(i, slice) and o.pref == 2 and i.start == 2 and i.stop is None and i.step is None:
                return SBin(o.x, 0)
            raise Unsupported('bin() text')
        if isinstance(o, SEnum):
            vals = [self.subscript(x, i) for x in o.vals]
            return self.merge_enum(o.idx, vals)
        m = self.methods.get((type(o).__name__, '__getitem__'))
        if m is not None:
            return m(self, o, [i], {})
        if isinstance(o, (SModel, SObj)) and isinstance(i, SEnum):
            i = self.pick(i)
        if isinstance(o, SModel):
            return o.item(self, i)
        if isinstance(o, SObj):
            # an opaque value: may have no such item
            c = self.concretize(i)
            if not isinstance(c, str):
                raise Unsupported('subscript of an opaque value')
            if not ctx.branch(F('has_item_%s' % c, OS, BOOL)(o.term)):
                self.exc((KeyError, TypeError)[ctx.choose(2)], i)
            return SObj(F('item_%s' % c, OS, OS)(o.term))
        if isinstance(o, RangeV):
            n = self.range_len(o)
            i = self.norm_index(i, n)
            return iadd(o.lo, imul(o.step, i))
        if o is None or is_int(o):
            self.exc(TypeError, 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def dict_get(self, d, k, default=_MISSING):
        ctx = self.ctx
        if isinstance(k, SEnum):
            hit = [(i, x) for i, x in enumerate(k.vals) if x in d]
            if len(hit) == len(k.vals):
                return self.merge_enum(k.idx, [d[x] for x in k.vals])
            ok = bor(*[k.idx == i for i, _ in hit])
            if ctx.branch(zb(ok)):
                if len(hit) == 1:
                    return d[hit[0][1]]
                # re-index
                return self.dict_get(d, self.pick(k))
            if default is _MISSING:
                self.exc(KeyError, k)
            return default
        if is_conc(k):
            try:
                if k in d:
                    return d[k]
            except TypeError as e:
                self.exc(TypeError, 'unhashable')
            if default is _MISSING:
                self.exc(KeyError, k)
            return default
        if isinstance(k, (ListV, DictV, SetV)):
            self.exc(TypeError, 'unhashable type')
        for kk in d:
            c = self.eq(k, kk)
            if ctx.branch(zb(c) if sym(c) else c):
                return d[kk]
        if default is _MISSING:
            self.exc(KeyError, k)
        return default

    def setitem(self, o, i, v):
        ctx = self.ctx
        if isinstance(o, Obj):
            f = self.class_attr(o.cls, '__setitem__')
            if f is None:
                self.exc(TypeError, 'no item assignment')
            self.call(self.bind(f, o), [i, v])
        elif isinstance(o, DictV):
            if isinstance(i, SEnum):
                i = self.pick(i)
            if not is_conc(i):
                raise Unsupported('symbolic dictionary key')
            d = dict(o.d)
            d[i] = v
            ctx.set(o, 'd', d)
        elif isinstance(o, ListV) and o.kind is list:
            if isinstance(i, slice):
                n = self.list_len(o)
                a, b = self.slice_bounds(i, n)
                x, t = self.lsplit(o.items, a)
                _, y = self.lsplit(t, isub(b, a))
                ctx.set(o, 'items', self.list_norm(x + tuple(self.list_segs(v)) + y))
            else:
                self.list_set(o, i, v)
        elif isinstance(o, ByteArr):
            r = o.slots['content']
            n = rlen(r)
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    raise Unsupported('bytearray slice')
                a, b = self.slice_bounds(i, n)
                new = models.want_bytes(self, v)
            else:
                a = self.norm_index(i, n, 'bytearray index')
                b = iadd(a, 1)
                new = to_rope(models.m_bytes(bytes)(self, [(v,)], {}))
            ctx.set(o, 'content', rcat(rslice(ctx, r, 0, a), new, rslice(ctx, r, b, n)))
        elif isinstance(o, (tuple, str, bytes)) or isinstance(o, (SBytes, SStr)) and getattr(o, 'kind', bytes) is bytes:
            self.exc(TypeError, 'object does not support item assignment')
        else:
            raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, DictV) and is_conc(i):
            d = dict(o.d)
            if i not in d:
                self.exc(KeyError, i)
            del d[i]
            self.ctx.set(o, 'd', d)
        elif isinstance(o, Obj):
            self.call(self.getattr(o, '__delitem__'), [i])
        elif isinstance(o, ListV):
            n = self.list_len(o)
            i = self.norm_index(i, n)
            a, b = self.lsplit(o.items, i)
            _, c = self.lsplit(b, 1)
            self.ctx.set(o, 'items', self.list_norm(a + c))
        else:
            raise Unsupported('del item')

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr.env, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        return self.subscript(self.eval(e.value, fr), self.eval_slice(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.eval_slice(e, fr)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.seq_vals(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.newlist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return models.mk_set(self, self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.mapping_items(self.eval(v, fr)):
                    d[kk] = vv
                continue
            kk = self.eval(k, fr)
            if not is_conc(kk):
                raise Unsupported('symbolic dictionary key')
            d[kk] = self.eval(v, fr)
        return DictV(self.ctx, d)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr)
                m = self.format_value(x, spec, v.conversion)
                parts.append(m)
        return self.str_concat(parts)

    def format_value(self, x, spec, conv=-1):
        c = self.concretize(x)
        if c is not _NC and (spec is None or isinstance(spec, str)):
            try:
                if conv == 114:
                    c = repr(c)
                elif conv == 115:
                    c = str(c)
                return format(c, spec or '')
            except Exception as e:
                raise PyExc(ExcVal(type(e), e.args))
        if sym(x) and not z3.is_bool(x) and isinstance(spec, str) and len(spec) == 3 and spec[0] == '0' and spec[2] == 'b':
            return self.bin_chars(x, int(spec[1]))
        if isinstance(x, (SStr, SChars)) and not spec and conv == -1:
            return x
        if conv == -1 and not spec:
            return self.to_str(x)
        if spec and spec[-1:] in 'dxb' and not is_int(x):
            self.exc(TypeError if x is None else ValueError, 'format')
        return SStr(None)

    def bin_chars(self, x, w):
        if self.ctx.branch(zb(band(icmp('>=', x, 0), icmp('<', x, 2 ** w)))):
            return SChars([iadd(48, norm((zi(x) / z3.IntVal(2 ** (w - 1 - j))) % 2)) for j in range(w)])
        raise Unsupported('binary text of a wide integer')

    def to_str(self, x):
        if isinstance(x, (SStr, SChars)):
            return x
        if isinstance(x, SEnum):
            return self.merge_enum(x.idx, [self.to_str(v) for v in x.vals])
        c = self.concretize(x)
        if c is not _NC:
            return str(c)
        if sym(x):
            if z3.is_bool(x):
                return SEnum(iite(x, 0, 1), ('True', 'False'))
            if self.ctx.valid(zb(band(icmp('>=', x, 0), icmp('<=', x, 9)))):
                return SChars([iadd(x, 48)])
            return self.text_atom(F('s_int', INT, BS)(zi(x)))
        if isinstance(x, SFloat):
            return self.text_atom(F('s_float', FS, BS)(fterm(x)))
        if isinstance(x, Obj):
            f = self.class_attr(x.cls, '__str__')
            if f is not None:
                return self.call(self.bind(f, x), [])
            f = self.class_attr(x.cls, '__repr__')
            if f is not None:
                return self.call(self.bind(f, x), [])
        if isinstance(x, ExcVal):
            if len(x.args) == 1:
                return self.to_str(x.args[0])
            return SStr(None)
        return SStr(None)

    def text_atom(self, t):
        self.ctx.assume(blen(t) >= 1)
        return SText(atom_rope(t))

    def str_concat(self, parts):
        if any(isinstance(p, SText) for p in parts):
            rs = [text_rope(p) for p in parts]
            if all(r is not None for r in rs):
                return mk_text(rcat(*rs))
            return SStr(None)
        out = []
        for p in parts:
            if isinstance(p, str):
                cs = [ord(c) for c in p]
            elif isinstance(p, SChars):
                cs = p.c
            else:
                # general text
                terms = []
                for q in parts:
                    t = self.str_term(q)
                    if t is None:
                        return SStr(None)
                    terms.append(t)
                if not all(isinstance(t, z3.SeqRef) for t in terms):
                    return SStr(None)
                return SStr(z3.Concat(*terms) if len(terms) > 1 else terms[0])
            out.extend(cs)
        if all(not sym(c) for c in out):
            return ''.join(map(chr, out))
        return SChars(out)

    def str_term(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            return v.term
        return None

    def str_len(self, v):
        if isinstance(v, str):
            return len(v)
        if isinstance(v, SChars):
            return len(v.c)
        if isinstance(v, SText):
            return rlen(v.r)
        if isinstance(v, SStr) and v.term is not None:
            if isinstance(v.term, z3.SeqRef):
                return z3.Length(v.term)
            t = F('strlen', SS, INT)(v.term)
            self.ctx.assume(t >= 0)
            return t
        raise Unsupported('length of arbitrary text')

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if not sym(c):
            return self.eval(e.body if c else e.orelse, fr)
        cs = z3.simplify(c)
        if z3.is_true(cs) or z3.is_false(cs):
            return self.eval(e.body if z3.is_true(cs) else e.orelse, fr)
        if self.simple(e.body) and self.simple(e.orelse):
            if self.ctx.valid(c):
                return self.eval(e.body, fr)
            if self.ctx.valid(z3.Not(c)):
                return self.eval(e.orelse, fr)
            a, b = self.eval(e.body, fr), self.eval(e.orelse, fr)
            if is_int(a) and is_int(b) and not isinstance(a, bool) and not isinstance(b, bool):
                return iite(c, a, b)
            if isinstance(a, str) and isinstance(b, str):
                return SEnum(iite(c, 0, 1), (a, b))
            if isinstance(a, bool) and isinstance(b, bool):
                return a if a == b else (c if a else bnot(c))
        if self.ctx.branch(c):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def simple(self, n):
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, ast.Name):
            return True
        if isinstance(n, ast.Attribute):
            return self.simple(n.value)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            return self.simple(n.left) and self.simple(n.right)
        if isinstance(n, ast.UnaryOp):
            return self.simple(n.operand)
        return False

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(c, bool):
                if c != isand:
                    return v
                continue
            # pure symbolic bool operands: build a formula when the rest is pure
            rest = e.values[i + 1:]
            if (isinstance(v, bool) or (sym(v) and z3.is_bool(v))) and all(self.pure_bool(y) for y in rest):
                vals = [v] + [self.eval(y, fr) for y in rest]
                if all(isinstance(x2, bool) or (sym(x2) and z3.is_bool(x2)) for x2 in vals):
                    return band(*vals) if isand else bor(*vals)
            if self.ctx.branch(zb(c)) != isand:
                return v
        return v

    def pure_bool(self, n):
        if isinstance(n, ast.Compare):
            return all(self.simple(x) for x in [n.left] + n.comparators) and \
                all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in n.ops) and False
        return False

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if is_int(v):
                return imul(-1, zi(v) if sym(v) else v)
            if isinstance(v, float):
                return -v
        if isinstance(e.op, ast.UAdd) and is_int(v):
            return v
        if isinstance(e.op, ast.Invert) and is_int(v):
            return isub(-1, v)
        if is_conc(v):
            self.exc(TypeError, 'bad operand type for unary operator')
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op), left, right)
            if res is None:
                res = c
            else:
                res = band(res, c)
            if res is False:
                return False
            if len(e.ops) > 1 and sym(res) and not all(self.simple(x) for x in e.comparators):
                if not self.ctx.branch(res):
                    return False
                res = True
            left = right
        return res

    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            qual = fr.func.qual.split('.')
            cls = getattr(fr.env.module, qual[-2], None)
            first = fr.func.node.args.args[0].arg
            return SuperV(cls, self.lookup(fr.env, first))
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if models.takes_star(f):
                    l = self.to_list(v)
                    if any(type(s) is not LE for s in l.items):
                        args.append(Star(l))
                    else:
                        args.extend(self.list_vals(l))
                    continue
                args.extend(self.seq_vals(v))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.mapping_items(self.eval(k.value, fr)):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if f is super:
            return SuperV(args[0], args[1])
        return self.call(f, args, kwargs)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        if fr.cb is None:
            raise Unsupported('yield outside iteration')
        if type(fr.cb) is AtYield:
            # the body of a with statement: what it raises is raised here
            fr.cb.f(v)
            return None
        try:
            sig = fr.cb(v)
        except PyExc as x:
            raise ConsumerExc(fr.token, x)
        if sig is not None:
            raise GenAbandon(fr.token, sig)
        return None

    def e_YieldFrom(self, e, fr):
        it = self.eval(e.value, fr)

        def cb(v):
            try:
                sig = fr.cb(v)
            except PyExc as x:
                raise ConsumerExc(fr.token, x)
            if sig is not None:
                raise GenAbandon(fr.token, sig)
        self.iterate(it, cb)
        return None

    def comp(self, gens, fr, emit):
        env = Env(self.ctx, fr.env, fr.env.module)
        f2 = Frame(env, fr.func, fr.cb, fr.token)

        def level(i):
            if i == len(gens):
                emit(f2)
                return None
            g = gens[i]
            it = self.eval(g.iter, fr if i == 0 else f2)

            def cb(v):
                self.assign(g.target, v, f2)
                for c in g.ifs:
                    if not self.test(self.eval(c, f2)):
                        return None
                return level(i + 1)
            return self.iterate(it, cb)
        return level(0)

    def e_ListComp(self, e, fr):
        out = ListV(self.ctx, ())
        self.comp(e.generators, fr, lambda f2: self.list_append(out, self.eval(e.elt, f2)))
        return out

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f2: out.append(self.eval(e.elt, f2)))
        return models.mk_set(self, out)

    def e_DictComp(self, e, fr):
        out = DictV(self.ctx, {})

        def emit(f2):
            k = self.eval(e.key, f2)
            self.setitem(out, k, self.eval(e.value, f2))
        self.comp(e.generators, fr, emit)
        return out

    def e_GeneratorExp(self, e, fr):
        g0 = self.eval(e.generators[0].iter, fr)

        def run(itp, cb):
            env = Env(itp.ctx, fr.env, fr.env.module)
            tok = object()
            f2 = Frame(env, fr.func, None, tok)
            gens = e.generators

            def level(i):
                if i == len(gens):
                    return cb(itp.eval(e.elt, f2))
                it = g0 if i == 0 else itp.eval(gens[i].iter, f2)

                def cb2(v):
                    itp.assign(gens[i].target, v, f2)
                    for c in gens[i].ifs:
                        if not itp.test(itp.eval(c, f2)):
                            return None
                    return level(i + 1)
                return itp.iterate(it, cb2)
            return level(0)
        return GenV('gen', run)

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, a, b)

    def eq(self, a, b):
        from . import models
        return models.eq(self, a, b)


class _NCType:
    def __repr__(self):
        return '<not concrete>'


_NC = _NCType()

from . import models
