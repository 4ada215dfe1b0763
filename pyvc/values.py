"""pyvc values: the Python values the symbolic interpreter works with.

Concrete Python objects (None, int, str, bytes, tuple, real functions, classes, modules and
real instances found in module globals) stand for themselves; z3 Int / Bool expressions are
symbolic int / bool.  Everything else is one of the classes below.
"""
from .core import *


class SBytes:
    __slots__ = ('r', 'kind')

    def __init__(self, r, kind=bytes):
        self.r, self.kind = r, kind

    def __repr__(self):
        return 'SBytes%r' % (self.r,)


class SStr:
    """str value.  term: z3 String / uninterpreted Str term, or None (arbitrary text)"""
    __slots__ = ('term', 'tag')

    def __init__(self, term=None, tag=None):
        self.term, self.tag = term, tag

    def __repr__(self):
        return 'SStr(%s)' % (self.term,)


class SText(SStr):
    """str given as a rope of its characters (one 'byte' per character): ascii literals and opaque parts"""
    __slots__ = ('r',)

    def __init__(self, r):
        SStr.__init__(self, None)
        self.r = r

    def __repr__(self):
        return 'SText%r' % (self.r,)


class SChars:
    """str of known length given by its code points (ints or z3 Ints)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    def __repr__(self):
        return 'SChars(%s)' % (self.c,)


class SBin:
    """bin(x) (pref=2) or its digits (pref=0)"""
    __slots__ = ('x', 'pref')

    def __init__(self, x, pref):
        self.x, self.pref = x, pref


class SEnum:
    """one of finitely many concrete values, selected by idx in [0, len(vals))"""
    __slots__ = ('idx', 'vals')

    def __init__(self, idx, vals):
        self.idx, self.vals = idx, tuple(vals)

    def __repr__(self):
        return 'SEnum(%s, %r)' % (self.idx, self.vals)


class SObj:
    """opaque Python object (JSON value); term of sort Obj"""
    __slots__ = ('term', 'tag')

    def __init__(self, term, tag=None):
        self.term, self.tag = term, tag

    def __repr__(self):
        return 'SObj(%s)' % self.term


class SOther:
    """an arbitrary value that is not an instance of any of `excluded`"""
    __slots__ = ('name', 'excluded', 'callable_')

    def __init__(self, name, excluded, callable_=False):
        self.name, self.excluded, self.callable_ = name, tuple(excluded), callable_


class SFloat:
    """floating point value as an expression tree ('div', a, b) ..."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SFloat%r' % (self.e,)


class SFunc:
    """an arbitrary side-effect free callable given from outside; fn(interp, args) -> value"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Obj(Store):
    __slots__ = ('cls',)

    def __init__(self, ctx, cls):
        Store.__init__(self, ctx)
        self.cls = cls

    def __repr__(self):
        return '<%s obj %d>' % (self.cls.__name__, self.sid)


class Env(Store):
    __slots__ = ('parent', 'module', 'globals_', 'nonlocals')

    def __init__(self, ctx, parent, module):
        Store.__init__(self, ctx)
        self.parent, self.module = parent, module
        self.globals_ = set()
        self.nonlocals = set()


class LE:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'LE(%r)' % (self.v,)


class LRep:
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __repr__(self):
        return 'LRep(%r,%s)' % (self.v, self.n)


class LBig:
    __slots__ = ('d', 'lo', 'hi')

    def __init__(self, d, lo, hi):
        self.d, self.lo, self.hi = d, lo, hi

    def __repr__(self):
        return 'LBig(%s,%s,%s)' % (self.d.uid, self.lo, self.hi)


class ListV(Store):
    """list or tuple-like mutable sequence; slots['items'] is a tuple of LE/LRep/LBig"""
    __slots__ = ('kind',)

    def __init__(self, ctx, segs=(), kind=list):
        Store.__init__(self, ctx)
        self.slots['items'] = tuple(segs)
        self.kind = kind

    @property
    def items(self):
        return self.slots['items']

    def __repr__(self):
        return 'ListV%r' % (self.items,)


class DictV(Store):
    """dict with concrete keys; slots['d'] is a python dict (copied on write)"""
    __slots__ = ('kind',)

    def __init__(self, ctx, d=(), kind=dict):
        Store.__init__(self, ctx)
        self.slots['d'] = dict(d)
        self.kind = kind

    @property
    def d(self):
        return self.slots['d']

    def __repr__(self):
        return 'DictV%r' % (self.d,)


class ByteArr(Store):
    """bytearray; slots['content'] is a rope"""
    __slots__ = ()

    def __init__(self, ctx, r=()):
        Store.__init__(self, ctx)
        self.slots['content'] = r

    def __repr__(self):
        return 'ByteArr%r' % (self.slots['content'],)


class SetV(Store):
    __slots__ = ()

    def __init__(self, ctx, s=()):
        Store.__init__(self, ctx)
        self.slots['s'] = list(s)


class Inode(Store):
    """file content; slots: content (rope)"""
    __slots__ = ('name',)

    def __init__(self, ctx, name, r=()):
        Store.__init__(self, ctx)
        self.name = name
        self.slots['content'] = r
        self.slots['under'] = None


class FileV(Store):
    """open file or BytesIO; slots: pos, closed"""
    __slots__ = ('inode', 'kind', 'readable', 'writable', 'name', 'text')

    def __init__(self, ctx, inode, kind, readable=True, writable=True, name='?', text=False):
        Store.__init__(self, ctx)
        self.inode, self.kind = inode, kind
        self.readable, self.writable, self.name, self.text = readable, writable, name, text
        self.slots['pos'] = 0
        self.slots['closed'] = False

    def __repr__(self):
        return '<file %s>' % self.name


class FuncV:
    __slots__ = ('node', 'module', 'env', 'defaults', 'kwdefaults', 'name', 'qual', 'is_gen', 'cls')

    def __init__(self, node, module, env, defaults, kwdefaults, name, qual, is_gen, cls=None):
        self.node, self.module, self.env = node, module, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.is_gen, self.cls = name, qual, is_gen, cls

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundV:
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class ModelFn:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<model %s>' % self.name


class GenV:
    """not yet started generator / lazy iterator: run(interp, cb) iterates internally"""
    __slots__ = ('run', 'name', 'st')

    def __init__(self, name, run):
        self.name, self.run = name, run
        self.st = {}


class Star:
    """*list in a call, of unknown length (only for the functions in models.takes_star)"""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l


class RangeV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ExcVal:
    __slots__ = ('cls', 'args', 'attrs')

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args
        self.attrs = {}

    def __repr__(self):
        return '%s(%s)' % (self.cls.__name__, ', '.join(repr(a)[:80] for a in self.args))


class SuperV:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ClassV:
    """a class defined inside an interpreted function"""
    __slots__ = ('name', 'bases', 'ns')

    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns


class Poison:
    """value of a variable at the start of an iteration when it is not known; must not be read"""
    __slots__ = ('slot',)

    def __init__(self, slot):
        self.slot = slot


class PoisonRead(Exception):
    def __init__(self, slot):
        self.slot = slot


class CtxV:
    """context manager of contextlib: kind 'gen' (d: the generator), 'closing', 'suppress', 'null', 'stack'"""
    __slots__ = ('kind', 'd', 'st')

    def __init__(self, kind, d=None):
        self.kind, self.d, self.st = kind, d, {}


class SModel:
    """value of a modelled library type: attr(itp, name), item(itp, index)"""
    py = object

    def attr(self, itp, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def item(self, itp, i):
        raise Unsupported('subscript of %s' % type(self).__name__)


def mk_exc(cls, *args):
    return PyExc(ExcVal(cls, args))


def is_int(v):
    return (isinstance(v, int)) or (sym(v) and (v.sort_kind() == z3.Z3_INT_SORT or z3.is_bool(v)))


def is_bytes(v):
    return isinstance(v, (bytes, bytearray, SBytes, ByteArr))


def to_rope(v):
    if isinstance(v, SBytes):
        return v.r
    if isinstance(v, ByteArr):
        return v.slots['content']
    return rope(Lit(bytes(v)))


def mk_bytes(r, kind=bytes):
    """SBytes, concrete when fully literal"""
    if kind is bytes:
        if not r:
            return b''
        if len(r) == 1 and type(r[0]) is Lit:
            return r[0].b
    return SBytes(r, kind)


def text_rope(v):
    """rope of the characters of a text, or None"""
    if isinstance(v, SText):
        return v.r
    if isinstance(v, str) and v.isascii():
        return rope(Lit(v.encode()))
    return None


def mk_text(r):
    if not r:
        return ''
    if len(r) == 1 and type(r[0]) is Lit:
        return r[0].b.decode('latin-1')
    return SText(r)


FS = z3.DeclareSort('Float')


def fterm(v):
    """term of a floating point value; the operations are uninterpreted (IEEE addition and multiplication commute)"""
    op = v.e[0]
    if op == 'const':
        return z3.Const('f_const!%r' % v.e[1], FS)
    if op == 'int':
        return F('f_of_int', INT, FS)(zi(v.e[1]))
    if op == 'parse':
        return F('f_parse', BS, FS)(v.e[1])
    if op == 'idiv':
        return F('f_idiv', INT, INT, FS)(zi(v.e[1]), zi(v.e[2]))
    if op in ('add', 'sub', 'mul', 'div'):
        a, b = fterm(v.e[1]), fterm(v.e[2])
        if op in ('add', 'mul') and str(b) < str(a):
            a, b = b, a
        return F('f_' + op, FS, FS, FS)(a, b)
    if op == 'round' and len(v.e) == 3:
        return F('f_round', FS, INT, FS)(fterm(v.e[1]), zi(v.e[2]))
    raise Unsupported('float operation %s' % (op,))


# ---- substitution of an index variable in values
def vsubst(v, var, val):
    if sym(v):
        return isubst(v, var, val)
    if isinstance(v, SBytes):
        return mk_bytes(rsubst(v.r, var, val), v.kind)
    if isinstance(v, SEnum):
        return SEnum(isubst(v.idx, var, val), v.vals)
    if isinstance(v, SObj):
        return SObj(isubst(v.term, var, val), v.tag)
    if isinstance(v, SText):
        return mk_text(rsubst(v.r, var, val))
    if isinstance(v, SStr):
        return SStr(isubst(v.term, var, val) if v.term is not None else None, v.tag)
    if isinstance(v, SChars):
        return SChars([isubst(c, var, val) for c in v.c])
    if isinstance(v, tuple):
        return tuple.__new__(type(v), [vsubst(x, var, val) for x in v])
    if isinstance(v, SFloat):
        return SFloat(tuple(vsubst(x, var, val) for x in v.e))
    if isinstance(v, ExcVal):
        return ExcVal(v.cls, tuple(vsubst(x, var, val) for x in v.args))
    return v


def vmentions(v, var):
    """does the value depend on var (conservative for stores: looks inside)"""
    if sym(v):
        return mentions(v, var)
    if isinstance(v, SBytes):
        return rmentions(v.r, var)
    if isinstance(v, SEnum):
        return mentions(v.idx, var)
    if isinstance(v, SText):
        return rmentions(v.r, var)
    if isinstance(v, (SObj, SStr)):
        return v.term is not None and mentions(v.term, var)
    if isinstance(v, SChars):
        return any(mentions(c, var) for c in v.c)
    if isinstance(v, tuple):
        return any(vmentions(x, var) for x in v)
    if isinstance(v, SFloat):
        return any(vmentions(x, var) for x in v.e)
    return False


def rmentions(r, var):
    for s in r:
        if type(s) is Sl:
            if mentions(s.t, var) or mentions(s.lo, var) or mentions(s.hi, var):
                return True
        elif type(s) is Enc:
            if mentions(s.e, var):
                return True
        elif type(s) is Rep:
            if mentions(s.n, var) or rmentions(s.unit, var):
                return True
        elif type(s) is Big:
            if mentions(s.lo, var) or mentions(s.hi, var):
                return True
    return False
