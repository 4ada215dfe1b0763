"""numpy and the pointer functions of blosc.

An array is its dtype, its shape and its elements; the elements are known through their bytes in C order and in Fortran
order (cbytes, fbytes).  Only the memory of a contiguous array is the one or the other; an address is an integer
that is the base address of some array plus an offset.  Reading or writing through an address gives an obligation:
the range lies inside the memory of that array."""
import numpy
from .core import *
from .values import *
from .interp import _NC

f_cb = F('np_cbytes', OS, BS)
f_fb = F('np_fbytes', OS, BS)
f_size = F('np_size', OS, INT)              # shape -> number of elements
f_its = F('np_itemsize', OS, INT)           # dtype -> size
f_obj = F('np_hasobject', OS, BOOL)
f_rec = F('np_structured', OS, BOOL)
f_descr = F('np_descr', OS, OS)
f_dstr = F('np_dtype_str', OS, SS)
f_reprs = F('repr_text', SS, SS)
f_repro = F('repr_obj', OS, SS)


def axioms(ctx):
    ctx.axioms['np_size'] = lambda t: [t >= 0]
    ctx.axioms['np_itemsize'] = lambda t: [t >= 0]


class SDtype(SModel):
    py = numpy.dtype

    def __init__(self, t):
        self.t = t

    def attr(self, itp, name):
        if name == 'itemsize':
            return f_its(self.t)
        if name == 'hasobject':
            return f_obj(self.t)
        if name == 'names':
            if itp.ctx.branch(f_rec(self.t)):
                o = SObj(F('np_names', OS, OS)(self.t))
                itp.ctx.assume(z3.Not(zb(itp.obj_isnone(o))))
                return o
            return None
        if name == 'descr':
            return SObj(f_descr(self.t))
        if name == 'str':
            return SStr(f_dstr(self.t))
        raise Unsupported('dtype.%s' % name)

    def __repr__(self):
        return 'SDtype(%s)' % self.t


class SShape(SModel):
    """shape of unknown rank; as a tuple, or as the list that JSON makes of it"""
    py = tuple

    def __init__(self, t, kind=tuple):
        self.t, self.kind = t, kind


class SArr(SModel):
    py = numpy.ndarray
    opaque = False

    def __init__(self, itp, t, dtype, shape, c, f, fresh=False, base=None):
        ctx = itp.ctx
        self.t, self.dtype, self.shape, self.c, self.f = t, dtype, shape, c, f
        self.size, self.itemsize = f_size(shape), f_its(dtype)
        self.nbytes = imul(self.size, self.itemsize)
        ctx.assume(z3.And(self.size >= 0, self.itemsize >= 0, zi(self.nbytes) >= 0, zi(self.nbytes) < 2 ** 62))
        self.base = ctx.fresh_int('address')
        ctx.assume(z3.And(self.base >= 1, self.base < 2 ** 63))
        self.mem = Inode(ctx, 'memory of the array')
        self.cursor = FileV(ctx, self.mem, 'file', name='memory')
        if fresh:
            g = z3.Const(ctx.fresh_name('garbage'), BS)
            ctx.assume(blen(g) == zi(self.nbytes))
            self.mem.slots['under'] = (0, rope(Sl(g, 0, self.nbytes)))
            self.known = True
        else:
            self.known = False
        ctx.push_list(ctx.__dict__.setdefault('arrays', []), self)

    def content(self, itp, order):
        t = (f_cb if order == 'C' else f_fb)(self.t)
        itp.ctx.assume(blen(t) == zi(self.nbytes))
        return rope(Sl(t, 0, self.nbytes))

    def memory(self, itp):
        """what lies at the base address"""
        ctx = itp.ctx
        if self.opaque:
            raise Unsupported('reading memory that was forgotten')
        if not self.known:
            # the memory of an array that is not contiguous holds other things, too
            if ctx.branch(zb(self.c)):
                r = self.content(itp, 'C')
            elif ctx.branch(zb(self.f)):
                r = self.content(itp, 'F')
            else:
                r = ()
            return r
        from .models import full_content
        return full_content(ctx, self.mem)

    def attr(self, itp, name):
        if name == 'dtype':
            return SDtype(self.dtype)
        if name == 'shape':
            return SShape(self.shape)
        if name in ('size', 'itemsize', 'nbytes'):
            return getattr(self, name)
        if name == 'flags':
            return Flags(self)
        if name == '__array_interface__':
            return DictV(itp.ctx, {'data': (self.base, False), 'shape': SShape(self.shape), 'version': 3,
                                   'typestr': SStr(f_dstr(self.dtype))})
        if name == 'ctypes':
            return Ctypes(self)
        if name in ('copy', 'tobytes'):
            return ModelFn('ndarray.' + name, lambda itp, a, k: getattr(self, 'm_' + name)(itp, a, k))
        raise Unsupported('ndarray.%s' % name)

    def m_copy(self, itp, a, k):
        order = a[0] if a else k.get('order', 'C')
        if order not in ('C', 'F'):
            raise Unsupported('copy order')
        return contig(itp, self, order)

    def m_tobytes(self, itp, a, k):
        order = a[0] if a else k.get('order', 'C')
        if order not in ('C', 'F'):
            raise Unsupported('tobytes order')
        return mk_bytes(self.content(itp, order))


class Ctypes(SModel):
    def __init__(self, a):
        self.a = a

    def attr(self, itp, name):
        if name == 'data':
            return self.a.base
        raise Unsupported('ctypes.' + name)


class Flags(SModel):
    def __init__(self, a):
        self.a = a

    def get(self, name):
        c, f = self.a.c, self.a.f
        v = {'C_CONTIGUOUS': c, 'F_CONTIGUOUS': f, 'C': c, 'F': f, 'CONTIGUOUS': c, 'FORTRAN': f,
             'FNC': band(f, bnot(c)), 'FORC': bor(f, c)}.get(name)
        if v is None:
            raise Unsupported('flag %s' % name)
        return v

    def item(self, itp, i):
        if not isinstance(i, str):
            raise Unsupported('flag')
        return self.get(i)

    def attr(self, itp, name):
        return self.get(name.upper())


def new_array(itp, name, dtype=None):
    """an arbitrary array"""
    ctx = itp.ctx
    t = z3.Const(name, OS)
    d = z3.Const(name + '.dtype', OS)
    s = z3.Const(name + '.shape', OS)
    c, f = z3.Bool(name + '.c_contiguous'), z3.Bool(name + '.f_contiguous')
    a = SArr(itp, t, d, s, c, f)
    # the elements of an array that is both have one order in memory
    ctx.assume(z3.Implies(z3.And(c, f), f_cb(t) == f_fb(t)))
    for n in ('size', 'itemsize'):
        ctx.input(name + '.' + n, getattr(a, n))
    ctx.input(name + '.c', c)
    ctx.input(name + '.f', f)
    return a


def want_array(itp, v):
    if not isinstance(v, SArr):
        raise Unsupported('numpy function on %r' % (v,))
    return v


def contig(itp, a, order):
    """a, or a contiguous copy with the same elements"""
    n = SArr(itp, a.t, a.dtype, a.shape, order == 'C', order == 'F')
    n.c, n.f = (True, z3.Bool(itp.ctx.fresh_name('f'))) if order == 'C' else (z3.Bool(itp.ctx.fresh_name('c')), True)
    itp.ctx.assume(z3.Implies(zb(band(n.c, n.f)), f_cb(a.t) == f_fb(a.t)))
    n.known = True
    n.mem.slots['content'] = n.content(itp, order)
    return n


def np_as(order):
    def m(itp, a, k):
        x = want_array(itp, a[0])
        if k or len(a) > 1:
            raise Unsupported('dtype of asarray')
        if itp.ctx.branch(zb(x.c if order == 'C' else x.f)):
            return x
        return contig(itp, x, order)
    return m


def np_isfortran(itp, a, k):
    x = want_array(itp, a[0])
    return band(x.f, bnot(x.c))


def pick_exc(itp, *cls):
    """some error"""
    itp.exc(cls[itp.ctx.choose(len(cls))] if len(cls) > 1 else cls[0], 'numpy')


def descr_to_dtype(itp, a, k):
    v = a[0]
    if isinstance(v, SObj):
        if v.term.decl().name() == 'np_descr':
            d = v.term.arg(0)
            if itp.ctx.branch(f_rec(d)):
                return SDtype(d)
            return SDtype(F('np_dtype_of', OS, OS)(v.term))     # a structure of one field
        if itp.ctx.branch(F('np_is_descr', OS, BOOL)(v.term)):
            return SDtype(F('np_dtype_of', OS, OS)(v.term))
        pick_exc(itp, TypeError, ValueError, KeyError)
    if isinstance(v, SStr) and v.term is not None and v.term.sort() == SS:
        if v.term.decl().name() == 'np_dtype_str':
            d = v.term.arg(0)
            if itp.ctx.branch(f_rec(d)):
                return SDtype(F('np_void', OS, OS)(d))
            return SDtype(d)
        if itp.ctx.branch(F('np_is_dtype_str', SS, BOOL)(v.term)):
            return SDtype(F('np_dtype_of_str', SS, OS)(v.term))
        pick_exc(itp, TypeError, ValueError)
    c = itp.concretize(v)
    if c is not _NC:
        try:
            return numpy.lib.format.descr_to_dtype(c)
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    raise Unsupported('descr_to_dtype(%r)' % (v,))


def np_dtype(itp, a, k):
    """numpy.dtype(): like descr_to_dtype for strings; of a 'descr' it forgets the padding"""
    v = a[0]
    if isinstance(v, SDtype):
        return v
    if isinstance(v, SObj) and v.term.decl().name() == 'np_descr':
        if itp.ctx.branch(F('np_is_descr', OS, BOOL)(v.term)):
            return SDtype(F('np_dtype_call', OS, OS)(v.term))
        pick_exc(itp, TypeError, ValueError)
    return descr_to_dtype(itp, a, k)


def literal_eval(old):
    def m(itp, a, k):
        v = a[0]
        if isinstance(v, SStr) and v.term is not None and v.term.sort() == SS:
            n = v.term.decl().name()
            if n == 'repr_text':
                return SStr(v.term.arg(0))
            if n == 'repr_obj':
                return SObj(v.term.arg(0))
            if itp.ctx.branch(F('is_literal', SS, BOOL)(v.term)):
                return SObj(F('literal', SS, OS)(v.term))
            pick_exc(itp, ValueError, SyntaxError, TypeError, MemoryError)
        if isinstance(v, SObj):
            if itp.ctx.branch(F('o_is_literal', OS, BOOL)(v.term)):
                return SObj(F('o_literal', OS, OS)(v.term))
            pick_exc(itp, ValueError, SyntaxError, TypeError, MemoryError)
        return old(itp, a, k)
    return m


def shape_term(itp, v):
    if isinstance(v, SShape):
        return v.t
    if isinstance(v, SObj):
        # may be no shape
        if not itp.ctx.branch(F('np_is_shape', OS, BOOL)(v.term)):
            pick_exc(itp, TypeError, ValueError, MemoryError)
        return F('np_shape_of', OS, OS)(v.term)
    raise Unsupported('shape %r' % (v,))


def np_empty(itp, a, k):
    names = ['shape', 'dtype', 'order']
    d = dict(zip(names, a))
    d.update(k)
    dt, order = d.get('dtype'), d.get('order', 'C')
    if not isinstance(dt, SDtype):
        raise Unsupported('dtype %r' % (dt,))
    s = shape_term(itp, d['shape'])
    if isinstance(order, SObj):
        # one of the two orders
        if not itp.ctx.branch(F('np_is_order', OS, BOOL)(order.term)):
            pick_exc(itp, TypeError, ValueError)
        t = z3.Const(itp.ctx.fresh_name('empty'), OS)
        c, f = [z3.Bool(itp.ctx.fresh_name(x)) for x in 'cf']
        itp.ctx.assume(z3.Or(c, f))
        return SArr(itp, t, dt.t, s, c, f, fresh=True)
    if order not in ('C', 'F'):
        raise Unsupported('order %r' % (order,))
    ctx = itp.ctx
    if itp.hooks.get('no_memory') and ctx.choose(2):
        itp.exc(MemoryError, 'Unable to allocate')
    t = z3.Const(ctx.fresh_name('empty'), OS)
    b = z3.Bool(ctx.fresh_name('both'))
    n = SArr(itp, t, dt.t, s, True if order == 'C' else b, True if order == 'F' else b, fresh=True)
    n.order = order
    return n


# ------------------------------------------------------------------ addresses
def region_of(itp, ptr):
    """(array, offset) an address belongs to"""
    from .core import _poly
    p = _poly(zi(ptr))
    for a in itp.ctx.__dict__.get('arrays', []):
        if p.get((a.base.get_id(),)) == 1:
            return a, isub(ptr, a.base)
    hits = [a for a in itp.ctx.__dict__.get('arrays', []) if mentions(zi(ptr), a.base)]
    if len(hits) == 1:
        return hits[0], isub(ptr, hits[0].base)
    # a number from anywhere: the obligation that it lies inside an array decides
    arrays = itp.ctx.__dict__.get('arrays', [])
    if arrays:
        return arrays[-1], isub(ptr, arrays[-1].base)
    return None, None


def inside(itp, what, a, off, n):
    ctx = itp.ctx
    c = band(icmp('>=', off, 0), icmp('>=', n, 0), icmp('<=', iadd(off, n), a.nbytes))
    ok = ctx.prove(what, zb(c) if sym(c) else c, 'offset %s, %s bytes, array of %s' % (off, n, a.nbytes))
    ctx.assume(zb(c) if sym(c) else z3.BoolVal(bool(c)))
    return ok


def compress_ptr(itp, a, k):
    import blosc
    from . import models as M
    ctx = itp.ctx
    names = ['address', 'items', 'typesize', 'clevel', 'shuffle', 'cname']
    d = M.bl_args(itp, k, a, names)
    ptr, items = d.get('address'), d.get('items')
    if not is_int(ptr):
        itp.exc(TypeError, 'only int or long objects are supported as address')
    if not is_int(items):
        raise Unsupported('items of compress_ptr: %r' % (items,))
    h = itp.hooks.get('blosc_args')
    if h:
        h(itp, d)
    c = icmp('>=', items, 0)
    if not ctx.branch(zb(c) if sym(c) else c):
        itp.exc(ValueError, 'items cannot be negative')
    ts = d['typesize']
    if not is_int(ts):
        itp.exc(TypeError, 'typesize')
    n = imul(items, ts)
    c = icmp('<=', n, blosc.BLOSC_MAX_BUFFERSIZE)
    if not ctx.branch(zb(c) if sym(c) else c):
        itp.exc(ValueError, 'length cannot be larger than ...')
    ts = M.int_range(itp, ts, 1, blosc.BLOSC_MAX_TYPESIZE, 'typesize')
    cl = M.int_range(itp, d['clevel'], 0, 9, 'clevel')
    sh = M.shuffle_term(itp, d['shuffle'])
    cn = M.cname_term(itp, d['cname'])
    arr, off = region_of(itp, ptr)
    if arr is None:
        ctx.prove('reads-an-array', False, 'address %r' % (ptr,))
        raise Unsupported('unknown address')
    mem = arr.memory(itp)
    if not inside(itp, 'reads-only-the-array', arr, off, n):
        raise PathPruned
    h = itp.hooks.get('compress_ptr')
    if h:
        h(itp, arr, off, n)
    if not ctx.valid(zb(icmp('<=', iadd(off, n), rlen(mem)))):
        ctx.prove('reads-contiguous-memory', False, 'the array is not contiguous')
        raise Unsupported('memory of an array that is not contiguous')
    r = rslice(ctx, mem, off, iadd(off, n))
    t = M.f_comp(term_of(ctx, r), zi(ts), zi(cl), zi(sh), zi(cn))
    return mk_bytes(atom_rope(t))


def decompress_ptr(itp, a, k):
    from . import models as M
    ctx = itp.ctx
    buf, ptr = a[0], a[1] if len(a) > 1 else k['address']
    r = M.want_bytes(itp, buf)
    if not is_int(ptr):
        itp.exc(TypeError, 'only int or long objects are supported as address')
    h = itp.hooks.get('decompress')
    if h:
        h(itp, r)
    arr, off = region_of(itp, ptr)
    if arr is None:
        ctx.prove('writes-to-an-array', False, 'address %r' % (ptr,))
        raise Unsupported('unknown address')
    n = rlen(r)
    if not sym(n) and n == 0:
        return 0
    t = term_of(ctx, r)
    comp = t.decl().name() == 'comp'
    # a damaged buffer may be noticed only after as many bytes as it announces were written
    if not comp and not ctx.prove('the-announced-size-is-known', zb(icmp('>=', n, 16))):
        raise PathPruned
    size = blen(t.arg(0)) if comp else rd_uint(ctx, rslice(ctx, r, 4, 8))
    if comp:
        x = rope_of_term(ctx, t.arg(0))
        size = rlen(x)
    if not inside(itp, 'writes-only-the-array', arr, off, size):
        raise PathPruned
    if not comp:
        x = atom_rope(M.dec_checked(itp, r, t))
    if itp.hooks.get('opaque_memory'):
        # only where it writes matters; the bytes are forgotten
        arr.opaque = True
        return size if not comp else rlen(x)
    ctx.set(arr.cursor, 'pos', off)
    n = rlen(x)
    if sym(n) or n:
        M.file_write(itp, arr.cursor, [mk_bytes(x)], {})
    return n


def buffer_rope(itp, v):
    return None


def eq(itp, a, b):
    if isinstance(a, SDtype) and isinstance(b, SDtype):
        return a.t == b.t
    if isinstance(a, SShape) and isinstance(b, SShape):
        return a.t == b.t if a.kind is b.kind else False
    return NotImplemented


def build(itp, reg):
    import blosc, ast
    axioms(itp.ctx)
    from . import models as M
    for o, f in [(numpy.isfortran, np_isfortran), (numpy.asfortranarray, np_as('F')), (numpy.ascontiguousarray, np_as('C')),
                 (numpy.empty, np_empty), (numpy.lib.format.descr_to_dtype, descr_to_dtype), (numpy.dtype, np_dtype),
                 (blosc.compress_ptr, compress_ptr), (blosc.decompress_ptr, decompress_ptr),
                 (ast.literal_eval, literal_eval(M.conc_or(itp, ast.literal_eval)))]:
        reg(o, f)


def build_methods(itp, D):
    pass
