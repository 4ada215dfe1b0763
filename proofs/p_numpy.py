"""arrays: packing, unpacking, memory bounds, refusals"""
from .p_memory import *
from pyvc import npmodel as NPM
from pyvc.npmodel import SArr, SDtype, SShape, f_obj, f_rec, f_its, f_size
from bloscpack import numpy_io as NI
import numpy


def c_nchunks_exact(itp, b):
    """contract of args.calculate_nchunks (groups of C07); the last chunk as the rest it is"""
    r = c_calculate_nchunks(itp, b)
    if isinstance(r, tuple) and sym(r[0]):
        k, c, last = r
        e = isub(b['in_file_size'], imul(isub(k, 1), c))
        itp.ctx.__dict__['chunkings'][-1] = (b['in_file_size'], b['chunk_size'], k, e)
        return (k, c, e)
    return r


def np_contracts(vc):
    io_contracts(vc)
    vc.itp.contracts['bloscpack.args.calculate_nchunks'] = c_nchunks_exact


def array_cfg(vc, req):
    """an arbitrary array without objects, legal settings and a chunk size it can be packed with"""
    ctx = vc.ctx
    c = Cfg()
    settings(vc, c)
    c.A = NPM.new_array(vc.itp, 'A')
    ctx.assume(z3.Not(f_obj(c.A.dtype)))
    ctx.assume(z3.And(c.A.itemsize >= 1, c.A.itemsize <= 255))
    N = c.A.nbytes
    if req == 'any':
        c.req = vc.int('chunk_size', 1, MAXBUF)
    elif req == 'multiple':
        # every chunk size that is a multiple of the item size is this product
        q = vc.int('items_per_chunk', 1)
        c.req = imul(q, c.A.itemsize)
        ctx.assume(z3.And(zi(c.req) >= 1, zi(c.req) <= MAXBUF))
    else:
        c.req = vc.int('chunk_size', 1, MAXBUF)
        if req == 'one':
            ctx.assume(zi(N) <= c.req)
        else:
            q, r = models.floordiv(vc.itp, c.req, c.A.itemsize)
            ctx.assume(z3.And(zi(N) > c.req, r != 0))
    c.macv = vc.int('max_app_chunks', 0, MAXC)
    return c


def expected_order(vc, a):
    """order of the elements and their bytes in it"""
    o = 'F' if vc.ctx.branch(zb(band(a.f, bnot(a.c)))) else 'C'
    return o, a.content(vc.itp, o)


def np_metadata(vc, a, order, listed=False):
    """the metadata the documentation gives to an array"""
    ctx = vc.ctx
    if ctx.branch(f_rec(a.dtype)):
        t = NPM.f_repro(NPM.f_descr(a.dtype))
    else:
        t = NPM.f_reprs(NPM.f_dstr(a.dtype))
    return {'dtype': SStr(t), 'shape': SShape(a.shape, list if listed else tuple), 'order': order, 'container': 'numpy'}


def c_write_metadata(vc, c):
    """contract of _write_metadata (groups of C10 and C14): a section of some length goes to the file"""
    ctx = vc.ctx
    S = vc.bytes('section')
    ctx.assume(z3.And(zi(rlen(S.r)) >= 32, zi(rlen(S.r)) < 2 ** 40))
    c.metas = []

    def w(itp, b):
        c.metas.append((b['metadata'], b['metadata_args']))
        models.file_write(itp, b['output_fp'], [S], {})
        return rlen(S.r)
    vc.itp.contracts['bloscpack.file_io._write_metadata'] = w
    c.meta = S.r


def run_pack_array(vc, which, c, given=True):
    ba, pa = lib_args(vc, c, c.macv)
    ts = vc.int('other_typesize', 1, 255)
    kw = dict(chunk_size=c.req, bloscpack_args=pa)
    if given:
        # the typesize given is ignored
        kw['blosc_args'] = vc.call(A.BloscArgs, ts, c.cl, c.sh, c.cn).val
    if which == 'bytes':
        return vc.call(NI.pack_ndarray_to_bytes, c.A, **kw)
    return vc.call(NI.pack_ndarray_to_file, c.A, 'out', **kw)


def _pack(which, req, given=True):
    def g(vc):
        """the container holds the bytes of the array in its order, and its description"""
        ctx, itp = vc.ctx, vc.itp
        np_contracts(vc)
        c = array_cfg(vc, req)
        if not given:
            c.cl, c.sh, c.cn = 7, True, 'blosclz'
        c_write_metadata(vc, c)
        o = run_pack_array(vc, which, c, given)
        vc.returns('array-is-packed', o)
        if not o.ok:
            return
        out = o.val if which == 'bytes' else vc.content('out')
        order, X = expected_order(vc, c.A)
        c.X, c.ts = X, c.A.itemsize
        c.cs, c.n, c.last = spec_chunking(vc, c.A.nbytes, c.req)
        if not sym(c.last) and c.last == 0:
            c.X = ()
        c.off = ctx.branch(c.offv)
        c.mac = 0 if not c.off else iite(zb(icmp('>', iadd(c.n, c.macv), MAXC)), isub(MAXC, c.n), c.macv)
        spec_sections(vc, c)
        check_container(vc, 'layout', out, c)
        if vc.prove('one-metadata-section', len(c.metas) == 1):
            m, ma = c.metas[0]
            want = np_metadata(vc, c.A, order)
            d = m.d if isinstance(m, DictV) else m
            vc.prove('metadata-entries', isinstance(d, dict) and set(d) == set(want))
            for k in want:
                if isinstance(d, dict) and k in d:
                    vc.prove_eq('metadata-' + k, d[k], want[k])
        if which != 'bytes':
            return
    props = ['C15', 'C16'] + (['C03', 'C04', 'C01'] if which == 'bytes' and given else [])
    group(*props, name='pack_ndarray_to_%s_%s_chunk_size%s' % (which, req, '' if given else '_default_settings'), budget=400)(g)


_pack('bytes', 'multiple')
_pack('bytes', 'one')
_pack('file', 'multiple')
_pack('file', 'one')
_pack('bytes', 'multiple', False)


@group('C15', 'C16', budget=200)
def pack_ndarray_unsuitable_chunk_size(vc):
    """chunks smaller than the array that are no multiple of the item size are refused"""
    np_contracts(vc)
    c = array_cfg(vc, 'unsuitable')
    c_write_metadata(vc, c)
    o = run_pack_array(vc, 'bytes', c)
    vc.raises('refused', o, EX.ChunkSizeTypeSizeMismatch)


@group('C15', budget=200)
def pack_ndarray_objects(vc):
    """arrays with Python objects are refused before anything is written"""
    ctx = vc.ctx
    c = Cfg()
    settings(vc, c)
    c.macv = 0
    a = NPM.new_array(vc.itp, 'A')
    ctx.assume(f_obj(a.dtype))
    sink = vc.call(FI.CompressedFPSink, vc.file('out')).val
    w0 = len(ctx.write_log)
    ba, pa = lib_args(vc, c, 0)
    o = vc.call(NI.pack_ndarray, a, sink, blosc_args=ba, bloscpack_args=pa)
    vc.raises('refused', o, EX.ObjectNumpyArrayRejection)
    vc.prove('nothing-written', len(ctx.write_log) == w0)


# ---------------------------------------------------------------- unpacking
def np_container(vc, req):
    """a container written for an array (proved by the packing groups), its metadata section read by contract"""
    ctx = vc.ctx
    c = array_cfg(vc, req)
    order, X = expected_order(vc, c.A)
    c.order, c.X, c.ts = order, X, c.A.itemsize
    N = c.A.nbytes
    if ctx.branch(zb(ieq(N, 0))):
        c.cs, c.n, c.last, c.X = 0, 1, 0, ()
    elif req == 'one':
        c.cs, c.n, c.last = N, 1, N
    else:
        if not ctx.branch(zb(icmp('>', N, c.req))):
            raise PathPruned
        c.cs, c.n = c.req, vc.int('nchunks', 2, MAXC)
        c.last = isub(N, imul(isub(c.n, 1), c.cs))
        ctx.assume(z3.And(zi(c.last) >= 1, zi(c.last) <= zi(c.cs)))
    c.off = ctx.branch(c.offv)
    c.mac = 0 if not c.off else iite(zb(icmp('>', iadd(c.n, c.macv), MAXC)), isub(MAXC, c.n), c.macv)
    S = vc.bytes('section')
    ctx.assume(z3.And(zi(rlen(S.r)) >= 32, zi(rlen(S.r)) < 2 ** 40))
    c.meta = S.r
    spec_sections(vc, c)
    content = SBytes(rcat(spec_head(vc, c), c.tail))
    # the JSON form of the metadata: what comes back of a tuple is a list
    m = np_metadata(vc, c.A, order, listed=True)

    def r(itp, b):
        fp = b['input_fp']
        vc.prove('metadata-is-read-where-it-is', zb(ieq(fp.slots['pos'], 32)))
        itp.ctx.set(fp, 'pos', iadd(32, rlen(S.r)))
        return (DictV(itp.ctx, dict(m)), SObj(z3.Const('metadata_header', OS)))
    vc.itp.contracts['bloscpack.file_io._read_metadata'] = r
    return c, content


def check_array(vc, c, b):
    if not vc.prove('an-array-comes-back', isinstance(b, SArr)):
        return
    vc.prove('dtype', b.dtype == c.A.dtype)
    vc.prove('shape', b.shape == c.A.shape)
    vc.prove('order', (b.c if c.order == 'C' else b.f) is True)
    mem = b.memory(vc.itp)
    vc.prove_eq('elements', SBytes(mem), SBytes(c.A.content(vc.itp, c.order)))


def _unpack(which, req):
    def g(vc):
        """dtype, shape, order and elements come back"""
        ctx, itp = vc.ctx, vc.itp
        c, content = np_container(vc, req)
        if which == 'bytes':
            o = vc.call(NI.unpack_ndarray_from_bytes, content)
        else:
            vc.put_file('in', content)
            o = vc.call(NI.unpack_ndarray_from_file, 'in')
        vc.returns('own-container-is-accepted', o)
        if o.ok:
            check_array(vc, c, o.val)
    group('C15', 'C16', name='unpack_ndarray_from_%s_%s_chunk%s' % (which, {'any': 'several', 'one': 'one'}[req], {'any': 's', 'one': ''}[req]), budget=400)(g)


for _w in ('bytes', 'file'):
    for _r in ('any', 'one'):
        _unpack(_w, _r)


def c_conv(itp, b):
    """_conv: some value, or an error (old containers only)"""
    ctx = itp.ctx
    v = b['descr']
    if not isinstance(v, SObj):
        return NotImplemented
    if ctx.branch(F('conv_ok', OS, BOOL)(v.term)):
        return SObj(F('conv', OS, OS)(v.term))
    itp.exc((IndexError, TypeError)[ctx.choose(2)], 'conv')


@group('C15', 'C16', budget=100)
def sink_for_any_metadata(vc):
    """a sink for arrays exists only for metadata of an array without objects"""
    ctx, itp = vc.ctx, vc.itp
    itp.contracts['bloscpack.numpy_io._conv'] = c_conv
    M = vc.obj('M')
    n0 = len(ctx.__dict__.get('arrays', []))
    o = vc.call(NI.PlainNumpySink, M)
    isnone = zb(itp.obj_isnone(M))
    has = F('has_item_container', OS, BOOL)(M.term)
    item = SObj(F('item_container', OS, OS)(M.term))
    isnp = zb(models.eq(itp, item, 'numpy'))
    if o.ok:
        vc.prove('metadata-of-an-array', z3.And(z3.Not(isnone), has, isnp))
        a = field(vc, o.val, 'ndarray')
        if vc.prove('array', isinstance(a, SArr)):
            vc.prove('no-objects', z3.Not(f_obj(a.dtype)))
    else:
        vc.prove('refused-without-an-array', len(ctx.__dict__.get('arrays', [])) == n0)
        if ctx.branch(z3.Or(isnone, z3.And(has, z3.Not(isnp)))):
            vc.raises('no-array-is-reported', o, EX.NotANumpyArray)


@group('C15', 'C18', budget=100)
def unpack_ndarray_without_metadata(vc):
    """a container without metadata holds no array"""
    ctx, itp = vc.ctx, vc.itp
    Zv = vc.bytes('Z')
    ctx.assume(zi(rlen(Zv.r)) < 2 ** 62)
    start = vc.int('start', 0)
    ctx.assume(start <= zi(rlen(Zv.r)))
    arbitrary_beginning(vc, sym_header(vc).val, start)
    o = vc.call(NI.unpack_ndarray_from_bytes, Zv)
    vc.raises('no-array-is-reported', o, EX.NotANumpyArray)


def _bounds(which):
    def g(vc):
        """any container: nothing outside the array is written, and only chunks with the right digest reach it"""
        ctx, itp = vc.ctx, vc.itp
        itp.contracts['bloscpack.numpy_io._conv'] = c_conv
        Zv = vc.bytes('Z')
        Z = Zv.r
        ctx.assume(zi(rlen(Z)) < 2 ** 62)
        start = vc.int('start', 0)
        ctx.assume(start <= zi(rlen(Z)))
        hdr = sym_header(vc, metadata=True).val
        ck = field(vc, hdr, 'checksum').idx
        M = vc.obj('M')
        ctx.assume(z3.Not(zb(itp.obj_isnone(M))))
        arbitrary_beginning(vc, hdr, start, M, SObj(z3.Const('mh', OS)))
        gh = watch_chunks(vc, Z, ck, start)
        itp.hooks['opaque_memory'] = True
        if which == 'bytes':
            o = vc.call(NI.unpack_ndarray_from_bytes, Zv)
        else:
            vc.put_file('in', Zv)
            o = vc.call(NI.unpack_ndarray_from_file, 'in')
        if o.ok:
            vc.prove('an-array-comes-back', isinstance(o.val, SArr))
    group('C16', 'C09', name='unpack_ndarray_from_%s_bounds' % which, budget=400)(g)


_bounds('bytes')
_bounds('file')
