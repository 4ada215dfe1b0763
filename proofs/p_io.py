"""packing and unpacking: layout, losslessness, offsets, integrity"""
from .common import *


def c_calculate_nchunks(itp, b):
    """contract of args.calculate_nchunks (proved by the groups of C07), for integers"""
    n, c = b['in_file_size'], b['chunk_size']
    if not is_int(n) or not is_int(c):
        return NotImplemented
    ctx = itp.ctx
    legal = z3.And(zi(n) >= 0, z3.Or(zi(n) == 0, z3.And(zi(c) >= 1, zi(c) <= MAXBUF, zi(n) <= zi(c) * MAXC)))
    if not ctx.branch(legal):
        raise PyExc(ExcVal(ValueError, ('contract: calculate_nchunks refuses',)))
    if ctx.branch(zb(ieq(n, 0))):
        return (1, 0, 0)
    if ctx.branch(zb(icmp('<=', n, c))):
        return (1, n, n)
    k, last = ctx.fresh_int('nchunks'), ctx.fresh_int('last')
    ctx.assume(z3.And(k >= 2, k <= MAXC, last >= 1, last <= zi(c), zi(imul(isub(k, 1), c)) + last == zi(n)))
    ctx.push_list(ctx.__dict__.setdefault('chunkings', []), (n, c, k, last))
    return (k, c, last)


def c_handle_max_apps(itp, b):
    """contract of args._handle_max_apps (proved by the groups of C08), for integers"""
    off, n, m = b['offsets'], b['nchunks'], b['max_app_chunks']
    if not is_int(n) or not is_int(m) or not (isinstance(off, bool) or sym(off) and z3.is_bool(off)):
        return NotImplemented
    ctx = itp.ctx
    if not ctx.branch(z3.And(zi(n) >= -1, zi(n) <= MAXC)):
        return NotImplemented
    if not ctx.branch(band(off, zb(bnot(ieq(n, -1)))) if sym(off) or sym(n) else bool(off) and n != -1):
        return 0
    if not ctx.branch(zb(band(icmp('>=', m, 0), icmp('<=', m, MAXC)))):
        raise PyExc(ExcVal(ValueError, ('contract: _handle_max_apps refuses',)))
    return iite(zb(icmp('>', iadd(n, m), MAXC)), isub(MAXC, n), m)


def io_contracts(vc):
    vc.itp.contracts['bloscpack.args.calculate_nchunks'] = c_calculate_nchunks
    vc.itp.contracts['bloscpack.args._handle_max_apps'] = c_handle_max_apps


def pack_cfg(vc):
    c = Cfg()
    settings(vc, c)
    c.Xv = vc.bytes('X')
    c.X = c.Xv.r
    vc.ctx.assume(zi(rlen(c.X)) < 2 ** 62)
    c.req = vc.int('chunk_size', 1, MAXBUF)
    c.macv = vc.int('max_app_chunks', 0, MAXC)
    c.meta = None
    return c


def finish_cfg(vc, c):
    """the case the path is in, and the specification for it"""
    ctx = vc.ctx
    c.cs, c.n, c.last = spec_chunking(vc, rlen(c.X), c.req)
    if not sym(c.last) and c.last == 0:
        c.X = ()
    c.off = ctx.branch(c.offv)
    if getattr(c, 'reserve', None) is not None:
        c.macv = vc.call(c.reserve, c.n).val if callable(c.reserve) else c.reserve
    c.mac = 0 if not c.off else iite(zb(icmp('>', iadd(c.n, c.macv), MAXC)), isub(MAXC, c.n), c.macv)
    spec_sections(vc, c)
    return c


PACKERS = ['file_to_file', 'bytes_to_file', 'bytes_to_bytes']


def default_cfg(vc):
    """nothing given but the data: the settings are those of argument objects built without arguments"""
    c = pack_cfg(vc)
    ba, pa = A.BloscArgs(), A.BloscpackArgs()
    c.ts, c.cl, c.sh, c.cn = ba.typesize, ba.clevel, ba.shuffle, ba.cname
    c.ckv = pa.checksum
    c.ck = CHECKSUM_NAMES.index(pa.checksum)
    c.offv, c.reserve = pa.offsets, pa.max_app_chunks
    c.req = DEFAULT_CHUNK
    return c


DEFAULT_CHUNK = 2 ** 20


def run_pack(vc, which, c, meta=None, margs=None, given=True):
    """call one of the three packing functions; the container it produced, or None"""
    kw = {}
    if given:
        ba, pa = lib_args(vc, c, c.macv)
        kw = dict(chunk_size=c.req, blosc_args=ba, bloscpack_args=pa)
    if meta is not None:
        kw.update(metadata=meta, metadata_args=margs)
    if which == 'file_to_file':
        vc.put_file('in', c.Xv)
        o = vc.call(FI.pack_file_to_file, 'in', 'out', **kw)
    elif which == 'bytes_to_file':
        o = vc.call(FI.pack_bytes_to_file, c.Xv, 'out', **kw)
    else:
        o = vc.call(FI.pack_bytes_to_bytes, c.Xv, **kw)
    vc.returns('legal-input-is-packed', o)
    if not o.ok:
        return None
    if which == 'bytes_to_bytes':
        return o.val
    ino = vc.itp.fs.slots.get('out')
    if not vc.prove('output-exists', isinstance(ino, Inode)):
        return None
    if which == 'file_to_file':
        vc.prove_eq('input-untouched', vc.content('in'), c.Xv)
    return vc.content(ino)


def _layout(which):
    def g(vc):
        io_contracts(vc)
        c = pack_cfg(vc)
        out = run_pack(vc, which, c)
        if out is None:
            return
        finish_cfg(vc, c)
        check_container(vc, 'layout', out, c)
    group('C01', 'C03', 'C04', name='pack_%s_layout' % which, budget=200)(g)


for _w in PACKERS:
    _layout(_w)


def _layout_default(which):
    def g(vc):
        io_contracts(vc)
        c = default_cfg(vc)
        out = run_pack(vc, which, c, given=False)
        if out is None:
            return
        finish_cfg(vc, c)
        check_container(vc, 'layout', out, c)
    group('C01', 'C03', 'C04', name='pack_%s_default_settings' % which, budget=200)(g)


for _w in PACKERS:
    _layout_default(_w)


def written_container(vc, c):
    """any container the library writes for c: head and tail as proved by the layout groups"""
    finish_cfg(vc, c)
    return SBytes(rcat(spec_head(vc, c), c.tail))


UNPACKERS = ['file_from_file', 'bytes_from_file', 'bytes_from_bytes']


def run_unpack(vc, which, content):
    """(outcome, plain bytes written so far or returned, metadata)"""
    if which == 'bytes_from_bytes':
        o = vc.call(FI.unpack_bytes_from_bytes, content)
    else:
        vc.put_file('in', content)
        o = vc.call(FI.unpack_file_from_file, 'in', 'out') if which == 'file_from_file' else \
            vc.call(FI.unpack_bytes_from_file, 'in')
    if not o.ok:
        return o, None, None
    if which == 'file_from_file':
        return o, vc.content('out'), o.val
    return o, vc.itp.subscript(o.val, 0), vc.itp.subscript(o.val, 1)


def _lossless(which):
    def g(vc):
        c = pack_cfg(vc)
        content = written_container(vc, c)
        o, plain, meta = run_unpack(vc, which, content)
        vc.returns('own-container-is-accepted', o)
        if o.ok:
            vc.prove_eq('data', plain, c.Xv)
            vc.prove_eq('no-metadata', meta, None)
            if which != 'bytes_from_bytes':
                vc.prove_eq('input-untouched', vc.content('in'), content)
    group('C01', name='unpack_%s_lossless' % which, budget=200)(g)


for _w in UNPACKERS:
    _lossless(_w)


# ---------------------------------------------------------------- integrity: any container whatsoever
class Ghost(Store):
    """specification state: where the next chunk starts"""
    def __init__(self, ctx):
        Store.__init__(self, ctx)
        self.slots['cur'] = None


def watch_chunks(vc, Z, ck, start, props=()):
    """every buffer that reaches the decompressor is the next chunk of Z, of exactly the recorded length and
    followed by its correct digest"""
    ctx, itp = vc.ctx, vc.itp
    g = Ghost(ctx)
    g.slots['cur'] = start
    L = rlen(Z)
    ds = dig_size(ck)

    def hook(itp, r):
        cur = g.slots['cur']
        if not ctx.discovery and not vc.prove('chunk-header-complete', zb(icmp('<=', iadd(cur, 16), L))):
            return
        ct = rd_uint(ctx, rslice_sym(Z, iadd(cur, 12), iadd(cur, 16)))
        end = iadd(cur, ct)
        if not ctx.discovery:
            prove_eq(ctx, 'chunk-is-the-next-one', r, rslice_sym(Z, cur, imin(end, L)))

            def body():
                if not ctx.branch(zb(icmp('>', ck, 0))):
                    return
                if vc.prove('digest-complete', zb(icmp('<=', iadd(end, ds), L))):
                    d = f_dig(zi(ck), term_of(ctx, rslice_sym(Z, cur, end)))
                    prove_eq(ctx, 'digest-is-right', rslice_sym(Z, end, iadd(end, ds)), rope(Sl(d, 0, ds)))
            ctx.explore(body)
        ctx.set(g, 'cur', iadd(end, ds))
    itp.hooks['decompress'] = hook
    return g


def only_checked(vc, name, out):
    """the output consists of decompressed chunks and nothing else"""
    for s in to_rope(out):
        if type(s) is Sl and s.t.decl().name() == 'dec' and same(s.lo, 0):
            continue
        if type(s) is Big and s.d.closed and len(s.d.tmpl) == 1 and type(s.d.tmpl[0]) is Sl and \
                s.d.tmpl[0].t.decl().name() == 'dec' and same(s.d.tmpl[0].lo, 0):
            continue
        return vc.prove(name, zb(ieq(slen(s), 0)), 'the output has bytes that are no decompressed chunk: %.200r' % (s,))
    return vc.prove(name, True)


def sym_header(vc, **fixed):
    """a legal container header with symbolic fields, built by the real constructor (contract: groups of C23)"""
    ctx = vc.ctx
    n = vc.int('nchunks', 0, MAXC)
    mac = vc.int('max_app_chunks', 0, MAXC)
    cs, last = vc.int('chunk_size', 0, MAXBUF), vc.int('last_chunk', 0, MAXBUF)
    ctx.assume(z3.And(n + mac <= MAXC, last <= cs))
    kw = dict(offsets=vc.bool('offsets'), metadata=False, checksum=vc.enum('checksum', CHECKSUM_NAMES),
              typesize=vc.int('typesize', 0, 255), chunk_size=cs, last_chunk=last, nchunks=n, max_app_chunks=mac)
    kw.update(fixed)
    return vc.call(H.BloscpackHeader, **kw)


def arbitrary_beginning(vc, hdr, start, meta=None, mh=None, offs=None):
    """contract of _read_beginning for the groups about the chunks: some legal header, and the chunks start somewhere"""
    def c(itp, b):
        itp.ctx.set(b['input_fp'], 'pos', start)
        return (hdr, meta, mh, offs if offs is not None else itp.newlist([]))
    vc.itp.contracts['bloscpack.file_io._read_beginning'] = c


def judge_unpack(vc, o, Z, gh, n, count=None):
    """how an unpacking may end"""
    if o.ok or o.raised(EX.ChecksumMismatch):
        return
    # any other failure: the decompressor refused a chunk whose digest is right, or there is no next chunk header
    short = zb(icmp('<', isub(rlen(Z), gh.slots['cur']), 16))
    vc.prove('other-errors-only-for-missing-or-invalid-chunks', True if o.raised(blosc.blosc_extension.error) else short,
             repr(o)[:200])


def _integrity(which):
    def g(vc):
        ctx = vc.ctx
        Zv = vc.bytes('Z')
        Z = Zv.r
        ctx.assume(zi(rlen(Z)) < 2 ** 62)
        start = vc.int('start', 0)
        ctx.assume(start <= zi(rlen(Z)))
        hdr = sym_header(vc).val
        ck = field(vc, hdr, 'checksum').idx
        arbitrary_beginning(vc, hdr, start)
        gh = watch_chunks(vc, Z, ck, start)
        if which == 'file_from_file':
            vc.put_file('in', Zv)
            o = vc.call(FI.unpack_file_from_file, 'in', 'out')
            out = vc.content('out')
        elif which in ('bytes_from_file', 'bytes_from_bytes'):
            vc.put_file('in', Zv)
            o = vc.call(FI.unpack_bytes_from_file, 'in') if which == 'bytes_from_file' else \
                vc.call(FI.unpack_bytes_from_bytes, Zv)
            out = vc.itp.subscript(o.val, 0) if o.ok else b''
        else:
            so = vc.call(FI.CompressedFPSource, vc.file('in', Zv))
            vc.returns('source', so)
            src = so.val
            kn = which == 'memory_known'
            sink = vc.call(MI.PlainMemorySink, *([field(vc, src, 'nchunks')] if kn else [])).val
            o = vc.call(AI.unpack, src, sink)
            only_checked_list(vc, 'only-checked-data', field(vc, sink, 'chunks'))
            out = b''
        judge_unpack(vc, o, Z, gh, field(vc, hdr, 'nchunks'))
        only_checked(vc, 'only-checked-data', out)
    group('C09', 'C26', name='unpack_%s_integrity' % which, budget=200)(g)


for _w in UNPACKERS + ['memory', 'memory_known']:
    _integrity(_w)


def only_checked_list(vc, name, lst):
    def good(v):
        if v is None:
            return True
        return is_bytes(v) and all(type(s) is Sl and s.t.decl().name() == 'dec' for s in to_rope(v))
    for s in lst.items:
        v = s.v if type(s) in (LE, LRep) else s.d.tmpl
        if not good(v):
            return vc.prove(name, False, 'a stored chunk is no decompressed chunk: %.200r' % (v,))
    return vc.prove(name, True)
