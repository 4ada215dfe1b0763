"""in-memory storage: sources and sinks that keep chunks in lists"""
from .p_append import *

f_item = F('item', INT, BS)         # chunk i of a list of byte strings
f_buf = F('stored', INT, BS)        # arbitrary stored chunk i
f_sum = F('storedsum', INT, BS)     # arbitrary stored digest i


def blist(vc, n, fn, name='lst'):
    """the list [fn(0), ..., fn(n-1)]"""
    ctx = vc.ctx
    d = BigDef(ctx, 'list', name)
    i = z3.Const('g!%d' % ctx.next_gi(), INT)
    ctx.idx_stack.append(i)
    try:
        d.close(ctx, i, fn(i))
    finally:
        ctx.idx_stack.pop()
    return ListV(ctx, (LBig(d, 0, n),))


def prove_list(vc, name, lst, n, fn):
    """lst has n elements and element j is fn(j), for every j"""
    ctx, itp = vc.ctx, vc.itp
    if not isinstance(lst, ListV):
        return vc.prove(name, False, 'no list: %.100r' % (lst,))
    from pyvc.loops import llen
    if not vc.prove(name + '-length', zb(ieq(llen(lst.items), n))):
        return

    def body():
        j = ctx.fresh_int('j')
        ctx.assume(z3.And(j >= 0, j < zi(n)))
        if ctx.branch(j == zi(n) - 1):
            j = isub(n, 1)
        v = itp.subscript(lst, j)
        vc.prove_eq(name, v, fn(j)) if is_bytes(v) else vc.prove(name, False, 'element is %.100r' % (v,))
    ctx.explore(body)


def items(vc, n):
    """a list of n arbitrary byte strings Blosc can take"""
    ctx = vc.ctx
    ctx.axioms['item'] = lambda t: [blen(t) >= 0, blen(t) <= MAXBUF]

    def x(i):
        return SBytes(atom_rope(f_item(zi(i))))
    return blist(vc, n, x), x


def chunk_end(ctx, c, i):
    a, L = iadd(imul(c.cs, i), c.cs), rlen(c.X)
    return a if ctx.valid(zb(icmp('<=', a, L))) else L if ctx.valid(zb(icmp('>=', a, L))) else imin(a, L)


def mem_cfg(vc, kind):
    """chunks to pack: from a file (X with documented chunking) or from a list of any chunks"""
    ctx = vc.ctx
    c = Cfg()
    settings(vc, c)
    c.macv = 0 if kind == 'list' else vc.int('max_app_chunks', 0, MAXC)
    if kind == 'file':
        c.Xv = vc.bytes('X')
        c.X = c.Xv.r
        ctx.assume(zi(rlen(c.X)) < 2 ** 62)
        c.req = vc.int('chunk_size', 1, MAXBUF)
        c.cs, c.n, c.last = spec_chunking(vc, rlen(c.X), c.req)
        if not sym(c.last) and c.last == 0:
            c.X = ()
        c.x = lambda i: rslice_sym(c.X, imul(c.cs, i), chunk_end(ctx, c, i))
    else:
        c.n = vc.int('nchunks', 0, MAXC)
        c.cs, c.last = vc.int('chunk_size', 0, MAXBUF), vc.int('last_chunk', 0, MAXBUF)
        ctx.assume(c.last <= c.cs)
        c.list, xi = items(vc, c.n)
        c.x = lambda i: xi(i).r
    return c


def plain_source(vc, c, kind):
    if kind == 'file':
        return vc.call(FI.PlainFPSource, vc.file('in', c.Xv)).val
    return vc.call(MI.PlainMemorySource, c.list).val


def run_core_pack(vc, c, source, sink, M=None, margs=None):
    ba, pa = lib_args(vc, c, c.macv)
    kw = dict(blosc_args=ba, bloscpack_args=pa)
    if M is not None:
        kw.update(metadata=M, metadata_args=margs)
    return vc.call(AI.pack, source, sink, c.n, c.cs, c.last, **kw)


def stored(vc, c):
    def chunk(i):
        return SBytes(comp_rope(vc, c.x(i), c))

    def dig(i):
        return SBytes(dig_rope(vc, c.ck, comp_rope(vc, c.x(i), c)))
    return chunk, dig


def used_sink(vc):
    """a memory sink that something else was packed into before"""
    n0, ck0 = vc.int('n_before', 0, MAXC), vc.enum('checksum_before', CHECKSUM_NAMES)
    hdr = vc.call(H.BloscpackHeader, checksum=ck0, nchunks=n0).val
    sink = vc.call(MI.CompressedMemorySink).val
    vc.call(MI.CompressedMemorySink.configure, sink, None, hdr)
    vc.call(MI.CompressedMemorySink.write_metadata, sink, vc.obj('M_before'), None)
    old = lambda f: lambda i: SBytes(atom_rope(f(zi(i))))
    vc.itp.setattr(sink, 'chunks', blist(vc, n0, old(f_buf), 'before'))
    vc.itp.setattr(sink, 'checksums', blist(vc, n0, old(f_sum), 'sums_before'))
    return sink


def _pack_memory(kind, meta, used=False):
    def g(vc):
        """what the memory sink holds after packing"""
        ctx = vc.ctx
        io_contracts(vc)
        c = mem_cfg(vc, kind)
        M = None
        if meta:
            M = vc.obj('M')
            ctx.assume(z3.Not(zb(vc.itp.obj_isnone(M))))
        sink = used_sink(vc) if used else vc.call(MI.CompressedMemorySink).val
        o = run_core_pack(vc, c, plain_source(vc, c, kind), sink, M)
        vc.returns('packed', o)
        if not o.ok:
            return
        chunk, dig = stored(vc, c)
        prove_list(vc, 'chunks', field(vc, sink, 'chunks'), c.n, chunk)
        if ctx.branch(zb(icmp('>', c.ck, 0))):
            prove_list(vc, 'digests', field(vc, sink, 'checksums'), c.n, dig)
        vc.prove_eq('metadata', field(vc, sink, 'metadata'), M)
        vc.prove_eq('chunk-count', field(vc, sink, 'nchunks'), c.n)
    group('C17', name='pack_%s_to_%smemory%s' % (kind, 'used_' if used else '', '_with_metadata' if meta else ''), budget=200)(g)


_pack_memory('file', False)
_pack_memory('file', True)
_pack_memory('list', False)
_pack_memory('list', False, True)


def memory_container(vc, c, chunk, dig, M=None):
    """a memory sink that holds what packing stored"""
    hdr = vc.call(H.BloscpackHeader, checksum=c.ckv, typesize=c.ts, chunk_size=c.cs, last_chunk=c.last, nchunks=c.n,
                  offsets=False, max_app_chunks=0).val
    sink = vc.call(MI.CompressedMemorySink).val
    vc.call(MI.CompressedMemorySink.configure, sink, None, hdr)
    if M is not None:
        vc.call(MI.CompressedMemorySink.write_metadata, sink, M, None)
    vc.itp.setattr(sink, 'chunks', blist(vc, c.n, chunk, 'stored'))
    if vc.ctx.branch(zb(icmp('>', c.ck, 0))):
        vc.itp.setattr(sink, 'checksums', blist(vc, c.n, dig, 'sums'))
    return sink


def _unpack_memory(kind, to):
    def g(vc):
        """what was stored in memory comes back, in files and in memory"""
        ctx, itp = vc.ctx, vc.itp
        c = mem_cfg(vc, kind)
        chunk, dig = stored(vc, c)
        M = vc.obj('M')
        src = vc.call(MI.CompressedMemorySource, memory_container(vc, c, chunk, dig, M))
        vc.returns('source', src)
        unpack_into(vc, c, src.val, to)
        vc.prove_eq('metadata', field(vc, src.val, 'metadata'), M)
    group('C17', 'C01', name='unpack_memory_of_%s_to_%s' % (kind, to), budget=200)(g)


def unpack_into(vc, c, src, to):
    ctx = vc.ctx
    if to == 'file':
        fp = vc.file('out')
        o = vc.call(AI.unpack, src, vc.call(FI.PlainFPSink, fp).val)
        vc.returns('unpacked', o)
        if o.ok:
            if hasattr(c, 'Xv'):
                vc.prove_eq('data', vc.content(fp), c.Xv)
            else:
                d = family(ctx, lambda i: c.x(i), 'all')
                prove_eq(ctx, 'data', vc.content(fp).r, rope(Big(d, 0, c.n)))
        return
    sink = vc.call(MI.PlainMemorySink, *([c.n] if to == 'known' else [])).val
    o = vc.call(AI.unpack, src, sink)
    vc.returns('unpacked', o)
    if o.ok:
        prove_list(vc, 'chunks', field(vc, sink, 'chunks'), c.n, lambda j: SBytes(c.x(j)))


for _t in ('file', 'list'):
    _unpack_memory('list', _t)
_unpack_memory('list', 'known')
_unpack_memory('file', 'list')
_unpack_memory('file', 'file')


def _file_to_memory(to):
    def g(vc):
        """a container file unpacked into memory"""
        c, ctx = pack_cfg(vc), vc.ctx
        content = written_container(vc, c)
        c.x = lambda i: rslice_sym(c.X, imul(c.cs, i), chunk_end(ctx, c, i))
        src = vc.call(FI.CompressedFPSource, vc.file('in', content))
        vc.returns('source', src)
        if src.ok:
            unpack_into(vc, c, src.val, to)
    group('C17', 'C01', name='unpack_file_to_memory_%s' % to, budget=200)(g)


_file_to_memory('list')
_file_to_memory('known')


@group('C17', 'C03', 'C04', 'C01', budget=200)
def pack_memory_to_file(vc):
    """a list of chunks packed into a container file"""
    ctx = vc.ctx
    io_contracts(vc)
    c = mem_cfg(vc, 'list')
    c.macv = vc.int('max_app_chunks', 0, MAXC)
    fp = vc.file('out')
    o = run_core_pack(vc, c, plain_source(vc, c, 'list'), vc.call(FI.CompressedFPSink, fp).val)
    vc.returns('packed', o)
    if not o.ok:
        return
    c.off = ctx.branch(c.offv)
    c.mac = 0 if not c.off else iite(zb(icmp('>', iadd(c.n, c.macv), MAXC)), isub(MAXC, c.n), c.macv)
    c.meta = None
    c.fam = family(ctx, lambda i: chunk_rope(vc, c.x(i), c), 'spec')
    c.tail = rope(Big(c.fam, 0, c.n))
    check_container(vc, 'layout', vc.content(fp), c)


@group('C17', 'C09', budget=200)
def memory_source_integrity(vc):
    """arbitrary stored chunks and digests: what reaches the decompressor has its digest"""
    ctx, itp = vc.ctx, vc.itp
    c = Cfg()
    settings(vc, c)
    c.n = vc.int('nchunks', 0, MAXC)
    c.cs, c.last = 10, 10
    to = ctx.choose(3)

    def atom(f):
        def x(i):
            return SBytes(atom_rope(f(zi(i))))
        ctx.axioms[f.name()] = lambda t: [blen(t) >= 0]
        return x
    chunk, dig = atom(f_buf), atom(f_sum)
    src = vc.call(MI.CompressedMemorySource, memory_container(vc, c, chunk, dig)).val
    g = Ghost(ctx)
    g.slots['cur'] = 0

    def hook(itp, r):
        cur = g.slots['cur']
        if not ctx.discovery:
            prove_eq(ctx, 'chunk-is-the-next-one', r, chunk(cur).r)

            def body():
                if ctx.branch(zb(icmp('>', c.ck, 0))):
                    d = f_dig(zi(c.ck), term_of(ctx, chunk(cur).r))
                    prove_eq(ctx, 'digest-is-right', dig(cur).r, rope(Sl(d, 0, dig_size(c.ck))))
            ctx.explore(body)
        ctx.set(g, 'cur', iadd(cur, 1))
    itp.hooks['decompress'] = hook
    if to == 2:
        fp = vc.file('out')
        sink = vc.call(FI.PlainFPSink, fp).val
    else:
        sink = vc.call(MI.PlainMemorySink, *([c.n] if to else [])).val
    o = vc.call(AI.unpack, src, sink)
    if to == 2:
        only_checked(vc, 'only-checked-data', vc.content(fp))
    else:
        only_checked_list(vc, 'only-checked-data', field(vc, sink, 'chunks'))
    if o.ok:
        vc.prove('all-chunks', zb(ieq(g.slots['cur'], c.n)))
    else:
        vc.raises('checksum-error-or-invalid-buffer', o, EX.ChecksumMismatch, blosc.blosc_extension.error)
