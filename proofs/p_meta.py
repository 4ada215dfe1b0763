"""metadata: section layout, integrity, round trip, rewriting"""
from .p_io import *

META_KEYS = ('magic_format', 'meta_checksum', 'meta_codec', 'meta_level', 'max_meta_size')


def meta_settings(vc, c, how):
    """symbolic legal metadata settings; the reservation is an integer or a function"""
    c.M = vc.obj('M')
    c.mck = vc.enum('meta_checksum', CHECKSUM_NAMES)
    c.mcodec = vc.enum('meta_codec', CODEC_NAMES)
    c.mlevel = vc.int('meta_level', 0, 9)
    c.mmax = vc.int('max_meta_size', 0)
    c.fn_args = []

    def fn(itp, a):
        c.fn_args.append(a)
        return c.mmax
    c.margs = vc.call(A.MetadataArgs, b'JSON', c.mck, c.mcodec, c.mlevel,
                      c.mmax if how == 'integer' else SFunc('max_meta_size', fn)).val
    vc.ctx.assume(models.f_jsonable(c.M.term))
    return c


def plain_form(vc, M):
    """the serialised metadata (the serializer is under contract in group serializer_is_json)"""
    s = vc.call(SER.SERIALIZERS_LOOKUP[b'JSON'].dumps, M).val
    return to_rope(models.m_encode(vc.itp, s, [], {})) if not is_bytes(s) else to_rope(s)


def spec_stored(vc, c):
    """decides on this path which form is stored: (stored rope, codec code)"""
    ctx = vc.ctx
    c.plain = plain_form(vc, c.M)
    if not ctx.branch(zb(ieq(c.mcodec.idx, 1))):
        c.stored, c.codec = c.plain, 0
    else:
        z = atom_rope(models.f_zc(term_of(ctx, c.plain), zi(c.mlevel)))
        if ctx.branch(zb(icmp('<=', rlen(z), rlen(c.plain)))):
            c.stored, c.codec = z, 1
        else:
            c.stored, c.codec = c.plain, 0
    return c


def fits(vc, c):
    return band(icmp('<=', rlen(c.stored), c.mmax), icmp('<=', c.mmax, U32), icmp('<=', rlen(c.plain), U32))


def spec_section(vc, c):
    """the metadata section; the level byte is left out of the comparison when nothing was compressed"""
    ctx = vc.ctx
    c.lvl = c.mlevel
    head = rope(Lit(b'JSON\0\0\0\0'), E(1, 0), E(1, c.mck.idx), E(1, c.codec), E(1, c.lvl), E(4, rlen(c.plain)),
                E(4, c.mmax), E(4, rlen(c.stored)), Lit(b'\0' * 8))
    pad = rope(Rep((Lit(b'\0'),), 1, isub(c.mmax, rlen(c.stored))))
    return rcat(head, c.stored, pad, dig_rope(vc, c.mck.idx, c.stored))


def check_section(vc, name, r, c):
    """obligations: the rope r is the section for c"""
    ctx = vc.ctx
    want = spec_section(vc, c)
    if not vc.prove(name + '-length', zb(ieq(rlen(r), rlen(want)))):
        return False
    a, b = rsplit(ctx, r, 11)
    lv, rest = rsplit(ctx, b, 1)
    wa, wb = rsplit(ctx, want, 11)
    wl, wrest = rsplit(ctx, wb, 1)
    ok = prove_eq(ctx, name + '-format-checksum-codec', a, wa)
    v = rd_uint(ctx, lv)
    ok = vc.prove(name + '-level', bor(zb(ieq(v, c.mlevel)), band(c.codec == 0, zb(ieq(v, 0))))) and ok
    s1, s2 = rsplit(ctx, rest, 20)
    w1, w2 = rsplit(ctx, wrest, 20)
    ok = prove_eq(ctx, name + '-sizes', s1, w1) and ok
    return prove_eq(ctx, name + '-data-padding-digest', s2, w2) and ok


def _write(how):
    def g(vc):
        c = meta_settings(vc, Cfg(), how)
        P = vc.bytes('P')
        fp = vc.file('out', P, rlen(P.r))
        o = vc.call(FI._write_metadata, fp, c.M, c.margs)
        spec_stored(vc, c)
        f = zb(fits(vc, c))
        got = vc.content(fp).r
        if o.ok:
            vc.prove('accepted-only-if-it-fits', f)
            vc.prove('nothing-before-changes', zb(icmp('>=', rlen(got), rlen(P.r))))
            a, b = rsplit(vc.ctx, got, rlen(P.r))
            vc.prove_eq('nothing-before-changes', SBytes(a), P)
            check_section(vc, 'section', b, c)
            vc.prove('reported-length', zb(ieq(o.val, rlen(b))))
            vc.prove('ends-behind-the-section', zb(ieq(fp.slots['pos'], rlen(got))))
        else:
            vc.prove('refused-only-if-it-does-not-fit', z3.Not(f))
            vc.prove_eq('refusal-writes-nothing', SBytes(got), P)
        if how != 'integer':
            for a in c.fn_args:
                vc.prove('function-gets-the-plain-size', len(a) == 1 and zb(ieq(a[0], rlen(c.plain))))
    group('C14', 'C10', name='meta_write_' + how)(g)


_write('integer')
_write('function')


@group('C14', 'C02')
def meta_write_of_unserialisable(vc):
    """what JSON cannot express is refused before anything is written"""
    c = meta_settings(vc, Cfg(), 'integer')
    c.M = vc.obj('M2')
    vc.ctx.assume(z3.Not(models.f_jsonable(c.M.term)))
    P = vc.bytes('P')
    fp = vc.file('out', P, rlen(P.r))
    o = vc.call(FI._write_metadata, fp, c.M, c.margs)
    vc.raises('refused', o, Exception)
    vc.prove_eq('writes-nothing', vc.content(fp), P)


def own_section(vc, c):
    spec_stored(vc, c)
    vc.ctx.assume(zb(fits(vc, c)))
    return spec_section(vc, c)


@group('C02', 'C10', 'C13')
def meta_read_own(vc):
    """a section as written by _write_metadata reads back"""
    c = meta_settings(vc, Cfg(), 'integer')
    S = own_section(vc, c)
    P, Q = vc.bytes('P'), vc.bytes('Q')
    fp = vc.file('in', SBytes(rcat(P.r, S, Q.r)), rlen(P.r))
    o = vc.call(FI._read_metadata, fp)
    vc.returns('own-metadata-is-accepted', o)
    if o.ok:
        m, h = vc.itp.subscript(o.val, 0), vc.itp.subscript(o.val, 1)
        vc.prove_eq('metadata', m, SObj(models.f_jform(c.M.term)))
        vc.prove('position', zb(ieq(fp.slots['pos'], iadd(rlen(P.r), rlen(S)))))
        for f, v in (('max_meta_size', c.mmax), ('meta_comp_size', rlen(c.stored)), ('meta_size', rlen(c.plain)),
                     ('meta_checksum', c.mck), ('meta_codec', CODEC_NAMES[c.codec]), ('magic_format', b'JSON')):
            vc.prove_eq('header-' + f, field(vc, h, f), v)
    vc.prove_eq('input-untouched', vc.content(fp), SBytes(rcat(P.r, S, Q.r)))


@group('C10', budget=200)
def meta_read_any(vc):
    """any bytes at all in the place of the metadata section"""
    ctx = vc.ctx
    Zv = vc.bytes('Z')
    Z, L = Zv.r, rlen(Zv.r)
    s = vc.int('start', 0)
    ctx.assume(s <= zi(L))
    fp = vc.file('in', Zv, s)
    o = vc.call(FI._read_metadata, fp)
    vc.prove_eq('input-untouched', vc.content(fp), Zv)
    if not o.ok:
        return
    if not vc.prove('header-complete', zb(icmp('<=', iadd(s, 32), L))):
        return

    def u(off, w):
        return rd_uint(ctx, rslice_sym(Z, iadd(s, off), iadd(s, off + w)))
    ck, mx, cb = u(9, 1), u(16, 4), u(20, 4)
    vc.prove('known-checksum', zb(icmp('<=', ck, 8)))
    if not ctx.branch(zb(icmp('>', ck, 0))):
        return
    if not ctx.branch(zb(icmp('<=', cb, mx))):
        return      # not a metadata section: more stored than reserved
    ds = dig_size(ck)
    end = iadd(iadd(s, 32), cb)
    dpos = iadd(iadd(s, 32), mx)
    if not vc.prove('stored-metadata-complete', zb(icmp('<=', end, L))):
        return
    if vc.prove('digest-complete', zb(icmp('<=', iadd(dpos, ds), L))):
        d = f_dig(zi(ck), term_of(ctx, rslice_sym(Z, iadd(s, 32), end)))
        prove_eq(ctx, 'digest-is-right', rslice_sym(Z, dpos, iadd(dpos, ds)), rope(Sl(d, 0, ds)))


# ---------------------------------------------------------------- whole containers with metadata
def c_write_metadata(c):
    """contract of _write_metadata (groups meta_write_*): appends a section of the right form; the section is
    represented by an arbitrary byte string S that reads back as the JSON form of the metadata"""
    def k(itp, b):
        vc = c.vc
        f = b['output_fp']
        models.file_write(itp, f, [SBytes(c.S)], {})
        return rlen(c.S)
    return k


def c_read_metadata(c):
    """contract of _read_metadata (groups meta_read_*) on a section the library wrote"""
    def k(itp, b):
        f = b['input_fp']
        ctx = itp.ctx
        pos, cont = f.slots['pos'], models.full_content(itp.ctx, f.inode)
        e = iadd(pos, rlen(c.S))
        c.vc.prove('metadata-is-read-at-its-place', zb(icmp('<=', e, rlen(cont))))
        prove_eq(ctx, 'metadata-is-read-at-its-place', rslice(ctx, cont, pos, e), c.S)
        ctx.set(f, 'pos', e)
        return (SObj(models.f_jform(c.M.term)), c.mh)
    return k


def meta_section(vc, c, mh=True):
    """a metadata section S of the metadata M, and its header"""
    c.vc = vc
    c.M = vc.obj('M')
    vc.ctx.assume(models.f_jsonable(c.M.term))
    vc.ctx.assume(z3.Not(zb(vc.itp.obj_isnone(c.M))))
    S = vc.bytes('S')
    c.S = S.r
    c.mmax, c.mck = vc.int('max_meta_size', 0, U32), vc.enum('meta_checksum', CHECKSUM_NAMES)
    vc.ctx.assume(zi(rlen(c.S)) == zi(iadd(iadd(32, c.mmax), dig_size(c.mck.idx))))
    c.mh = vc.call(H.MetadataHeader, magic_format=b'JSON', meta_checksum=c.mck, meta_codec=vc.enum('meta_codec', CODEC_NAMES),
                   meta_level=6, meta_size=vc.int('meta_size', 0, U32), max_meta_size=c.mmax,
                   meta_comp_size=vc.int('meta_comp_size', 0, U32)).val
    return c


def _meta_layout(which):
    def g(vc):
        io_contracts(vc)
        c = meta_section(vc, pack_cfg(vc))
        vc.itp.contracts['bloscpack.file_io._write_metadata'] = c_write_metadata(c)
        margs = None if vc.ctx.choose(2) == 0 else vc.call(A.MetadataArgs).val
        c.meta = c.S
        out = run_pack(vc, which, c, meta=c.M, margs=margs)
        if out is None:
            return
        finish_cfg(vc, c)
        check_container(vc, 'layout', out, c)
    group('C02', 'C03', 'C04', 'C01', name='pack_%s_layout_with_metadata' % which, budget=200)(g)


def _meta_lossless(which):
    def g(vc):
        c = meta_section(vc, pack_cfg(vc))
        vc.itp.contracts['bloscpack.file_io._read_metadata'] = c_read_metadata(c)
        c.meta = c.S
        content = written_container(vc, c)
        o, plain, meta = run_unpack(vc, which, content)
        vc.returns('own-container-is-accepted', o)
        if o.ok:
            vc.prove_eq('data', plain, c.Xv)
            vc.prove_eq('metadata', meta, SObj(models.f_jform(c.M.term)))
    group('C01', 'C02', name='unpack_%s_lossless_with_metadata' % which, budget=200)(g)


for _w in PACKERS:
    _meta_layout(_w)
for _w in UNPACKERS:
    _meta_lossless(_w)


# ---------------------------------------------------------------- failures while chunks are produced
def _interrupted(which, where, meta):
    def g(vc):
        ctx, itp = vc.ctx, vc.itp
        io_contracts(vc)
        c = pack_cfg(vc)
        M = None
        if meta:
            meta_section(vc, c)
            itp.contracts['bloscpack.file_io._write_metadata'] = c_write_metadata(c)
            M, c.meta = c.M, c.S
        head = iadd(32, rlen(c.meta) if meta else 0)
        boom = []

        def fail():
            if ctx.choose(2) == 0:
                ctx.push_list(boom, 1)
                raise PyExc(ExcVal(OSError, (5, 'injected failure')))

        def read(itp, f, p, out):
            if f.name == 'in':
                fail()

        def write(itp, f, p, r):
            ino = itp.fs.slots.get('out')
            # the chunks come behind the offsets; nothing else is in doubt
            if f.inode is ino and len(to_rope(SBytes(r))) and any('comp' == getattr(getattr(s, 't', None), 'decl', lambda: None)().name()
                                                                   for s in r if type(s) is Sl):
                fail()
        if where == 'read':
            itp.hooks['read'] = read
        elif where == 'compress':
            itp.hooks['blosc_compress'] = lambda itp, r, t: fail()
        else:
            itp.hooks['write'] = write
        ba, pa = lib_args(vc, c, c.macv)
        vc.put_file('in', c.Xv)
        o = vc.call(FI.pack_file_to_file if which == 'file_to_file' else FI.pack_bytes_to_file,
                    'in' if which == 'file_to_file' else c.Xv, 'out', chunk_size=c.req, blosc_args=ba, bloscpack_args=pa, metadata=M)
        if not boom:
            return
        vc.prove('the-failure-is-reported', o.raised(OSError), repr(o)[:200])
        if not ctx.branch(c.offv):
            return
        cs, n, last = spec_chunking(vc, rlen(c.X), c.req)
        mac = iite(zb(icmp('>', iadd(n, c.macv), MAXC)), isub(MAXC, n), c.macv)
        tot = imul(8, iadd(n, mac))
        r = vc.content('out').r
        if vc.prove('offsets-are-there', zb(icmp('<=', iadd(head, tot), rlen(r)))):
            prove_eq(ctx, 'every-offset-is-minus-one', rslice(ctx, r, head, iadd(head, tot)), rope(Rep((Lit(b'\xff'),), 1, tot)))
    group('C04', name='pack_%s_interrupted_in_%s%s' % (which, where, '_with_metadata' if meta else ''), budget=200)(g)


_interrupted('file_to_file', 'read', False)
_interrupted('file_to_file', 'compress', True)
_interrupted('bytes_to_file', 'compress', False)
_interrupted('bytes_to_file', 'write', False)


@group('C10', budget=200)
def bad_metadata_stops_everything(vc):
    """when the metadata is refused nothing is decompressed, nothing is returned and nothing is written"""
    ctx, itp = vc.ctx, vc.itp
    which = UNPACKERS[ctx.choose(3)]
    Zv = vc.bytes('Z')
    ctx.assume(zi(rlen(Zv.r)) < 2 ** 62)

    def refuse(itp, b):
        raise PyExc(ExcVal(EX.ChecksumMismatch, ('contract: the metadata fails its checksum',)))
    itp.contracts['bloscpack.file_io._read_metadata'] = refuse
    hdr = sym_header(vc, metadata=True).val
    itp.contracts['bloscpack.file_io._read_bloscpack_header'] = lambda itp, b: hdr
    itp.hooks['decompress'] = lambda itp, r: vc.prove('nothing-is-decompressed', False)
    o, plain, meta = run_unpack(vc, which, Zv)
    vc.raises('checksum-error', o, EX.ChecksumMismatch)
    ino = itp.fs.slots.get('out')
    if ino is not None:
        vc.prove_eq('nothing-is-written', vc.content(ino), b'')
