"""appending and rewriting metadata"""
from .p_meta import *

f_set = {k: F('old_' + k, INT, INT) for k in ('ts', 'cl', 'sh', 'cn')}


def old_chunk(vc, c, i, x):
    """chunk i of a container with any history: written under its own settings"""
    t = f_comp(term_of(vc.ctx, x), *[f_set[k](zi(i)) for k in ('ts', 'cl', 'sh', 'cn')])
    b = atom_rope(t)
    return rcat(b, dig_rope(vc, c.ck, b))


def history_container(vc, meta=None, empty=False):
    """any container the library can have produced by packing and appending: header, metadata section, exact
    offsets, unused entries -1, chunks in order (each written under its own settings), any trailing bytes"""
    ctx = vc.ctx
    c = Cfg()
    c.Xv = vc.bytes('X')
    c.X = c.Xv.r
    c.n = vc.int('nchunks', 1, MAXC)
    c.macv = c.mac = vc.int('max_app_chunks', 0, MAXC)
    ctx.assume(c.n + c.mac <= MAXC)
    c.cs, c.last = vc.int('chunk_size', 1, MAXBUF), vc.int('last_chunk', 1, MAXBUF)
    ctx.assume(c.last <= c.cs)
    ctx.assume(zi(rlen(c.X)) == zi(iadd(imul(isub(c.n, 1), c.cs), c.last)))
    c.hts = c.ts = vc.int('typesize', 1, 255)
    c.ckv = vc.enum('checksum', CHECKSUM_NAMES)
    c.ck = c.ckv.idx
    c.off = True
    c.meta = None
    if meta:
        meta_section(vc, c)
        c.meta = c.S
        vc.itp.contracts['bloscpack.file_io._read_metadata'] = c_read_metadata(c)
    many = ctx.branch(c.n >= 2)
    if not many:
        c.n = 1
    d = family(ctx, lambda i: old_chunk(vc, c, i, rslice_sym(c.X, imul(c.cs, i), iadd(imul(c.cs, i), c.cs))), 'old')
    c.fam = d
    c.lastx = rslice_sym(c.X, imul(c.cs, isub(c.n, 1)), rlen(c.X))
    c.lastchunk = old_chunk(vc, c, isub(c.n, 1), c.lastx)
    c.T = vc.bytes('T')
    c.front = rope(Big(d, 0, isub(c.n, 1))) if many else ()
    c.head = spec_head(vc, c)
    c.content = SBytes(rcat(c.head, c.front, c.lastchunk, c.T.r))
    ctx.assume(zi(rlen(c.content.r)) < 2 ** 62)
    return c


def same_seg(a, b):
    return a is b or type(a) is Sl and type(b) is Sl and a.t.eq(b.t)


def _history(which, meta):
    def g(vc):
        c = history_container(vc, meta)
        o, plain, m = run_unpack(vc, which, c.content)
        vc.returns('accepted', o)
        if o.ok:
            vc.prove_eq('data', plain, c.Xv)
            vc.prove_eq('metadata', m, SObj(models.f_jform(c.M.term)) if meta else None)
    group('C11', name='unpack_%s_after_any_history%s' % (which, '_with_metadata' if meta else ''), budget=200)(g)


for _w in UNPACKERS:
    _history(_w, False)
_history('bytes_from_file', True)


def new_settings(vc, c, how):
    """Blosc settings given to append: None, complete, or with entries left None"""
    b = Cfg()
    if how == 'default':
        b.ts, b.cl, b.sh, b.cn = c.hts, 7, True, 'blosclz'
        return None, b
    b.ts, b.cl, b.sh, b.cn = vc.int('new_typesize', 1, 255), vc.int('new_clevel', 0, 9), vc.bool('new_shuffle'), \
        vc.enum('new_cname', CNAMES)
    if how == 'object':
        return vc.call(A.BloscArgs, b.ts, b.cl, b.sh, b.cn).val, b
    # a dictionary with one entry left open
    kw = dict(typesize=b.ts, clevel=b.cl, shuffle=b.sh, cname=b.cn)
    k, v, a = [('typesize', c.hts, 'ts'), ('clevel', 7, 'cl'), ('shuffle', True, 'sh'), ('cname', 'blosclz', 'cn')][vc.ctx.choose(4)]
    kw[k] = None
    setattr(b, a, v)
    return DictV(vc.ctx, kw), b


def run_append(vc, c, how, api):
    """append Y to the container c; (outcome, settings, content afterwards)"""
    ctx = vc.ctx
    c.Yv = vc.bytes('Y')
    c.Y = c.Yv.r
    ctx.assume(zi(rlen(c.Y)) < 2 ** 62)
    args, b = new_settings(vc, c, how)
    b.ck = c.ck
    if api == 'append_fp':
        fp = vc.file('orig', c.content)
        Q = vc.bytes('Q')
        nf = vc.file('new', SBytes(rcat(Q.r, c.Y)), rlen(Q.r))
        o = vc.call(AP.append_fp, fp, nf, rlen(c.Y), args)
        return o, b, fp.inode
    vc.put_file('orig', c.content)
    vc.put_file('new', c.Yv)
    o = vc.call(AP.append, 'orig', 'new', args) if args is not None else vc.call(AP.append, 'orig', 'new')
    vc.prove_eq('new-file-untouched', vc.content('new'), c.Yv)
    return o, b, vc.itp.fs.slots['orig']


def same_settings(vc, c, b, x):
    s = Cfg()
    s.__dict__.update(b.__dict__)
    return chunk_rope(vc, x, s)


def judge_append(vc, c, o, b, ino, api):
    """the documented effect of appending Y"""
    ctx = vc.ctx
    N = rlen(c.Y)
    room = isub(c.cs, c.last)
    if ctx.branch(zb(icmp('<=', N, room))):
        k = 0
        fill, lastlen = N, iadd(c.last, N)
    else:
        fill = room
        # chunking of what is left over (contract of calculate_nchunks)
        rest = isub(N, room)
        if ctx.branch(zb(icmp('<=', rest, c.cs))):
            k, lastlen = 1, rest
        else:
            found = [(kk, ll) for (a, cc, kk, ll) in ctx.__dict__.get('chunkings', []) if ctx.valid(zb(band(ieq(a, rest), ieq(cc, c.cs))))]
            if found:
                k, lastlen = found[0]
            else:
                k, lastlen = ctx.fresh_int('n'), ctx.fresh_int('last')
                ctx.assume(z3.And(k >= 2, k <= MAXC, lastlen >= 1, lastlen <= zi(c.cs),
                                  zi(imul(isub(k, 1), c.cs)) + lastlen == zi(rest)))
    got = vc.content(ino).r if not o.ok else ino.slots['content']
    if not ctx.branch(zb(icmp('<=', k, c.mac))):
        vc.raises('refused-when-the-reservation-is-too-small', o, EX.NotEnoughSpace)
        vc.prove_eq('refusal-changes-nothing', vc.content(ino), c.content)
        return
    vc.returns('accepted-when-the-new-chunks-fit', o)
    if not o.ok:
        return
    if api == 'append_fp':
        vc.prove_eq('reports-the-new-chunks', o.val, k)
    first = same_settings(vc, c, b, rcat(c.lastx, rslice_sym(c.Y, 0, fill)))
    nn = iadd(c.n, k)
    h = spec_header(True, c.meta is not None, c.ck, c.hts, c.cs, lastlen, nn, isub(c.mac, k))
    if c.meta is not None:
        h = rcat(h, c.meta)
    hl = rlen(h)
    base = iadd(hl, imul(8, iadd(c.n, c.mac)))
    old = family(ctx, lambda i: rope(E(8, iadd(base, c.fam.PL(i)), True)), 'offs')
    h = rcat(h, rope(Big(old, 0, c.n)))
    tail = rcat(c.front, first)
    if sym(k) or k:
        def rest_of(i):
            return rslice_sym(c.Y, iadd(fill, imul(c.cs, i)), iadd(iadd(fill, imul(c.cs, i)), c.cs))
        d = family(ctx, lambda i: same_settings(vc, c, b, rest_of(i)), 'added')
        start = iadd(base, rlen(tail))
        new = family(ctx, lambda i: rope(E(8, iadd(start, d.PL(i)), True)), 'newoffs')
        h = rcat(h, rope(Big(new, 0, k)))
        tail = rcat(tail, rope(Big(d, 0, isub(k, 1))),
                    same_settings(vc, c, b, rslice_sym(c.Y, isub(N, lastlen), N)))
    h = rcat(h, rope(Rep((Lit(b'\xff'),), 1, imul(8, isub(c.mac, k)))))
    # what was written; behind it the file keeps what was there before, if that was longer
    if not vc.prove('not-shorter', zb(icmp('<=', rlen(h), rlen(got)))):
        return
    a, t = rsplit(ctx, got, rlen(h))
    for left in ctx.__dict__.get('leftovers', []) + [c.T.r]:
        if left and t and same_seg(t[-1], left[-1]):
            t = t[:len(t) - len(left)]
            break
    prove_eq(ctx, 'chunks', t, tail)
    prove_eq(ctx, 'header-metadata-offsets', a, h)


def _append(api, how, meta):
    def g(vc):
        io_contracts(vc)
        c = history_container(vc, meta)
        o, b, ino = run_append(vc, c, how, api)
        judge_append(vc, c, o, b, ino, api)
    group('C11', 'C12', name='%s_%s%s' % (api, how, '_with_metadata' if meta else ''), budget=300)(g)


_append('append_fp', 'default', False)
_append('append_fp', 'object', True)
_append('append_fp', 'partial', False)
_append('append', 'default', True)
_append('append', 'object', False)


# ---------------------------------------------------------------- appends that are refused
def _refused_settings(meta):
    def g(vc):
        """settings of every kind: legal ones are judged by the groups above; here: an append that fails has changed nothing,
        and settings blosc cannot work with do fail"""
        ctx = vc.ctx
        io_contracts(vc)
        c = history_container(vc, meta)
        kw = dict(typesize=vc.int('new_typesize'), clevel=vc.int('new_clevel'), shuffle=vc.bool('new_shuffle'),
                  cname=vc.enum('new_cname', CNAMES + ['lzma']))
        legal = z3.And(kw['typesize'] >= 1, kw['typesize'] <= 255, kw['clevel'] >= 0, kw['clevel'] <= 9, kw['cname'].idx < len(CNAMES))
        how = ctx.choose(3)
        if how == 1:
            del kw[list(kw)[ctx.choose(4)]]
        elif how == 2:
            kw['nthreads'] = 1
        c.Yv = vc.bytes('Y')
        ctx.assume(zi(rlen(c.Yv.r)) < 2 ** 62)
        if ctx.branch(z3.And(legal)) and not how:
            return
        fp = vc.file('orig', c.content)
        o = vc.call(AP.append_fp, fp, vc.file('new', c.Yv), rlen(c.Yv.r), DictV(ctx, kw))
        vc.raises('refused', o, Exception)
        vc.prove_eq('refusal-changes-nothing', vc.content(fp), c.content)
    group('C12', name='append_unusable_settings' + ('_with_metadata' if meta else ''), budget=200)(g)


_refused_settings(False)
_refused_settings(True)


@group('C12', budget=200)
def append_without_offsets(vc):
    """a header without offsets, whatever follows it"""
    ctx = vc.ctx
    api = ctx.choose(2)
    hdr = sym_header(vc, offsets=False).val
    R = vc.bytes('R')
    ctx.assume(zi(rlen(R.r)) < 2 ** 62)
    Z = SBytes(rcat(to_rope(vc.call(H.BloscpackHeader.encode, hdr).val), R.r))
    Y = vc.bytes('Y')
    if api:
        vc.put_file('orig', Z)
        vc.put_file('new', Y)
        o = vc.call(AP.append, 'orig', 'new')
        ino = vc.itp.fs.slots['orig']
    else:
        fp = vc.file('orig', Z)
        o = vc.call(AP.append_fp, fp, vc.file('new', Y), rlen(Y.r))
        ino = fp.inode
    vc.raises('refused', o, Exception)
    vc.prove_eq('refusal-changes-nothing', vc.content(ino), Z)


@group('C12', 'C11', budget=200)
def append_to_chunk_size_zero(vc):
    """the container of an empty input: there is no chunk size to append with"""
    ctx = vc.ctx
    io_contracts(vc)
    c = Cfg()
    settings(vc, c)
    c.X, c.n, c.cs, c.last, c.meta, c.off = (), 1, 0, 0, None, True
    c.mac = vc.int('max_app_chunks', 0, MAXC - 1)
    spec_sections(vc, c)
    content = SBytes(rcat(spec_head(vc, c), c.tail))
    ctx.assume(zi(rlen(content.r)) < 2 ** 62)
    Y = vc.bytes('Y')
    ctx.assume(zi(rlen(Y.r)) < 2 ** 62)
    fp = vc.file('orig', content)
    o = vc.call(AP.append_fp, fp, vc.file('new', Y), rlen(Y.r))
    if ctx.branch(zb(icmp('>', rlen(Y.r), 0))):
        vc.raises('refused', o, Exception)
        vc.prove_eq('refusal-changes-nothing', vc.content(fp), content)
    else:
        vc.returns('nothing-to-append', o)


@group('C12', budget=200)
def append_missing_file(vc):
    """nothing to read: the target is untouched; nothing to append to: nothing is created"""
    c = history_container(vc)
    if vc.ctx.choose(2):
        vc.put_file('orig', c.content)
        o = vc.call(AP.append, 'orig', 'new')
        vc.raises('refused', o, Exception)
        vc.prove_eq('refusal-changes-nothing', vc.content('orig'), c.content)
        vc.prove('nothing-created', vc.itp.fs.slots.get('new') is None)
    else:
        vc.put_file('new', vc.bytes('Y'))
        o = vc.call(AP.append, 'orig', 'new')
        vc.raises('refused', o, Exception)
        vc.prove('nothing-created', vc.itp.fs.slots.get('orig') is None)


def _append_integrity(meta):
    def g(vc):
        """any bytes in the place of the last chunk: what is decompressed has its digest, before anything is written"""
        ctx, itp = vc.ctx, vc.itp
        io_contracts(vc)
        c = history_container(vc, meta)
        Z = vc.bytes('Z')
        ctx.assume(zi(rlen(Z.r)) < 2 ** 62)
        r = rcat(c.head, c.front, Z.r)
        content = SBytes(r)
        ctx.assume(zi(rlen(r)) < 2 ** 62)
        fp = vc.file('orig', content)
        n = []

        def hook(itp, buf):
            L = rlen(Z.r)
            if not vc.prove('chunk-header-complete', zb(icmp('<=', 16, L))):
                raise PathPruned()
            ct = rd_uint(ctx, rslice_sym(Z.r, 12, 16))
            prove_eq(ctx, 'chunk-is-the-last-one', buf, rslice_sym(Z.r, 0, imin(ct, L)))
            if ctx.branch(zb(icmp('>', c.ck, 0))):
                ds = dig_size(c.ck)
                if vc.prove('digest-complete', zb(icmp('<=', iadd(ct, ds), L))):
                    d = f_dig(zi(c.ck), term_of(ctx, rslice_sym(Z.r, 0, ct)))
                    prove_eq(ctx, 'digest-is-right', rslice_sym(Z.r, ct, iadd(ct, ds)), rope(Sl(d, 0, ds)))
            vc.prove_eq('nothing-written-before', vc.content(fp), content)
            raise PyExc(ExcVal(KeyboardInterrupt, ('end of the group',)))
        itp.hooks['decompress'] = hook
        Y = vc.bytes('Y')
        o = vc.call(AP.append_fp, fp, vc.file('new', Y), rlen(Y.r))
        vc.raises('ends', o, BaseException)
        if not o.raised(KeyboardInterrupt):
            vc.prove('checksum-error-or-no-chunk-there', o.raised(EX.ChecksumMismatch) or zb(icmp('<', rlen(Z.r), 16)), repr(o)[:200])
        vc.prove_eq('refusal-changes-nothing', vc.content(fp), content)
    group('C09', 'C12', name='append_last_chunk_integrity' + ('_with_metadata' if meta else ''), budget=200)(g)


_append_integrity(False)
_append_integrity(True)


# ---------------------------------------------------------------- rewriting metadata
def _rewrite(how):
    def g(vc):
        """P ++ section ++ Q with the file at |P|: the section is replaced in place or nothing changes"""
        ctx = vc.ctx
        c = meta_settings(vc, Cfg(), 'integer')
        S = own_section(vc, c)
        P, Q = vc.bytes('P'), vc.bytes('Q')
        whole = SBytes(rcat(P.r, S, Q.r))
        fp = vc.file('f', whole, rlen(P.r))
        w = Cfg()
        w.M = vc.obj('M2')
        jsonable = models.f_jsonable(w.M.term)
        kw = {}
        w.mck, w.mcodec, w.mlevel, w.mmax = c.mck, SEnum(z3.IntVal(1), CODEC_NAMES), 6, c.mmax
        legal = True
        if how == 'other_codec':
            w.mcodec = kw['codec'] = vc.enum('new_codec', CODEC_NAMES + ['lzma'])
            w.mlevel = kw['level'] = vc.int('new_level')
            legal = z3.And(w.mcodec.idx <= 1, w.mlevel >= 0, w.mlevel <= 9)
        elif how == 'other_checksum':
            w.mck = kw['checksum'] = vc.enum('new_checksum', CHECKSUM_NAMES + ['crc64'])
            legal = z3.And(w.mck.idx <= 8, zi(dig_size(w.mck.idx)) == zi(dig_size(c.mck.idx)))
        elif how == 'other_format':
            kw['magic_format'] = vc.enum('new_format', [b'JSON', b'YAML'])
            legal = kw['magic_format'].idx == 0
        elif how == 'kept':
            kw.update(codec=None, level=None, magic_format=None, checksum=None)
            w.mcodec = SEnum(zi(c.codec), CODEC_NAMES)
            w.mlevel = None
        o = vc.call(AP._rewrite_metadata_fp, fp, w.M, **kw)
        differs = z3.Not(zb(models.eq(vc.itp, SObj(models.f_jform(c.M.term)), w.M)))
        ok = z3.And(legal, differs, jsonable)
        if o.ok:
            if not vc.prove('accepted-only-if-it-may', ok):
                return
            if w.mlevel is None:
                w.mlevel = c.mlevel
            spec_stored(vc, w)
            vc.prove('accepted-only-if-it-fits', zb(fits(vc, w)))
            got = vc.content(fp).r
            vc.prove('same-length', zb(ieq(rlen(got), rlen(whole.r))))
            a, b = rsplit(ctx, got, rlen(P.r))
            s, q = rsplit(ctx, b, rlen(S))
            vc.prove_eq('nothing-before-changes', SBytes(a), P)
            vc.prove_eq('nothing-behind-changes', SBytes(q), Q)
            check_section(vc, 'section', s, w)
        else:
            vc.prove_eq('refusal-changes-nothing', vc.content(fp), whole)
            if not ctx.branch(ok):
                return
            if w.mlevel is None:
                w.mlevel = c.mlevel
            spec_stored(vc, w)
            vc.prove('refused-only-if-it-does-not-fit', z3.Not(zb(fits(vc, w))), repr(o)[:200])
    group('C13', name='rewrite_metadata_' + how, budget=300)(g)


_rewrite('default')
_rewrite('other_codec')
_rewrite('other_checksum')
_rewrite('other_format')
_rewrite('kept')


@group('C13', 'C18')
def seek_to_metadata(vc):
    """the metadata starts behind the header, if there is any; nothing is written"""
    hdr = sym_header(vc, metadata=vc.bool('metadata')).val
    R = vc.bytes('R')
    Z = SBytes(rcat(to_rope(vc.call(H.BloscpackHeader.encode, hdr).val), R.r))
    fp = vc.file('f', Z)
    o = vc.call(AP._seek_to_metadata, fp)
    if vc.ctx.branch(z3.Bool('metadata')):
        vc.returns('found', o)
        if o.ok:
            vc.prove_eq('position', o.val, 32)
            vc.prove('file-is-there', zb(ieq(fp.slots['pos'], 32)))
    else:
        vc.raises('no-metadata', o, EX.NoMetadataFound)
    vc.prove_eq('input-untouched', vc.content(fp), Z)
