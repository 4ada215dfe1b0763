"""container header, metadata header, chunk header, argument sets, chunking, checksums, sizes"""
from .common import *


def legal_header(fv, ck_ok, ts, cs, lc, n, mac):
    return z3.And(fv >= 0, fv <= 255, ck_ok, ts >= 0, ts <= 255, cs >= -1, cs <= MAXBUF, lc >= -1, lc <= MAXBUF,
                  n >= -1, n <= MAXC, mac >= 0, mac <= MAXC,
                  z3.Implies(n != -1, n + mac <= MAXC), z3.Implies(n == -1, mac == 0),
                  z3.Implies(z3.And(cs != -1, lc != -1), lc <= cs))


@group('C23', 'C05')
def header_built_iff_legal(vc):
    fv, ts, cs, lc, n, mac = [vc.int(x) for x in ('format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                                                  'max_app_chunks')]
    offs, md = vc.bool('offsets'), vc.bool('metadata')
    ck = vc.enum('checksum', CHECKSUM_NAMES + ['unknown', None, 3, b'md5'])
    ok = legal_header(fv, ck.idx < 9, ts, cs, lc, n, mac)
    o = vc.call(H.BloscpackHeader, fv, offs, md, ck, ts, cs, lc, n, mac)
    if o.ok:
        vc.prove('accepted-is-legal', ok)
        vals = dict(format_version=fv, offsets=offs, metadata=md, checksum=ck, typesize=ts, chunk_size=cs,
                    last_chunk=lc, nchunks=n, max_app_chunks=mac)
        for k, v in vals.items():
            vc.prove_eq('field-' + k, field(vc, o.val, k), v)
        tot = field(vc, o.val, 'total_prospective_chunks')
        if tot is None:
            vc.prove('total-none', n == -1)
        else:
            vc.prove('total', zb(ieq(tot, iadd(n, mac))))
    else:
        vc.prove('refused-is-illegal', z3.Not(ok))
        vc.raises('refusal-type', o, TypeError, ValueError, EX.NoSuchChecksum)


@group('C23')
def header_defaults(vc):
    """fields that are not given are 'unknown' or off, so that a header can be built from the others alone"""
    for cls, want in ((H.BloscpackHeader, dict(format_version=3, offsets=False, metadata=False, checksum='None', typesize=0, chunk_size=-1,
                                               last_chunk=-1, nchunks=-1, max_app_chunks=0)),
                      (H.MetadataHeader, dict(magic_format=b'', meta_checksum='None', meta_codec='None', meta_level=0, meta_size=0,
                                              max_meta_size=0, meta_comp_size=0, user_codec=b''))):
        o = vc.call(cls)
        vc.prove('%s-accepted' % cls.__name__, o.ok)
        if o.ok:
            for k, v in want.items():
                vc.prove_eq('%s-%s' % (cls.__name__, k), field(vc, o.val, k), v)


@group('C23')
def header_refuses_non_integers(vc):
    """every numeric field given a value that is not an integer is refused"""
    names = ['format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks', 'max_app_chunks']
    bads = [None, 'x', b'x', 1.5, SOther('other', (int, bool, str, bytes))]
    i = vc.ctx.choose(len(names))
    j = vc.ctx.choose(len(bads))
    kw = {names[i]: bads[j]}
    o = vc.call(H.BloscpackHeader, **kw)
    vc.raises('refused-' + names[i], o, TypeError, ValueError)


@group('C05')
def header_encode(vc):
    fv, ts, cs, lc, n, mac = [vc.int(x) for x in ('format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                                                  'max_app_chunks')]
    offs, md = vc.bool('offsets'), vc.bool('metadata')
    ck = vc.enum('checksum', CHECKSUM_NAMES)
    vc.ctx.assume(legal_header(fv, z3.BoolVal(True), ts, cs, lc, n, mac))
    o = vc.call(H.BloscpackHeader, fv, offs, md, ck, ts, cs, lc, n, mac)
    vc.returns('legal-header-is-built', o)
    if not o.ok:
        return
    e = vc.call(field(vc, o.val, 'encode'))
    vc.returns('legal-header-is-encoded', e)
    if not e.ok:
        return
    vc.prove_eq('documented-bytes', e.val, SBytes(spec_header(offs, md, ck.idx, ts, cs, lc, n, mac, fv)))
    d = vc.call(H.BloscpackHeader.decode, e.val)
    vc.returns('encoding-is-decodable', d)
    if d.ok:
        for k, v in dict(format_version=fv, offsets=offs, metadata=md, checksum=ck, typesize=ts, chunk_size=cs,
                         last_chunk=lc, nchunks=n, max_app_chunks=mac).items():
            vc.prove_eq('round-trip-' + k, field(vc, d.val, k), v)
        try:
            vc.prove('headers-compare-equal', zb(models.eq(vc.itp, o.val, d.val)))
        except Unsupported:
            pass


@group('C05')
def header_decode_any_buffer(vc):
    b = vc.bytes('buffer')
    L = rlen(b.r)
    t = b.r[0].t
    rd = lambda p, w: f_rd(t, z3.IntVal(p), z3.IntVal(w))
    sg = lambda v, w: z3.If(v >= 2 ** (8 * w - 1), v - 2 ** (8 * w), v)
    ok = z3.And(zi(L) == 32, rd(0, 4) == int.from_bytes(b'blpk', 'little'), rd(5, 1) <= 3, rd(6, 1) <= 8,
                legal_header(rd(4, 1), z3.BoolVal(True), rd(7, 1), sg(rd(8, 4), 4), sg(rd(12, 4), 4), sg(rd(16, 8), 8),
                             sg(rd(24, 8), 8)))
    o = vc.call(H.BloscpackHeader.decode, b)
    if not o.ok:
        vc.prove('refused-is-no-legal-encoding', z3.Not(ok))
        vc.prove('refusal-is-an-error', issubclass(o.val.cls, Exception))
        return
    vc.prove('accepted-is-legal-encoding', ok)
    e = vc.call(field(vc, o.val, 'encode'))
    vc.returns('decoded-is-encodable', e)
    if e.ok:
        vc.prove_eq('encodes-back-to-the-buffer', e.val, b)


NULF = F('nuls_at_ends', BS, BOOL)


def ident(vc, name):
    """identifier: at most 8 bytes, not beginning or ending with NUL"""
    t = z3.Const(name, BS)
    vc.ctx.assume(z3.And(blen(t) >= 0, blen(t) <= 8, z3.Not(NULF(t))))
    return SBytes(atom_rope(t))


def meta_fields(vc):
    return dict(meta_level=vc.int('meta_level'), meta_size=vc.int('meta_size'), max_meta_size=vc.int('max_meta_size'),
                meta_comp_size=vc.int('meta_comp_size'))


def legal_meta(f):
    return z3.And(f['meta_level'] >= 0, f['meta_level'] <= 9,
                  *[z3.And(f[k] >= 0, f[k] <= U32) for k in ('meta_size', 'max_meta_size', 'meta_comp_size')])


@group('C06', 'C23')
def meta_header_encode(vc):
    f = meta_fields(vc)
    vc.ctx.assume(legal_meta(f))
    ck, co = vc.enum('meta_checksum', CHECKSUM_NAMES), vc.enum('meta_codec', CODEC_NAMES)
    mf, uc = ident(vc, 'magic_format'), ident(vc, 'user_codec')
    kw = dict(f, magic_format=mf, user_codec=uc, meta_checksum=ck, meta_codec=co)
    o = vc.call(H.MetadataHeader, **kw)
    vc.returns('legal-header-is-built', o)
    if not o.ok:
        return
    e = vc.call(field(vc, o.val, 'encode'))
    vc.returns('legal-header-is-encoded', e)
    if not e.ok:
        return
    z = lambda b: rope(Rep((Lit(b'\0'),), 1, isub(8, rlen(b.r))))
    spec = rcat(mf.r, z(mf), rope(Lit(b'\0'), E(1, ck.idx), E(1, co.idx), E(1, f['meta_level']), E(4, f['meta_size']),
                                  E(4, f['max_meta_size']), E(4, f['meta_comp_size'])), uc.r, z(uc))
    vc.prove_eq('documented-bytes', e.val, SBytes(spec))
    d = vc.call(H.MetadataHeader.decode, SBytes(spec))
    vc.returns('encoding-is-decodable', d)
    if d.ok:
        for k, v in kw.items():
            vc.prove_eq('round-trip-' + k, field(vc, d.val, k), v)
        vc.prove_eq('round-trip-meta_options', field(vc, d.val, 'meta_options'), '00000000')


@group('C23')
def meta_header_built_iff_legal(vc):
    f = meta_fields(vc)
    ck = vc.enum('meta_checksum', CHECKSUM_NAMES + ['unknown', None, 3])
    co = vc.enum('meta_codec', CODEC_NAMES + ['unknown', None, 1])
    mf, uc = vc.bytes('magic_format'), vc.bytes('user_codec')
    ok = z3.And(legal_meta(f), ck.idx < 9, co.idx < 2, zi(rlen(mf.r)) <= 8, zi(rlen(uc.r)) <= 8)
    o = vc.call(H.MetadataHeader, **dict(f, magic_format=mf, user_codec=uc, meta_checksum=ck, meta_codec=co))
    if o.ok:
        vc.prove('accepted-is-legal', ok)
    else:
        vc.prove('refused-is-illegal', z3.Not(ok))
        vc.raises('refusal-type', o, TypeError, ValueError, EX.NoSuchChecksum, EX.NoSuchCodec)


@group('C23')
def meta_header_refuses_wrong_types(vc):
    names = ['meta_level', 'meta_size', 'max_meta_size', 'meta_comp_size', 'magic_format', 'user_codec']
    i = vc.ctx.choose(len(names))
    bads = [None, 'x', 1.5, SOther('other', (int, bool, str, bytes))] + ([b'x'] if i < 4 else [7])
    j = vc.ctx.choose(len(bads))
    o = vc.call(H.MetadataHeader, **{names[i]: bads[j]})
    vc.raises('refused-' + names[i], o, TypeError, ValueError)


@group('C06')
def meta_header_decode_any_buffer(vc):
    b = vc.bytes('buffer')
    L, t = rlen(b.r), b.r[0].t
    rd = lambda p, w: f_rd(t, z3.IntVal(p), z3.IntVal(w))
    o = vc.call(H.MetadataHeader.decode, b)
    bad = z3.Or(zi(L) != 32, rd(9, 1) > 8, rd(10, 1) > 1, rd(11, 1) > 9)
    if not o.ok:
        # reserved option bits of the metadata header are not used; refusing them is allowed
        vc.prove('refused-is-no-legal-encoding', z3.Or(bad, rd(8, 1) != 0))
        return
    vc.prove('accepted-has-known-codes', z3.Not(bad))
    h = o.val
    vc.prove_eq('checksum', field(vc, h, 'meta_checksum'), SEnum(rd(9, 1), CHECKSUM_NAMES))
    vc.prove_eq('codec', field(vc, h, 'meta_codec'), SEnum(rd(10, 1), CODEC_NAMES))
    vc.prove_eq('level', field(vc, h, 'meta_level'), rd(11, 1))
    vc.prove_eq('size', field(vc, h, 'meta_size'), rd(12, 4))
    vc.prove_eq('max-size', field(vc, h, 'max_meta_size'), rd(16, 4))
    vc.prove_eq('comp-size', field(vc, h, 'meta_comp_size'), rd(20, 4))


@group('C26')
def blosc_header_decode(vc):
    b = vc.bytes('chunk')
    L, t = rlen(b.r), b.r[0].t
    vc.ctx.assume(zi(L) >= 16)
    rd = lambda p, w: f_rd(t, z3.IntVal(p), z3.IntVal(w))
    o = vc.call(H.decode_blosc_header, b)
    vc.returns('decodes', o)
    if not o.ok:
        return
    want = [('version', 0, 1), ('versionlz', 1, 1), ('flags', 2, 1), ('typesize', 3, 1), ('nbytes', 4, 4),
            ('blocksize', 8, 4), ('ctbytes', 12, 4)]
    vc.prove('documented-order', list(models.dv(o.val)) == [w[0] for w in want])
    for k, p, w in want:
        vc.prove_eq(k, vc.itp.subscript(o.val, k), rd(p, w))


@group('C26')
def blosc_flags_decode(vc):
    x = vc.int('flags', 0, 255)
    o = vc.call(H.decode_blosc_flags, x)
    code = (x / 32) % 8
    if not o.ok:
        vc.prove('only-unknown-codecs-are-refused', code > 4)
        return
    g = lambda k: vc.itp.subscript(o.val, k)
    for k, sh in (('byte_shuffle', 0), ('pure_memcpy', 1), ('bit_shuffle', 2), ('split_blocks', 4)):
        vc.prove_eq(k, g(k), (x / (2 ** sh)) % 2 == 1)
    vc.prove_eq('codec', g('codec'), SEnum(code, ['blosclz', 'lz4', 'snappy', 'zlib', 'zstd']))
    vc.prove('codec-known', code <= 4)


# ---------------------------------------------------------------- chunking and reservation
@group('C07')
def chunking(vc):
    n, c = vc.int('in_file_size'), vc.int('chunk_size')
    o = vc.call(A.calculate_nchunks, n, c)
    legal = z3.And(n >= 0, z3.Or(n == 0, z3.And(c >= 1, c <= MAXBUF, n <= c * MAXC)))
    if not o.ok:
        vc.prove('refused-is-illegal', z3.Not(legal))
        return
    k, cs, l = [zi(x) for x in o.val]
    vc.prove('accepted-size', n >= 0)
    vc.prove('accepted-chunk-size', z3.Implies(n > 0, z3.And(c >= 1, c <= MAXBUF)))
    vc.prove('chunk-size-is-the-smaller', z3.Implies(n > 0, cs == z3.If(c < n, c, n)))
    vc.prove('covers-the-input', z3.Implies(n > 0, zi(imul(isub(k, 1), cs)) + l == n))
    vc.prove('last-chunk', z3.Implies(n > 0, z3.And(l > 0, l <= cs)))
    vc.prove('count', z3.And(k >= 1, k <= MAXC))
    vc.prove('empty-input', z3.Implies(n == 0, z3.And(k == 1, cs == 0, l == 0)))


@group('C07')
def chunking_of_other_requests(vc):
    """size strings are converted; anything else is refused for non-empty inputs"""
    n = vc.int('in_file_size', 1)
    opts = [None, 1.5, b'1M', SOther('other', (int, bool, str, bytes))]
    j = vc.ctx.choose(len(opts))
    o = vc.call(A.calculate_nchunks, n, opts[j])
    vc.prove('refused', o.kind == 'exc', repr(o)[:200])


@group('C07', 'C22')
def chunking_of_size_strings(vc):
    n = vc.int('in_file_size', 1)
    i = vc.ctx.choose(7)
    s, v = [('1M', 2 ** 20), ('512B', 512), ('64K', 65536), ('1.5M', 1572864), ('1G', 2 ** 30), ('10Z', None),
            ('0B', 0)][i]
    o = vc.call(A.calculate_nchunks, n, s)
    if not o.ok:
        vc.prove('refused-' + s, zb(bor(v is None, v == 0, v is not None and z3.And(n > v * MAXC) if v else True)))
        return
    vc.prove('accepted-' + s, v is not None and v > 0)
    if v:
        vc.prove('size-' + s, zi(o.val[1]) == z3.If(n < v, n, v))


@group('C08')
def reservation_integer(vc):
    off, n, m = vc.bool('offsets'), vc.int('nchunks', -1, MAXC), vc.int('max_app_chunks')
    need = z3.And(off, n != -1)
    o = vc.call(A._handle_max_apps, off, n, m)
    if not o.ok:
        vc.prove('refused-only-when-needed-and-illegal', z3.And(need, z3.Or(m < 0, m > MAXC)))
        vc.raises('refusal-type', o, TypeError, ValueError)
        return
    vc.prove('accepted-is-legal', z3.Implies(need, z3.And(m >= 0, m <= MAXC)))
    vc.prove('value', zi(o.val) == z3.If(need, z3.If(n + m > MAXC, MAXC - n, m), 0))


@group('C08')
def reservation_function(vc):
    off, n, r = vc.bool('offsets'), vc.int('nchunks', -1, MAXC), vc.int('function_value')
    need = z3.And(off, n != -1)
    calls = []

    def fn(itp, a):
        calls.append(a)
        vc.prove('function-gets-the-chunk-count', len(a) == 1 and zb(ieq(a[0], n)))
        return [r, None, 'x', 1.5, SOther('other', (int, bool))][kind]
    kind = vc.ctx.choose(5)
    o = vc.call(A._handle_max_apps, off, n, SFunc('max_app_chunks', fn))
    if not o.ok:
        vc.prove('refused-only-when-needed-and-illegal', z3.And(need, r < 0) if kind == 0 else need)
        vc.raises('refusal-type', o, TypeError, ValueError)
        return
    if kind == 0:
        vc.prove('accepted-is-legal', z3.Implies(need, r >= 0))
        vc.prove('value', zi(o.val) == z3.If(need, z3.If(n + r > MAXC, MAXC - n, r), 0))
    else:
        vc.prove('non-integer-is-refused-when-needed', z3.Not(need))
        vc.prove('not-needed-gives-0', zb(ieq(o.val, 0)))


@group('C08')
def reservation_other(vc):
    off, n = vc.bool('offsets'), vc.int('nchunks', -1, MAXC)
    need = z3.And(off, n != -1)
    j = vc.ctx.choose(4)
    o = vc.call(A._handle_max_apps, off, n, [None, 'x', 1.5, SOther('other', (int, bool, type(None)))][j])
    if not o.ok:
        vc.prove('refused-only-when-needed', need)
        vc.raises('refusal-type', o, TypeError, ValueError)
        return
    vc.prove('needed-is-refused', z3.Not(need))
    vc.prove('not-needed-gives-0', zb(ieq(o.val, 0)))


# ---------------------------------------------------------------- argument sets
EXPECT = {'blosc': (A._check_blosc_args, ['typesize', 'clevel', 'shuffle', 'cname']),
          'bloscpack': (A._check_bloscpack_args, ['offsets', 'checksum', 'max_app_chunks']),
          'metadata': (A._check_metadata_arguments, ['magic_format', 'meta_checksum', 'meta_codec', 'meta_level',
                                                     'max_meta_size'])}


@group('C25')
def argument_sets(vc):
    """every subset of the expected keys, with or without an unexpected one (complete: the check
    depends on the set of keys only)"""
    which = sorted(EXPECT)[vc.ctx.choose(3)]
    check, keys = EXPECT[which]
    d = {}
    for k in keys:
        if vc.ctx.choose(2):
            d[k] = SOther(k, ())
    ex = vc.ctx.choose(3)
    if ex:
        d[['', 'extra', 'Typesize'][ex]] = 1
    o = vc.call(check, DictV(vc.ctx, d))
    if set(d) == set(keys):
        vc.returns('complete-set-is-accepted-' + which, o)
    else:
        vc.raises('other-set-is-refused-' + which, o, ValueError)


@group('C25')
def argument_objects(vc):
    j = vc.ctx.choose(3)
    cls, keys, dflt = [
        (A.BloscArgs, EXPECT['blosc'][1], dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')),
        (A.BloscpackArgs, EXPECT['bloscpack'][1], dict(offsets=True, checksum='adler32')),
        (A.MetadataArgs, EXPECT['metadata'][1], dict(magic_format=b'JSON', meta_checksum='adler32', meta_codec='zlib',
                                                     meta_level=6))][j]
    nm = cls.__name__
    o = vc.call(cls)
    vc.returns('built-' + nm, o)
    if not o.ok:
        return
    got = vc.itp.list_vals(vc.itp.to_list(vc.itp.call(vc.itp.getattr(o.val, 'keys'), [])))
    vc.prove('entries-' + nm, sorted(got) == sorted(keys), repr(got))
    for k, v in dflt.items():
        x = vc.itp.subscript(o.val, k)
        vc.prove('default-%s-%s' % (nm, k), x == v and type(x) is type(v), repr(x))
    dk = {A.BloscpackArgs: 'max_app_chunks', A.MetadataArgs: 'max_meta_size'}.get(cls)
    if dk:
        n = vc.int('n', 0)
        r = vc.call(vc.itp.subscript(o.val, dk), n)
        vc.prove('default-%s-%s' % (nm, dk), r.ok and zb(ieq(r.val, imul(10, n))))
    check = [A._check_blosc_args, A._check_bloscpack_args, A._check_metadata_arguments][j]
    vc.returns('passes-its-check-' + nm, vc.call(check, o.val))


@group('C25')
def argument_objects_keep_values(vc):
    j = vc.ctx.choose(3)
    cls, keys = [(A.BloscArgs, EXPECT['blosc'][1]), (A.BloscpackArgs, EXPECT['bloscpack'][1]),
                 (A.MetadataArgs, EXPECT['metadata'][1])][j]
    kw = {k: SObj(z3.Const('v_' + k, OS)) for k in keys}
    if 'checksum' in kw:
        kw['checksum'] = vc.enum('checksum', CHECKSUM_NAMES)
    if 'meta_checksum' in kw:
        kw['meta_checksum'] = vc.enum('meta_checksum', CHECKSUM_NAMES)
    if 'meta_codec' in kw:
        kw['meta_codec'] = vc.enum('meta_codec', CODEC_NAMES)
    o = vc.call(cls, **kw)
    vc.returns('built-' + cls.__name__, o)
    if o.ok:
        for k in keys:
            x = vc.itp.subscript(o.val, k)
            if isinstance(kw[k], SObj):
                vc.prove('keeps-' + k, isinstance(x, SObj) and x.term.eq(kw[k].term), repr(x))
            else:
                vc.prove_eq('keeps-' + k, x, kw[k])


@group('C25')
def argument_objects_assignment(vc):
    """assigning to an entry changes this entry, there are no others, none can be removed"""
    j = vc.ctx.choose(3)
    cls, keys = [(A.BloscArgs, EXPECT['blosc'][1]), (A.BloscpackArgs, EXPECT['bloscpack'][1]),
                 (A.MetadataArgs, EXPECT['metadata'][1])][j]
    o = vc.call(cls)
    if not o.ok:
        return
    a = o.val
    before = [vc.itp.subscript(a, k) for k in keys]
    i = vc.ctx.choose(len(keys) + 1)
    v = SObj(z3.Const('v', OS))
    if i < len(keys):
        vc.returns('assigned-' + keys[i], vc.call(vc.itp.getattr(a, '__setitem__'), keys[i], v))
        for k, w in zip(keys, before):
            x = vc.itp.subscript(a, k)
            if k == keys[i]:
                vc.prove('takes-effect-' + k, isinstance(x, SObj) and x.term.eq(v.term), repr(x))
            else:
                vc.prove('others-keep-their-value', x is w, '%r, %r' % (x, w))
        vc.raises('not-removed-' + keys[i], vc.call(vc.itp.getattr(a, '__delitem__'), keys[i]), Exception)
    else:
        vc.raises('no-other-entry-set', vc.call(vc.itp.getattr(a, '__setitem__'), 'extra', v), KeyError)
        vc.raises('no-other-entry-read', vc.call(vc.itp.getattr(a, '__getitem__'), 'extra'), KeyError)
    got = vc.itp.list_vals(vc.itp.to_list(vc.itp.call(vc.itp.getattr(a, 'keys'), [])))
    vc.prove('entries', sorted(got) == sorted(keys), repr(got))


@group('C25')
def missing_checksum_is_none(vc):
    o = vc.call(A.BloscpackArgs, checksum=None)
    vc.returns('built', o)
    if o.ok:
        vc.prove_eq('value-checksum', vc.itp.subscript(o.val, 'checksum'), 'None')


# ---------------------------------------------------------------- checksums, names
@group('C21', drop=('hash',))
def checksum_algorithms(vc):
    """contract of every Hash object: its digest is the documented algorithm's value"""
    i = vc.ctx.choose(9)
    vc.prove('table-has-nine-entries', len(CS.CHECKSUMS) == 9 and len(CS.CHECKSUMS_LOOKUP) == 9)
    nm = CHECKSUM_NAMES[i]
    h = CS.CHECKSUMS[i]
    vc.prove('code-%d-is-%s' % (i, nm), h.name == nm and CS.CHECKSUMS_AVAIL[i] == nm and CS.CHECKSUMS_LOOKUP[nm] is h)
    vc.prove('declared-length-' + nm, h.size == DIG_SIZES[i])
    x = vc.bytes('data')
    o = vc.call(h, x)
    vc.returns('defined-' + nm, o)
    if not o.ok:
        return
    t = x.r[0].t
    if i == 0:
        want = b''
    elif i < 3:
        want = SBytes(rope(E(4, models.f_alg[nm](t))))
    else:
        want = SBytes(atom_rope(models.f_alg[nm](t)))
    vc.prove_eq('algorithm-' + nm, o.val, want)
    vc.prove('length-' + nm, zb(ieq(models.m_len(vc.itp, [o.val], {}), DIG_SIZES[i])))


@group('C21')
def names_are_checked(vc):
    j = vc.ctx.choose(3)
    f, exc, names = [(CS.check_valid_checksum, EX.NoSuchChecksum, CHECKSUM_NAMES),
                     (MC.check_valid_codec, EX.NoSuchCodec, CODEC_NAMES),
                     (SER.check_valid_serializer, EX.NoSuchSerializer, [b'JSON'])][j]
    k = vc.ctx.choose(len(names) + 3)
    if k < len(names):
        vc.returns('known-name-accepted', vc.call(f, names[k]))
    elif k == len(names) + 2:
        # any other text
        if names[0] == b'JSON':
            t = vc.bytes('name')
            o = vc.call(f, t)
            if o.ok:
                vc.prove_eq('only-known-accepted', t, b'JSON')
            else:
                vc.raises('unknown-name-refused', o, exc)
        else:
            s = SStr(z3.String('name'))
            o = vc.call(f, s)
            if o.ok:
                vc.prove('only-known-accepted', z3.Or(*[s.term == z3.StringVal(x) for x in names]))
            else:
                vc.raises('unknown-name-refused', o, exc)
    else:
        vc.raises('unknown-refused', vc.call(f, [None, 5][k - len(names)]), exc)
    vc.prove('codec-table', [c.name for c in MC.CODECS] == CODEC_NAMES and MC.CODECS_AVAIL == CODEC_NAMES
             and sorted(MC.CODECS_LOOKUP) == sorted(CODEC_NAMES))
    vc.prove('serializer-table', [c.name for c in SER.SERIALIZERS] == [b'JSON'] and list(SER.SERIALIZERS_LOOKUP) == [b'JSON'])


@group('C21', 'C02')
def codecs_are_documented(vc):
    """metadata codec 'None' is the identity, 'zlib' is zlib"""
    x = vc.bytes('data')
    lv = vc.int('level', 0, 9)
    i = vc.ctx.choose(2)
    c = MC.CODECS[i]
    o = vc.call(vc.itp.getattr(c, 'compress'), x, lv)
    vc.returns('compresses-' + c.name, o)
    if o.ok:
        want = x if i == 0 else SBytes(atom_rope(models.f_zc(x.r[0].t, lv)))
        vc.prove_eq('compress-' + c.name, o.val, want)
        d = vc.call(vc.itp.getattr(c, 'decompress'), o.val)
        vc.returns('decompresses-' + c.name, d)
        if d.ok:
            vc.prove_eq('inverse-' + c.name, d.val, x)


@group('C21', 'C02')
def serializer_is_json(vc):
    m = vc.obj('metadata')
    vc.ctx.assume(models.f_jsonable(m.term))
    s = SER.SERIALIZERS[0]
    o = vc.call(vc.itp.getattr(s, 'dumps'), m)
    vc.returns('dumps', o)
    if o.ok:
        d = vc.call(vc.itp.getattr(s, 'loads'), o.val)
        vc.returns('loads', d)
        if d.ok:
            vc.prove('json-form', isinstance(d.val, SObj) and d.val.term == models.f_jform(m.term))
