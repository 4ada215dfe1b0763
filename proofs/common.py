"""shared parts of the proof groups: registry, legal values, independent specifications"""
import sys, os
from pyvc.harness import *
from pyvc.core import *
from pyvc.values import *
from pyvc import specs, models
from pyvc.models import f_comp, f_dec, f_ok, f_dig, dig_size, DIG_SIZES, DIG_NAMES
import bloscpack
from bloscpack import args as A, headers as H, file_io as FI, abstract_io as AI, memory_io as MI, append as AP, \
    checksums as CS, metacodecs as MC, serializers as SER, constants as K, defaults as DEF, exceptions as EX, \
    log as LOG, pretty as PR
import blosc

GROUPS = {}        # name -> (fn, [properties], budget)
PROVED_BY = {}     # function used through its contract -> groups proving the contract (p_contracts)

MAXC = 2 ** 63 - 1
MAXBUF = 2147483631
U32 = 2 ** 32 - 1
CHECKSUM_NAMES = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
CODEC_NAMES = ['None', 'zlib']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']


def group(*props, budget=120, contracts=True, drop=(), name=None, rlimit=3000):
    def deco(fn):
        def run(vc):
            if contracts:
                specs.use_base_contracts(vc.itp, drop)
            return fn(vc)
        GROUPS[name or fn.__name__] = (run, list(props), budget, rlimit)
        return fn
    return deco


# every group runs with an unknown verbosity level (specs.any_level): these cover each operation once
ANY_LEVEL = ['pack_bytes_to_bytes_layout_with_metadata', 'pack_file_to_file_layout_with_metadata',
             'pack_bytes_to_file_layout', 'unpack_file_from_file_lossless_with_metadata',
             'unpack_bytes_from_bytes_lossless_with_metadata', 'unpack_bytes_from_file_integrity',
             'unpack_bytes_from_bytes_integrity', 'append_default_with_metadata', 'append_fp_default',
             'append_unusable_settings_with_metadata', 'append_last_chunk_integrity_with_metadata',
             'append_without_offsets', 'append_missing_file', 'rewrite_metadata_default', 'meta_read_any', 'meta_read_own',
             'meta_write_integer', 'meta_write_function', 'seek_to_metadata', 'header_read_any',
             'pack_file_to_memory_with_metadata', 'pack_memory_to_file', 'unpack_file_to_memory_list',
             'unpack_memory_of_list_to_list', 'memory_source_integrity', 'reject_in_append', 'reject_in_readers',
             'reject_in_unpack_file_from_file', 'reject_in_unpack_bytes_from_bytes']


def groups_of(prop):
    return [n for n, g in GROUPS.items() if prop in g[1] or prop == 'C24' and n in ANY_LEVEL]


def E(w, e, signed=False):
    return Enc(w, e, signed)


def bit(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0)) if sym(b) else int(b)


def spec_header(offs, meta, ck, ts, cs, last, n, mac, version=3):
    """the documented 32-byte container header"""
    return rope(Lit(b'blpk'), E(1, version), E(1, iadd(bit(offs), imul(2, bit(meta)))), E(1, ck), E(1, ts),
                E(4, cs, True), E(4, last, True), E(8, n, True), E(8, mac, True))


def field(vc, o, name):
    return vc.itp.getattr(o, name)


# ---------------------------------------------------------------- containers, independent of the code
class Cfg:
    pass


def family(ctx, fn, name='spec'):
    """closed family of ropes i -> fn(i)"""
    d = BigDef(ctx, 'bytes', name)
    i = z3.Const('f!%d' % ctx.next_gi(), INT)
    ctx.idx_stack.append(i)
    try:
        d.close(ctx, i, fn(i))
    finally:
        ctx.idx_stack.pop()
    return d


def comp_rope(vc, x, c):
    """Blosc buffer of the bytes x under the settings of c"""
    t = f_comp(term_of(vc.ctx, x), zi(c.ts), zi(c.cl), bit(c.sh) if not is_plain_int(c.sh) else zi(int(c.sh)),
               zi(c.cn.idx if isinstance(c.cn, SEnum) else CNAMES.index(c.cn)))
    return atom_rope(t)


def is_plain_int(v):
    return isinstance(v, (int, bool))


def dig_rope(vc, ck, x):
    """digest number ck of the bytes x"""
    if not sym(ck) and ck == 0:
        return ()
    return rope(Sl(f_dig(zi(ck), term_of(vc.ctx, x)), 0, dig_size(ck)))


def chunk_rope(vc, x, c):
    b = comp_rope(vc, x, c)
    return rcat(b, dig_rope(vc, c.ck, b))


def spec_chunking(vc, N, req):
    """(chunk size, chunk count, last chunk) the documentation asks for; forks on the cases"""
    ctx = vc.ctx
    if ctx.branch(zb(ieq(N, 0))):
        return 0, 1, 0
    if ctx.branch(zb(icmp('<=', N, req))):
        return N, 1, N
    for (a, b, k, last) in vc.ctx.__dict__.get('chunkings', []):
        # (chunks, last) are determined by size and request: the values the contract gave are the documented ones
        if same(a, N) and same(b, req) and ctx.valid(k >= 2):
            return req, k, last
    n = ctx.fresh_int('n')
    last = ctx.fresh_int('last')
    ctx.assume(z3.And(n >= 2, last >= 1, last <= zi(req), zi(imul(isub(n, 1), req)) + last == zi(N)))
    return req, n, last


def spec_sections(vc, c):
    """the head (header, metadata, offsets) and the tail (chunks and digests) of the documented container;
    c: X rope of the data, n, cs, last, settings ts cl sh cn, ck (code), off, mac (effective), meta (rope or None)"""
    ctx = vc.ctx
    d = family(ctx, lambda i: chunk_rope(vc, rslice_sym(c.X, imul(c.cs, i), iadd(imul(c.cs, i), c.cs)), c), 'spec')
    lastx = rslice_sym(c.X, imul(c.cs, isub(c.n, 1)), rlen(c.X))
    c.fam = d
    c.tail = rcat(rope(Big(d, 0, isub(c.n, 1))), chunk_rope(vc, lastx, c))
    c.headlen = iadd(32, rlen(c.meta) if c.meta is not None else 0)
    c.tot = iadd(c.n, c.mac) if c.off is not False else 0
    return c


def rslice_sym(r, a, b):
    """slice of a one-atom rope"""
    if not r or same(a, b):
        return ()
    assert len(r) == 1 and type(r[0]) is Sl, r
    return rope(Sl(r[0].t, iadd(r[0].lo, a), iadd(r[0].lo, b)))


def spec_head(vc, c, version=3):
    """header, metadata section, offsets; c.off must be decided on the path (True/False)"""
    ctx = vc.ctx
    h = spec_header(c.off, c.meta is not None, c.ck, c.ts, c.cs, c.last, c.n, c.mac, version)
    if c.meta is not None:
        h = rcat(h, c.meta)
    if c.off:
        base = iadd(rlen(h), imul(8, iadd(c.n, c.mac)))
        d = c.fam
        o = family(ctx, lambda i: rope(E(8, iadd(base, d.PL(i)), True)), 'offs')
        h = rcat(h, rope(Big(o, 0, c.n)), rope(Rep((Lit(b'\xff'),), 1, imul(8, c.mac))))
    return h


def check_container(vc, name, got, c):
    """obligations: the byte string `got` is the documented container for c"""
    ctx = vc.ctx
    head = spec_head(vc, c)
    r = to_rope(got)
    if not vc.prove(name + '-not-shorter', zb(icmp('<=', rlen(head), rlen(r)))):
        return False
    try:
        h, t = rsplit(ctx, r, rlen(head))
    except Unsupported as e:
        return vc.prove(name + '-sections', False, 'cannot find the end of the head: %s' % e)
    ok = prove_eq(ctx, name + '-chunks', t, c.tail)
    return prove_eq(ctx, name + '-head', h, head) and ok


def settings(vc, c, ck=True):
    """symbolic legal settings"""
    c.ts, c.cl, c.sh, c.cn = vc.int('typesize', 1, 255), vc.int('clevel', 0, 9), vc.bool('shuffle'), vc.enum('cname', CNAMES)
    c.ckv = vc.enum('checksum', CHECKSUM_NAMES)
    c.ck = c.ckv.idx
    c.offv = vc.bool('offsets')
    return c


def lib_args(vc, c, mac):
    b = vc.call(A.BloscArgs, c.ts, c.cl, c.sh, c.cn).val
    p = vc.call(A.BloscpackArgs, c.offv, c.ckv, mac).val
    return b, p
