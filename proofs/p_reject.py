"""input that does not start with a version-3 container header"""
from .p_headers import legal_header
from .p_memory import *


def well_formed(vc, Z):
    """the first 32 bytes of Z are the encoding of a legal header of format version 3"""
    L, t = rlen(Z), Z[0].t
    rd = lambda p, w: f_rd(t, z3.IntVal(p), z3.IntVal(w))
    sg = lambda v, w: z3.If(v >= 2 ** (8 * w - 1), v - 2 ** (8 * w), v)
    return z3.And(zi(L) >= 32, rd(0, 4) == int.from_bytes(b'blpk', 'little'), rd(4, 1) == 3, rd(5, 1) <= 3, rd(6, 1) <= 8,
                  legal_header(rd(4, 1), z3.BoolVal(True), rd(7, 1), sg(rd(8, 4), 4), sg(rd(12, 4), 4), sg(rd(16, 8), 8),
                               sg(rd(24, 8), 8)))


def no_container(vc):
    Zv = vc.bytes('Z')
    vc.ctx.assume(zi(rlen(Zv.r)) < 2 ** 62)
    vc.ctx.assume(z3.Not(well_formed(vc, Zv.r)))
    vc.itp.hooks['decompress'] = lambda itp, r: vc.prove('nothing-is-decompressed', False)
    return Zv


def _reject(which):
    def g(vc):
        Zv = no_container(vc)
        o, plain, meta = run_unpack(vc, which, Zv)
        vc.raises('refused', o, Exception)
        out = vc.itp.fs.slots.get('out')
        if out is not None:
            vc.prove_eq('no-output', vc.content(out), b'')
        if which != 'bytes_from_bytes':
            vc.prove_eq('input-untouched', vc.content('in'), Zv)
    group('C18', name='reject_in_unpack_%s' % which)(g)


for _w in UNPACKERS:
    _reject(_w)


@group('C18')
def reject_in_append(vc):
    Zv = no_container(vc)
    Y = vc.bytes('Y')
    vc.ctx.assume(zi(rlen(Y.r)) < 2 ** 62)
    if vc.ctx.choose(2):
        vc.put_file('in', Zv)
        vc.put_file('new', Y)
        o = vc.call(AP.append, 'in', 'new')
        vc.prove_eq('new-file-untouched', vc.content('new'), Y)
        ino = vc.itp.fs.slots['in']
    else:
        fp = vc.file('in', Zv)
        o = vc.call(AP.append_fp, fp, vc.file('new', Y), rlen(Y.r))
        ino = fp.inode
    vc.raises('refused', o, Exception)
    vc.prove_eq('input-untouched', vc.content(ino), Zv)


@group('C18')
def reject_in_seek_to_metadata(vc):
    Zv = no_container(vc)
    fp = vc.file('in', Zv)
    vc.raises('refused', vc.call(AP._seek_to_metadata, fp), Exception)
    vc.prove_eq('input-untouched', vc.content(fp), Zv)


@group('C18')
def reject_in_readers(vc):
    """the functions every reader is built from"""
    Zv = no_container(vc)
    fp = vc.file('in', Zv)
    o = vc.call([FI._read_beginning, FI._read_bloscpack_header, FI.CompressedFPSource][vc.ctx.choose(3)], fp)
    vc.raises('refused', o, Exception)
    vc.prove_eq('input-untouched', vc.content(fp), Zv)


@group('C18', budget=200)
def header_read_any(vc):
    """what is accepted is exactly the encoding of a legal version-3 header"""
    Zv = vc.bytes('Z')
    fp = vc.file('in', Zv)
    o = vc.call(FI._read_bloscpack_header, fp)
    if o.ok:
        vc.prove('accepted-is-a-container-header', well_formed(vc, Zv.r))
        vc.prove('position', zb(ieq(fp.slots['pos'], 32)))
        e = vc.call(field(vc, o.val, 'encode'))
        vc.returns('encodable', e)
        if e.ok:
            vc.prove_eq('encodes-back', e.val, SBytes(rslice_sym(Zv.r, 0, 32)))
    else:
        vc.prove('refused-is-no-container-header', z3.Not(well_formed(vc, Zv.r)))
