"""The contracts used at call sites, each proved here (or by the groups of the property it belongs to) from the body of
the function: a property's check runs, besides its own groups, the groups of every contract those used (check.py)."""
from .common import *
from . import p_memory, p_numpy
from .p_numpy import NI


@group(contracts=False)
def contract_of_hash(vc):
    """Hash.__call__: a function of the data, of the documented length"""
    h = CS.CHECKSUMS[vc.ctx.choose(9)]
    x = vc.bytes('data')
    o, p = vc.call(h, x), vc.call(h, x)
    vc.prove('never-fails', o.ok and p.ok, repr(o)[:200])
    if o.ok and p.ok:
        vc.prove('length', zb(ieq(models.m_len(vc.itp, [o.val], {}), DIG_SIZES[CS.CHECKSUMS.index(h)])))
        vc.prove_eq('same-every-time', o.val, p.val)


@group(contracts=False)
def contract_of_sizes(vc):
    """pretty_size, double_pretty_size: a text for every size"""
    x = vc.int('size', 0)
    o = vc.call([PR.pretty_size, PR.double_pretty_size][vc.ctx.choose(2)], x)
    vc.prove('a-text', o.ok and isinstance(o.val, (str, SStr, SChars)), repr(o)[:200])


@group(drop=('bloscpack.abstract_objects.MutableMappingObject.pformat',))
def contract_of_pformat(vc):
    """pformat of headers and arguments: a text"""
    c = Cfg()
    settings(vc, c)
    j = vc.ctx.choose(5)
    if j == 0:
        v = vc.call(A.BloscArgs, c.ts, c.cl, c.sh, c.cn)
    elif j == 1:
        v = vc.call(A.BloscpackArgs, c.offv, c.ckv, vc.int('max_app_chunks'))
    elif j == 2:
        v = vc.call(A.MetadataArgs, vc.bytes('magic', 4), vc.enum('meta_checksum', CHECKSUM_NAMES), vc.enum('meta_codec', CODEC_NAMES),
                    vc.int('level'), vc.int('max_meta_size'))
    elif j == 3:
        v = vc.call(H.BloscpackHeader, vc.int('format_version', 0, 255), c.offv, vc.bool('metadata'), c.ckv, vc.int('ts', 0, 255),
                    vc.int('chunk_size', -1, MAXBUF), vc.int('last_chunk', -1, MAXBUF), vc.int('nchunks', -1, MAXC),
                    vc.int('max_app_chunks', 0, MAXC))
    else:
        n = [vc.int(x, 0, U32) for x in ('meta_size', 'max_meta_size', 'meta_comp_size')]
        v = vc.call(H.MetadataHeader, vc.text('magic') if vc.ctx.choose(2) else b'JSON', '\0' * 8, vc.enum('meta_checksum', CHECKSUM_NAMES),
                    vc.enum('meta_codec', CODEC_NAMES), vc.int('level', 0, 9), n[0], n[1], n[2], '\0' * 8)
    if not v.ok:
        return
    o = vc.call(vc.itp.getattr(v.val, 'pformat'))
    vc.prove('a-text', o.ok and isinstance(o.val, (str, SStr, SChars)), repr(o)[:200])


@group(contracts=False, budget=60)
def contract_of_conv(vc):
    """_conv: a value or an IndexError, for a list of any length of anything and for anything that is not a list (the calls for
    the elements use the contract: induction over the depth)"""
    ctx, itp = vc.ctx, vc.itp
    calls = []

    def inner(itp, b):
        calls.append(1)
        return NotImplemented if len(calls) == 1 else p_numpy.c_conv(itp, b)
    itp.contracts['bloscpack.numpy_io._conv'] = inner
    if ctx.choose(2):
        n = vc.int('length', 0)
        f_el = F('conv_element', INT, OS)
        v = p_memory.blist(vc, n, lambda i: SObj(f_el(zi(i))), 'nested')
    else:
        v = vc.obj('descr')
        ctx.assume(z3.Not(itp.models_isinstance_obj(v, list)))
    o = vc.call(NI._conv, v)
    vc.prove('a-value-or-an-error', o.ok or o.raised(IndexError, TypeError), repr(o)[:200])


META_USED = ('ends-behind-the-section', 'nothing-before-changes', 'reported-length', 'section-data-padding-digest', 'section-length',
             'section-sizes', 'loop-summary-is-inductive', 'accepted-only-if-it-fits')
# function -> [(group that proves its contract, the obligations that matter to callers (None: all))]
LOGGED = [('log_function', ('returns-nothing', 'changes-nothing'))]
SIZES = [('contract_of_sizes', None)]
PROVED_BY.update({
    'bloscpack.args.calculate_nchunks': [('chunking', None)],
    'bloscpack.args._handle_max_apps': [('reservation_integer', None)],
    'bloscpack.checksums.Hash.__call__': [('contract_of_hash', None)],
    'bloscpack.log.verbose': LOGGED, 'bloscpack.log.debug': LOGGED, 'bloscpack.log.normal': LOGGED,
    'bloscpack.pretty.pretty_size': SIZES, 'bloscpack.pretty.double_pretty_size': SIZES,
    'bloscpack.abstract_objects.MutableMappingObject.pformat': [('contract_of_pformat', None)],
    'bloscpack.file_io._write_metadata': [('meta_write_integer', META_USED), ('meta_write_function', META_USED)],
    'bloscpack.numpy_io._conv': [('contract_of_conv', None)],
    'bloscpack.file_io._read_metadata': [('meta_read_own', None)],
})
