"""contracts that the engine uses at call sites (each verified against its body by a group)"""
from .core import *
from .values import *
from . import models
import bloscpack
from bloscpack import checksums as _cs, metacodecs as _mc


def hash_index(h):
    for i, x in enumerate(_cs.CHECKSUMS):
        if x is h:
            return i
    return None


def enum_call(itp, fv, args, kwargs):
    """checksum of unknown kind applied to data: contract of Hash.__call__"""
    idx = [hash_index(v) if isinstance(v, _cs.Hash) else None for v in fv.vals]
    if all(i is not None for i in idx) and len(args) == 1:
        i = itp.merge_enum(fv.idx, idx)
        return digest(itp, i, args[0])
    return NotImplemented


def inst_call(itp, obj, args, kwargs):
    if isinstance(obj, _cs.Hash) and len(args) == 1:
        i = hash_index(obj)
        if i is not None:
            return digest(itp, i, args[0])
    return NotImplemented


def digest(itp, i, data):
    if not sym(i) and i == 0:
        return b''
    r = models.want_bytes(itp, data)
    t = models.f_dig(zi(i), term_of(itp.ctx, r))
    itp.called.add('bloscpack.checksums.Hash.__call__')
    return mk_bytes(rope(Sl(t, 0, models.dig_size(i))))


LOG_FUNCS = ('bloscpack.log.verbose', 'bloscpack.log.debug', 'bloscpack.log.normal')


def c_log(itp, bound):
    """log.verbose/debug/normal: no effect but printing; needs a str message and a valid level"""
    m = bound.get('message')
    lv = bound.get('level')
    if lv is not None and lv not in ('NORMAL', 'VERBOSE', 'DEBUG'):
        return NotImplemented
    if not isinstance(m, (str, SStr, SChars, SEnum)):
        return NotImplemented
    return None


def c_pretty(itp, bound):
    """pretty_size / double_pretty_size: text for every int >= 0"""
    v = list(bound.values())[0]
    if not is_int(v):
        return NotImplemented
    return SStr(None)


def c_pformat(itp, bound):
    return SStr(None)


def any_level(itp):
    """the verbosity is one of the three levels, not known which"""
    i = z3.Int('log.LEVEL')
    itp.ctx.assume(z3.And(i >= 0, i <= 2))
    itp.globals_over.slots[('bloscpack.log', 'LEVEL')] = SEnum(i, ('NORMAL', 'VERBOSE', 'DEBUG'))


def use_base_contracts(itp, drop=()):
    any_level(itp)
    c = {}
    for n in LOG_FUNCS:
        c[n] = c_log
    c['bloscpack.pretty.double_pretty_size'] = c_pretty
    c['bloscpack.pretty.pretty_size'] = c_pretty
    c['bloscpack.abstract_objects.MutableMappingObject.pformat'] = c_pformat
    for n in drop:
        c.pop(n, None)
    itp.contracts.update(c)
    if 'hash' not in drop:
        itp.hooks['enum_call'] = enum_call
        itp.hooks['inst_call'] = inst_call
