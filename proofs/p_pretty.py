"""C22: size strings"""
from .common import *

LIMS = [('B', 1), ('K', 2 ** 10), ('M', 2 ** 20), ('G', 2 ** 30), ('T', 2 ** 40)]


def ftrunc_mul(vc, prefix, k):
    """trunc(float(prefix) * k), the documented meaning of a size string"""
    v = SFloat(('mul', SFloat(('parse', term_of(vc.ctx, prefix.r))), SFloat(('int', k))))
    return F('f_trunc', FS, INT)(fterm(v))


@group('C22', contracts=False)
def size_string(vc):
    """prefix + last character, for every text and every last character"""
    pre = vc.text('prefix')
    last = vc.int('last_char', 0, 255)
    s = SText(rcat(pre.r, rope(Enc(1, last, False))))
    o = vc.call(PR.reverse_pretty, s)
    for suf, k in LIMS:
        if vc.ctx.branch(last == ord(suf)):
            isnum = F('f_isnum', BS, BOOL)(term_of(vc.ctx, pre.r))
            if o.ok:
                vc.prove('number-%s' % suf, isnum)
                vc.prove('value-%s' % suf, zi(o.val) == ftrunc_mul(vc, pre, k) if is_int(o.val) else False, repr(o.val)[:300])
            else:
                vc.prove('refused-only-when-no-number-%s' % suf, z3.Not(isnum))
                vc.raises('refusal-type-%s' % suf, o, ValueError)
            return
    vc.prove('other-suffix-refused', not o.ok, repr(o)[:200])
    vc.raises('other-suffix-refusal-type', o, ValueError)


@group('C22', contracts=False)
def size_text(vc):
    """pretty_size for every size"""
    x = vc.int('size', 0)
    o = vc.call(PR.pretty_size, x)
    if not vc.prove('never-fails', o.ok, repr(o)[:300]):
        return
    v = o.val
    if vc.ctx.branch(x == 0):
        vc.prove('zero', v == '0B', repr(v)[:100])
        return
    for i in reversed(range(5)):
        suf, lim = LIMS[i]
        if vc.ctx.branch(x >= lim):
            r = text_rope(v) if not isinstance(v, (SChars,)) else None
            if not vc.prove('a-text-%s' % suf, r is not None and len(r) >= 1, repr(v)[:200]):
                return
            vc.prove('suffix-%s' % suf, type(r[-1]) is Lit and r[-1].b == suf.encode(), repr(v)[:200])
            q = SFloat(('round', SFloat(('idiv', x, lim)), 2))
            want = rope(Sl(F('s_float', FS, BS)(fterm(q)), 0, blen(F('s_float', FS, BS)(fterm(q)))), Lit(suf.encode()))
            prove_eq(vc.ctx, 'quotient-%s' % suf, r, want)
            return
    vc.prove('unreachable', False)


@group('C22', contracts=False)
def size_text_double(vc):
    x = vc.int('size', 0)
    o = vc.call(PR.double_pretty_size, x)
    vc.prove('never-fails', o.ok, repr(o)[:300])
    if not o.ok:
        return
    if vc.ctx.branch(x == 0):
        c = models.eq(vc.itp, o.val, '0B (0B)')
        vc.prove('text-of-zero', zb(c) if sym(c) else bool(c), repr(o.val)[:200])
        return
    p = vc.call(PR.pretty_size, x)
    if p.ok:
        r, q = text_rope(o.val), text_rope(p.val)
        if vc.prove('a-text', r is not None and q is not None, repr(o.val)[:200]):
            prove_eq(vc.ctx, 'text-and-bytes', r, rcat(q, rope(Lit(b' (')), vc.itp.text_atom(F('s_int', INT, BS)(x)).r,
                                                       rope(Lit(b'B)'))))


@group('C22', contracts=False)
def eol(vc):
    o = vc.call(PR.join_with_eol, vc.itp.newlist(['a', 'b', 'c']))
    vc.prove('joined', o.ok and o.val == 'a, b, c\n', repr(o))
