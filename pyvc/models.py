"""pyvc models: meaning of the builtins and library functions the code under verification
calls.  These are the assumptions of the verification (listed in the evidence)."""
import builtins, types, struct, io, os, sys, json, zlib, hashlib, itertools, collections, pprint, copy, math, contextlib
import functools, operator, ast, re
from .core import *
from .values import *
from .interp import _NC, is_conc

EXTERN = {}        # id(obj) -> label, for evidence


def fnref(t):
    return t


# ------------------------------------------------------------------ uninterpreted functions
f_comp = F('comp', BS, INT, INT, INT, INT, BS)      # blosc.compress(x, typesize, clevel, shuffle, cname)
f_dec = F('dec', BS, BS)                            # blosc.decompress
f_ok = F('blosc_ok', BS, BOOL)
f_dig = F('dig', INT, BS, BS)                       # checksum number i of the data
f_alg = {}
f_zc = F('zlibc', BS, INT, BS)
f_zd = F('zlibd', BS, BS)
f_zok = F('zlib_ok', BS, BOOL)
f_loads = F('json_loads', SS, OS)
f_jok = F('json_ok', SS, BOOL)
f_jform = F('json_form', OS, OS)
f_jsonable = F('jsonable', OS, BOOL)
f_u8e = F('utf8e', SS, BS)
f_u8d = F('utf8d', BS, SS)
f_u8ok = F('utf8_ok', BS, BOOL)

DIG_SIZES = (0, 4, 4, 16, 20, 28, 32, 48, 64)
DIG_NAMES = ('None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')


def dig_size(i):
    if not sym(i):
        return DIG_SIZES[i]
    r = DIG_SIZES[-1]
    for j in range(7, -1, -1):
        r = iite(zb(ieq(i, j)), DIG_SIZES[j], r)
    return r


def install_axioms(ctx):
    ctx.axioms['cat'] = lambda t: [z3.Implies(blen(t.arg(0)) == 0, t == t.arg(1)), z3.Implies(blen(t.arg(1)) == 0, t == t.arg(0))]
    ctx.axioms['sl'] = lambda t: [] if t.arg(0).decl().name().startswith('bigc#') else [
        z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) <= t.arg(2), t.arg(2) <= blen(t.arg(0))),
                   blen(t) == zi(isub(norm(t.arg(2)), norm(t.arg(1))))),
        z3.Implies(z3.And(t.arg(1) == 0, t.arg(2) == blen(t.arg(0))), t == t.arg(0))]
    ctx.axioms['dig'] = lambda t: [blen(t) == zi(dig_size(norm(t.arg(0))))]

    def comp(t):
        x = t.arg(0)
        return [blen(t) >= 16, blen(t) < 2 ** 31 + 2 ** 16, f_rd(t, z3.IntVal(12), z3.IntVal(4)) == blen(t),
                f_rd(t, z3.IntVal(4), z3.IntVal(4)) == blen(x), f_ok(t), f_dec(t) == x]
    ctx.axioms['comp'] = comp
    ctx.axioms['dec'] = lambda t: [z3.Implies(f_ok(t.arg(0)), blen(t) == f_rd(t.arg(0), z3.IntVal(4), z3.IntVal(4)))]
    ctx.axioms['zlibc'] = lambda t: [f_zok(t), f_zd(t) == t.arg(0), blen(t) >= 8]
    strlen = F('strlen', SS, INT)

    def dumps_ax(t):
        return [z3.Implies(f_jsonable(t.arg(0)), z3.And(f_jok(t), f_loads(t) == f_jform(t.arg(0)))), strlen(t) >= 1]
    ctx.axioms['json_dumps!'] = dumps_ax
    ctx.axioms['json_dumps_u!'] = dumps_ax

    def utf8(t):
        x = t.arg(0)
        out = [f_u8ok(t), f_u8d(t) == x, strlen(x) >= 0]
        # by default json.dumps gives ASCII
        out.append(blen(t) == strlen(x) if x.decl().name().startswith('json_dumps!') else blen(t) >= strlen(x))
        return out
    ctx.axioms['utf8e'] = utf8
    for n in DIG_NAMES[3:]:
        f_alg[n] = F('alg_' + n, BS, BS)
        ctx.axioms['alg_' + n] = (lambda sz: lambda t: [blen(t) == sz])(DIG_SIZES[DIG_NAMES.index(n)])
    for n in ('adler32', 'crc32'):
        f_alg[n] = F('alg_' + n, BS, INT)
        ctx.axioms['alg_' + n] = lambda t: [t >= 0, t < 2 ** 32]
    for w in (1, 2, 4, 8):
        ctx.axioms['enc%d' % w] = (lambda w: lambda t: [blen(t) == w])(w)


def atom(ctx, t):
    """rope of a bytes-valued application, remembering dec(comp(x)) = x"""
    return atom_rope(t)


# ------------------------------------------------------------------ helpers
def conc_or(itp, f):
    """wrap a pure function: run it when all arguments are concrete"""
    def g(itp, a, k):
        ca = [itp.concretize(x) for x in a]
        ck = {n: itp.concretize(x) for n, x in k.items()}
        if any(x is _NC for x in ca) or any(x is _NC for x in ck.values()):
            raise Unsupported('%s on symbolic arguments' % getattr(f, '__name__', f))
        try:
            return itp.lift(f(*ca, **ck))
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    return g


def want_int(itp, v, what='an integer is required'):
    v = itp.pick(v) if isinstance(v, SEnum) else v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if sym(v) and is_int(v):
        return zi(v)
    if isinstance(v, Poison):
        raise PoisonRead(v.slot)
    if isinstance(v, Obj):
        f = itp.class_attr(v.cls, '__index__')
        if f is not None:
            return want_int(itp, itp.call(itp.bind(f, v), []))
    itp.exc(TypeError, what)


def want_bytes(itp, v):
    if isinstance(v, SEnum):
        v = itp.pick(v)
    if isinstance(v, memoryview):
        v = bytes(v)
    if is_bytes(v):
        return to_rope(v)
    if isinstance(v, Poison):
        raise PoisonRead(v.slot)
    from . import npmodel
    r = npmodel.buffer_rope(itp, v)
    if r is not None:
        return r
    if isinstance(v, (SObj, SOther)):
        raise Unsupported('bytes wanted, got an opaque value')
    itp.exc(TypeError, 'a bytes-like object is required')


# ------------------------------------------------------------------ builtins
def m_len(itp, a, k):
    v = a[0]
    if isinstance(v, Poison):
        raise PoisonRead(v.slot)
    if isinstance(v, (SBytes, ByteArr)):
        return rlen(to_rope(v))
    if isinstance(v, ListV):
        return itp.list_len(v)
    if isinstance(v, DictV):
        return len(v.d)
    if isinstance(v, SetV):
        return len(v.slots['s'])
    if isinstance(v, (SStr, SChars)):
        return itp.str_len(v)
    if isinstance(v, RangeV):
        return itp.range_len(v)
    if isinstance(v, SEnum):
        return itp.merge_enum(v.idx, [m_len(itp, [x], {}) for x in v.vals])
    if isinstance(v, Obj):
        f = itp.class_attr(v.cls, '__len__')
        if f is None:
            itp.exc(TypeError, 'object has no len()')
        return itp.call(itp.bind(f, v), [])
    if isinstance(v, (tuple, list, dict, str, bytes, set, range)):
        return len(v)
    if is_int(v) or v is None or isinstance(v, float):
        itp.exc(TypeError, 'object has no len()')
    m = itp.methods.get((type(v).__name__, '__len__'))
    if m is not None:
        return m(itp, v, [], {})
    raise Unsupported('len of %r' % (v,))


def m_int(itp, a, k):
    if not a:
        return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if base is not None:
        c = itp.concretize(v)
        if c is not _NC and not sym(base):
            return conc_or(itp, int)(itp, [c, base], {})
        if isinstance(v, SChars) and base == 2:
            out = 0
            for x in v.c:
                if not itp.ctx.branch(zb(bor(ieq(x, 48), ieq(x, 49)))):
                    itp.exc(ValueError, 'invalid literal for int()')
                out = iadd(imul(out, 2), isub(x, 48))
            return out
        if isinstance(v, SBin) and base == 2 and v.pref == 0:
            if itp.ctx.branch(zb(icmp('>=', v.x, 0))):
                return v.x
        raise Unsupported('int() with base on symbolic text')
    if isinstance(v, Poison):
        raise PoisonRead(v.slot)
    if isinstance(v, bool):
        return int(v)
    if sym(v):
        return norm(zi(v))
    if isinstance(v, SChars):
        out = 0
        if not v.c:
            itp.exc(ValueError, 'invalid literal for int()')
        for x in v.c:
            if not itp.ctx.branch(zb(band(icmp('>=', x, 48), icmp('<=', x, 57)))):
                if len(v.c) == 1:
                    itp.exc(ValueError, 'invalid literal for int()')
                raise Unsupported('int() of symbolic text')
            out = iadd(imul(out, 10), isub(x, 48))
        return out
    if isinstance(v, SEnum):
        vals = []
        for x in v.vals:
            try:
                vals.append(int(x))
            except Exception:
                return m_int(itp, [itp.pick(v)] + a[1:], k)
        return itp.merge_enum(v.idx, vals)
    if isinstance(v, SFloat):
        if v.e[0] == 'int':
            return v.e[1]
        return f_trunc(itp, v)
    c = itp.concretize(v)
    if c is not _NC and not isinstance(c, (Obj,)):
        try:
            return int(c)
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    if isinstance(v, SText):
        t = term_of(itp.ctx, v.r)
        if not itp.ctx.branch(F('t_isint', BS, BOOL)(t)):
            itp.exc(ValueError, 'invalid literal for int()')
        return F('t_int', BS, INT)(t)
    if isinstance(v, SStr):
        raise Unsupported('int() of arbitrary text')
    if isinstance(v, (ListV, DictV)):
        itp.exc(TypeError, 'int() argument')
    raise Unsupported('int() of %r' % (v,))


def f_trunc(itp, v):
    if v.e[0] == 'idiv':
        a, b = v.e[1], v.e[2]
        if itp.ctx.valid(zb(band(icmp('>=', a, 0), icmp('<', a, 2 ** 53), icmp('>=', b, 1)))):
            # a // b: the correctly rounded quotient of integers below 2**53 does not reach the next integer (the
            # distance to it is at least 1/b, more than half an ulp of a/b)
            return floordiv(itp, a, b)[0]
    return F('f_trunc', FS, INT)(fterm(v))


def m_str(itp, a, k):
    if not a:
        return ''
    if len(a) > 1 or k:
        return m_decode(itp, a[0], a[1:], k)
    return itp.to_str(a[0])


def m_repr(itp, a, k):
    c = itp.concretize(a[0])
    if c is not _NC:
        return repr(c)
    if isinstance(a[0], Obj):
        f = itp.class_attr(a[0].cls, '__repr__')
        if f is not None:
            return itp.call(itp.bind(f, a[0]), [])
    if isinstance(a[0], SObj):
        return SStr(F('repr_obj', OS, SS)(a[0].term))
    if isinstance(a[0], SStr) and a[0].term is not None and a[0].term.sort() == SS:
        return SStr(F('repr_text', SS, SS)(a[0].term))
    return SStr(None)


def m_bool(itp, a, k):
    return itp.truth(a[0]) if a else False


def m_isinstance(itp, a, k):
    v, cls = a
    if isinstance(cls, ListV):
        itp.exc(TypeError, 'isinstance() arg 2')
    if isinstance(v, Poison):
        raise PoisonRead(v.slot)
    return itp.isinstance_(v, cls)


def m_issubclass(itp, a, k):
    return issubclass(a[0], a[1])


def m_hasattr(itp, a, k):
    v, name = a
    if isinstance(v, (FuncV, BoundV, SFunc, ModelFn)) and name == '__call__':
        return True
    if isinstance(v, SOther):
        if name == '__call__':
            return v.callable_
        raise Unsupported('hasattr of an arbitrary value')
    if isinstance(v, SObj):
        if name == '__call__':
            return False
        raise Unsupported('hasattr of an opaque value')
    if isinstance(v, (SBytes, ByteArr, SStr, SChars, SEnum)) or sym(v):
        t = itp.pytype(v)
        return hasattr(t(), name) if t in (int, bool, str, bytes, float) else hasattr(t, name) and name != '__call__'
    try:
        itp.getattr(v, name)
        return True
    except PyExc as e:
        if issubclass(e.val.cls, AttributeError):
            return False
        raise


def m_callable(itp, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, SFunc, ModelFn, ClassV)):
        return True
    if isinstance(v, SOther):
        return v.callable_
    if isinstance(v, Obj):
        return itp.class_attr(v.cls, '__call__') is not None
    if isinstance(v, (SBytes, ByteArr, SStr, SChars, SObj, ListV, DictV, SetV)) or sym(v):
        return False
    return callable(v)


def m_getattr(itp, a, k):
    try:
        n = itp.pick(a[1]) if isinstance(a[1], SEnum) else a[1]
        return itp.getattr(a[0], n)
    except PyExc as e:
        if len(a) > 2 and issubclass(e.val.cls, AttributeError):
            return a[2]
        raise


def m_setattr(itp, a, k):
    itp.setattr(a[0], a[1], a[2])


def m_range(itp, a, k):
    a = [want_int(itp, x) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    if not sym(a[2]) and a[2] == 0:
        itp.exc(ValueError, 'range() arg 3 must not be zero')
    return RangeV(a[0], a[1], a[2])


def m_enumerate(itp, a, k):
    it, start = a[0], (a[1] if len(a) > 1 else k.get('start', 0))
    if isinstance(it, (FileV,)):
        raise Unsupported('enumerate of a file')

    def run(itp, cb):
        st = Store(itp.ctx)
        st.slots['n'] = start

        def cb2(v):
            i = st.slots['n']
            itp.ctx.set(st, 'n', iadd(i, 1))
            return cb((i, v))
        return itp.iterate(it, cb2)
    return GenV('gen', run)


def seq_known(itp, v):
    """python list of elements if the length is known, else None"""
    if isinstance(v, (tuple, list)):
        return [itp.lift(x) if isinstance(v, list) else x for x in v]
    if isinstance(v, (str,)):
        return list(v)
    if isinstance(v, ListV):
        if all(type(s) is LE for s in v.items):
            return [s.v for s in v.items]
        return None
    if isinstance(v, SChars):
        return [SChars([c]) if sym(c) else chr(c) for c in v.c]
    if isinstance(v, (dict,)):
        return list(v)
    if isinstance(v, DictV):
        return list(v.d)
    if isinstance(v, RangeV):
        n = itp.range_len(v)
        if not sym(n) and n < 4096:
            return [iadd(v.lo, imul(v.step, i)) for i in range(n)]
    return None


def gen_index(itp, v):
    """the same of an iterator over such a sequence; it then counts as consumed"""
    if isinstance(v, GenV):
        x = v.st.get('index')
        if x is None or v.st.get('used') or v.st.get('pos') or v.st.get('mat') is not None:
            return None
        itp.ctx.dset(v.st, 'used', True)
        return x
    return seq_index(itp, v)


def seq_index(itp, v):
    """(length, element function) of a sequence-like value of unknown length"""
    if isinstance(v, RangeV):
        return itp.range_len(v), lambda i: iadd(v.lo, imul(v.step, i))
    if isinstance(v, ListV):
        return itp.list_len(v), lambda i: itp.list_get(v, i)
    s = seq_known(itp, v)
    if s is not None:
        l = itp.newlist(s)
        return len(s), lambda i: itp.list_get(l, i)
    return None


def m_zip(itp, a, k):
    ks = [seq_known(itp, v) for v in a]
    if all(x is not None for x in ks):
        return m_iter(itp, [itp.newlist([tuple(t) for t in zip(*ks)])], {})
    # one driver iterator (the first non-indexable one), the others indexed by position
    idx = [seq_index(itp, v) if not isinstance(v, GenV) else None for v in a]
    nd = [i for i, x in enumerate(idx) if x is None]
    inf = [i for i in nd if isinstance(a[i], GenV) and a[i].name == 'repeat']

    def run(itp, cb):
        ctx = itp.ctx
        if not nd or (set(nd) <= set(inf)):
            n = None
            for i, x in enumerate(idx):
                if x is not None:
                    n = x[0] if n is None else (n if same(n, x[0]) or ctx.valid(zb(icmp('<=', n, x[0]))) else imin(n, x[0]))
            from . import loops
            return loops.sym_loop(itp, n, lambda kk: tuple(a[i].st['val'] if idx[i] is None else idx[i][1](kk)
                                                          for i in range(len(a))), cb)
        if len(nd) > 1:
            raise Unsupported('zip of two iterators')
        d = nd[0]
        st = Store(ctx)
        st.slots['n'] = 0

        def cb2(v):
            i = st.slots['n']
            for j, x in enumerate(idx):
                if x is not None:
                    c = icmp('<', i, x[0])
                    if not ctx.branch(zb(c) if sym(c) else c):
                        return ('zipend',)
            ctx.set(st, 'n', iadd(i, 1))
            return cb(tuple(v if j == d else idx[j][1](i) for j in range(len(a))))
        r = itp.iterate(a[d], cb2)
        return None if r == ('zipend',) else r
    g = GenV('gen', run)
    if not nd:
        n = idx[0][0]
        for x in idx[1:]:
            n = n if same(n, x[0]) else imin(n, x[0])
        g.st['index'] = (n, lambda i: tuple(x[1](i) for x in idx))
    return g


def m_map(itp, a, k):
    f, its = a[0], a[1:]

    def run(itp, cb):
        if len(its) == 1:
            return itp.iterate(its[0], lambda v: cb(itp.call(f, [v])))
        return itp.iterate(m_zip(itp, list(its), {}), lambda v: cb(itp.call(f, list(v))))
    return GenV('gen', run)


def m_filter(itp, a, k):
    f, it = a

    def run(itp, cb):
        def cb2(v):
            t = v if f is None else itp.call(f, [v])
            if itp.test(t):
                return cb(v)
            return None
        return itp.iterate(it, cb2)
    return GenV('gen', run)


def m_allany(isall):
    def m(itp, a, k):
        ctx = itp.ctx
        acc = []
        dead = []
        it = a[0]
        known = seq_known(itp, it)
        short = known is not None or (isinstance(it, GenV))

        def cb(v):
            c = itp.truth(v)
            if not sym(c):
                if c != isall:
                    dead.append(1)
                    return ('stop',)
                return None
            if ctx.idx_stack and ctx.idx_stack[-1] is not mark:
                # inside a symbolic loop: a real branch
                if ctx.branch(c) != isall:
                    return ('short',)
                return None
            acc.append(c)
            return None
        mark = ctx.idx_stack[-1] if ctx.idx_stack else None
        try:
            sig = itp.iterate(it, cb)
        except PyExc:
            if acc:
                g = band(*acc) if isall else bnot(bor(*acc))
                if not ctx.branch(zb(g)):
                    return not isall
            raise
        if sig == ('short',):
            return not isall
        if dead:
            return not isall
        return band(*acc) if isall else bor(*acc)
    return m


def m_sum(itp, a, k):
    st = Store(itp.ctx)
    st.slots['sum'] = a[1] if len(a) > 1 else k.get('start', 0)

    def cb(v):
        itp.ctx.set(st, 'sum', itp.binop(ast.Add, st.slots['sum'], v))
    itp.iterate(a[0], cb)
    return st.slots['sum']


def m_minmax(ismin):
    def m(itp, a, k):
        if 'key' in k or 'default' in k:
            kk = dict(k)
            vals = list(a) if len(a) > 1 else itp.seq_vals(a[0])
            key = kk.pop('key', None)
            if not vals:
                if 'default' in kk:
                    return kk['default']
                itp.exc(ValueError, 'min() arg is an empty sequence')
            keys = [itp.call(key, [v]) if key is not None else v for v in vals]
            if all(is_int(x) for x in keys):
                # the first of the extreme ones
                b = 0
                for i in range(1, len(vals)):
                    c = icmp('<' if ismin else '>', keys[i], keys[b])
                    if itp.ctx.branch(zb(c)) if sym(c) else c:
                        b = i
                return vals[b]
            return conc_or(itp, min if ismin else max)(itp, a, k)
        vals = list(a) if len(a) > 1 else itp.seq_vals(a[0])
        if not vals:
            itp.exc(ValueError, 'min() arg is an empty sequence')
        c = [itp.concretize(v) for v in vals]
        if all(x is not _NC for x in c):
            return conc_or(itp, min if ismin else max)(itp, [tuple(c)], {})
        r = vals[0]
        for v in vals[1:]:
            if not (is_int(v) and is_int(r)):
                if not (isinstance(v, (int, float, SFloat)) or sym(v)) or not (isinstance(r, (int, float, SFloat)) or sym(r)):
                    itp.exc(TypeError, "'<' not supported")
                raise Unsupported('min/max of non-integers')
            r = (imin if ismin else imax)(zi(r) if sym(r) else int(r), zi(v) if sym(v) else int(v))
        return r
    return m


def m_sorted(itp, a, k):
    key, rev = k.get('key'), k.get('reverse', False)
    vals = itp.seq_vals(a[0]) if not isinstance(a[0], (DictV, dict)) else list(a[0].d if isinstance(a[0], DictV) else a[0])
    keys = [itp.call(key, [v]) if key is not None else v for v in vals]
    ck = [itp.concretize(x) for x in keys]
    if any(x is _NC for x in ck):
        # tuples whose first elements are known and all different
        ck = [itp.concretize(x[0]) if isinstance(x, tuple) and x else _NC for x in keys]
        if any(x is _NC for x in ck) or len(set(map(repr, ck))) < len(ck):
            raise Unsupported('sorting symbolic values')
    order = sorted(range(len(vals)), key=lambda i: ck[i], reverse=bool(rev))
    return itp.newlist([vals[i] for i in order])


def m_reversed(itp, a, k):
    v = a[0]
    if isinstance(v, RangeV):
        n = itp.range_len(v)
        return RangeV(iadd(v.lo, imul(v.step, isub(n, 1))), isub(v.lo, v.step), -v.step)
    return itp.newlist(list(reversed(itp.seq_vals(v))))


def m_list(itp, a, k):
    return itp.to_list(a[0]) if a else ListV(itp.ctx)


def m_tuple(itp, a, k):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return tuple(list(a[0]))
    l = itp.to_list(a[0])
    try:
        return tuple(itp.list_vals(l))
    except Unsupported:
        return ListV(itp.ctx, l.items, tuple)


def m_dict(cls):
    def m(itp, a, k):
        d = {}
        if a:
            s = a[0]
            if isinstance(s, (DictV, dict)) or (isinstance(s, Obj)):
                for kk, v in itp.mapping_items(s):
                    d[kk] = v
            else:
                for p in itp.list_vals(itp.to_list(s)):
                    kv = itp.seq_vals(p)
                    if len(kv) != 2:
                        itp.exc(ValueError, 'dictionary update sequence')
                    if not is_conc(kv[0]):
                        raise Unsupported('symbolic dictionary key')
                    d[kv[0]] = kv[1]
        d.update(k)
        return DictV(itp.ctx, d, cls)
    return m


def m_set(itp, a, k):
    if not a:
        return SetV(itp.ctx, [])
    return mk_set(itp, itp.list_vals(itp.to_list(a[0])))


def mk_set(itp, vals):
    """the set of these values: equal ones once (decided by branching where symbolic)"""
    out = []
    for v in vals:
        if isinstance(v, (ListV, DictV, SetV, ByteArr)):
            itp.exc(TypeError, 'unhashable type')
        if not is_conc(v) and not is_int(v):
            v = itp.pick(v) if isinstance(v, SEnum) else v
            if not is_conc(v) and not is_int(v):
                raise Unsupported('set of symbolic values')
        if not set_has(itp, out, v):
            out.append(v)
    return SetV(itp.ctx, out)


def set_has(itp, l, v):
    for x in l:
        c = eq(itp, x, v)
        if c is True or (c is not False and itp.ctx.branch(c)):
            return True
    return False


def m_iter(itp, a, k):
    v = a[0]
    if isinstance(v, GenV):
        return v
    if len(a) == 2:
        f, sent = a

        def run(itp, cb):
            from . import loops
            st = Store(itp.ctx)
            st.slots['v'] = None

            def cond():
                itp.ctx.set(st, 'v', itp.call(f, []))
                return bnot(itp.eq(st.slots['v'], sent))
            return loops.while_loop(itp, cond, lambda: cb(st.slots['v']))
        return GenV('gen', run)
    if is_int(v) or v is None:
        itp.exc(TypeError, 'object is not iterable')

    def run(itp, cb):
        p = g.st.get('pos')
        return itp.iterate(v if not p else tuple(seq_known(itp, v)[p:]), cb)
    g = GenV('gen', run)
    g.st['src'] = v
    g.st['pos'] = 0
    if isinstance(v, (ListV, RangeV)):
        g.st['index'] = seq_index(itp, v)
    return g


def m_next(itp, a, k):
    g = a[0]
    if isinstance(g, GenV):
        if g.name == 'repeat':
            return g.st['val']
        p = g.st.get('pending')
        if p is not None:
            # a loop that takes one element per round (Interp.pull_loop)
            if p[0] == 'taken':
                raise Unsupported('next() twice in a round')
            itp.ctx.dset(g.st, 'pending', ('taken',))
            if p[0] == 'val':
                return p[1]
            if p[0] == 'exc':
                raise PyExc(p[1])
            if len(a) > 1:
                return a[1]
            itp.exc(StopIteration)
        src = g.st.get('src')
        if src is not None:
            vals = seq_known(itp, src)
            p = g.st['pos']
            if vals is not None:
                if p < len(vals):
                    itp.ctx.dset(g.st, 'pos', p + 1)
                    itp.ctx.dset(g.st, 'src', src)
                    return vals[p]
                if len(a) > 1:
                    return a[1]
                itp.exc(StopIteration)
        if not g.st.get('used'):
            # first element only; the generator may not be used again
            got = []

            def cb(v):
                got.append(v)
                return ('next',)
            itp.iterate(g, cb)
            if got:
                return got[0]
            if len(a) > 1:
                return a[1]
            itp.exc(StopIteration)
    raise Unsupported('next()')


def m_divmod(itp, a, k):
    return (binop(itp, ast.FloorDiv, a[0], a[1]), binop(itp, ast.Mod, a[0], a[1]))


def m_abs(itp, a, k):
    v = a[0]
    if sym(v):
        return iite(zb(icmp('>=', v, 0)), v, imul(-1, v))
    return conc_or(itp, abs)(itp, a, k)


def m_round(itp, a, k):
    v = a[0]
    if isinstance(v, SFloat):
        return SFloat(('round', v) + tuple(a[1:]))
    if is_int(v) and sym(v) and len(a) == 1:
        return v
    return conc_or(itp, round)(itp, a, k)


def m_bin(itp, a, k):
    v = want_int(itp, a[0])
    if not sym(v):
        return bin(v)
    return SBin(v, 2)


def m_format(itp, a, k):
    return itp.format_value(a[0], a[1] if len(a) > 1 else None)


def m_print(itp, a, k):
    itp.events.append(('print', tuple(a)))
    h = itp.hooks.get('print')
    if h:
        h(itp, a, k)
    return None


def m_type(itp, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    if isinstance(a[0], (SOther, SObj)):
        return SOther('type', ())
    return itp.pytype(a[0])


def m_bytes(kind):
    def m(itp, a, k):
        if not a:
            return mk_bytes((), kind)
        v = a[0]
        if isinstance(v, (str, SStr, SChars)):
            if len(a) < 2 and 'encoding' not in k:
                itp.exc(TypeError, 'string argument without an encoding')
            return m_encode(itp, v, a[1:], k)
        if is_int(v):
            if not itp.ctx.branch(zb(icmp('>=', v, 0)) if sym(v) else v >= 0):
                itp.exc(ValueError, 'negative count')
            return mk_bytes(rope(Rep((Lit(b'\0'),), 1, v)), kind)
        if isinstance(v, (ListV, tuple, list)):
            out = []
            for x in itp.seq_vals(v):
                x = want_int(itp, x)
                if not itp.ctx.branch(zb(band(icmp('>=', x, 0), icmp('<', x, 256))) if sym(x) else 0 <= x < 256):
                    itp.exc(ValueError, 'bytes must be in range(0, 256)')
                out.append(Enc(1, x, False))
            return mk_bytes(rope(*out), kind)
        return mk_bytes(want_bytes(itp, v), kind)
    return m


def m_memoryview(itp, a, k):
    v = a[0]
    if isinstance(v, ByteArr):
        raise Unsupported('memoryview of a bytearray')
    r = want_bytes(itp, v)
    return SBytes(r, memoryview)


def m_bytearray(itp, a, k):
    if k and 'encoding' not in k:
        raise Unsupported('bytearray arguments')
    return ByteArr(itp.ctx, to_rope(m_bytes(bytes)(itp, a, k)))


def ba_extend(itp, v, a, k):
    x = a[0]
    if not is_bytes(x) and not isinstance(x, SEnum):
        x = m_bytes(bytes)(itp, [itp.to_list(x)], {})
    itp.ctx.set(v, 'content', rcat(v.slots['content'], want_bytes(itp, x)))


def ba_append(itp, v, a, k):
    ba_extend(itp, v, [m_bytes(bytes)(itp, [(a[0],)], {})], {})


def ba_insert(itp, v, a, k):
    raise Unsupported('bytearray method')


def ba_clear(itp, v, a, k):
    itp.ctx.set(v, 'content', ())


def file_readinto(itp, f, a, k):
    b = a[0]
    if not isinstance(b, ByteArr):
        raise Unsupported('readinto')
    r = b.slots['content']
    data = want_bytes(itp, file_read(itp, f, [rlen(r)], {}))
    itp.ctx.set(b, 'content', rcat(data, rslice(itp.ctx, r, rlen(data), rlen(r))))
    return rlen(data)


def m_float(itp, a, k):
    v = a[0]
    if sym(v):
        return SFloat(('int', v))
    if isinstance(v, SFloat):
        return v
    if isinstance(v, SText):
        t = term_of(itp.ctx, v.r)
        if not itp.ctx.branch(F('f_isnum', BS, BOOL)(t)):
            itp.exc(ValueError, 'could not convert string to float')
        return SFloat(('parse', t))
    if isinstance(v, SStr):
        raise Unsupported('float of text')
    return conc_or(itp, float)(itp, a, k)


def m_super(itp, a, k):
    return SuperV(a[0], a[1])


def m_property(itp, a, k):
    raise Unsupported('property() at run time')


def m_id(itp, a, k):
    raise Unsupported('id()')


def m_vars(itp, a, k):
    return itp.getattr(a[0], '__dict__')


def m_sysexit(itp, a, k):
    raise PyExc(ExcVal(SystemExit, tuple(a)))


def m_pow(itp, a, k):
    if len(a) == 2:
        return binop(itp, ast.Pow, a[0], a[1])
    return conc_or(itp, pow)(itp, a, k)


# ------------------------------------------------------------------ struct
def parse_fmt(itp, fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('symbolic struct format')
    order = '@'
    i = 0
    if fmt and fmt[0] in '<>=!@':
        order = fmt[0]
        i = 1
    out = []
    cnt = ''
    for ch in fmt[i:]:
        if ch.isdigit():
            cnt += ch
            continue
        if ch.isspace():
            continue
        out.append((int(cnt) if cnt else None, ch))
        cnt = ''
    return order, out


WID = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
       'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def fmt_items(itp, fmt):
    order, items = parse_fmt(itp, fmt)
    if order not in '<' and not all(c in 'sBbx' for _, c in items):
        if order in '=':
            pass
        elif order == '@' and len(items) == 1:
            pass
        else:
            raise Unsupported('struct format %r' % fmt)
    out = []
    for n, c in items:
        if c == 's':
            out.append(('s', n if n is not None else 1, None))
        elif c == 'x':
            out.append(('x', n if n is not None else 1, None))
        elif c in WID:
            w, s = WID[c]
            if c in 'lL' and order == '@':
                w = 8
            for _ in range(1 if n is None else n):
                out.append(('i', w, s))
        else:
            raise Unsupported('struct code %r' % c)
    return out


def takes_star(f):
    return f is struct.pack


def sym_fmt(itp, fmt):
    """(code, count) of a format like '<%dq' % n, or None"""
    n = code = None
    if isinstance(fmt, SText):
        r = fmt.r
        if r and type(r[0]) is Lit and r[0].b[:1] == b'<':
            rest = r[0].b[1:]
            if rest == b'' and len(r) == 3 and type(r[1]) is Sl and type(r[2]) is Lit and z3.is_app(r[1].t) \
                    and r[1].t.decl().name() == 's_int' and same(r[1].lo, 0) and same(r[1].hi, blen(r[1].t)):
                n, code = norm(r[1].t.arg(0)), r[2].b.decode()
            elif rest == b'' and len(r) == 2 and type(r[1]) is Rep and r[1].ul == 1 and len(r[1].unit) == 1 \
                    and type(r[1].unit[0]) is Lit:
                n, code = r[1].n, r[1].unit[0].b.decode()
    elif isinstance(fmt, SChars):
        c = fmt.c
        if len(c) == 3 and c[0] == 60 and sym(c[1]) and not sym(c[2]) and \
                itp.ctx.valid(zb(band(icmp('>=', c[1], 48), icmp('<=', c[1], 57)))):
            n, code = isub(c[1], 48), chr(c[2])
    if code not in WID:
        return None
    c = icmp('>=', n, 0)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(struct.error, 'bad char in struct format')
    return code, n


def s_pack_many(itp, code, n, vals):
    l = ListV(itp.ctx, tuple(x for v in vals for x in (v.l.items if isinstance(v, Star) else (LE(v),))))
    c = ieq(itp.list_len(l), n)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(struct.error, 'pack expected another number of items')
    one = GenV('gen', lambda itp, cb: itp.iterate(l, lambda v: cb(s_pack(itp, ['<' + code, v], {}))))
    return b_join(itp, b'', [one], {})


def s_unpack_many(itp, code, n, r):
    w, s = WID[code]
    out = ListV(itp.ctx, ())
    itp.iterate(RangeV(0, n, 1), lambda i: itp.list_append(
        out, rd_int(itp.ctx, rslice(itp.ctx, r, imul(w, i), imul(w, iadd(i, 1))), s)))
    return ListV(itp.ctx, out.items, tuple)


def s_iter_unpack(itp, a, k):
    items = fmt_items(itp, a[0])
    size = s_size(items)
    r = want_bytes(itp, a[1])
    n = rlen(r)
    count, rem = floordiv(itp, n, size)
    c = ieq(rem, 0)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(struct.error, 'iterative unpacking requires a buffer of a multiple of %d bytes' % size)

    def at(i):
        return s_unpack_from(itp, items, rslice(itp.ctx, r, imul(size, i), imul(size, iadd(i, 1))))
    from . import loops
    g = GenV('gen', lambda itp, cb: loops.sym_loop(itp, count, at, cb))
    g.st['index'] = (count, at)
    return g


def s_pack(itp, a, k):
    f = sym_fmt(itp, a[0])
    if f is not None:
        return s_pack_many(itp, f[0], f[1], a[1:])
    if any(isinstance(v, Star) for v in a):
        raise Unsupported('struct.pack with arguments of unknown number')
    items = fmt_items(itp, a[0])
    vals = list(a[1:])
    if len(vals) != len([x for x in items if x[0] != 'x']):
        itp.exc(struct.error, 'pack expected %d items' % len(items))
    out = []
    for kind, w, s in items:
        if kind == 'x':
            out.append(Lit(b'\0' * w))
            continue
        v = vals.pop(0)
        if kind == 's':
            if not is_bytes(v):
                itp.exc(struct.error, "argument for 's' must be a bytes object")
            r = to_rope(v)
            n = rlen(r)
            c = icmp('<=', n, w)
            if itp.ctx.branch(zb(c) if sym(c) else c):
                out.extend(r)
                out.append(Rep((Lit(b'\0'),), 1, isub(w, n)))
            else:
                out.extend(rslice(itp.ctx, r, 0, w))
            continue
        v = itp.pick(v)
        if isinstance(v, Poison):
            raise PoisonRead(v.slot)
        if not is_int(v):
            if isinstance(v, (SObj, SOther)):
                raise Unsupported('struct.pack of an opaque value')
            itp.exc(struct.error, 'required argument is not an integer')
        v = zi(v) if sym(v) else int(v)
        lo, hi = (-(256 ** w) // 2, 256 ** w // 2) if s else (0, 256 ** w)
        c = band(icmp('>=', v, lo), icmp('<', v, hi))
        if not itp.ctx.branch(zb(c) if sym(c) else c):
            itp.exc(struct.error, 'argument out of range')
        out.append(Enc(w, v, s))
    return mk_bytes(rope(*out))


def s_size(items):
    return sum(w for _, w, _ in items)


def s_unpack_from(itp, items, r):
    out = []
    off = 0
    for kind, w, s in items:
        part = rslice(itp.ctx, r, off, off + w)
        off += w
        if kind == 'x':
            continue
        if kind == 's':
            out.append(mk_bytes(part))
        else:
            out.append(rd_int(itp.ctx, part, s))
    return tuple(out)


def s_unpack(itp, a, k):
    r = want_bytes(itp, a[1])
    n = rlen(r)
    f = sym_fmt(itp, a[0])
    if f is not None:
        c = ieq(n, imul(WID[f[0]][0], f[1]))
        if not itp.ctx.branch(zb(c) if sym(c) else c):
            itp.exc(struct.error, 'unpack requires another buffer')
        return s_unpack_many(itp, f[0], f[1], r)
    items = fmt_items(itp, a[0])
    c = ieq(n, s_size(items))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(struct.error, 'unpack requires a buffer of %d bytes' % s_size(items))
    return s_unpack_from(itp, items, r)


def s_unpack_off(itp, a, k):
    r = want_bytes(itp, a[1])
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    n = rlen(r)
    f = sym_fmt(itp, a[0])
    if f is not None:
        size = imul(WID[f[0]][0], f[1])
        c = band(icmp('>=', off, 0), icmp('<=', iadd(off, size), n))
        if not itp.ctx.branch(zb(c) if sym(c) else c):
            itp.exc(struct.error, 'unpack_from requires a larger buffer')
        return s_unpack_many(itp, f[0], f[1], rslice(itp.ctx, r, off, iadd(off, size)))
    items = fmt_items(itp, a[0])
    c = band(icmp('>=', off, 0), icmp('<=', iadd(off, s_size(items)), n))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(struct.error, 'unpack_from requires a larger buffer')
    return s_unpack_from(itp, items, rslice(itp.ctx, r, off, iadd(off, s_size(items))))


def s_calcsize(itp, a, k):
    f = sym_fmt(itp, a[0])
    if f is not None:
        return imul(WID[f[0]][0], f[1])
    return s_size(fmt_items(itp, a[0]))


def i_to_bytes(itp, v, a, k):
    w = a[0] if a else k.get('length', 1)
    order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
    signed = k.get('signed', False)
    if order != 'little' or w not in (1, 2, 4, 8):
        raise Unsupported('int.to_bytes')
    lo, hi = (-(256 ** w) // 2, 256 ** w // 2) if signed else (0, 256 ** w)
    c = band(icmp('>=', v, lo), icmp('<', v, hi))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(OverflowError, 'int too big to convert')
    return mk_bytes(rope(Enc(w, v, signed)))


def d_fromkeys(itp, a, k):
    out = DictV(itp.ctx, {})
    for kk in itp.list_vals(itp.to_list(a[0])):
        itp.setitem(out, kk, a[1] if len(a) > 1 else None)
    return out


def i_from_bytes(itp, a, k):
    order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
    order = itp.concretize(order)
    signed = k.get('signed', False)
    if order not in ('little', 'big') or sym(signed):
        raise Unsupported('int.from_bytes')
    r = want_bytes(itp, a[0])
    if order == 'big':
        r = reverse_bytes(itp, r)
    return rd_int(itp.ctx, r, bool(signed))


def reverse_bytes(itp, r):
    n = rlen(r)
    n = itp.ctx.const_value(n) if sym(n) else n
    if n is None or n > 8:
        raise Unsupported('big-endian integer of this width')
    return rcat(*[rslice(itp.ctx, r, i, i + 1) for i in reversed(range(n))])


# ------------------------------------------------------------------ files
def new_bytesio(itp, a, k):
    r = to_rope(a[0]) if a and a[0] is not None and is_bytes(a[0]) else ()
    if a and a[0] is not None and not is_bytes(a[0]):
        r = want_bytes(itp, a[0])
    ino = Inode(itp.ctx, 'bytesio', r)
    return FileV(itp.ctx, ino, 'bytesio', name='BytesIO')


def check_open(itp, f):
    if f.slots['closed']:
        itp.exc(ValueError, 'I/O operation on closed file')


def fpos(f):
    p = f.slots['pos']
    if isinstance(p, Poison):
        raise PoisonRead(p.slot)
    return p


def full_content(ctx, ino):
    """content of a file; a write in its middle of unknown extent is resolved here (see file_write)"""
    c = ino.slots['content']
    if isinstance(c, Poison):
        raise PoisonRead(c.slot)
    u = ino.slots['under']
    if isinstance(u, Poison):
        raise PoisonRead(u.slot)
    if u is not None:
        off = isub(rlen(c), u[0])
        if not ctx.branch(zb(icmp('>=', off, rlen(u[1])))):
            r = u[1] if split_decided(ctx, u[1], off) else rope(Sl(term_of(ctx, u[1]), 0, rlen(u[1])))
            left = rslice(ctx, r, off, rlen(u[1]))
            ctx.__dict__.setdefault('leftovers', []).append(left)
            c = rcat(c, left)
        ctx.set(ino, 'content', c)
        ctx.set(ino, 'under', None)
    return c


def split_decided(ctx, r, pos):
    """can the rope be split at pos without a case distinction?"""
    rem = pos
    for s in r:
        d = isub(rem, slen(s))
        if ctx.valid(zb(icmp('>=', d, 0))):
            rem = d
        elif ctx.valid(zb(icmp('<=', d, 0))):
            return type(s) is Sl or ctx.valid(zb(ieq(rem, 0))) or type(s) is not Big and not sym(rem) or \
                type(s) is Rep and same(rlen(s.unit), 1)
        else:
            return False
    return True


def fcontent(itp, f):
    return full_content(itp.ctx, f.inode)


def file_read(itp, f, a, k):
    ctx = itp.ctx
    check_open(itp, f)
    if not f.readable:
        itp.exc(io.UnsupportedOperation, 'not readable')
    n = a[0] if a else None
    c = fcontent(itp, f)
    p = fpos(f)
    L = rlen(c)
    if n is not None:
        n = want_int(itp, n)
        if not ctx.branch(zb(icmp('>=', n, 0)) if sym(n) else n >= 0):
            n = None
    # position beyond the end: nothing to read
    cc = icmp('<=', p, L)
    if not ctx.branch(zb(cc) if sym(cc) else cc):
        return b''
    if n is None:
        out = rslice(ctx, c, p, L)
        ctx.set(f, 'pos', L)
    else:
        e = iadd(p, n)
        cc = icmp('<=', e, L)
        if ctx.branch(zb(cc) if sym(cc) else cc):
            out = rslice(ctx, c, p, e)
            ctx.set(f, 'pos', e)
        else:
            out = rslice(ctx, c, p, L)
            ctx.set(f, 'pos', L)
    h = itp.hooks.get('read')
    if h:
        h(itp, f, p, out)
    if f.text:
        if n is not None:
            raise Unsupported('text file')
        return m_decode(itp, mk_bytes(out), [], {})
    return mk_bytes(out)


def file_write(itp, f, a, k):
    ctx = itp.ctx
    check_open(itp, f)
    if not f.writable:
        itp.exc(io.UnsupportedOperation, 'not writable')
    if isinstance(a[0], (str, SStr, SChars)):
        itp.exc(TypeError, "a bytes-like object is required, not 'str'")
    r = want_bytes(itp, a[0])
    h = itp.hooks.get('write')
    if h:
        h(itp, f, fpos(f), r)
    p = fpos(f)
    n = rlen(r)
    if not sym(n) and n == 0:
        return 0
    # content: what is known to be in the file up to some point; under = (base, old): behind that point the file
    # still has what was there before, `old` from position base on
    ino = f.inode
    c = ino.slots['content']
    if isinstance(c, Poison):
        raise PoisonRead(c.slot)
    if ino.slots['under'] is not None:
        if isinstance(ino.slots['under'], Poison):
            raise PoisonRead(ino.slots['under'].slot)
        L = rlen(c)
        if not same(p, L) and not ctx.valid(zb(bor(ieq(p, L), icmp('<=', iadd(p, n), L)))):
            c = full_content(ctx, ino)
    L = rlen(c)
    ctx.push_list(ctx.write_log, (f.inode, p, n))
    # resource assumption: no file reaches 2**62 bytes
    ctx.assume(zb(icmp('<', iadd(p, n), 2 ** 62)))
    eq = ieq(p, L)
    if same(p, L) or ctx.valid(zb(eq)):
        new = rcat(c, r)
    else:
        le = icmp('<=', p, L)
        if ctx.branch(zb(le) if sym(le) else le):
            left, rest = rsplit(ctx, c, p)
            rl = rlen(rest)
            tail = None
            if ctx.valid(zb(icmp('<=', n, rl))):
                try:
                    if ino.slots['under'] is not None or split_decided(ctx, rest, n):
                        _, tail = rsplit(ctx, rest, n)
                except Unsupported:
                    tail = None
            elif ctx.valid(zb(icmp('>=', n, rl))):
                tail = ()
            if tail is None:
                if ino.slots['under'] is not None:
                    raise Unsupported('overlapping writes')
                ctx.set(ino, 'under', (p, rest))
                tail = ()
            new = rcat(left, r, tail)
        else:
            # writing nothing beyond the end does not extend a file
            new = rcat(c, rope(Rep((Lit(b'\0'),), 1, isub(p, L))), r)
    ctx.set(f.inode, 'content', new)
    ctx.set(f, 'pos', iadd(p, n))
    return n


def file_seek(itp, f, a, k):
    ctx = itp.ctx
    check_open(itp, f)
    off = want_int(itp, a[0])
    wh = a[1] if len(a) > 1 else k.get('whence', 0)
    if wh == 0:
        p = off
    elif wh == 1:
        p = iadd(fpos(f), off)
    elif wh == 2:
        p = iadd(rlen(fcontent(itp, f)), off)
    else:
        raise Unsupported('seek whence')
    c = icmp('>=', p, 0)
    if not ctx.branch(zb(c) if sym(c) else c):
        itp.exc(OSError if f.kind != 'bytesio' else ValueError, 'negative seek position')
    ctx.set(f, 'pos', p)
    return p


def file_tell(itp, f, a, k):
    check_open(itp, f)
    return fpos(f)


def file_truncate(itp, f, a, k):
    ctx = itp.ctx
    check_open(itp, f)
    n = want_int(itp, a[0]) if a and a[0] is not None else fpos(f)
    c = fcontent(itp, f)
    le = icmp('<=', n, rlen(c))
    if ctx.branch(zb(le) if sym(le) else le):
        ctx.set(f.inode, 'content', rslice(ctx, c, 0, n))
    else:
        ctx.set(f.inode, 'content', rcat(c, rope(Rep((Lit(b'\0'),), 1, isub(n, rlen(c))))))
    return n


def file_getvalue(itp, f, a, k):
    return mk_bytes(fcontent(itp, f))


def file_close(itp, f, a, k):
    itp.ctx.set(f, 'closed', True)


class TName:
    """symbolic file name as a key of the file system"""
    def __init__(self, v):
        self.v = v


def fs_key(itp, name):
    name = itp.pick(name) if isinstance(name, SEnum) else name
    if isinstance(name, Poison):
        raise PoisonRead(name.slot)
    if isinstance(name, str):
        return name
    if isinstance(name, SText):
        # symbolic names: the keys are names that are known to differ
        for k in list(itp.fs.slots):
            if isinstance(k, TName):
                c = eq(itp, name, k.v)
                if itp.ctx.branch(zb(c) if sym(c) else c):
                    # equal texts have equal terms
                    itp.ctx.assume(term_of(itp.ctx, name.r) == term_of(itp.ctx, k.v.r))
                    return k
        return TName(name)
    if isinstance(name, SStr) and name.tag is not None:
        return name.tag
    if isinstance(name, (SStr, SChars)):
        raise Unsupported('file name')
    if isinstance(name, SObj) and name.tag is not None:
        return name.tag
    itp.exc(TypeError, 'expected str, bytes or os.PathLike object')


def fs_get(itp, key):
    """the file of that name, or None; with hook unknown_fs names not seen before exist or not"""
    ino = itp.fs.slots.get(key)
    if ino is None and itp.hooks.get('unknown_fs') and isinstance(key, TName) and key not in itp.fs.slots:
        t = term_of(itp.ctx, key.v.r)
        if itp.ctx.branch(f_exists(t)):
            ino = Inode(itp.ctx, key, atom_rope(F('fs_content', BS, BS)(t)))
        itp.ctx.set(itp.fs, key, ino)
    return ino


f_exists = F('fs_exists', BS, BOOL)


def m_open(itp, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    key = fs_key(itp, a[0])
    if not isinstance(mode, str):
        itp.exc(TypeError, 'open() mode')
    base = mode.replace('b', '')
    ino = fs_get(itp, key)
    h = itp.hooks.get('open')
    if h:
        h(itp, key, mode)
    if base in ('r', 'r+'):
        if ino is None:
            itp.exc(FileNotFoundError, 2, 'No such file or directory')
        f = FileV(itp.ctx, ino, 'file', True, base == 'r+', key, 'b' not in mode)
    elif base in ('w', 'w+', 'x'):
        if ino is None:
            ino = Inode(itp.ctx, key, ())
            itp.ctx.set(itp.fs, key, ino)
        elif base == 'x':
            itp.exc(FileExistsError, 17, 'File exists')
        else:
            itp.ctx.set(ino, 'content', ())
            itp.ctx.set(ino, 'under', None)
        f = FileV(itp.ctx, ino, 'file', base == 'w+', True, key, 'b' not in mode)
    else:
        raise Unsupported('open mode %r' % mode)
    return f


def p_exists(itp, a, k):
    key = fs_key(itp, a[0])
    h = itp.hooks.get('exists')
    if h:
        r = h(itp, key)
        if r is not NotImplemented:
            return r
    return fs_get(itp, key) is not None


def p_getsize(itp, a, k):
    key = fs_key(itp, a[0])
    ino = fs_get(itp, key)
    if ino is None:
        itp.exc(FileNotFoundError, 2, 'No such file or directory')
    return rlen(full_content(itp.ctx, ino))


# ------------------------------------------------------------------ json / zlib / hashes
def obj_term(itp, v):
    """term of sort Obj for any JSON-like value"""
    if isinstance(v, SObj):
        return v.term
    c = itp.concretize(v)
    if c is not _NC:
        t = z3.Const('obj#' + repr(c)[:200], OS)
        return t
    raise Unsupported('structured symbolic metadata')


def j_dumps(itp, a, k):
    v = a[0]
    if isinstance(v, SObj):
        t = v.term
        if not itp.ctx.branch(f_jsonable(t)):
            if itp.ctx.choose(2) == 0:
                itp.exc(TypeError, 'Object is not JSON serializable')
            itp.exc(ValueError, 'Circular reference detected')
        return SStr(dumps_fn(itp, k)(t))
    c = itp.concretize(v)
    if c is not _NC:
        try:
            return json.dumps(c, **{n: itp.concretize(x) for n, x in k.items()})
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    h = itp.hooks.get('dumps')
    if h:
        return h(itp, v)
    raise Unsupported('json.dumps of a structured symbolic value')


def dumps_fn(itp, k):
    """the serialisation function these keyword arguments select"""
    k = {n: itp.concretize(v) for n, v in k.items()}
    if not set(k) <= {'separators', 'indent', 'ensure_ascii'} or any(v is _NC for v in k.values()):
        raise Unsupported('json.dumps(%s)' % ', '.join(sorted(k)))
    ascii_ = bool(k.pop('ensure_ascii', True))
    return F('json_dumps%s!%s' % ('' if ascii_ else '_u', sorted(k.items())), OS, SS)


def j_loads(itp, a, k):
    v = a[0]
    if isinstance(v, SStr) and v.term is not None and v.term.sort() == SS:
        if v.term.decl().name() == 's_strip':
            # white space around a JSON text does not count
            return j_loads(itp, [SStr(v.term.arg(0))], k)
        if not itp.ctx.branch(f_jok(v.term)):
            itp.exc(json.JSONDecodeError, 'bad JSON')
        return SObj(norm_obj(itp, f_loads(v.term)))
    if is_bytes(v):
        c = itp.concretize(v)
        if c is _NC:
            return j_loads(itp, [m_decode(itp, v, [], {})], {})
    c = itp.concretize(v)
    if c is not _NC:
        try:
            return itp.lift(json.loads(c))
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    raise Unsupported('json.loads of %r' % (v,))


def norm_obj(itp, t):
    """loads(dumps(m)) = json_form(m) as a rewrite"""
    if t.decl().name() == 'json_loads' and t.arg(0).decl().name().startswith('json_dumps'):
        return f_jform(t.arg(0).arg(0))
    return t


def m_encode(itp, v, a, k):
    enc = a[0] if a else k.get('encoding', 'utf-8')
    if not isinstance(enc, str):
        raise Unsupported('encoding')
    if isinstance(v, str):
        try:
            return v.encode(*[x for x in a])
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    if isinstance(v, SStr) and v.term is not None and v.term.sort() == SS:
        t = f_u8e(v.term)
        if v.term.decl().name() == 'utf8d':
            # encode(decode(b)) = b for valid UTF-8
            return mk_bytes(rope_of_term(itp.ctx, v.term.arg(0)))
        if enc.lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1', 'us-ascii'):
            raise Unsupported('encoding')
        return mk_bytes(atom_rope(t))
    if isinstance(v, SChars):
        c = band(*[band(icmp('>=', x, 0), icmp('<', x, 128)) for x in v.c])
        if itp.ctx.branch(zb(c) if sym(c) else c):
            return mk_bytes(rope(*[Enc(1, x, False) for x in v.c]))
    raise Unsupported('encode of %r' % (v,))


def m_decode(itp, v, a, k):
    c = itp.concretize(v)
    if c is not _NC and isinstance(c, (bytes, bytearray)):
        try:
            return c.decode(*[itp.concretize(x) for x in a], **k)
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    r = to_rope(v)
    t = term_of(itp.ctx, r)
    if t.decl().name() == 'utf8e':
        return SStr(t.arg(0))
    err = a[1] if len(a) > 1 else k.get('errors', 'strict')
    if err != 'strict':
        return SStr(F('u8d_' + str(err), BS, SS)(t))
    if not itp.ctx.branch(f_u8ok(t)):
        itp.exc(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')
    return SStr(f_u8d(t))


def z_compress(itp, a, k):
    r = want_bytes(itp, a[0])
    lv = a[1] if len(a) > 1 else k.get('level', -1)
    lv = want_int(itp, lv)
    c = band(icmp('>=', lv, -1), icmp('<=', lv, 9))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(zlib.error, 'Bad compression level')
    t = f_zc(term_of(itp.ctx, r), zi(lv))
    return mk_bytes(atom_rope(t))


def z_decompress(itp, a, k):
    r = want_bytes(itp, a[0])
    t = term_of(itp.ctx, r)
    if t.decl().name() == 'zlibc':
        return mk_bytes(rope_of_term(itp.ctx, t.arg(0)))
    if not itp.ctx.branch(f_zok(t)):
        itp.exc(zlib.error, 'Error while decompressing data')
    return mk_bytes(atom_rope(f_zd(t)))


def z_hash(name):
    def m(itp, a, k):
        if len(a) > 1:
            raise Unsupported('running checksum')
        t = term_of(itp.ctx, want_bytes(itp, a[0]))
        return f_alg[name](t)
    return m


def h_new(name):
    def m(itp, a, k):
        st = DictV(itp.ctx, {'data': term_of(itp.ctx, want_bytes(itp, a[0])) if a else None, 'name': name})
        st.kind = HashObj
        return st
    return m


class HashObj:
    digest = hexdigest = update = digest_size = name = None


# ------------------------------------------------------------------ blosc
CNAMES = ('blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd')


def cname_term(itp, cn):
    """code of a compressor name; raises ValueError if unknown"""
    import blosc
    names = tuple(blosc.compressor_list())
    if isinstance(cn, SEnum):
        oks = [i for i, v in enumerate(cn.vals) if v in names]
        c = bor(*[cn.idx == i for i in oks])
        if not itp.ctx.branch(zb(c)):
            itp.exc(ValueError, 'cname can only be one of ...')
        r = names.index(cn.vals[oks[-1]])
        for i in oks[:-1]:
            r = iite(zb(ieq(cn.idx, i)), names.index(cn.vals[i]), r)
        return r
    if isinstance(cn, str):
        if cn not in names:
            itp.exc(ValueError, 'cname can only be one of ...')
        return names.index(cn)
    if isinstance(cn, (SStr, SChars)):
        for n in names:
            c = itp.eq(cn, n)
            if itp.ctx.branch(zb(c) if sym(c) else c):
                return names.index(n)
        itp.exc(ValueError, 'cname')
    if isinstance(cn, SObj):
        raise Unsupported('opaque cname')
    itp.exc(ValueError, 'cname can only be one of ...')


def int_range(itp, v, lo, hi, what):
    if isinstance(v, SOther) or isinstance(v, (str, SStr, SChars, bytes, SBytes)) or v is None:
        itp.exc(TypeError, what)
    v = want_int(itp, v)
    c = band(icmp('>=', v, lo), icmp('<=', v, hi))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(ValueError, what)
    return v


def bl_args(itp, k, pos, names):
    d = {'typesize': 8, 'clevel': 9, 'shuffle': 1, 'cname': 'blosclz'}
    for n, v in zip(names, pos):
        d[n] = v
    for n, v in k.items():
        if n not in names:
            itp.exc(TypeError, 'unexpected keyword argument %r' % n)
        d[n] = v
    return d


def bl_compress(itp, a, k):
    import blosc
    names = ['bytesobj', 'typesize', 'clevel', 'shuffle', 'cname']
    d = bl_args(itp, k, a, names)
    x = d.get('bytesobj')
    h = itp.hooks.get('blosc_args')
    if h:
        h(itp, d)
    r = want_bytes(itp, x)
    n = rlen(r)
    c = icmp('<=', n, blosc.BLOSC_MAX_BUFFERSIZE)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(ValueError, 'bytesobj cannot be larger than ...')
    ts = int_range(itp, d['typesize'], 1, blosc.BLOSC_MAX_TYPESIZE, 'typesize')
    cl = int_range(itp, d['clevel'], 0, 9, 'clevel')
    sh = shuffle_term(itp, d['shuffle'])
    cn = cname_term(itp, d['cname'])
    t = f_comp(term_of(itp.ctx, r), zi(ts), zi(cl), zi(sh), zi(cn))
    h = itp.hooks.get('blosc_compress')
    if h:
        h(itp, r, t)
    return mk_bytes(atom_rope(t))


def shuffle_term(itp, sh):
    if isinstance(sh, SEnum):
        sh = itp.pick(sh)
    if not is_int(sh):
        if isinstance(sh, SObj):
            raise Unsupported('opaque shuffle')
        itp.exc(ValueError, 'shuffle')
    v = zi(sh) if sym(sh) else int(sh)
    c = band(icmp('>=', v, 0), icmp('<=', v, 2))
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        itp.exc(ValueError, 'shuffle can only be one of NOSHUFFLE, SHUFFLE, BITSHUFFLE')
    return v


def bl_decompress(itp, a, k):
    import blosc
    r = want_bytes(itp, a[0])
    h = itp.hooks.get('decompress')
    if h:
        h(itp, r)
    n = rlen(r)
    if not sym(n) and n == 0:
        return b''
    t = term_of(itp.ctx, r)
    if t.decl().name() == 'comp':
        return mk_bytes(rope_of_term(itp.ctx, t.arg(0)))
    o = dec_checked(itp, r, t)
    return mk_bytes(atom_rope(o))


def dec_checked(itp, r, t):
    """the decompressed form of the buffer r, or the exception for an invalid one"""
    import blosc
    ctx = itp.ctx
    n = rlen(r)
    if not ctx.branch(f_ok(t)):
        itp.exc(blosc.blosc_extension.error, 'Error while decompressing data')
    o = f_dec(t)
    # a valid Blosc buffer is empty, or at least 16 bytes long and records its own length and that of its data
    if ctx.valid(zb(icmp('>=', n, 16)) if sym(n) else n >= 16):
        ctx.assume(zb(ieq(rd_uint(ctx, rslice(ctx, r, 12, 16)), n)))
        ctx.assume(blen(o) == zi(rd_uint(ctx, rslice(ctx, r, 4, 8))))
    else:
        ctx.assume(z3.Or(z3.And(zi(n) == 0, blen(o) == 0), zi(n) >= 16))
        ctx.assume(z3.And(blen(o) >= 0, blen(o) <= 2 ** 32 - 1))
    return o


def bl_setn(itp, a, k):
    h = itp.hooks.get('set_nthreads')
    if h:
        h(itp, a[0])
    return 8


# ------------------------------------------------------------------ itertools, misc
def it_repeat(itp, a, k):
    v = a[0]
    n = a[1] if len(a) > 1 else k.get('times')
    if n is not None:
        n = want_int(itp, n)
        l = ListV(itp.ctx, (LRep(v, n if not sym(n) or itp.ctx.valid(zi(n) >= 0) else imax(n, 0)),))
        return m_iter(itp, [l], {})
    g = GenV('repeat', lambda itp, cb: _inf(itp, cb, v))
    g.st['val'] = v
    return g


def _inf(itp, cb, v):
    raise Unsupported('endless iteration')


def it_chain(itp, a, k):
    def run(itp, cb):
        for x in a:
            r = itp.iterate(x, cb)
            if r is not None:
                return r
        return None
    return GenV('gen', run)


def it_islice(itp, a, k):
    it = a[0]
    if len(a) > 2:
        start, stop = a[1], a[2]
        if len(a) > 3 and a[3] not in (None, 1):
            raise Unsupported('islice with a step')
    else:
        start, stop = 0, a[1]
    start = 0 if start is None else want_int(itp, start)
    if stop is None:
        raise Unsupported('islice without an end')
    stop = want_int(itp, stop)
    for x in (start, stop):
        c = icmp('>=', x, 0)
        if not itp.ctx.branch(zb(c) if sym(c) else c):
            itp.exc(ValueError, 'Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.')
    src = gen_index(itp, it)
    if src is not None:
        from . import loops
        n, at = src

        def run(itp, cb):
            m = isub(imin(n, stop), start)
            if itp.ctx.valid(zb(icmp('<=', stop, n))):
                m = isub(stop, start)
            return loops.sym_loop(itp, m, lambda i: at(iadd(start, i)), cb)
        g = GenV('gen', run)
        return g
    if sym(start) or start:
        raise Unsupported('islice')

    def run2(itp, cb):
        ctx = itp.ctx
        c = icmp('>', stop, 0)
        if not ctx.branch(zb(c) if sym(c) else c):
            return None
        st = Store(ctx)
        st.slots['n'] = 0

        def cb2(v):
            r = cb(v)
            if r is not None:
                return r
            n = iadd(st.slots['n'], 1)
            ctx.set(st, 'n', n)
            c = icmp('>=', n, stop)
            if ctx.branch(zb(c) if sym(c) else c):
                if ctx.idx_stack:
                    ctx.instantiate(isub(ctx.idx_stack[-1], 1))      # the round before went on
                return ('islice',)
            return None
        r = itp.iterate(it, cb2)
        return None if r == ('islice',) else r
    return GenV('gen', run2)


def it_accumulate(itp, a, k):
    it = a[0]
    f = a[1] if len(a) > 1 else k.get('func')
    init = k.get('initial')

    def run(itp, cb):
        ctx = itp.ctx
        st = Store(ctx)
        if init is None:
            raise Unsupported('accumulate without an initial value')
        st.slots['acc'] = init
        r = cb(init)
        if r is not None:
            return r

        def cb2(v):
            x = st.slots['acc']
            x = binop(itp, ast.Add, x, v) if f is None else itp.call(f, [x, v])
            ctx.set(st, 'acc', x)
            return cb(x)
        return itp.iterate(it, cb2)
    return GenV('gen', run)


def it_starmap(itp, a, k):
    f, it = a
    return GenV('gen', lambda itp, cb: itp.iterate(it, lambda v: cb(itp.call(f, itp.seq_vals(v)))))


def it_takewhile(itp, a, k):
    f, it = a

    def run(itp, cb):
        def cb2(v):
            if not itp.test(itp.call(f, [v])):
                return ('takewhile',)
            return cb(v)
        r = itp.iterate(it, cb2)
        return None if r == ('takewhile',) else r
    return GenV('gen', run)


def m_opaque_text(itp, a, k):
    return SStr(None)


def m_copy(itp, a, k):
    v = a[0]
    if isinstance(v, Obj):
        f = itp.class_attr(v.cls, '__copy__')
        if f is not None:
            return itp.call(itp.bind(f, v), [])
        o = Obj(itp.ctx, v.cls)
        o.slots.update(v.slots)
        return o
    if isinstance(v, DictV):
        return DictV(itp.ctx, v.d, v.kind)
    if isinstance(v, ListV):
        return ListV(itp.ctx, v.items, v.kind)
    if isinstance(v, (tuple, str, bytes, SBytes, SObj, SStr, SChars, SEnum)) or is_int(v) or v is None:
        return v
    raise Unsupported('copy of %r' % (v,))


def m_deepcopy(itp, a, k):
    v = a[0]
    if isinstance(v, Obj):
        o = Obj(itp.ctx, v.cls)
        for n, x in v.slots.items():
            o.slots[n] = m_deepcopy(itp, [x], {})
        return o
    if isinstance(v, (dict, list)):
        return itp.lift(copy.deepcopy(v))
    return m_copy(itp, a, k)


def build(itp):
    import blosc
    install_axioms(itp.ctx)
    M = {}

    def reg(o, f):
        M[id(o)] = (o, f)
    for o, f in [(len, m_len), (int, m_int), (str, m_str), (repr, m_repr), (bool, m_bool),
                 (isinstance, m_isinstance), (issubclass, m_issubclass), (hasattr, m_hasattr),
                 (callable, m_callable), (getattr, m_getattr), (setattr, m_setattr), (range, m_range),
                 (enumerate, m_enumerate), (zip, m_zip), (map, m_map), (filter, m_filter),
                 (all, m_allany(True)), (any, m_allany(False)), (sum, m_sum), (min, m_minmax(True)),
                 (max, m_minmax(False)), (sorted, m_sorted), (reversed, m_reversed), (list, m_list),
                 (tuple, m_tuple), (dict, m_dict(dict)), (set, m_set), (frozenset, m_set), (iter, m_iter),
                 (next, m_next), (divmod, m_divmod), (abs, m_abs), (round, m_round), (bin, m_bin),
                 (format, m_format), (print, m_print), (type, m_type), (bytes, m_bytes(bytes)),
                 (bytearray, m_bytearray), (memoryview, m_memoryview), (float, m_float), (super, m_super),
                 (open, m_open), (vars, m_vars), (id, m_id), (pow, m_pow), (sys.exit, m_sysexit),
                 (struct.pack, s_pack), (struct.unpack, s_unpack), (struct.unpack_from, s_unpack_off), (struct.iter_unpack, s_iter_unpack),
                 (struct.calcsize, s_calcsize), (struct.Struct, conc_or(itp, struct.Struct)), (int.from_bytes, i_from_bytes),
                 (io.BytesIO, new_bytesio),
                 (os.path.exists, p_exists), (os.path.isfile, p_exists), (os.path.getsize, p_getsize),
                 (json.dumps, j_dumps), (json.loads, j_loads),
                 (json.load, lambda i, a, k: j_loads(i, [i.call(i.getattr(a[0], 'read'), [])] + list(a[1:]), k)),
                 (json.dump, lambda i, a, k: i.call(i.getattr(a[1], 'write'), [j_dumps(i, [a[0]] + list(a[2:]), k)]) and None),
                 (zlib.compress, z_compress), (zlib.decompress, z_decompress),
                 (zlib.adler32, z_hash('adler32')), (zlib.crc32, z_hash('crc32')),
                 (blosc.compress, bl_compress), (blosc.decompress, bl_decompress),
                 (blosc.set_nthreads, bl_setn),
                 (itertools.repeat, it_repeat), (itertools.chain, it_chain), (itertools.islice, it_islice),
                 (itertools.accumulate, it_accumulate), (itertools.starmap, it_starmap), (itertools.takewhile, it_takewhile),
                 (collections.OrderedDict, m_dict(collections.OrderedDict)),
                 (pprint.pformat, m_opaque_text), (copy.copy, m_copy), (copy.deepcopy, m_deepcopy),
                 (operator.add, lambda i, a, k: binop(i, ast.Add, *a)),
                 (operator.itemgetter, m_itemgetter), (operator.attrgetter, m_attrgetter), (os.stat, m_stat),
                 (contextlib.contextmanager, m_ctxmanager), (contextlib.ExitStack, lambda i, a, k: CtxV('stack')),
                 (contextlib.closing, lambda i, a, k: CtxV('closing', a[0])),
                 (contextlib.suppress, lambda i, a, k: CtxV('suppress', a)),
                 (contextlib.nullcontext, lambda i, a, k: CtxV('null', a[0] if a else None)), (functools.partial, m_partial),
                 (functools.reduce, m_reduce), (math.ceil, m_ceil), (math.floor, m_floor),
                 (ast.literal_eval, conc_or(itp, ast.literal_eval)),
                 ]:
        reg(o, f)
    for n in DIG_NAMES[3:]:
        reg(getattr(hashlib, n), h_new(n))
    import inspect
    for n in ('compressor_list',):
        if hasattr(blosc, n):
            reg(getattr(blosc, n), conc_or(itp, getattr(blosc, n)))
    from . import npmodel
    npmodel.build(itp, reg)
    M['pure'] = {id(o) for o in (ord, chr, hex, oct, hash, str.join, os.path.join, os.path.basename, os.path.dirname,
                                 os.path.splitext, os.path.abspath, bytes.fromhex)}
    return M


def m_stat(itp, a, k):
    n = p_getsize(itp, a, {})
    return StatV(n)


class StatV(SModel):
    def __init__(self, n):
        self.n = n

    def attr(self, itp, name):
        if name == 'st_size':
            return self.n
        raise Unsupported('stat().' + name)


def m_ctxmanager(itp, a, k):
    f = a[0]
    return ModelFn('contextmanager', lambda itp, b, kk: CtxV('gen', itp.call(f, b, kk)))


def m_attrgetter(itp, a, k):
    def get(o, path):
        for n in path.split('.'):
            o = itp.getattr(o, n)
        return o
    return ModelFn('attrgetter', lambda itp, b, kk: get(b[0], a[0]) if len(a) == 1 else tuple(get(b[0], x) for x in a))


def m_itemgetter(itp, a, k):
    if len(a) > 1:
        return ModelFn('itemgetter', lambda itp, b, kk: tuple(itp.subscript(b[0], x) for x in a))
    i = a[0]
    return ModelFn('itemgetter', lambda itp, b, kk: itp.subscript(b[0], i))


def m_partial(itp, a, k):
    f, pre = a[0], list(a[1:])
    return ModelFn('partial', lambda itp, b, kk: itp.call(f, pre + list(b), dict(k, **kk)))


def m_reduce(itp, a, k):
    f, it = a[0], a[1]
    vals = itp.seq_vals(it)
    if len(a) > 2:
        acc = a[2]
    elif vals:
        acc = vals.pop(0)
    else:
        itp.exc(TypeError, 'reduce() of empty iterable')
    for v in vals:
        acc = itp.call(f, [acc, v])
    return acc


def m_ceil(itp, a, k):
    v = a[0]
    if is_int(v):
        return v
    if isinstance(v, SFloat):
        raise Unsupported('rounding of a symbolic float')
    return conc_or(itp, math.ceil)(itp, a, k)


def m_floor(itp, a, k):
    v = a[0]
    if is_int(v):
        return v
    if isinstance(v, SFloat):
        raise Unsupported('rounding of a symbolic float')
    return conc_or(itp, math.floor)(itp, a, k)


# ------------------------------------------------------------------ methods
def b_strip(left, right):
    def m(itp, v, a, k):
        ch = a[0] if a else None
        if ch != b'\0':
            raise Unsupported('bytes.strip of other than NUL')
        ctx = itp.ctx
        r = list(to_rope(v))
        isz = lambda s: (type(s) is Lit and not s.b.strip(b'\0')) or (type(s) is Rep and len(s.unit) == 1 and type(s.unit[0]) is Lit and not s.unit[0].b.strip(b'\0'))
        if right:
            while r and isz(r[-1]):
                r.pop()
        if left:
            while r and isz(r[0]):
                r.pop(0)
        r = rope(*r)
        if not r:
            return b''
        # known not to begin / end with NUL?
        t = term_of(ctx, r)
        f = F('strip%d%d' % (left, right), BS, BS)
        q = F('nuls_at_ends', BS, BOOL)
        if len(r) == 1 and type(r[0]) is Sl and ctx.valid(z3.Not(q(t))):
            return mk_bytes(r)
        if len(r) == 1 and type(r[0]) is Lit:
            return r[0].b.strip(b'\0') if left and right else r[0].b.rstrip(b'\0') if right else r[0].b.lstrip(b'\0')
        o = f(t)
        ctx.assume(blen(o) >= 0)
        ctx.assume(blen(o) <= zi(rlen(r)))
        ctx.assume(z3.Implies(z3.Not(q(t)), o == t))
        return mk_bytes(atom_rope(o))
    return m


def b_join(itp, v, a, k):
    """bytes.join"""
    sep = to_rope(v)
    if isinstance(a[0], GenV) or isinstance(a[0], (ListV, tuple, list, RangeV)):
        if not sep:
            acc = Store(itp.ctx)
            acc.slots['join'] = b''

            def cb(x):
                if not is_bytes(x):
                    itp.exc(TypeError, 'sequence item: expected a bytes-like object')
                itp.ctx.set(acc, 'join', mk_bytes(rcat(to_rope(acc.slots['join']), to_rope(x))))
            itp.iterate(a[0], cb)
            return acc.slots['join']
        vals = itp.list_vals(itp.to_list(a[0]))
        out = ()
        for i, x in enumerate(vals):
            out = rcat(out, sep if i else (), want_bytes(itp, x))
        return mk_bytes(out)
    raise Unsupported('join of %r' % (a[0],))


def b_just(left):
    def m(itp, v, a, k):
        r = to_rope(v)
        w = want_int(itp, a[0])
        fill = a[1] if len(a) > 1 else b' '
        n = rlen(r)
        c = icmp('<', n, w)
        if itp.ctx.branch(zb(c) if sym(c) else c):
            pad = rope(Rep((Lit(fill),), 1, isub(w, n)))
            return mk_bytes(rcat(r, pad) if left else rcat(pad, r))
        return mk_bytes(r)
    return m


def b_starts(itp, v, a, k):
    r = to_rope(v)
    p = want_bytes(itp, a[0])
    n, m = rlen(r), rlen(p)
    c = icmp('>=', n, m)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        return False
    return req_cond(itp.ctx, rslice(itp.ctx, r, 0, m), p)


def text_part(itp, v, p, end):
    """does the text v end / start with p"""
    r, q = text_rope(v), text_rope(p)
    if r is None or q is None:
        return None
    n, m = rlen(r), rlen(q)
    c = icmp('>=', n, m)
    if not itp.ctx.branch(zb(c) if sym(c) else c):
        return False
    return req_cond(itp.ctx, rslice(itp.ctx, r, isub(n, m), n) if end else rslice(itp.ctx, r, 0, m), q)


def s_endswith(itp, v, a, k):
    c = text_part(itp, v, a[0], True)
    if c is not None:
        return c
    t, p = itp.str_term(v), itp.str_term(a[0])
    if isinstance(t, z3.SeqRef) and isinstance(p, z3.SeqRef):
        return z3.SuffixOf(p, t)
    raise Unsupported('endswith on symbolic text')


def s_startswith(itp, v, a, k):
    c = text_part(itp, v, a[0], False)
    if c is not None:
        return c
    t, p = itp.str_term(v), itp.str_term(a[0])
    if isinstance(t, z3.SeqRef) and isinstance(p, z3.SeqRef):
        return z3.PrefixOf(p, t)
    raise Unsupported('startswith on symbolic text')


def str_join(itp, v, a, k):
    vals = None
    if isinstance(a[0], (str, SChars)):
        vals = itp.seq_vals(a[0])
    try:
        if vals is None:
            vals = itp.list_vals(itp.to_list(a[0]))
    except Unsupported:
        return SStr(None)
    parts = []
    for i, x in enumerate(vals):
        if not isinstance(x, (str, SStr, SChars, SEnum, SBin)):
            if isinstance(x, (SObj, SOther)):
                return SStr(None)
            itp.exc(TypeError, 'sequence item: expected str instance')
        if i and v != '':
            parts.append(v)
        parts.append(enum_chars(itp, x) if isinstance(x, SEnum) else x)
    return itp.str_concat(parts) if parts else ''


def enum_chars(itp, x):
    """a choice between texts of one length as its characters"""
    if not all(isinstance(v, str) for v in x.vals) or len(set(map(len, x.vals))) != 1:
        return itp.pick(x)
    out = []
    for cs in zip(*x.vals):
        c = ord(cs[-1])
        for i in reversed(range(len(cs) - 1)):
            c = c if not sym(c) and c == ord(cs[i]) else iite(zb(ieq(x.idx, i)), ord(cs[i]), c)
        out.append(c)
    return SChars(out)


def chars_count(itp, v, a, k):
    s = itp.concretize(a[0])
    if s is _NC or not isinstance(s, str) or len(s) != 1:
        raise Unsupported('count of a text')
    n = 0
    for c in v.c:
        e = ieq(c, ord(s))
        n = iadd(n, iite(e, 1, 0) if sym(e) else int(e))
    return n


def str_brace_format(itp, v, a, k):
    """str.format with plain fields"""
    import string
    f = itp.concretize(v)
    if f is _NC or not isinstance(f, str):
        return SStr(None)
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(f))
    except ValueError as e:
        raise PyExc(ExcVal(ValueError, e.args))
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if spec and ('{' in spec):
            return SStr(None)
        root = re.match(r'[^.\[]*', name).group(0)
        rest = name[len(root):]
        if root == '':
            root, auto = str(auto), auto + 1
        if root.isdigit():
            if int(root) >= len(a):
                itp.exc(IndexError, 'Replacement index out of range')
            x = a[int(root)]
        elif root in k:
            x = k[root]
        else:
            itp.exc(KeyError, root)
        for kind, s in re.findall(r'([.\[])([^.\[\]]*)', rest):
            x = itp.getattr(x, s) if kind == '.' else itp.subscript(x, int(s) if s.isdigit() else s)
        parts.append(itp.format_value(x, spec or None, ord(conv) if conv else -1))
    return itp.str_concat(parts) if parts else ''



def str_strip(itp, v, a, k):
    if isinstance(v, SStr) and v.term is not None and v.term.sort() == SS and not a:
        return SStr(F('s_strip', SS, SS)(v.term))
    return SStr(None)


def str_opaque(itp, v, a, k):
    return SStr(None)


def bin_rjust(itp, v, a, k):
    w = a[0]
    fill = a[1] if len(a) > 1 else '0'
    if v.pref != 0 or fill != '0':
        raise Unsupported('bin() padding')
    return itp.bin_chars(v.x, w)


def chars_just(kind):
    def m(itp, v, a, k):
        w = a[0]
        fill = a[1] if len(a) > 1 else ('0' if kind == 'z' else ' ')
        pad = [ord(fill)] * max(0, w - len(v.c))
        return SChars(v.c + pad if kind == 'l' else pad + v.c)
    return m


def l_append(itp, v, a, k):
    itp.list_append(v, a[0])


def l_extend(itp, v, a, k):
    itp.list_extend(v, a[0])


def l_index(itp, v, a, k):
    x = a[0]
    vals = itp.seq_vals(v)
    if isinstance(x, SEnum) and all(is_conc(y) for y in vals):
        cl = [itp.concretize(y) for y in vals]
        hit = [i for i, y in enumerate(x.vals) if y in cl]
        c = bor(*[x.idx == i for i in hit])
        if len(hit) == len(x.vals):
            c = True
        if not itp.ctx.branch(zb(c) if sym(c) else c):
            itp.exc(ValueError, 'is not in list')
        if not hit:
            raise PathPruned
        r = cl.index(x.vals[hit[-1]])
        for i in reversed(hit[:-1]):
            r = iite(zb(ieq(x.idx, i)), cl.index(x.vals[i]), r)
        if all(x.vals[i] == cl[i] for i in range(min(len(cl), len(x.vals)))) and len(hit) == len(x.vals):
            return x.idx
        return r
    for i, y in enumerate(vals):
        c = itp.eq(x, y)
        if itp.ctx.branch(zb(c) if sym(c) else c):
            return i
    itp.exc(ValueError, 'is not in list')


def l_pop(itp, v, a, k):
    i = a[0] if a else -1
    r = itp.list_get(v, i)
    itp.delitem(v, i)
    return r


def l_insert(itp, v, a, k):
    n = itp.list_len(v)
    i = itp.clamp(a[0], n, 0)
    x, y = itp.lsplit(v.items, i)
    itp.ctx.set(v, 'items', itp.list_norm(tuple(x) + (LE(a[1]),) + tuple(y)))


def l_copy(itp, v, a, k):
    return ListV(itp.ctx, v.items, list)


def dv(v):
    return v.d if isinstance(v, DictV) else v


def d_get(itp, v, a, k):
    return itp.dict_get(dv(v), a[0], a[1] if len(a) > 1 else None)


def d_keys(itp, v, a, k):
    return itp.newlist(list(dv(v)))


def d_items(itp, v, a, k):
    return itp.newlist([(x, itp.lift(y) if not isinstance(v, DictV) else y) for x, y in dv(v).items()])


def d_values(itp, v, a, k):
    return itp.newlist([itp.lift(y) if not isinstance(v, DictV) else y for y in dv(v).values()])


def d_update(itp, v, a, k):
    for s in a:
        for kk, x in (itp.mapping_items(s) if isinstance(s, (DictV, dict, Obj)) else
                      [tuple(itp.seq_vals(p)) for p in itp.seq_vals(s)]):
            itp.setitem(v, kk, x)
    for kk, x in k.items():
        itp.setitem(v, kk, x)


def d_setdefault(itp, v, a, k):
    if a[0] in v.d:
        return v.d[a[0]]
    itp.setitem(v, a[0], a[1] if len(a) > 1 else None)
    return v.d[a[0]]


def d_pop(itp, v, a, k):
    r = itp.dict_get(v.d, a[0], a[1] if len(a) > 1 else _MISSING)
    if a[0] in v.d:
        itp.delitem(v, a[0])
    return r


def d_copy(itp, v, a, k):
    return DictV(itp.ctx, dv(v), v.kind if isinstance(v, DictV) else type(v))


def set_list(itp, x):
    if isinstance(x, SetV):
        l = x.slots['s']
    elif isinstance(x, (set, frozenset)):
        return sorted(x, key=repr)
    else:
        l = itp.list_vals(itp.to_list(x))
    if not all(is_conc(v) for v in l):
        raise Unsupported('operation on a set of symbolic values')
    return l


def set_op(f):
    def m(itp, v, a, k):
        return SetV(itp.ctx, f(set_list(itp, v), [set_list(itp, x) for x in a]))
    return m


s_diff = set_op(lambda s, o: [x for x in s if not any(x in y for y in o)])
s_union = set_op(lambda s, o: s + [x for i, y in enumerate(o) for x in y if x not in s and not any(x in z for z in o[:i])])
s_inter = set_op(lambda s, o: [x for x in s if all(x in y for y in o)])
s_symd = set_op(lambda s, o: [x for x in s if x not in o[0]] + [x for x in o[0] if x not in s])


def set_issub(itp, v, a, k):
    o = set_list(itp, a[0])
    return all(x in o for x in set_list(itp, v))


def set_issup(itp, v, a, k):
    s = set_list(itp, v)
    return all(x in s for x in set_list(itp, a[0]))


def set_add(itp, v, a, k):
    n = mk_set(itp, v.slots['s'] + [a[0]])
    if len(n.slots['s']) != len(v.slots['s']):
        itp.ctx.set(v, 's', n.slots['s'])


def h_digest(itp, v, a, k):
    d = v.d
    t = d['data'] if d['data'] is not None else lit_term(itp.ctx, b'')
    return mk_bytes(atom_rope(f_alg[d['name']](t)))


def h_update(itp, v, a, k):
    if v.d['data'] is not None:
        raise Unsupported('incremental hashing')
    d = dict(v.d)
    d['data'] = term_of(itp.ctx, want_bytes(itp, a[0]))
    itp.ctx.set(v, 'd', d)


def dict_star(itp, v, name):
    if v.kind is HashObj:
        if name == 'digest':
            return ModelFn('digest', lambda itp, a, k: h_digest(itp, v, a, k))
        if name == 'update':
            return ModelFn('update', lambda itp, a, k: h_update(itp, v, a, k))
        if name == 'digest_size':
            return DIG_SIZES[DIG_NAMES.index(v.d['name'])]
        raise Unsupported('hash attribute')
    if not hasattr(dict, name):
        itp.exc(AttributeError, name)
    raise Unsupported('dict.%s' % name)


def has_sep(v, sep):
    return F('t_has!%s' % sep.encode().hex(), BS, BOOL)(v.r[0].t) if len(v.r) == 1 else None


def s_remove(end):
    def m(itp, v, a, k):
        c = (s_endswith if end else s_startswith)(itp, v, [a[0]], {})
        n = m_len(itp, [a[0]], {})
        if itp.ctx.branch(zb(c)) if sym(c) else c:
            if not sym(n) and n == 0:
                return v
            L = m_len(itp, [v], {})
            return itp.subscript(v, slice(None, isub(L, n)) if end else slice(n, None))
        return v
    return m


def str_rpartition(itp, v, a, k):
    c = s_endswith(itp, v, a, k)
    if itp.ctx.branch(zb(c)) if sym(c) else c:
        return (s_remove(True)(itp, v, a, k), a[0], '')
    raise Unsupported('rpartition of symbolic text')


def str_split(itp, v, a, k):
    if isinstance(v, SText) and len(a) == 1 and isinstance(a[0], str) and len(v.r) == 1 and type(v.r[0]) is Sl:
        if itp.ctx.valid(z3.Not(has_sep(v, a[0]))):
            return itp.newlist([v])
    if isinstance(v, SStr):
        raise Unsupported('split of symbolic text')
    raise Unsupported('split')


def int_method(itp, v, a, k):
    raise Unsupported('int method')


def build_methods(itp):
    D = {}
    for n, f in [('read', file_read), ('readinto', file_readinto), ('write', file_write), ('seek', file_seek), ('tell', file_tell),
                 ('truncate', file_truncate), ('getvalue', file_getvalue), ('close', file_close),
                 ('flush', lambda i, v, a, k: None), ('name', (lambda i, v: v.name,)),
                 ('closed', (lambda i, v: v.slots['closed'],)),
                 ('readable', lambda i, v, a, k: v.readable), ('writable', lambda i, v, a, k: v.writable),
                 ('seekable', lambda i, v, a, k: True),
                 ('getbuffer', lambda i, v, a, k: SBytes(fcontent(i, v), memoryview)),
                 ('__enter__', lambda i, v, a, k: v)]:
        D[('FileV', n)] = f
    for n, f in [('strip', b_strip(True, True)), ('rstrip', b_strip(False, True)), ('lstrip', b_strip(True, False)),
                 ('join', b_join), ('decode', m_decode), ('ljust', b_just(True)), ('rjust', b_just(False)),
                 ('startswith', b_starts), ('tobytes', lambda i, v, a, k: mk_bytes(v.r)),
                 ('nbytes', (lambda i, v: rlen(v.r),)), ('itemsize', (lambda i, v: 1,)),
                 ('release', lambda i, v, a, k: None)]:
        D[('SBytes', n)] = f
        if n not in ('tobytes', 'nbytes', 'itemsize', 'release'):
            if n in ('join', 'decode', 'startswith'):
                D[('ByteArr', n)] = lambda i, v, a, k, f=f: f(i, mk_bytes(v.slots['content']), a, k)
            else:
                D[('ByteArr', n)] = lambda i, v, a, k, f=f: ByteArr(i.ctx, to_rope(f(i, mk_bytes(v.slots['content']), a, k)))
    for n, f in [('extend', ba_extend), ('append', ba_append), ('clear', ba_clear), ('insert', ba_insert), ('pop', ba_insert),
                 ('copy', lambda i, v, a, k: ByteArr(i.ctx, v.slots['content']))]:
        D[('ByteArr', n)] = f
    for t in ('SStr', 'str', 'SChars', 'SText'):
        for n, f in [('encode', m_encode), ('endswith', s_endswith), ('startswith', s_startswith), ('join', str_join),
                     ('format', str_brace_format), ('strip', str_strip), ('replace', str_opaque), ('upper', str_opaque),
                     ('lower', str_opaque), ('split', str_split), ('splitlines', str_split),
                     ('removesuffix', s_remove(True)), ('removeprefix', s_remove(False)), ('rpartition', str_rpartition)]:
            D[(t, n)] = f
    D[('SChars', 'count')] = chars_count
    D[('SChars', 'rjust')] = chars_just('r')
    D[('SChars', 'zfill')] = chars_just('z')
    D[('SChars', 'ljust')] = chars_just('l')
    D[('SBin', 'rjust')] = bin_rjust
    D[('SBin', 'zfill')] = bin_rjust
    for t in ('ListV', 'list', 'tuple'):
        D[(t, 'index')] = l_index
    for n, f in [('append', l_append), ('extend', l_extend), ('pop', l_pop), ('insert', l_insert), ('copy', l_copy)]:
        D[('ListV', n)] = f
    for t in ('DictV', 'dict'):
        for n, f in [('get', d_get), ('keys', d_keys), ('items', d_items), ('values', d_values), ('copy', d_copy),
                     ('update', d_update), ('setdefault', d_setdefault), ('pop', d_pop),
                     ('__contains__', lambda i, v, a, k: a[0] in dv(v))]:
            D[(t, n)] = f
    for n in ('digest', 'update', 'digest_size'):
        pass
    D[('DictV', '*')] = dict_star
    for t in ('SetV', 'set', 'frozenset'):
        for n, f in [('difference', s_diff), ('union', s_union), ('intersection', s_inter),
                     ('symmetric_difference', s_symd), ('issubset', set_issub), ('issuperset', set_issup),
                     ('add', set_add), ('copy', lambda i, v, a, k: SetV(i.ctx, set_list(i, v)))]:
            D[(t, n)] = f
    D[('int', 'to_bytes')] = i_to_bytes
    D[('int', '__index__')] = lambda i, v, a, k: v
    from . import npmodel
    npmodel.build_methods(itp, D)
    # HashObj instances are DictV; 'update' must not be the dict one
    old = D[('DictV', 'update')]
    D[('DictV', 'update')] = lambda i, v, a, k: h_update(i, v, a, k) if v.kind is HashObj else old(i, v, a, k)
    return D


# ------------------------------------------------------------------ operators
def floordiv(itp, a, b):
    """(q, r) with a = q*b + r, 0 <= r < b or b < r <= 0"""
    ctx = itp.ctx
    if not sym(a) and not sym(b):
        return divmod(a, b)
    if not sym(b):
        if b > 0:
            q, r = poly_divmod(a, b)
            if q is not None:
                return q, r
            return norm(zi(a) / z3.IntVal(b)), norm(zi(a) % z3.IntVal(b))
        q, r = floordiv(itp, imul(a, -1), -b)
        return q, imul(r, -1)
    if same(a, b):
        return 1, 0
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        # case by case, when the cases divide without a remainder
        c, x, y = a.children()
        x, y = [v if v.decl().kind() == z3.Z3_OP_ITE else norm(v) for v in (x, y)]
        if all(sym(v) and (v.decl().kind() == z3.Z3_OP_ITE or poly_quotient(v, norm(b)) is not None) or v == 0
               for v in (x, y)):
            x, y = floordiv(itp, x, b), floordiv(itp, y, b)
            return iite(c, x[0], y[0]), iite(c, x[1], y[1])
    an, bn = norm(zi(a)), norm(b)
    q = poly_quotient(an, bn)
    if q is not None and ctx.valid(zi(bn) != 0):
        return q, 0
    key = ('divmod', an.get_id() if sym(an) else an, bn.get_id())
    hit = ctx.seen.get(key)
    if hit is not None:
        return hit[0], hit[1]
    q, r = ctx.fresh_int('quo'), ctx.fresh_int('rem')
    bz, az = zi(bn), zi(an)
    ctx.assume(az == zi(imul(q, bn)) + r)
    ctx.assume(z3.Implies(bz > 0, z3.And(r >= 0, r < bz)))
    ctx.assume(z3.Implies(bz < 0, z3.And(r <= 0, r > bz)))
    # consequences that are non-linear for the solver
    ctx.assume(z3.Implies(z3.And(bz > 0, az >= 0), z3.And(q >= 0, q <= az, zi(imul(q, bn)) <= az)))
    ctx.assume(z3.Implies(z3.And(bz > 0, az >= bz), q >= 1))
    ctx.assume(z3.Implies(z3.And(bz > 0, az >= 0, az < bz), q == 0))
    ctx.dset(ctx.seen, key, (q, r, an, bn))
    return q, r


def poly_quotient(a, b):
    """q with a = q*b when every monomial of a contains the monomial b"""
    from .core import _poly, _from_poly
    pb = _poly(b)
    if len(pb) != 1:
        return None
    (m, c), = pb.items()
    if not m:
        return None
    out = {}
    for n, v in _poly(a).items():
        n = list(n)
        for x in m:
            if x not in n:
                return None
            n.remove(x)
        if v % c:
            return None
        out[tuple(n)] = v // c
    return _from_poly(out)


def float_ok(v):
    return isinstance(v, (float, SFloat))


def fl(v):
    if isinstance(v, SFloat):
        return v
    if isinstance(v, float):
        return SFloat(('const', v))
    return SFloat(('int', zi(v) if sym(v) else int(v)))


def binop(itp, op, a, b):
    ctx = itp.ctx
    if isinstance(a, Poison):
        raise PoisonRead(a.slot)
    if isinstance(b, Poison):
        raise PoisonRead(b.slot)
    if isinstance(a, SEnum):
        a = enum_simpl(itp, a)
    if isinstance(b, SEnum):
        b = enum_simpl(itp, b)
    if op is ast.Mod and (isinstance(a, (str, SStr, SChars))):
        return str_format(itp, a, b)
    if op is ast.Mod and isinstance(a, bytes):
        return bytes_format(itp, a, b)
    if op is ast.Mult and (isinstance(a, ByteArr) or isinstance(b, ByteArr)):
        a, b = [mk_bytes(to_rope(x)) if isinstance(x, ByteArr) else x for x in (a, b)]
        return ByteArr(ctx, to_rope(binop(itp, op, a, b)))
    if isinstance(a, SEnum):
        a = itp.pick(a)
    if isinstance(b, SEnum):
        b = itp.pick(b)
    if op is ast.Mult and isinstance(a, bytes) and isinstance(b, int) and len(a) * b > 4096:
        return mk_bytes(rope(Rep(to_rope(a), len(a), b)))
    if is_conc(a) and is_conc(b) and not isinstance(a, (list, dict, set)) and not isinstance(b, (list, dict, set)):
        return conc_binop(op, a, b)
    if is_int(a) and is_int(b):
        return int_binop(itp, op, zi(a) if sym(a) else int(a), zi(b) if sym(b) else int(b), a, b)
    if (float_ok(a) or is_int(a)) and (float_ok(b) or is_int(b)):
        nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div'}.get(op)
        if nm is None:
            raise Unsupported('float operation')
        if op is ast.Div and is_int(b):
            c = ieq(b, 0)
            if ctx.branch(zb(c) if sym(c) else c):
                itp.exc(ZeroDivisionError, 'division by zero')
        return SFloat((nm, fl(a), fl(b)))
    if op is ast.Add:
        if isinstance(a, ByteArr) and is_bytes(b):
            return ByteArr(ctx, rcat(to_rope(a), to_rope(b)))
        if is_bytes(a) and is_bytes(b):
            return mk_bytes(rcat(to_rope(a), to_rope(b)))
        if isinstance(a, (str, SStr, SChars)) and isinstance(b, (str, SStr, SChars)):
            return itp.str_concat([a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (ListV, list)) and isinstance(b, (ListV, list)):
            if (a.kind if isinstance(a, ListV) else list) is not (b.kind if isinstance(b, ListV) else list):
                itp.exc(TypeError, 'can only concatenate list to list')
            return ListV(ctx, itp.list_norm(tuple(itp.list_segs(a)) + tuple(itp.list_segs(b))),
                         a.kind if isinstance(a, ListV) else list)
    if op is ast.Mult:
        if is_int(a) and not is_int(b):
            a, b = b, a
        if is_int(b):
            n = zi(b) if sym(b) else int(b)
            if is_bytes(a):
                r = to_rope(a)
                if not sym(rlen(r)):
                    m = n if not sym(n) or ctx.valid(n >= 0) else imax(n, 0)
                    return mk_bytes(rope(Rep(r, rlen(r), m))) if r else b''
                raise Unsupported('repetition of a symbolic block')
            if isinstance(a, (ListV, list)):
                vals = seq_known(itp, a)
                if vals is not None:
                    m = n if not sym(n) or ctx.valid(n >= 0) else imax(n, 0)
                    if not sym(m):
                        return itp.newlist(vals * m)
                    if len(vals) == 1:
                        return ListV(ctx, (LRep(vals[0], m),))
                raise Unsupported('list repetition')
            if isinstance(a, (SStr, str, SChars)):
                return SStr(None)
    if isinstance(a, (SetV, set, frozenset)) and isinstance(b, (SetV, set, frozenset)):
        f = {ast.Sub: s_diff, ast.BitOr: s_union, ast.BitAnd: s_inter, ast.BitXor: s_symd}.get(op)
        if f:
            return f(itp, a, [b], {})
    if isinstance(a, (SOther, SObj)) or isinstance(b, (SOther, SObj)):
        raise Unsupported('arithmetic on an opaque value')
    if isinstance(a, Obj) or isinstance(b, Obj):
        raise Unsupported('operator on objects')
    # a TypeError where the types have no such operator, otherwise something this model lacks
    samples = {int: 1, bool: True, str: '', bytes: b'', bytearray: bytearray(), list: [], tuple: (), dict: {}, set: set(),
               float: 1.0, type(None): None}
    try:
        x, y = samples[itp.pytype(a)], samples[itp.pytype(b)]
    except KeyError:
        raise Unsupported('operator')
    try:
        OPF[op](x, y)
    except TypeError:
        itp.exc(TypeError, 'unsupported operand type(s)')
    except Exception:
        pass
    raise Unsupported('operator %s' % op.__name__)


def bytes_format(itp, fmt, args):
    import re
    c = itp.concretize(args)
    if c is not _NC:
        return conc_binop(ast.Mod, fmt, c)
    specs = re.findall(rb'%(.)', fmt)
    vals = list(args) if isinstance(args, tuple) else [args]
    if any(s not in b'bs' for s in specs) or len(vals) != len(specs) or not all(is_bytes(v) for v in vals):
        raise Unsupported('bytes formatting')
    lits = re.split(rb'%[bs]', fmt)
    out = ()
    for i, l in enumerate(lits):
        out = rcat(out, rope(Lit(l)) if l else ())
        if i < len(vals):
            out = rcat(out, to_rope(vals[i]))
    return mk_bytes(out)


def enum_simpl(itp, v):
    if all(is_int(x) for x in v.vals):
        return itp.merge_enum(v.idx, list(v.vals))
    return v


OPF = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}


def conc_binop(op, a, b):
    try:
        return OPF[op](a, b)
    except Exception as e:
        raise PyExc(ExcVal(type(e), e.args))


def int_binop(itp, op, a, b, oa, ob):
    ctx = itp.ctx
    if op is ast.Add:
        return iadd(a, b)
    if op is ast.Sub:
        return isub(a, b)
    if op is ast.Mult:
        return imul(a, b)
    if op in (ast.FloorDiv, ast.Mod, ast.Div):
        c = ieq(b, 0)
        if ctx.branch(zb(c) if sym(c) else c):
            itp.exc(ZeroDivisionError, 'division by zero')
        if op is ast.Div:
            return SFloat(('idiv', a, b))
        q, r = floordiv(itp, a, b)
        return q if op is ast.FloorDiv else r
    if op is ast.Pow and not sym(b) and 0 <= b <= 8:
        r = 1
        for _ in range(b):
            r = imul(r, a)
        return r
    if op is ast.LShift and not sym(b) and b >= 0:
        return imul(a, 2 ** b)
    if op is ast.RShift and not sym(b) and b >= 0:
        return floordiv(itp, a, 2 ** b)[0]
    isb = lambda x: isinstance(x, bool) or (sym(x) and z3.is_bool(x))
    if isb(oa) and isb(ob):
        if op is ast.BitAnd:
            return band(oa, ob)
        if op is ast.BitOr:
            return bor(oa, ob)
        if op is ast.BitXor:
            return z3.Xor(zb(oa), zb(ob))
    if op is ast.BitAnd:
        if sym(b) and not sym(a):
            a, b = b, a
        if not sym(b) and b >= 0:
            return and_const(itp, a, b)
    if op is ast.BitOr:
        if sym(b) and not sym(a):
            a, b = b, a
        if not sym(b) and b >= 0:
            return isub(iadd(a, b), and_const(itp, a, b))
        # disjoint bit fields: x | (y << k)
        if sym(a) and sym(b):
            for x, y in ((a, b), (b, a)):
                for s in range(1, 64):
                    q, r = poly_divmod(y, 2 ** s)
                    if q is None or r:
                        break
                    if ctx.valid(z3.And(x >= 0, x < 2 ** s)):
                        return iadd(x, y)
    raise Unsupported('bit operation %s on symbolic integers' % op.__name__)


def and_const(itp, a, m):
    if m == 0:
        return 0
    ctx = itp.ctx
    if (m & (m + 1)) == 0:
        if ctx.valid(zb(band(icmp('>=', a, 0), icmp('<=', a, m)))):
            return a
        return floordiv(itp, a, m + 1)[1]
    out = 0
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            part = floordiv(itp, floordiv(itp, a, 2 ** i)[0], 2 ** (j - i))[1]
            out = iadd(out, imul(part, 2 ** i))
            i = j
        else:
            i += 1
    return out


def str_format(itp, fmt, args):
    c = itp.concretize(args)
    if c is not _NC and isinstance(fmt, str):
        try:
            return fmt % c
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    import re
    specs = re.findall(r'%(\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?(.)', fmt)
    specs = [(s[1], s[3]) for s in specs if s[3] != '%']
    if isinstance(args, tuple):
        vals = list(args)
    elif isinstance(args, ListV) and args.kind is tuple:
        vals = itp.list_vals(args)
    else:
        vals = [args]
    if any(s[0] for s in specs):
        vals = [itp.dict_get(dv(args), s[0]) for s in specs]
    if len(vals) < len(specs):
        itp.exc(TypeError, 'not enough arguments for format string')
    if len(vals) > len(specs) and not isinstance(args, (DictV, dict)):
        itp.exc(TypeError, 'not all arguments converted during string formatting')
    for (_, s), v in zip(specs, vals):
        if isinstance(v, Poison):
            raise PoisonRead(v.slot)
        if s in 'diouxX':
            if isinstance(v, SEnum):
                v = itp.pick(v)
            if not (is_int(v) or (s in 'di' and float_ok(v))):
                if isinstance(v, (SObj, SOther)):
                    raise Unsupported('number format of an opaque value')
                itp.exc(TypeError, '%d format: a number is required')
        elif s in 'eEfFgG':
            if not (is_int(v) or float_ok(v)):
                itp.exc(TypeError, 'must be real number')
        elif s in 'srac':
            if isinstance(v, Obj):
                itp.to_str(v)
    if all(s in 'sd' for _, s in specs) and re.sub(r'%[sd]', '', fmt).find('%') < 0:
        lits = re.split('%[sd]', fmt)
        parts = []
        for i, l in enumerate(lits):
            if l:
                parts.append(l)
            if i < len(vals):
                v = vals[i]
                if specs[i][1] == 'd' and not is_int(v):
                    return SStr(None)
                v = itp.to_str(v)
                if isinstance(v, SEnum) or isinstance(v, SBin):
                    return SStr(None)
                parts.append(v)
        r = itp.str_concat(parts)
        return r
    return SStr(None)


def eq(itp, a, b):
    """Python equality as bool / z3 Bool"""
    ctx = itp.ctx
    if isinstance(a, Poison):
        raise PoisonRead(a.slot)
    if isinstance(b, Poison):
        raise PoisonRead(b.slot)
    if a is b:
        return True
    if isinstance(b, SEnum) and not isinstance(a, SEnum):
        a, b = b, a
    if isinstance(a, SEnum):
        if isinstance(b, SEnum):
            if a.vals == b.vals:
                return ieq(a.idx, b.idx)
            out = []
            for i, x in enumerate(a.vals):
                for j, y in enumerate(b.vals):
                    c = eq(itp, x, y)
                    if c is not False:
                        out.append(band(ieq(a.idx, i), ieq(b.idx, j), c))
            return bor(*out)
        hits = []
        for i, x in enumerate(a.vals):
            c = eq(itp, x, b)
            if c is not False:
                hits.append(band(ieq(a.idx, i), c))
        return bor(*hits)
    if is_int(a) and is_int(b):
        if isinstance(a, bool) and sym(b) and z3.is_bool(b):
            return b if a else bnot(b)
        if isinstance(b, bool) and sym(a) and z3.is_bool(a):
            return a if b else bnot(a)
        return ieq(zi(a) if sym(a) else int(a), zi(b) if sym(b) else int(b))
    if is_bytes(a) and is_bytes(b):
        return req_cond(ctx, to_rope(a), to_rope(b))
    if isinstance(b, (SChars,)) and isinstance(a, str):
        a, b = b, a
    if isinstance(a, SChars):
        if isinstance(b, (str, SChars)):
            bc = [ord(c) for c in b] if isinstance(b, str) else b.c
            if len(bc) != len(a.c):
                return False
            return band(*[ieq(x, y) for x, y in zip(a.c, bc)])
        if isinstance(b, SStr):
            raise Unsupported('comparison with arbitrary text')
        return False
    if isinstance(a, SText) or isinstance(b, SText):
        ra, rb = text_rope(a), text_rope(b)
        if ra is not None and rb is not None:
            return req_cond(ctx, ra, rb)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        ta, tb = itp.str_term(a), itp.str_term(b)
        if ta is not None and tb is not None and ta.sort() == tb.sort():
            return ta == tb
        if isinstance(a, SStr) and a.tag is not None and isinstance(b, str):
            return text_eq(itp, a, b)
        if isinstance(b, SStr) and b.tag is not None and isinstance(a, str):
            return text_eq(itp, b, a)
        raise Unsupported('comparison of arbitrary text')
    if isinstance(a, SObj) or isinstance(b, SObj):
        if isinstance(b, SObj) and not isinstance(a, SObj):
            a, b = b, a
        if isinstance(b, SObj):
            f = F('obj_eq', OS, OS, BOOL)
            x, y = (a.term, b.term) if a.term.get_id() <= b.term.get_id() else (b.term, a.term)
            c = f(x, y)
            ctx.assume(z3.Implies(x == y, c))
            return c
        if b is None:
            return itp.obj_isnone(a)
        return F('obj_eq', OS, OS, BOOL)(a.term, obj_term(itp, b))
    if isinstance(a, SOther) or isinstance(b, SOther):
        o, x = (a, b) if isinstance(a, SOther) else (b, a)
        if isinstance(x, SOther) and o is not x:
            raise Unsupported('comparison of arbitrary values')
        if type(x) in o.excluded or any(isinstance(x, e) for e in o.excluded if isinstance(e, type)):
            return False
        raise Unsupported('comparison with an arbitrary value')
    if isinstance(a, (tuple, ListV, list)) and isinstance(b, (tuple, ListV, list)):
        ka = tuple if isinstance(a, tuple) else itp.pytype(a)
        kb = tuple if isinstance(b, tuple) else itp.pytype(b)
        if ka is not kb:
            return False
        x, y = seq_known(itp, a), seq_known(itp, b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return band(*[eq(itp, p, q) for p, q in zip(x, y)])
        from .loops import lists_equal
        if isinstance(a, ListV) and isinstance(b, ListV) and lists_equal(itp, a.items, b.items):
            return True
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, (DictV, dict)) and isinstance(b, (DictV, dict)):
        x, y = dv(a), dv(b)
        if set(x) != set(y):
            return False
        return band(*[eq(itp, x[n], y[n]) for n in x])
    if isinstance(a, (SetV, set, frozenset)) and isinstance(b, (SetV, set, frozenset)):
        return set(set_list(itp, a)) == set(set_list(itp, b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            f = itp.class_attr(x.cls, '__eq__')
            import collections.abc as cabc
            if f is not None and not issubclass(x.cls, cabc.Mapping):
                return itp.truth(itp.call(itp.bind(f, x), [y]))
            if issubclass(x.cls, cabc.Mapping) and isinstance(y, (Obj, DictV, dict)) and \
                    (not isinstance(y, Obj) or issubclass(y.cls, cabc.Mapping)):
                return eq(itp, DictV(ctx, dict(itp.mapping_items(x))), DictV(ctx, dict(itp.mapping_items(y))))
            return False
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        raise Unsupported('comparison of symbolic floats')
    from . import npmodel
    r = npmodel.eq(itp, a, b)
    if r is not NotImplemented:
        return r
    if is_conc(a) and is_conc(b):
        return a == b
    kinds = lambda v: 'int' if is_int(v) else 'bytes' if is_bytes(v) else 'str' if isinstance(v, (str, SStr, SChars, SBin)) \
        else 'seq' if isinstance(v, (tuple, list, ListV)) else 'dict' if isinstance(v, (dict, DictV)) \
        else 'none' if v is None else 'float' if isinstance(v, float) else 'file' if isinstance(v, FileV) else 'other'
    if kinds(a) != kinds(b):
        return False
    if isinstance(a, (FuncV, BoundV, ModelFn, FileV, type, types.FunctionType)):
        return False
    if (type(a).__module__ or '').startswith('bloscpack') and type(a).__eq__ is object.__eq__:
        return a is b
    raise Unsupported('equality of %r and %r' % (a, b))


def text_eq(itp, a, s):
    """arbitrary text with a tag against a constant"""
    t = F('text_is_%s' % s, INT, BOOL)
    raise Unsupported('comparison of arbitrary text')


def compare(itp, op, a, b):
    ctx = itp.ctx
    if isinstance(a, Poison):
        raise PoisonRead(a.slot)
    if isinstance(b, Poison):
        raise PoisonRead(b.slot)
    if op in (ast.Is, ast.IsNot):
        r = is_(itp, a, b)
        return r if op is ast.Is else bnot(r)
    if op in (ast.Eq, ast.NotEq):
        r = eq(itp, a, b)
        return r if op is ast.Eq else bnot(r)
    if op in (ast.In, ast.NotIn):
        r = contains(itp, b, a)
        return r if op is ast.In else bnot(r)
    o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[op]
    if isinstance(a, SEnum):
        a = enum_simpl(itp, a)
    if isinstance(b, SEnum):
        b = enum_simpl(itp, b)
    if isinstance(a, SEnum):
        a = itp.pick(a)
    if isinstance(b, SEnum):
        b = itp.pick(b)
    if is_int(a) and is_int(b):
        return icmp(o, zi(a) if sym(a) else int(a), zi(b) if sym(b) else int(b))
    if is_conc(a) and is_conc(b):
        try:
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[o](a, b)
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    if isinstance(a, (SetV, set)) and isinstance(b, (SetV, set)):
        x, y = set(set_list(itp, a)), set(set_list(itp, b))
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        raise Unsupported('tuple ordering')
    num = lambda v: is_int(v) or float_ok(v)
    if num(a) and num(b):
        if isinstance(b, float) and is_int(a) and b == int(b):
            return icmp(o, a, int(b))
        raise Unsupported('comparison of symbolic floats')
    if isinstance(a, (SObj, SOther)) or isinstance(b, (SObj, SOther)):
        x = a if isinstance(a, (SObj, SOther)) else b
        if isinstance(x, SOther):
            # an arbitrary non-number compared with a number
            if int in x.excluded and (is_int(a) or is_int(b)):
                itp.exc(TypeError, "'<' not supported")
        raise Unsupported('ordering of opaque values')
    txt = lambda v: isinstance(v, (str, SStr, SChars))
    if (txt(a) and txt(b)) or (is_bytes(a) and is_bytes(b)):
        raise Unsupported('ordering of symbolic text')
    itp.exc(TypeError, "'%s' not supported" % o)


def is_(itp, a, b):
    if isinstance(b, SEnum):
        a, b = b, a
    if isinstance(a, SEnum):
        if b is None or isinstance(b, bool):
            hits = [i for i, x in enumerate(a.vals) if x is b]
            return bor(*[a.idx == i for i in hits])
        a = itp.pick(a)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None:
            if isinstance(x, SObj):
                return itp.obj_isnone(x)
            if isinstance(x, SOther):
                if type(None) in x.excluded:
                    return False
                raise Unsupported('identity of an arbitrary value')
            return False
        if isinstance(y, bool):
            if sym(x) and z3.is_bool(x):
                return x if y else bnot(x)
            if isinstance(x, SObj):
                raise Unsupported('identity of an opaque value')
            return False
    if isinstance(a, (Store, type, types.FunctionType, types.ModuleType)) or isinstance(b, (Store, type)):
        return False
    if is_int(a) and is_int(b) or (isinstance(a, str) and isinstance(b, str)):
        return eq(itp, a, b)
    if (type(a).__module__ or '').startswith('bloscpack'):
        return False
    raise Unsupported('identity of values')


def contains(itp, c, v):
    if isinstance(c, Poison):
        raise PoisonRead(c.slot)
    if isinstance(c, (DictV, dict)):
        d = dv(c)
        if is_conc(v):
            try:
                return v in d
            except TypeError:
                itp.exc(TypeError, 'unhashable type')
        if isinstance(v, (ListV, DictV, SetV)):
            itp.exc(TypeError, 'unhashable type')
        return bor(*[eq(itp, v, x) for x in d])
    if isinstance(c, (SetV, set, frozenset)):
        return bor(*[eq(itp, v, x) for x in (c.slots['s'] if isinstance(c, SetV) else set_list(itp, c))])
    if isinstance(c, (tuple, list, ListV)):
        vals = seq_known(itp, c)
        if vals is None:
            raise Unsupported('membership in a symbolic list')
        return bor(*[eq(itp, v, x) for x in vals])
    if isinstance(c, Obj):
        f = itp.class_attr(c.cls, '__contains__')
        m = itp.mapping_method(c, '__contains__', f)
        if m is not None:
            return itp.truth(itp.call(m, [v]))
        if f is not None:
            return itp.truth(itp.call(itp.bind(f, c), [v]))
    if isinstance(c, RangeV):
        if not is_int(v):
            return False
        if c.step == 1:
            return band(icmp('>=', v, c.lo), icmp('<', v, c.hi))
    if isinstance(c, str) and isinstance(v, SChars) and len(v.c) == 1:
        return bor(*[ieq(v.c[0], ord(x)) for x in sorted(set(c))])
    if is_conc(c) and is_conc(v):
        try:
            return v in c
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))
    if isinstance(c, str) and isinstance(v, SEnum):
        return bor(*[v.idx == i for i, x in enumerate(v.vals) if x in c])
    if isinstance(c, GenV):
        raise Unsupported('membership in an iterator')
    if is_int(c) or c is None:
        itp.exc(TypeError, 'argument is not iterable')
    raise Unsupported('membership in %r' % (c,))
