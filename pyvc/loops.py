"""pyvc loops: unbounded loops are summarised by automatically found forms for the
variables they change; a summary is used only after its inductive step has been verified
for a generic iteration.  No annotation refers to the text of a loop."""
from .core import *
from .values import *


class FormFail(Exception):
    pass


class Run:
    """outcome of one path through the body"""
    def __init__(self):
        self.kind = None
        self.conds = []
        self.mods = {}
        self.vals = {}
        self.failed = []
        self.values = {}


def slotname(store, key):
    return '%s.%s' % (type(store).__name__, key)


# ---------------------------------------------------------------- forms
class Form:
    learned = True

    def __init__(self, L, store, key, old):
        self.L, self.store, self.key, self.old = L, store, key, old
        self.setup()

    def setup(self):
        pass

    def learn(self, new, run):
        return True

    def close(self):
        pass

    def check(self, new):
        return True

    def facts(self, new):
        return []


class Dead(Form):
    """no iteration reads the value the previous one left behind"""
    def setup(self):
        self.news = []

    def at(self, k):
        return Poison((self.store, self.key))

    def begin_verify(self):
        self.news = []

    def check(self, new):
        self.news.append(new)
        return True

    def final(self, n):
        L = self.L
        if not self.news:
            return Poison((self.store, self.key))
        v = self.news[0]
        for w in self.news[1:]:
            if not same_value(v, w):
                return Poison((self.store, self.key))
        if has_store(v, L.sid0):
            return Poison((self.store, self.key))
        L.itp.ctx.instantiate(isub(n, 1))
        return vsubst(v, L.k, isub(n, 1))


class Linear(Form):
    def __init__(self, L, store, key, old, d):
        self.d = d
        Form.__init__(self, L, store, key, old)

    def at(self, k):
        return iadd(self.old, imul(k, self.d))

    def check(self, new):
        return is_int(new) and self.L.ctx.valid(zb(ieq(new, iadd(self.old, imul(iadd(self.L.k, 1), self.d)))))

    def final(self, n):
        return self.at(n)

    def lemma(self, k, n):
        d = self.d
        if not sym(d):
            return []
        return [z3.Implies(zi(d) >= 0, z3.And(zi(imul(k, d)) >= 0,
                                              zi(iadd(imul(k, d), d)) <= zi(imul(n, d))))]


class BigPos(Form):
    """position / counter that advances with the blocks of an existing family"""
    def __init__(self, L, store, key, old, d, lo, hi):
        self.d, self.lo, self.hi = d, lo, hi
        Form.__init__(self, L, store, key, old)

    def at(self, k):
        return iadd(self.old, isub(self.d.PL(iadd(self.lo, k)), self.d.PL(self.lo)))

    def check(self, new):
        return is_int(new) and self.L.ctx.valid(zb(ieq(new, self.at(iadd(self.L.k, 1)))))

    def final(self, n):
        return self.at(n)


class Rec(Form):
    """value given by its recurrence only (with bounds found by trial)"""
    def setup(self):
        ctx = self.L.ctx
        self.nm = ctx.fresh_name('rec_' + str(self.key))
        self.isbool = isinstance(self.old, bool) or (sym(self.old) and z3.is_bool(self.old))
        n0 = len(ctx.idx_stack)
        outer = [x for x in ctx.idx_stack if x is not self.L.k and not x.eq(self.L.k)]
        self.outer = outer
        self.f = F(self.nm, *([INT] * (len(outer) + 1) + [BOOL if self.isbool else INT]))
        ctx._raw_assert(self.at(0) == (zb(self.old) if self.isbool else zi(self.old)))
        self.invs = []
        if not self.isbool:
            for c in (lambda x: x >= 0, lambda x, o=self.old: x >= zi(o)):
                if ctx.valid(zb(c(zi(self.old)))):
                    self.invs.append(c)

    def at(self, k):
        return self.f(*(self.outer + [zi(k)]))

    def assume_at(self, k):
        return [zb(c(self.at(k))) for c in self.invs]

    def check(self, new):
        if self.isbool:
            return isinstance(new, bool) or (sym(new) and z3.is_bool(new))
        if not is_int(new):
            return False
        bad = [c for c in self.invs if not self.L.ctx.valid(zb(c(zi(new))))]
        if bad:
            self.invs = [c for c in self.invs if c not in bad]
            self.L.again = True
        return True

    def facts(self, new):
        return [self.at(iadd(self.L.k, 1)) == (zb(new) if self.isbool else zi(new))] + \
            [zb(c(self.at(iadd(self.L.k, 1)))) for c in self.invs]

    def final(self, n):
        ctx = self.L.ctx
        for c in self.invs:
            ctx._raw_assert(zb(c(self.at(n))))
        return self.at(n)


class RecEnum(Form):
    def setup(self):
        self.rec = Rec(self.L, self.store, self.key, self.old.idx)

    def at(self, k):
        return SEnum(self.rec.at(k), self.old.vals)

    def check(self, new):
        return isinstance(new, SEnum) and new.vals == self.old.vals

    def facts(self, new):
        return self.rec.facts(new.idx)

    def final(self, n):
        return SEnum(self.rec.final(n), self.old.vals)


class GrowBytes(Form):
    """a byte string (or file content) to which every iteration adds a block, at its end or
    overwriting what was there"""
    def __init__(self, L, store, key, old, start, const, wrap):
        self.start, self.const0, self.wrap = start, const, wrap
        Form.__init__(self, L, store, key, old)

    def setup(self):
        ctx = self.L.ctx
        r = self.old if not self.wrap else to_rope(self.old)
        self.total = rlen(r)
        if self.start is None:
            self.pre, self.rest = r, ()
        else:
            self.pre, self.rest = rsplit(ctx, r, self.start)
        self.d = BigDef(ctx, 'bytes', 'blk')
        if self.const0 is not None:
            self.d.const = self.const0
        self.learned = False

    def cursor(self, k):
        return iadd(rlen(self.pre), self.d.PL(k))

    def rest_at(self, k):
        if not self.rest:
            return ()
        if self.d.const is None:
            raise FormFail('overwriting with blocks of varying size')
        ctx = self.L.ctx
        off = self.d.PL(k)
        rl = rlen(self.rest)
        if ctx.valid(zb(icmp('<=', off, rl))):
            _, t = rsplit(ctx, self.rest, off)
            return t
        raise FormFail('overwriting past the end')

    def block(self, k):
        if self.d.closed and not sym(rlen(self.d.tmpl)) and self.d.tmpl and not rmentions(self.d.tmpl, self.d.var) \
                and not any(type(s) is Big for s in self.d.tmpl):
            return rope(Rep(self.d.tmpl, rlen(self.d.tmpl), k))
        if self.uniform():
            t = self.d.tmpl[0]
            return rope(Rep(t.unit, t.ul, self.d.PL(k)))
        return rope(Big(self.d, 0, k))

    def uniform(self):
        """blocks of varying size, all made of one repeated byte"""
        d = self.d
        return d.closed and len(d.tmpl) == 1 and type(d.tmpl[0]) is Rep and not sym(d.tmpl[0].ul) \
            and d.tmpl[0].ul == 1 and not rmentions(d.tmpl[0].unit, d.var) and d.const is None

    def mk(self, r):
        return mk_bytes(r, self.old.kind if isinstance(self.old, SBytes) else bytes) if self.wrap else r

    def at(self, k):
        return self.mk(rcat(self.pre, self.block(k), self.rest_at(k)))

    def learn(self, new, run):
        if self.learned:
            return True
        ctx = self.L.ctx
        r = to_rope(new) if self.wrap else new
        try:
            a, b = rsplit(ctx, r, self.cursor(self.L.k))
            if self.rest:
                rest2 = rlen(self.rest)
                xlen = self.d.const
                X, _ = rsplit(ctx, b, xlen)
            else:
                X = b
        except Unsupported:
            return False
        self.X = X
        self.learned = True
        return True

    def close(self):
        if self.d.closed:
            return
        self.d.close(self.L.ctx, self.L.k, self.X)
        if self.const0 is not None and self.d.const != self.const0:
            raise FormFail('block size')

    def check(self, new):
        ctx = self.L.ctx
        r = to_rope(new) if self.wrap else new
        want = rcat(self.pre, rope(Big(self.d, 0, self.L.k)) if not isinstance(self.block(self.L.k)[0] if self.block(self.L.k) else None, Rep) else self.block(self.L.k),
                    self.d.tmpl, self.rest_at(iadd(self.L.k, 1)))
        c = req_cond(ctx, r, want)
        return c is True or (c is not False and ctx.valid(c))

    def facts(self, new):
        if not self.uniform():
            return []
        k = self.L.k
        return [zb(ieq(self.d.PL(iadd(k, 1)), iadd(self.d.PL(k), rlen(self.d.tmpl))))]

    def final(self, n):
        return self.at(n)


class Cursor(Form):
    """file position at the end of what the loop has written so far"""
    def __init__(self, L, store, key, old, grow):
        self.g = grow
        Form.__init__(self, L, store, key, old)

    def at(self, k):
        g = self.L.forms.get(self.g)
        if not isinstance(g, GrowBytes):
            raise FormFail('no content form')
        return g.cursor(k)

    def check(self, new):
        g = self.L.forms[self.g]
        if not g.d.closed:
            return True
        e = iadd(g.cursor(self.L.k), rlen(g.d.tmpl))
        return is_int(new) and self.L.ctx.valid(zb(ieq(new, e)))

    def final(self, n):
        return self.at(n)


class SameAs(Form):
    """number that always equals the position of a file the loop reads, or has a fixed distance from it"""
    def __init__(self, L, store, key, old, other, dist=0):
        self.other, self.dist = other, dist
        Form.__init__(self, L, store, key, old)

    def at(self, k):
        g = self.L.forms.get(self.other)
        if g is None:
            raise FormFail('no form for the position')
        return iadd(g.at(k), self.dist)

    def check(self, new):
        v = self.L.cur_run.vals.get(self.other)
        return is_int(new) and is_int(v) and self.L.ctx.valid(zb(ieq(new, iadd(v, self.dist))))

    def final(self, n):
        return iadd(self.L.forms[self.other].final(n), self.dist)


class OppAs(Form):
    """number that falls by what a file position advances"""
    def __init__(self, L, store, key, old, other, total):
        self.other, self.total = other, total
        Form.__init__(self, L, store, key, old)

    def at(self, k):
        g = self.L.forms.get(self.other)
        if g is None:
            raise FormFail('no form for the position')
        return isub(self.total, g.at(k))

    def check(self, new):
        v = self.L.cur_run.vals.get(self.other)
        return is_int(new) and is_int(v) and self.L.ctx.valid(zb(ieq(new, isub(self.total, v))))

    def final(self, n):
        return isub(self.total, self.L.forms[self.other].final(n))


class GrowList(Form):
    """list that grows by one (or c) element(s) per iteration, or whose element start+k is set"""
    def __init__(self, L, store, key, old, start):
        self.start = start      # None: append
        Form.__init__(self, L, store, key, old)

    def setup(self):
        self.d = BigDef(self.L.ctx, 'list', 'lst')
        self.learned = False
        itp = self.L.itp
        if self.start is None:
            self.pre, self.rest = self.old, ()
        else:
            self.pre, self.rest = itp.lsplit(self.old, self.start)

    def at(self, k):
        itp = self.L.itp
        rest = self.rest
        if rest:
            _, rest = itp.lsplit(rest, k)
        return itp.list_norm(tuple(self.pre) + (LBig(self.d, 0, k),) + tuple(rest))

    def learn(self, new, run):
        if self.learned:
            return True
        itp = self.L.itp
        n0 = llen(self.pre)
        try:
            a, b = itp.lsplit(new, iadd(n0, self.L.k))
            x, y = itp.lsplit(b, 1)
        except Unsupported:
            return False
        if len(x) != 1 or type(x[0]) is not LE:
            return False
        if has_store(x[0].v, 1 << 60, any_store=True):
            return False
        self.X = x[0].v
        self.learned = True
        return True

    def close(self):
        if not self.d.closed:
            self.d.close(self.L.ctx, self.L.k, self.X)

    def check(self, new):
        itp = self.L.itp
        rest = self.rest
        if rest:
            _, rest = itp.lsplit(rest, iadd(self.L.k, 1))
        want = itp.list_norm(tuple(self.pre) + (LBig(self.d, 0, self.L.k), LE(self.d.tmpl)) + tuple(rest))
        return lists_equal(itp, new, want)

    def final(self, n):
        return self.at(n)


def llen(segs):
    n = 0
    for s in segs:
        n = iadd(n, 1 if type(s) is LE else s.n if type(s) is LRep else isub(s.hi, s.lo))
    return n


def lists_equal(itp, a, b):
    ctx = itp.ctx
    a = [s for s in a if not (type(s) is LBig and ctx.valid(zb(ieq(s.lo, s.hi)))) and not (type(s) is LRep and ctx.valid(zb(ieq(s.n, 0))))]
    b = [s for s in b if not (type(s) is LBig and ctx.valid(zb(ieq(s.lo, s.hi)))) and not (type(s) is LRep and ctx.valid(zb(ieq(s.n, 0))))]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if type(x) is LE:
            if not same_value_ctx(itp, x.v, y.v):
                return False
        elif type(x) is LRep:
            if not (ctx.valid(zb(ieq(x.n, y.n))) and same_value_ctx(itp, x.v, y.v)):
                return False
        else:
            if x.d is not y.d or not ctx.valid(zb(band(ieq(x.lo, y.lo), ieq(x.hi, y.hi)))):
                return False
    return True


def same_value(a, b):
    if a is b:
        return True
    if sym(a) and sym(b):
        return a.eq(b) or (is_int(a) and is_int(b) and same(zi(a), zi(b)))
    if sym(a) or sym(b):
        return is_int(a) and is_int(b) and same(zi(a), zi(b))
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        return rope_same(a.r, b.r)
    if isinstance(a, SEnum) and isinstance(b, SEnum):
        return a.vals == b.vals and same(a.idx, b.idx)
    if isinstance(a, (SObj,)) and isinstance(b, SObj):
        return a.term.eq(b.term)
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.term is not None and b.term is not None and a.term.eq(b.term)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and isinstance(a, (int, str, bytes, type(None), float)) and a == b
    except Exception:
        return False


def same_value_ctx(itp, a, b):
    if same_value(a, b):
        return True
    if is_int(a) and is_int(b):
        return itp.ctx.valid(zb(ieq(zi(a) if sym(a) else int(a), zi(b) if sym(b) else int(b))))
    if is_bytes(a) and is_bytes(b):
        c = req_cond(itp.ctx, to_rope(a), to_rope(b))
        return c is True or (c is not False and itp.ctx.valid(c))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value_ctx(itp, x, y) for x, y in zip(a, b))
    return False


def has_store(v, sid0, any_store=False):
    if isinstance(v, Store):
        return any_store or v.sid > sid0
    if isinstance(v, (tuple, list)):
        return any(has_store(x, sid0, any_store) for x in v)
    if isinstance(v, (GenV, BoundV, FuncV, CtxV)):
        return True
    return False


# ---------------------------------------------------------------- the loop rule
class Loop:
    def __init__(self, itp, n, step, name, peel=False):
        self.itp, self.ctx, self.n, self.step, self.name = itp, itp.ctx, n, step, name
        self.peel = peel
        self.again = False
        self.cond = self.where = None       # of a loop whose number of rounds is not known

    def measures(self):
        """integers one of which should become smaller in every round, by name"""
        ctx = self.ctx
        out = {}
        mark = ctx.mark()
        ms = distance(self.cond())
        if len(ctx.trail) == mark[0]:
            for j, m in enumerate(ms):
                out['condition %d' % j] = m
        else:
            ctx.undo(mark)
        for (st, key), f in self.forms.items():
            v = st.slots.get(key, MISSING)
            if isinstance(st, FileV) and key == 'pos' and (st.inode, 'content') not in self.forms:
                out['rest of the file %s' % st.inode.name] = isub(rlen(st.inode.slots['content']), v)
            elif v is not MISSING and is_int(v) and not isinstance(v, bool) and not (sym(v) and z3.is_bool(v)):
                out['value of %s' % slotname(st, key)] = v
        return out

    def ended_round(self, before):
        ctx = self.ctx
        after = self.measures()
        ok = [x for x, m in sorted(before.items()) if x in after and ctx.valid(zb(icmp('>=', m, 0)))
              and ctx.valid(zb(icmp('<', after[x], m)))]
        ctx.results.append(('TERM ' + self.where, 'proved', ok, None))

    def explore_body(self, forms, after):
        """run the body for a generic iteration k, starting from `forms`"""
        ctx, itp = self.ctx, self.itp
        runs = []
        d0 = ctx.discovery
        ctx.discovery += 1
        ctx.hoist_vars.append(self.k)
        ctx.idx_stack.append(self.k)
        depth0 = itp.depth

        def fn():
            itp.depth = depth0
            run = Run()
            ctx.assume(zb(band(icmp('>=', self.k, 0), icmp('<', self.k, self.n))))
            for (st, key), f in forms.items():
                for c in getattr(f, 'assume_at', lambda k: [])(self.k):
                    ctx.assume(c)
                for c in getattr(f, 'lemma', lambda k, n: [])(self.k, self.n):
                    ctx.assume(c)
            for (st, key), f in forms.items():
                ctx.set(st, key, f.at(self.k))
            a0 = len(ctx.assumelog)
            t0 = len(ctx.trail)
            w0 = len(ctx.write_log)
            try:
                sig = self.step(self.k)
                run.kind = 'normal' if sig is None else sig[0]
            except PyExc as e:
                run.kind = 'exc'
                run.exc = e
            except (GenLike) as e:
                run.kind = 'signal'
            run.conds = list(ctx.assumelog[a0:])
            if run.kind == 'normal':
                for (d, key, old, st) in ctx.trail[t0:]:
                    if st is None or st.sid > self.sid0:
                        continue
                    if (st, key) not in run.mods:
                        run.mods[(st, key)] = old
                run.writes = list(ctx.write_log[w0:])
                run.vals = {s: s[0].slots.get(s[1], MISSING) for s in set(run.mods) | set(forms)}
                after(run)
            runs.append(run)
        try:
            ctx.explore(fn)
        finally:
            ctx.discovery = d0
            ctx.hoist_vars.pop()
            ctx.idx_stack.pop()
            itp.depth = depth0
        return runs

    def candidates(self, st, key, old, run):
        """forms to try, in order, for a slot changed by the body"""
        new = run.vals[(st, key)]
        out = []
        ctx = self.ctx
        if isinstance(st, Inode) and key == 'content':
            ws = [w for w in run.writes if w[0] is st]
            if ws:
                start, total = ws[0][1], 0
                for w in ws:
                    total = iadd(total, w[2])
                if ctx.valid(zb(ieq(start, rlen(old)))):
                    out.append(lambda: GrowBytes(self, st, key, old, None, None, False))
                elif not sym(total):
                    out.append(lambda: GrowBytes(self, st, key, old, start, total, False))
            return out
        if isinstance(st, ByteArr):
            out.append(lambda: GrowBytes(self, st, key, old, None, None, False))
            out.append(lambda: Dead(self, st, key, old))
            return out
        if isinstance(st, FileV) and key == 'pos':
            ik = (st.inode, 'content')
            if ik in run.mods:
                out.append(lambda: Cursor(self, st, key, old, ik))
            else:
                try:
                    _, t = rsplit(ctx, st.inode.slots['content'], old)
                    if t and type(t[0]) is Big and t[0].d.closed:
                        b = t[0]
                        out.append(lambda: BigPos(self, st, key, old, b.d, b.lo, b.hi))
                except Unsupported:
                    pass
            d = isub(new, old)
            if not vmentions(d, self.k):
                out.append(lambda: Linear(self, st, key, old, d))
            out.append(lambda: Rec(self, st, key, old))
            return out
        if isinstance(st, ListV) and key == 'items':
            out.append(lambda: GrowList(self, st, key, old, None))
            out.append(lambda: GrowList(self, st, key, old, 0))
            out.append(lambda: GrowList(self, st, key, old, 1))
            return out
        if isinstance(st, Env) or old is MISSING:
            out.append(lambda: Dead(self, st, key, old))
        if is_int(old) and is_int(new) and old is not MISSING:
            isb = isinstance(old, bool) or (sym(old) and z3.is_bool(old))
            if not isb:
                # addresses follow what was written to the memory
                for (st2, k2), o2 in run.mods.items():
                    if isinstance(st2, FileV) and st2.name == 'memory' and k2 == 'pos' and is_int(o2) \
                            and ctx.valid(zb(ieq(isub(new, old), isub(run.vals[(st2, k2)], o2)))):
                        out.append(lambda s2=(st2, k2), e=isub(old, o2): SameAs(self, st, key, old, s2, e))
                d = isub(new, old)
                if sym(d):
                    for (st2, k2), o2 in run.mods.items():
                        if isinstance(st2, FileV) and k2 == 'pos' and is_int(o2) \
                                and ctx.valid(zb(ieq(d, isub(o2, run.vals[(st2, k2)])))):
                            out.append(lambda s2=(st2, k2), e=iadd(old, o2): OppAs(self, st, key, old, s2, e))
                if not vmentions(d, self.k):
                    out.append(lambda: Linear(self, st, key, old, d))
                # counters that follow block sizes of a family in use
                for b in list(ctx.bigs)[-6:]:
                    if b.kind == 'bytes' and b.closed:
                        out.append(lambda b=b: BigPos(self, st, key, old, b, 0, self.n))
            if not isb:
                for (st2, k2), o2 in run.mods.items():
                    if isinstance(st2, FileV) and k2 == 'pos' and is_int(o2) and ctx.valid(zb(ieq(old, o2))):
                        out.append(lambda s2=(st2, k2): SameAs(self, st, key, old, s2))
                    elif isinstance(st2, FileV) and k2 == 'pos' and is_int(o2):
                        out.append(lambda s2=(st2, k2), e=isub(old, o2): SameAs(self, st, key, old, s2, e))
            out.append(lambda: Rec(self, st, key, old))
        elif isinstance(old, SEnum) and isinstance(new, SEnum) and old.vals == new.vals:
            out.append(lambda: RecEnum(self, st, key, old))
        elif is_bytes(old) and is_bytes(new):
            out.append(lambda: GrowBytes(self, st, key, old, None, None, True))
        if not isinstance(st, Env):
            out.append(lambda: Dead(self, st, key, old))
        return out

    def run(self):
        ctx, itp = self.ctx, self.itp
        self.k = z3.Const('k!%d' % ctx.next_gi(), INT)
        self.sid0 = ctx.next_sid
        while True:
            mark = ctx.mark()
            try:
                ok = self.discover()
                break
            except HoistCond as h:
                ctx.branch(h.cond)
            except Unsupported:
                if not self.peel or not sym(self.n):
                    raise
                # all but the last iteration, then the last one by itself
                ctx.undo(mark)
                m = isub(self.n, 1)
                if ctx.branch(zb(icmp('>', m, 0))):
                    sig = Loop(self.itp, m, self.step, self.name, peel=False).run()
                    if sig is not None:
                        return sig
                ctx.instantiate(m)
                return self.step(m)
        if not ok:
            # no iteration ever ends normally: the first one decides
            return self.step(0)
        return self.conclude()

    def discover(self):
        ctx = self.ctx
        saved_bigs = len(ctx.bigs)
        entry = []
        runs = self.explore_body({}, lambda run: entry.append(
            {s: self.candidates(s[0], s[1], old, run) for s, old in run.mods.items()
             if not same_value(old, run.vals[s])}))
        if not any(r.kind == 'normal' for r in runs):
            return False
        self.forms = {}
        cands = {}
        order = []

        def add(slot, old, cs):
            if slot in cands:
                return
            if not cs:
                raise Unsupported('no loop summary for %s' % slotname(*slot))
            cands[slot] = list(cs)
            order.append(slot)
        for e in entry:
            for s, cs in e.items():
                add(s, None, cs)
        for attempt in range(40):
            # contents before positions
            self.forms = {}
            for s in sorted(order, key=lambda s: 0 if isinstance(s[0], Inode) else 1):
                if not cands[s]:
                    raise Unsupported('no loop summary for %s' % slotname(*s))
                self.forms[s] = cands[s][0]()
            fail = set()
            newslots = {}

            def learn(run):
                for s in run.mods:
                    if s not in self.forms and not same_value(run.mods[s], run.vals[s]):
                        newslots[s] = self.candidates(s[0], s[1], run.mods[s], run)
                for s, f in self.forms.items():
                    if not f.learned and not f.learn(run.vals[s], run):
                        fail.add(s)
            try:
                need_learn = any(not f.learned for f in self.forms.values())
                if need_learn or True:
                    runs = self.explore_body(self.forms, learn)
                    if not any(r.kind == 'normal' for r in runs):
                        raise Unsupported('loop summary excludes every iteration')
                if newslots:
                    for s, cs in newslots.items():
                        add(s, None, cs)
                    continue
                if fail:
                    for s in fail:
                        cands[s].pop(0)
                    continue
                for f in self.forms.values():
                    f.close()
                self.again = False
                for f in self.forms.values():
                    if hasattr(f, 'begin_verify'):
                        f.begin_verify()

                def verify(run):
                    self.cur_run = run
                    for s in run.mods:
                        if s not in self.forms and not same_value(run.mods[s], run.vals[s]):
                            newslots[s] = self.candidates(s[0], s[1], run.mods[s], run)
                    for s, f in self.forms.items():
                        if not f.check(run.vals[s]):
                            fail.add(s)
                        else:
                            run.values[s] = run.vals[s]
                            run.conds.extend(f.facts(run.vals[s]))
                runs = self.explore_body(self.forms, verify)
                if self.again:
                    # an auxiliary bound was dropped: verify again with the weaker set
                    for _ in range(4):
                        self.again = False
                        for f in self.forms.values():
                            if hasattr(f, 'begin_verify'):
                                f.begin_verify()
                        fail.clear()
                        runs = self.explore_body(self.forms, verify)
                        if not self.again:
                            break
                    else:
                        raise Unsupported('loop bounds do not stabilise')
            except PoisonRead as p:
                s = p.slot
                if s in cands and cands[s]:
                    cands[s].pop(0)
                    if not cands[s]:
                        raise Unsupported('value of %s carried between iterations' % slotname(*s))
                    continue
                raise
            except FormFail as e:
                # the content forms are at fault
                bad = [s for s, f in self.forms.items() if isinstance(f, (GrowBytes, Cursor, SameAs, OppAs))]
                for s in bad[:1]:
                    cands[s].pop(0)
                if not bad:
                    raise Unsupported('loop summary: %s' % e)
                continue
            if newslots:
                for s, cs in newslots.items():
                    add(s, None, cs)
                continue
            if fail:
                for s in fail:
                    cands[s].pop(0)
                continue
            normal = [r for r in runs if r.kind == 'normal']
            if len(normal) == 1:
                self.facts = [zb(c) for c in normal[0].conds if not isinstance(c, bool)]
            else:
                self.facts = [z3.Or(*[z3.And(*[zb(c) for c in r.conds]) if r.conds else z3.BoolVal(True)
                                      for r in normal])]
            return True
        raise Unsupported('no loop summary found')

    def conclude(self):
        ctx, itp = self.ctx, self.itp
        if not ctx.discovery:
            ctx.results.append((ctx.obl_prefix + 'loop-summary-is-inductive', 'proved', self.name, None))
        which = ctx.choose(2)
        if which == 0:
            ctx.assume(zb(band(icmp('>=', self.k, 0), icmp('<', self.k, self.n))))
            ctx.add_fact(Fact(0, self.k, self.k_var(), self.facts, self.name))
            self.k_fact_self = True
            for (st, key), f in self.forms.items():
                for c in getattr(f, 'assume_at', lambda k: [])(self.k):
                    ctx.assume(c)
                for c in getattr(f, 'lemma', lambda k, n: [])(self.k, self.n):
                    ctx.assume(c)
            for (st, key), f in self.forms.items():
                ctx.set(st, key, f.at(self.k))
            ctx.idx_stack.append(self.k)
            d0 = itp.depth
            before = self.measures() if self.cond and not ctx.discovery else None
            try:
                sig = self.step(self.k)
            finally:
                ctx.idx_stack.pop()
            if sig is None:
                if before is not None:
                    self.ended_round(before)
                raise PathPruned
            return sig
        ctx.add_fact(Fact(0, self.n, self.k_var(), self.facts, self.name))
        for (st, key), f in self.forms.items():
            for c in getattr(f, 'lemma', lambda k, n: [])(isub(self.n, 1), self.n):
                ctx.assume(c)
        for (st, key), f in self.forms.items():
            ctx.set(st, key, f.final(self.n))
        return None

    def k_var(self):
        return self.k


from .interp import Signal as GenLike   # noqa
MISSING = _MISSING


def sym_loop(itp, n, elem, cb, name='loop'):
    ctx = itp.ctx
    c = icmp('>', n, 0)
    if not ctx.branch(zb(c) if sym(c) else c):
        return None
    if sym(n):
        if ctx.valid(zb(ieq(n, 1))):
            return cb(elem(0))
    return Loop(itp, n, lambda k: cb(elem(k)), name, peel=True).run()


def distance(c):
    """integer terms m such that c is m > 0 (or m != 0)"""
    if not sym(c):
        return []
    c = z3.simplify(c, arith_lhs=False)
    neg = False
    while z3.is_not(c):
        neg, c = not neg, c.arg(0)
    if c.num_args() != 2 or not z3.is_int(c.arg(0)):
        return []
    a, b = c.arg(0), c.arg(1)
    k = c.decl().kind()
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        return [isub(a, b), isub(b, a)] if neg == (k == z3.Z3_OP_EQ) else []
    if k == z3.Z3_OP_LE:
        return [isub(a, b)] if neg else [iadd(isub(b, a), 1)]
    if k == z3.Z3_OP_GE:
        return [isub(b, a)] if neg else [iadd(isub(a, b), 1)]
    if k == z3.Z3_OP_LT:
        return [iadd(isub(a, b), 1)] if neg else [isub(b, a)]
    if k == z3.Z3_OP_GT:
        return [iadd(isub(b, a), 1)] if neg else [isub(a, b)]
    return []


def counted(itp, cond, body):
    """the number of rounds, if every round lowers the distance to the end by 1 (a guess, verified by the caller)"""
    ctx = itp.ctx
    mark = ctx.mark()
    start = distance(cond())
    if len(ctx.trail) != mark[0]:
        ctx.undo(mark)
        return None          # a condition with effects
    for j, m in enumerate(start):
        drops = []

        def after(run):
            ms = distance(cond())
            drops.append(isub(m, ms[j]) if j < len(ms) else None)
        L = Loop(itp, m, lambda k: body(), 'while')
        L.k = z3.Const('k!%d' % ctx.next_gi(), INT)
        L.sid0 = ctx.next_sid
        while True:
            del drops[:]
            try:
                L.explore_body({}, after)
                break
            except HoistCond as h:
                ctx.branch(h.cond)
            except (Unsupported, PoisonRead, FormFail):
                return None
        if drops and all(d is not None and not sym(d) and d == 1 for d in drops):
            return m
    return None


def while_loop(itp, cond, body, where='loop', endless=False):
    ctx = itp.ctx
    forks = 0
    # concrete unrolling while the condition is decided
    for _ in range(2000):
        m0 = ctx.mark()
        c = cond()
        if sym(c):
            cs = z3.simplify(c)
            if z3.is_true(cs):
                c = True
            elif z3.is_false(cs):
                c = False
        if sym(c):
            ctx.undo(m0)
            break
        if not c:
            return None
        if forks >= (1 if endless else 20):
            break
        a0 = len(ctx.assumelog)
        sig = body()
        if sig is not None:
            return sig
        forks = forks + 1 if len(ctx.assumelog) > a0 else 0
    else:
        raise Unsupported('while loop does not end')
    n = counted(itp, cond, body) if not endless else None
    if n is not None:
        m0 = ctx.mark()

        def counted_step(k):
            c = cond()
            # proved of round k of a verified summary, by induction over k
            if not (ctx.valid(c) if sym(c) else c):
                raise Unsupported('while loop: the number of rounds is not what it seems')
            return body()
        try:
            if ctx.branch(zb(icmp('>', n, 0))):
                sig = Loop(itp, n, counted_step, 'while', peel=True).run()
                if sig is not None:
                    return sig
            c = cond()
            if ctx.valid(zb(bnot(c)) if sym(c) else (not c)):
                return None
        except Unsupported:
            pass
        ctx.undo(m0)
    n = ctx.fresh_int('trips')
    ctx.assume(n >= 0)
    if not ctx.branch(n > 0):
        c = cond()
        ctx.assume(zb(bnot(c)) if sym(c) else (not c))
        return None

    def step(k):
        c = cond()
        ctx.assume(zb(c) if sym(c) else c)
        return body()
    L = Loop(itp, n, step, 'while')
    L.cond, L.where = cond, where
    sig = L.run()
    if sig is not None:
        return sig
    ctx.instantiate(isub(n, 1))
    c = cond()
    ctx.assume(zb(bnot(c)) if sym(c) else (not c))
    return None
