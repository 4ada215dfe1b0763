"""pyvc core: solver context, path exploration, symbolic byte strings ("ropes").

Integers are mathematical (exactly Python's).  A byte string is a rope: a tuple of
segments whose lengths are integer terms.  All reasoning that needs the solver goes
through Ctx.valid / Ctx.branch / Ctx.prove.
"""
import os, sys, time, pickle
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """The verifier cannot translate this construct (tool limit, never a verdict)."""


class PathPruned(Exception):
    """The current path is infeasible or already covered."""


class Timeout(Exception):
    pass


class HoistCond(Exception):
    """a branch inside a loop body does not depend on the iteration: split before the loop"""
    def __init__(self, cond):
        self.cond = cond


class ChildError(Exception):
    """error of a process exploring another path"""


class PyExc(Exception):
    """A Python exception raised by the code under verification."""
    def __init__(self, val):
        self.val = val

    def __str__(self):
        return 'PyExc(%r)' % (self.val,)


BS = z3.DeclareSort('Bytes')
SS = z3.DeclareSort('Str')
OS = z3.DeclareSort('Obj')
INT = z3.IntSort()
BOOL = z3.BoolSort()

F = z3.Function
blen = F('blen', BS, INT)
f_sl = F('sl', BS, INT, INT, BS)
f_cat = F('cat', BS, BS, BS)
f_rd = F('rd', BS, INT, INT, INT)
f_rep = F('rep', BS, INT, BS)
f_enc = {w: F('enc%d' % w, INT, BS) for w in (1, 2, 4, 8)}


def sym(x):
    return isinstance(x, z3.ExprRef)


# --------------------------------------------------------------- polynomials
_poly_cache = {}


def _poly(e):
    """dict monomial(tuple of atom ids) -> coefficient for an integer expression."""
    if isinstance(e, bool):
        return {(): int(e)} if e else {}
    if isinstance(e, int):
        return {(): e} if e else {}
    k = e.get_id()
    r = _poly_cache.get(k)
    if r is not None:
        return r[0]
    d = e.decl().kind()
    if z3.is_int_value(e):
        v = e.as_long()
        p = {(): v} if v else {}
    elif d == z3.Z3_OP_ADD:
        p = {}
        for c in e.children():
            for m, v in _poly(c).items():
                p[m] = p.get(m, 0) + v
        p = {m: v for m, v in p.items() if v}
    elif d == z3.Z3_OP_SUB:
        ch = e.children()
        p = dict(_poly(ch[0]))
        for c in ch[1:]:
            for m, v in _poly(c).items():
                p[m] = p.get(m, 0) - v
        p = {m: v for m, v in p.items() if v}
    elif d == z3.Z3_OP_UMINUS:
        p = {m: -v for m, v in _poly(e.children()[0]).items()}
    elif d == z3.Z3_OP_MUL:
        p = {(): 1}
        for c in e.children():
            q = _poly(c)
            r2 = {}
            for m, v in p.items():
                for m2, v2 in q.items():
                    mm = tuple(sorted(m + m2))
                    r2[mm] = r2.get(mm, 0) + v * v2
            p = {m: v for m, v in r2.items() if v}
    else:
        a = _norm_atom(e)
        if isinstance(a, int):
            p = {(): a} if a else {}
        elif a.get_id() != k and not _is_atom(a):
            p = _poly(a)
        else:
            _atoms[a.get_id()] = a
            p = {(a.get_id(),): 1}
    _poly_cache[k] = (p, e)
    return p


_atoms = {}


def _is_atom(a):
    return a.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) \
        and not z3.is_int_value(a)


def _norm_atom(e):
    """Normalise integer arguments of an uninterpreted application / ite / div / mod."""
    if e.num_args() == 0:
        return e
    ch = e.children()
    new = []
    changed = False
    for c in ch:
        if c.sort_kind() == z3.Z3_INT_SORT:
            n = norm(c)
            if isinstance(n, int):
                n = z3.IntVal(n)
        elif c.sort().name() in ('Bytes', 'Str', 'Obj') and c.num_args() > 0:
            n = _norm_atom(c)
        else:
            n = c
        if n.get_id() != c.get_id():
            changed = True
        new.append(n)
    if changed:
        e = e.decl()(*new)
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        c = z3.simplify(e.children()[0])
        if z3.is_true(c):
            return e.children()[1]
        if z3.is_false(c):
            return e.children()[2]
        if e.children()[1].get_id() == e.children()[2].get_id():
            return e.children()[1]
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        a, b = e.children()
        if z3.is_int_value(b) and b.as_long() > 0:
            bl = b.as_long()
            p = _poly(a)
            if all(v % bl == 0 for v in p.values()):
                if k == z3.Z3_OP_MOD:
                    return z3.IntVal(0)
                return _from_poly({m: v // bl for m, v in p.items()}, z3_only=True)
            if bl == 1:
                return a if k == z3.Z3_OP_IDIV else z3.IntVal(0)
    return e


def _from_poly(p, z3_only=False):
    if not p:
        return z3.IntVal(0) if z3_only else 0
    if list(p) == [()]:
        return z3.IntVal(p[()]) if z3_only else p[()]
    terms = []
    for m in sorted(p):
        v = p[m]
        fs = [_atoms[i] for i in m]
        if not fs:
            terms.append(z3.IntVal(v))
            continue
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        if v != 1:
            t = z3.IntVal(v) * t
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


_norm_cache = {}


def norm(e):
    if not sym(e):
        return e
    k = e.get_id()
    r = _norm_cache.get(k)
    if r is None:
        r = (_from_poly(_poly(e)), e)
        _norm_cache[k] = r
        if sym(r[0]):
            _norm_cache[r[0].get_id()] = (r[0], r[0])
    return r[0]


def zi(x):
    """to z3 Int"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def iadd(a, b):
    if not sym(a) and not sym(b):
        return a + b
    return norm(zi(a) + zi(b))


def isub(a, b):
    if not sym(a) and not sym(b):
        return a - b
    return norm(zi(a) - zi(b))


def imul(a, b):
    if not sym(a) and not sym(b):
        return a * b
    return norm(zi(a) * zi(b))


def ieq(a, b):
    """equality of two integers as python bool or z3 Bool"""
    if not sym(a) and not sym(b):
        return a == b
    d = isub(a, b)
    if not sym(d):
        return d == 0
    return zi(a) == zi(b)


def icmp(op, a, b):
    if not sym(a) and not sym(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    d = isub(a, b)
    if not sym(d):
        return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
    a, b = zi(a), zi(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def band(*cs):
    out = []
    for c in cs:
        if c is True or (sym(c) and z3.is_true(c)):
            continue
        if c is False or (sym(c) and z3.is_false(c)):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if c is False or (sym(c) and z3.is_false(c)):
            continue
        if c is True or (sym(c) and z3.is_true(c)):
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def bimp(a, b):
    return bor(bnot(a), b)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def iite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not sym(a) and not sym(b) and a == b:
        return a
    return norm(z3.If(c, zi(a), zi(b)))


def imin(a, b):
    return iite(icmp('<=', a, b), a, b)


def imax(a, b):
    return iite(icmp('>=', a, b), a, b)


# --------------------------------------------------------------- stores, trail
class Store:
    """Anything mutable.  All writes go through Ctx.set so that they can be undone."""
    __slots__ = ('slots', 'sid')

    def __init__(self, ctx):
        self.slots = {}
        ctx.next_sid += 1
        self.sid = ctx.next_sid


_MISSING = object()  # noqa


class Decision:
    __slots__ = ('choice', 'alts')

    def __init__(self, choice, alts):
        self.choice = choice
        self.alts = alts


class Fact:
    """forall i in [lo, hi): fn(i)   (instantiated on demand)"""
    def __init__(self, lo, hi, var, conds, why):
        self.lo, self.hi, self.var, self.conds, self.why = lo, hi, var, conds, why

    def at(self, i):
        return [z3.substitute(c, (self.var, zi(i))) for c in self.conds]


SMOKE = bool(os.environ.get('PYVC_SMOKE'))


class Ctx:
    def __init__(self, deadline=None, rlimit_ms=3000):
        self.solver = z3.Solver()
        self.timeout_ms = rlimit_ms
        self.solver.set('timeout', rlimit_ms)
        self.trail = []
        self.next_sid = 0
        self.dec = []
        self.pos = 0
        self.counter = {}
        self.seen = {}
        self.idx_stack = []
        self.facts = []
        self.inst = set()
        self.pathc = []
        self.discovery = 0
        self.deadline = deadline
        self.results = []
        self.inputs = []
        self.axioms = {'rd': lambda t: rd_axioms(self, t), 'blen': lambda t: [t >= 0]}
        self.bigs = []
        self.aliases = []
        self.pl_terms = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'unknown': 0}
        self.strlits = {}
        self.litterms = {}
        self.notes = []
        self.obl_prefix = ''
        self.nprove = 0
        self.ropes_of = {}
        self.gi = 0
        self.assumelog = []
        self.keep = []
        self.hoist_vars = []
        self.write_log = []
        self.explore_depth = 0
        self.forking = False
        self.child_pipe = None

    # ---- forks: at the top level both sides of a decision are explored by separate processes
    def fork_alternative(self):
        """True in the process that takes the first alternative; the other one continues, when that is done"""
        sys.stdout.flush()
        n0, st0 = len(self.results), dict(self.stats)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            self.child_pipe = (wr, n0, st0)
            return True
        os.close(wr)
        data = b''
        while True:
            b = os.read(rd, 1 << 20)
            if not b:
                break
            data += b
        os.close(rd)
        os.waitpid(pid, 0)
        if not data:
            raise Unsupported('a worker process died')
        res, st, extra, err = pickle.loads(data)
        self.results.extend(res)
        for k, v in st.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.merge_extra(extra)
        if err is not None:
            raise ChildError(err)
        return False

    merge_extra = staticmethod(lambda extra: None)
    get_extra = staticmethod(lambda: None)

    def finish_child(self, err):
        wr, n0, st0 = self.child_pipe
        st = {k: v - st0.get(k, 0) for k, v in self.stats.items()}
        try:
            data = pickle.dumps((self.results[n0:], st, self.get_extra(), err))
        except Exception as e:
            data = pickle.dumps(([], st, None, 'internal: results of a path cannot be passed on: %r' % (e,)))
        while data:
            n = os.write(wr, data)
            data = data[n:]
        os._exit(0)

    # ---- trail
    def set(self, store, key, val):
        self.trail.append((store.slots, key, store.slots.get(key, _MISSING), store))
        store.slots[key] = val

    def delete(self, store, key):
        self.trail.append((store.slots, key, store.slots.get(key, _MISSING), store))
        store.slots.pop(key, None)

    def dset(self, d, key, val):
        """trail-tracked write to a private python dict"""
        self.trail.append((d, key, d.get(key, _MISSING), None))
        d[key] = val

    def push_list(self, lst, val):
        self.trail.append((lst, None, None, None))
        lst.append(val)

    def mark(self):
        return (len(self.trail), self.next_sid)

    def undo(self, mark):
        n, sid = mark
        tr = self.trail
        while len(tr) > n:
            d, k, old, _ = tr.pop()
            if type(d) is list:
                d.pop()
            elif old is _MISSING:
                d.pop(k, None)
            else:
                d[k] = old
        self.next_sid = sid

    # ---- names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.dset(self.counter, base, n + 1)
        return '%s!%d' % (base, n)

    def fresh(self, base, sort):
        """A fresh symbol; inside symbolic loops it is a function of the loop indices."""
        nm = self.fresh_name(base)
        if not self.idx_stack:
            return z3.Const(nm, sort)
        return F(nm, *([INT] * len(self.idx_stack) + [sort]))(*self.idx_stack)

    def fresh_int(self, base):
        return self.fresh(base, INT)

    # ---- solver
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout('time budget of this obligation group exhausted')

    def _saturate(self, e, depth=0):
        """Instantiate the axioms triggered by the new subterms of e."""
        todo = [e]
        out = []
        while todo:
            t = todo.pop()
            k = t.get_id()
            if k in self.seen:
                continue
            self.dset(self.seen, k, t)
            if z3.is_app(t):
                nm = t.decl().name()
                ax = self.axioms.get(nm)
                if ax is None and '!' in nm:
                    ax = self.axioms.get(nm.split('!')[0] + '!')
                if ax is not None:
                    out.extend(ax(t))
                todo.extend(t.children())
        for a in out:
            if isinstance(a, bool):
                continue
            self._raw_assert(a)

    def _raw_assert(self, e):
        self._saturate(e)
        self.solver.add(e)

    def assume(self, cond, pc=False):
        if isinstance(cond, bool):
            if not cond:
                raise PathPruned
            return
        if pc:
            self.push_list(self.pathc, cond)
        self.push_list(self.assumelog, cond)
        self._raw_assert(cond)

    def next_gi(self):
        self.gi += 1
        return self.gi

    def explore_det(self, fn):
        """run fn in a sub-scope whose assumptions and writes are discarded"""
        self.explore(fn)

    def _check(self, *extra):
        self.tick()
        for e in extra:
            self._saturate(e)
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def valid(self, cond):
        """True iff the solver proves cond on the current path."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(cond)) == z3.unsat

    def const_value(self, e):
        """the constant the integer e is known to equal, or None"""
        if not sym(e):
            return e
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
        return v if self.valid(e == v) else None

    def feasible(self, cond=None):
        if cond is False:
            return False
        if cond is None or cond is True:
            return self._check() != z3.unsat
        return self._check(cond) != z3.unsat

    def branch(self, cond):
        """Python-level decision on cond; explores both sides if both are feasible."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.forking and not self.explore_depth:
            t = self._check(cond)
            if t == z3.unsat:
                if self._check(z3.Not(cond)) == z3.unsat:
                    raise PathPruned
                return False
            if self._check(z3.Not(cond)) == z3.unsat:
                return True
            first = self.fork_alternative()
            self.stats['paths'] += 0 if first else 1
            self.assume(cond if first else z3.Not(cond), pc=True)
            return first
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            choice = d.choice
            if choice in ('T!', 'F!'):
                return choice == 'T!'
        else:
            # the saturation that the queries of the first visit did must be repeated on
            # replays, hence it happens in both branches of this if through _saturate below
            t = self._check(cond)
            if t != z3.unsat and self.hoist_vars and not mentions(cond, self.hoist_vars[-1]):
                if self._check(z3.Not(cond)) != z3.unsat:
                    raise HoistCond(cond)
            if t == z3.unsat:
                f = self._check(z3.Not(cond))
                if f == z3.unsat:
                    raise PathPruned
                self.dec.append(Decision('F!', []))
                self.pos += 1
                return False
            f = self._check(z3.Not(cond))
            if f == z3.unsat:
                self.dec.append(Decision('T!', []))
                self.pos += 1
                return True
            choice = 'T'
            self.dec.append(Decision('T', ['F']))
            self.pos += 1
        self.assume(cond if choice == 'T' else z3.Not(cond), pc=True)
        return choice == 'T'

    def choose(self, n, what=''):
        """Nondeterministic choice 0..n-1, all explored."""
        if n == 1:
            return 0
        if self.forking and not self.explore_depth:
            for i in range(n - 1):
                if self.fork_alternative():
                    return i
                self.stats['paths'] += 1
            return n - 1
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            return d.choice
        self.dec.append(Decision(0, list(range(1, n))))
        self.pos += 1
        return 0

    def explore(self, fn, done=None):
        """Run fn on every feasible path starting in the current state."""
        stack = []
        saved = (self.dec, self.pos)
        self.explore_depth += 1
        try:
            self._explore(fn, done, stack, saved)
        finally:
            self.explore_depth -= 1

    def _explore(self, fn, done, stack, saved):
        while True:
            mark = self.mark()
            self.solver.push()
            self.dec, self.pos = stack, 0
            self.stats['paths'] += 1
            try:
                r = fn()
                if done is not None:
                    done(r)
            except PathPruned:
                pass
            finally:
                self.solver.pop()
                self.undo(mark)
                self.dec, self.pos = saved
            while stack and not stack[-1].alts:
                stack.pop()
            if not stack:
                return
            d = stack[-1]
            d.choice = d.alts.pop(0)

    # ---- obligations
    def input(self, name, expr):
        """Register a symbolic input whose model value is worth reporting."""
        self.push_list(self.inputs, (name, expr))
        return expr

    def _retry_unknown(self, cond):
        """Second opinion on an undecided query with a fresh solver and larger budget."""
        for opts in ({'smt.arith.solver': 2}, {'smt.arith.solver': 6}):
            s = z3.Solver()
            try:
                for k, v in opts.items():
                    s.set(k, v)
            except z3.Z3Exception:
                pass
            s.set('timeout', 4 * self.timeout_ms)
            s.add(*self.solver.assertions())
            s.add(z3.Not(cond))
            self.tick()
            t = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t
            if r == z3.unsat:
                return 'proved', None
            if r == z3.sat:
                return 'refuted', s.model()
        return 'unknown', None

    def prove(self, name, cond, info=''):
        """Record an obligation of the current path.  Returns True if discharged."""
        if self.discovery:
            return True
        self.nprove += 1
        self.smoke(name)
        if isinstance(cond, bool):
            if cond:
                self.results.append((self.obl_prefix + name, 'proved', '', None))
                return True
            r = self._check()
            if r == z3.unsat:
                self.results.append((self.obl_prefix + name, 'proved', 'path infeasible', None))
                return True
            m = self.solver.model() if r == z3.sat else None
            self._refuted(name, info, m)
            return False
        r = self._check(z3.Not(cond))
        m = None
        if r == z3.unknown:
            st, m = self._retry_unknown(cond)
        elif r == z3.unsat:
            st = 'proved'
        else:
            st, m = 'refuted', self.solver.model()
        if st == 'proved':
            self.results.append((self.obl_prefix + name, 'proved', '', None))
            return True
        if st == 'unknown':
            self.results.append((self.obl_prefix + name, 'unknown', info, None))
            return False
        self._refuted(name, info + ' | goal: ' + str(z3.simplify(cond))[:600], m)
        return False

    def smoke(self, name, cond=None):
        """PYVC_SMOKE: can the state in which an obligation was proved occur at all?"""
        if SMOKE and not self.discovery:
            self.results.append(('SAT ' + self.obl_prefix + name, str(self._check()), '', None))

    def _refuted(self, name, info, m):
        hints = {}
        if m is not None:
            for nm, e in self.inputs:
                try:
                    v = m.eval(e, model_completion=True) if sym(e) else e
                    if sym(v):
                        v = v.as_long() if z3.is_int_value(v) else (z3.is_true(v) if z3.is_bool(v) else str(v))
                    hints[nm] = v
                except Exception:
                    pass
        self.results.append((self.obl_prefix + name, 'refuted', info, hints))

    # ---- quantified facts
    def add_fact(self, fact):
        if fact.conds:
            self.push_list(self.facts, fact)

    def instantiate(self, i):
        """Instantiate all quantified facts at index term i."""
        i = norm(i)
        key = i if not sym(i) else ('e', i.get_id())
        for f in list(self.facts):
            k = (id(f), key)
            if k in self.inst_map():
                continue
            self.dset(self.inst_map(), k, (f, i))
            g = band(icmp('<=', f.lo, i), icmp('<', i, f.hi))
            if g is False:
                continue
            for c in f.at(i):
                self._raw_assert(zb(bimp(g, c)))

    def inst_map(self):
        if not isinstance(self.inst, dict):
            self.inst = {}
        return self.inst


# --------------------------------------------------------------- ropes
class Seg:
    __slots__ = ()


class Lit(Seg):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def __repr__(self):
        return 'Lit(%r)' % self.b


class Sl(Seg):
    """bytes [lo:hi) of the uninterpreted byte string t"""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    def __repr__(self):
        return 'Sl(%s,%s,%s)' % (self.t, self.lo, self.hi)


class Enc(Seg):
    """little-endian encoding of integer e (taken modulo 256**w)"""
    __slots__ = ('w', 'e', 'signed')

    def __init__(self, w, e, signed):
        self.w, self.e, self.signed = w, e, signed

    def __repr__(self):
        return 'Enc%d%s(%s)' % (self.w, 's' if self.signed else 'u', self.e)


class Rep(Seg):
    """unit (a rope of constant positive length ul) repeated n times"""
    __slots__ = ('unit', 'ul', 'n')

    def __init__(self, unit, ul, n):
        self.unit, self.ul, self.n = unit, ul, n

    def __repr__(self):
        return 'Rep(%r,%s)' % (self.unit, self.n)


class BigDef:
    """Definition of an indexed family of ropes T(i) (or of list elements)."""
    _n = 0

    def __init__(self, ctx, kind='bytes', name='big'):
        self.name = ctx.fresh_name('PL_' + name)
        self.kind = kind
        self.var = None
        self.tmpl = None        # rope (kind bytes) / value (kind list)
        self.const = None       # constant element length, if any
        self.closed = False
        self.uid = self.name
        self.params = tuple(ctx.idx_stack)
        if kind == 'bytes':
            self.pl = F(self.name, INT, INT)
            ctx.axioms[self.name] = lambda t: self.pl_axioms(ctx, t)
        ctx.bigs.append(self)

    def close(self, ctx, var, tmpl):
        self.var, self.tmpl, self.closed = var, tmpl, True
        if self.kind == 'bytes':
            L = rlen(tmpl)
            if not sym(L):
                self.const = L
            else:
                if not mentions(L, var):
                    self.const = L

    def PL(self, i):
        if self.kind == 'list':
            return i
        if self.const is not None:
            return imul(self.const, i)
        if not sym(i) and i == 0:
            return 0
        return norm(self.pl(zi(i)))

    def pl_axioms(self, ctx, t):
        i = t.arg(0)
        if self.const is not None:
            return [t == zi(self.const) * i]
        out = [z3.Implies(i <= 0, t == 0), z3.Implies(i >= 0, t >= 0)]
        terms = ctx.pl_terms.setdefault(self.name, [])
        for j, tj in terms:
            out.append(z3.Implies(i <= j, t <= tj))
            out.append(z3.Implies(j <= i, tj <= t))
        ctx.push_list(terms, (i, t))
        for (d1, d2, hi) in ctx.aliases:
            if d1 is self:
                out.append(z3.Implies(z3.And(i >= 0, i <= zi(hi)), t == zi(d2.PL(i))))
            elif d2 is self:
                out.append(z3.Implies(z3.And(i >= 0, i <= zi(hi)), t == zi(d1.PL(i))))
        return out


class Big(Seg):
    __slots__ = ('d', 'lo', 'hi')

    def __init__(self, d, lo, hi):
        self.d, self.lo, self.hi = d, lo, hi

    def __repr__(self):
        return 'Big(%s:%s,%s,%s)' % (self.d.uid, self.d.tmpl, self.lo, self.hi)


def mentions(e, var):
    if not sym(e):
        return False
    vid = var.get_id()
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        if t.get_id() == vid:
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
    return False


def slen(s):
    if type(s) is Lit:
        return len(s.b)
    if type(s) is Sl:
        return isub(s.hi, s.lo)
    if type(s) is Enc:
        return s.w
    if type(s) is Rep:
        return imul(s.ul, s.n)
    return isub(s.d.PL(s.hi), s.d.PL(s.lo))


def rlen(r):
    n = 0
    for s in r:
        n = iadd(n, slen(s))
    return n


def same(a, b):
    """syntactic (polynomial) equality of integers"""
    if not sym(a) and not sym(b):
        return a == b
    d = isub(a, b)
    return not sym(d) and d == 0


def teq(a, b):
    return a.get_id() == b.get_id() or a.eq(b)


def rope(*segs):
    """normalise"""
    out = []
    for s in segs:
        if type(s) is bytes:
            s = Lit(s)
        if type(s) is Lit and not s.b:
            continue
        L = slen(s) if type(s) is not Big else None
        if L is not None and not sym(L) and L == 0:
            continue
        if type(s) is Big and same(s.lo, s.hi):
            continue
        if type(s) is Enc and not sym(s.e):
            s = Lit((s.e % (256 ** s.w)).to_bytes(s.w, 'little'))
        if type(s) is Rep and not sym(s.n):
            if s.n <= 0:
                continue
            if len(s.unit) == 1 and type(s.unit[0]) is Lit and s.n * s.ul <= 4096:
                s = Lit(s.unit[0].b * s.n)
            elif s.n == 1:
                out.extend(s.unit)
                continue
        if type(s) is Rep and type(s.unit[0]) is Lit and len(s.unit) == 1 and s.ul > 1 \
                and len(set(s.unit[0].b)) == 1:
            s = Rep((Lit(s.unit[0].b[:1]),), 1, imul(s.n, s.ul))
        if out:
            p = out[-1]
            if type(p) is Lit and type(s) is Lit:
                out[-1] = Lit(p.b + s.b)
                continue
            if type(p) is Sl and type(s) is Sl and teq(p.t, s.t) and same(p.hi, s.lo):
                out[-1] = Sl(p.t, p.lo, s.hi)
                continue
            if type(p) is Rep and type(s) is Rep and p.ul == s.ul and _rope_same(p.unit, s.unit):
                out[-1] = Rep(p.unit, p.ul, iadd(p.n, s.n))
                continue
            if type(p) is Big and type(s) is Big and p.d is s.d and same(p.hi, s.lo):
                out[-1] = Big(p.d, p.lo, s.hi)
                continue
            if type(p) is Rep and type(s) is Lit and type(p.unit[0]) is Lit and len(p.unit) == 1 \
                    and len(s.b) % p.ul == 0 and s.b == p.unit[0].b * (len(s.b) // p.ul):
                out[-1] = Rep(p.unit, p.ul, iadd(p.n, len(s.b) // p.ul))
                continue
        out.append(s)
    return tuple(out)


def rcat(*rs):
    l = []
    for r in rs:
        l.extend(r)
    return rope(*l)


def _rope_same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if type(x) is Lit:
            if x.b != y.b:
                return False
        elif type(x) is Sl:
            if not (teq(x.t, y.t) and same(x.lo, y.lo) and same(x.hi, y.hi)):
                return False
        elif type(x) is Enc:
            if x.w != y.w or not same(x.e, y.e):
                return False
        elif type(x) is Rep:
            if x.ul != y.ul or not same(x.n, y.n) or not _rope_same(x.unit, y.unit):
                return False
        elif type(x) is Big:
            if x.d is not y.d or not same(x.lo, y.lo) or not same(x.hi, y.hi):
                return False
    return True


rope_same = _rope_same


def atom_rope(t):
    return (Sl(t, 0, norm(blen(t))),)


def rsubst(r, var, val):
    return rope(*[ssubst(s, var, val) for s in r])


def isubst(e, var, val):
    if not sym(e):
        return e
    r = z3.substitute(e, (var, zi(val)))
    if r.sort_kind() == z3.Z3_INT_SORT:
        return norm(r)
    if r.sort() in (BS, SS, OS) and r.num_args() > 0:
        return _norm_atom(r)
    return r


def ssubst(s, var, val):
    if type(s) is Lit:
        return s
    if type(s) is Sl:
        return Sl(isubst(s.t, var, val), isubst(s.lo, var, val), isubst(s.hi, var, val))
    if type(s) is Enc:
        return Enc(s.w, isubst(s.e, var, val), s.signed)
    if type(s) is Rep:
        return Rep(rsubst(s.unit, var, val), s.ul, isubst(s.n, var, val))
    if s.d.tmpl is not None and s.d.params and any(p.get_id() == var.get_id() for p in s.d.params):
        raise Unsupported('nested symbolic sequence depends on an outer loop index')
    return Big(s.d, isubst(s.lo, var, val), isubst(s.hi, var, val))


# --------------------------------------------------------------- rope operations
def seg_split(ctx, s, n):
    """split one segment at offset n, 0 <= n <= len (already known)"""
    if type(s) is Lit:
        if sym(n):
            for i in range(len(s.b) + 1):
                if i == len(s.b) or ctx.branch(zi(n) == i):
                    n = i
                    break
        return (Lit(s.b[:n]),), (Lit(s.b[n:]),)
    if type(s) is Sl:
        m = iadd(s.lo, n)
        return (Sl(s.t, s.lo, m),), (Sl(s.t, m, s.hi),)
    if type(s) is Enc:
        if not sym(n) and n == 0:
            return (), (s,)
        if not sym(n) and n == s.w:
            return (s,), ()
        t = f_enc[s.w](zi(s.e))
        return (Sl(t, 0, n),), (Sl(t, n, s.w),)
    if type(s) is Rep:
        if s.ul == 1:
            return (Rep(s.unit, 1, n),), (Rep(s.unit, 1, isub(s.n, n)),)
        q, r = poly_divmod(n, s.ul)
        if q is None:
            raise Unsupported('split inside a repeated block')
        left = (Rep(s.unit, s.ul, q),)
        if r == 0:
            return left, (Rep(s.unit, s.ul, isub(s.n, q)),)
        a, b = rsplit(ctx, s.unit, r)
        return left + a, b + (Rep(s.unit, s.ul, isub(isub(s.n, q), 1)),)
    # Big
    d = s.d
    if d.const is not None and not sym(d.const):
        if d.const == 0:
            return (), (s,)
        q, r = poly_divmod(n, d.const)
        if q is None:
            raise Unsupported('split inside a family of equal-length blocks')
        j = iadd(s.lo, q)
        left = rope(Big(d, s.lo, j))
        if r == 0:
            return left, rope(Big(d, j, s.hi))
        a, b = rsplit(ctx, big_elem(ctx, d, j), r)
        return left + a, b + rope(Big(d, iadd(j, 1), s.hi))
    # absolute prefix position
    p = iadd(n, d.PL(s.lo))
    cands = pl_indices(p, d)
    for j in list(ctx.idx_stack):
        for c in (j, iadd(j, 1)):
            if not any(same(c, x) for x in cands):
                cands.append(c)
    if not any(same(s.lo, x) for x in cands):
        cands.append(s.lo)
    for j in cands:
        if not ctx.valid(zb(band(icmp('<=', s.lo, j), icmp('<=', j, s.hi)))):
            continue
        r = isub(p, d.PL(j))
        if not sym(r) and r == 0 or ctx.valid(zb(ieq(r, 0))):
            return rope(Big(d, s.lo, j)), rope(Big(d, j, s.hi))
        if not ctx.valid(zb(icmp('<', j, s.hi))):
            continue
        el = big_elem(ctx, d, j)
        if ctx.valid(zb(band(icmp('>=', r, 0), icmp('<=', r, rlen(el))))):
            a, b = rsplit(ctx, el, r)
            return rope(Big(d, s.lo, j), *a), rope(*(tuple(b) + (Big(d, iadd(j, 1), s.hi),)))
    raise Unsupported('split inside a symbolic sequence of blocks at %s' % (n,))


def poly_divmod(e, c):
    """(q, r) with e = c*q + r, 0 <= r < c constant, or (None, None)"""
    if not sym(e):
        return divmod(e, c)
    p = _poly(e)
    const = p.get((), 0)
    q0, r = divmod(const, c)
    q = {}
    for m, v in p.items():
        if m == ():
            continue
        if v % c:
            return None, None
        q[m] = v // c
    if q0:
        q[()] = q0
    return _from_poly(q), r


def pl_indices(e, d):
    """index terms j such that PL_d(j) occurs in e"""
    out = []
    if not sym(e):
        return out
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.num_args() == 1 and t.decl().name() == d.uid:
            out.append(norm(t.arg(0)))
        todo.extend(t.children())
    return out


def big_elem(ctx, d, j):
    """rope of element j of family d (facts about j are instantiated, and
    PL(j+1) = PL(j) + length is asserted)"""
    if not d.closed:
        raise Unsupported('element of a sequence that is still being built')
    ctx.instantiate(j)
    r = rsubst(d.tmpl, d.var, j)
    if d.const is None:
        key = ('plstep', d.uid, norm(zi(j)).get_id() if sym(j) else j)
        if key not in ctx.seen:
            ctx.dset(ctx.seen, key, j)
            ctx._raw_assert(z3.Implies(zi(j) >= 0, d.pl(zi(j) + 1) == d.pl(zi(j)) + zi(rlen(r))))
            ctx._raw_assert(zi(rlen(r)) >= 0)
    return r


def rsplit(ctx, r, pos):
    """split rope r at pos (0 <= pos <= len must hold)"""
    left = []
    rem = pos
    for k, s in enumerate(r):
        if not sym(rem) and rem == 0:
            return rope(*left), rope(*r[k:])
        L = slen(s)
        if sym(rem) and k and sym(L) and ctx.valid(zb(ieq(rem, 0))):
            return rope(*left), rope(*r[k:])
        d = isub(rem, L)
        if not sym(d):
            whole = d >= 0
        elif ctx.valid(zb(icmp('>=', d, 0))):
            whole = True
        elif ctx.valid(zb(icmp('<=', d, 0))):
            whole = False
        else:
            whole = None
            if type(s) is Big and s.d.closed and s.d.kind == 'bytes' and ctx.valid(zb(icmp('<', s.lo, s.hi))):
                # the size of the first block may settle it
                big_elem(ctx, s.d, s.lo)
                if ctx.valid(zb(icmp('<=', d, 0))):
                    whole = False
            if whole is None:
                whole = ctx.branch(zb(icmp('>=', d, 0)))
        if whole:
            left.append(s)
            rem = d
            continue
        if sym(rem) and ctx.valid(zb(ieq(rem, 0))):
            return rope(*left), rope(*r[k:])
        a, b = seg_split(ctx, s, rem)
        return rope(*(left + list(a))), rope(*(list(b) + list(r[k + 1:])))
    return rope(*left), ()


def rslice(ctx, r, a, b):
    """bytes [a:b) of r with 0 <= a <= b <= len"""
    _, t = rsplit(ctx, r, a)
    n = isub(b, a)
    m, _ = rsplit(ctx, t, n)
    if len(m) == 1 and type(m[0]) is Sl and not sym(n) and sym(slen(m[0])):
        m = rope(Sl(m[0].t, m[0].lo, iadd(m[0].lo, n)))
    return m


# ---- terms for ropes (arguments of uninterpreted functions)
def lit_term(ctx, b):
    t = ctx.litterms.get(b)
    if t is None:
        t = z3.Const('lit#' + b.hex() if len(b) <= 40 else 'lit#%d#%s' % (len(b), __import__('hashlib').sha1(b).hexdigest()), BS)
        ctx.litterms[b] = t
    key = ('lit', b)
    if key not in ctx.seen:
        ctx.dset(ctx.seen, key, t)
        ctx.solver.add(blen(t) == len(b))
    return t


def term_of(ctx, r):
    if len(r) > 1:
        # segments that are empty on this path do not count
        r = rope(*[s for s in r if not (sym(slen(s)) and ctx.valid(zb(ieq(slen(s), 0))))])
    if not r:
        return lit_term(ctx, b'')
    ts = [seg_term(ctx, s) for s in r]
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = f_cat(x, t)
    if len(ts) > 1:
        key = ('catlen', t.get_id())
        if key not in ctx.seen:
            ctx.dset(ctx.seen, key, t)
            ctx._raw_assert(blen(t) == zi(rlen(r)))
    ctx.ropes_of[t.get_id()] = (t, r)
    return t


def seg_term(ctx, s):
    if type(s) is Lit:
        return lit_term(ctx, s.b)
    if type(s) is Sl:
        if same(s.lo, 0) and ctx.valid(zb(ieq(s.hi, norm(blen(s.t))))):
            return s.t
        t = f_sl(s.t, zi(s.lo), zi(s.hi))
        key = ('sllen', t.get_id())
        if key not in ctx.seen:
            ctx.dset(ctx.seen, key, t)
            ctx._raw_assert(blen(t) == zi(isub(s.hi, s.lo)))
        return t
    if type(s) is Enc:
        t = f_enc[s.w](zi(s.e))
        return t
    if type(s) is Rep:
        t = f_rep(term_of(ctx, s.unit), zi(s.n))
    else:
        bt = z3.Const('bigc#' + s.d.uid, BS)
        t = f_sl(bt, zi(s.lo), zi(s.hi))
    key = ('seglen', t.get_id())
    if key not in ctx.seen:
        ctx.dset(ctx.seen, key, t)
        ctx._raw_assert(blen(t) == zi(slen(s)))
    return t


def rope_of_term(ctx, t):
    """a rope equal to the byte string term t"""
    e = ctx.ropes_of.get(t.get_id())
    if e is not None:
        return e[1]
    nm = t.decl().name()
    if nm == 'sl' and t.arg(0).decl().name().startswith('bigc#'):
        raise Unsupported('block family as a value')
    if nm == 'sl':
        return rope(Sl(t.arg(0), norm(t.arg(1)), norm(t.arg(2))))
    if nm == 'cat':
        return rcat(rope_of_term(ctx, t.arg(0)), rope_of_term(ctx, t.arg(1)))
    if nm.startswith('enc') and nm[3:].isdigit():
        return rope(Enc(int(nm[3:]), norm(t.arg(0)), False))
    for b, lt in ctx.litterms.items():
        if lt.eq(t):
            return rope(Lit(b))
    if nm == 'rep':
        u = rope_of_term(ctx, t.arg(0))
        return rope(Rep(u, rlen(u), norm(t.arg(1))))
    return atom_rope(t)


# ---- integers read from ropes
def rd_overlaps(ctx, t, a, p, w):
    """reads of different widths of the same bytes agree byte by byte"""
    key = ('rds', a.get_id())
    old = ctx.seen.get(key) or (a, ())
    if any(x is t or x.eq(t) for x, _, _ in old[1]):
        return []
    ctx.dset(ctx.seen, key, (a, old[1] + ((t, p, w),)))
    wide = []
    for x, q, v in old[1]:
        d = isub(p, q)
        if not sym(d) and (d, w) != (0, v) and d < v and -d < w:
            wide += [(x, q, v), (t, p, w)]
    out = []
    for x, q, v in wide:
        k = ('rdx', x.get_id())
        if v > 1 and ctx.seen.get(k) is None:
            ctx.dset(ctx.seen, k, (x,))
            out.append(x == z3.Sum([f_rd(a, zi(iadd(q, i)), z3.IntVal(1)) * 256 ** i for i in range(v)]))
    return out


def rd_axioms(ctx, t):
    w = t.arg(2)
    if z3.is_int_value(w):
        out = [t >= 0, t < 256 ** w.as_long()]
        a = t.arg(0)
        out += rd_overlaps(ctx, t, a, norm(t.arg(1)), w.as_long())
        nm = a.decl().name()
        p = t.arg(1)
        if nm.startswith('enc') and nm[3:].isdigit() and z3.is_int_value(p):
            W = int(nm[3:])
            wv, pv = w.as_long(), p.as_long()
            if 0 <= pv and pv + wv <= W:
                out.append(t == ((a.arg(0) % (256 ** W)) / z3.IntVal(256 ** pv)) % (256 ** wv))
        return out
    return []


def rd_uint(ctx, r):
    """unsigned little-endian value of a rope of constant length <= 8"""
    val, sh = 0, 0
    for s in r:
        n = slen(s)
        if sym(n):
            n = ctx.const_value(n)
            if n is None:
                raise Unsupported('integer read of symbolic width: %r' % (r,))
        if type(s) is Lit:
            v = int.from_bytes(s.b, 'little')
        elif type(s) is Enc:
            v = enc_uint(ctx, s)
        elif type(s) is Sl:
            v = norm(f_rd(s.t, zi(s.lo), z3.IntVal(n)))
        elif type(s) is Rep and n == 0:
            v = 0
        elif type(s) is Rep and len(s.unit) == 1 and type(s.unit[0]) is Lit and n % len(s.unit[0].b) == 0:
            v = int.from_bytes(s.unit[0].b * (n // len(s.unit[0].b)), 'little')
        elif type(s) is Big and not sym(isub(s.hi, s.lo)):
            c = isub(s.hi, s.lo)
            el = ()
            for q in range(c):
                el = el + tuple(big_elem(ctx, s.d, iadd(s.lo, q)))
            v = rd_uint(ctx, rope(*el))
        else:
            raise Unsupported('integer read from %r' % (s,))
        val = iadd(val, imul(v, 256 ** sh))
        sh += n
    return val


def enc_uint(ctx, s):
    e = s.e
    if not sym(e):
        return e % 256 ** s.w
    if not s.signed and ctx.valid(zb(band(icmp('>=', e, 0), icmp('<', e, 256 ** s.w)))):
        return e
    if ctx.valid(zb(band(icmp('>=', e, 0), icmp('<', e, 256 ** s.w)))):
        return e
    lim = 256 ** s.w
    if ctx.valid(zb(band(icmp('>=', e, -lim // 2), icmp('<', e, lim // 2)))):
        return iite(zb(icmp('>=', e, 0)), e, iadd(e, lim))
    return norm(zi(e) % lim)


def rd_int(ctx, r, signed):
    n = rlen(r)
    if sym(n):
        n = ctx.const_value(n)
        if n is None:
            raise Unsupported('integer read of symbolic width: %r' % (r,))
    if signed and len(r) == 1 and type(r[0]) is Enc:
        e, lim = r[0].e, 256 ** n // 2
        if ctx.valid(zb(band(icmp('>=', e, -lim), icmp('<', e, lim)))):
            return e
    v = rd_uint(ctx, r)
    if not signed:
        return v
    lim = 256 ** n
    if not sym(v):
        return v - lim if v >= lim // 2 else v
    return iite(zb(icmp('>=', v, lim // 2)), isub(v, lim), v)


# ---- equality
def seg_eq_cond(ctx, a, b):
    """condition for two segments of (known) equal length to be equal"""
    if type(b) is Lit and type(a) is not Lit:
        a, b = b, a
    if type(a) is Lit and type(b) is Lit:
        return a.b == b.b
    L = slen(a)
    if sym(L) and type(a) is Sl and type(b) in (Lit, Enc, Sl):
        L = slen(b)
    if (type(a) in (Lit, Enc, Sl) and type(b) in (Lit, Enc, Sl) and not sym(L) and L <= 8
            and not (type(a) is Sl and type(b) is Sl and teq(a.t, b.t))):
        return zb(ieq(rd_uint(ctx, (a,)), rd_uint(ctx, (b,))))
    if type(a) is Lit and type(b) is Sl:
        out = []
        for i in range(0, len(a.b), 8):
            x = a.b[i:i + 8]
            out.append(ieq(int.from_bytes(x, 'little'),
                           norm(f_rd(b.t, zi(iadd(b.lo, i)), z3.IntVal(len(x))))))
        return band(*out)
    if type(a) is Lit and type(b) is Rep and len(b.unit) == 1 and type(b.unit[0]) is Lit:
        return a.b == b.unit[0].b * (len(a.b) // b.ul) if not sym(slen(b)) else \
            bool(len(a.b) % b.ul == 0 and a.b == b.unit[0].b * (len(a.b) // b.ul))
    if type(a) is Sl and type(b) is Sl and teq(a.t, b.t) and same(a.lo, b.lo):
        return True
    if type(a) is Rep and type(b) is Rep and a.ul == b.ul and _rope_same(a.unit, b.unit):
        return True
    if type(a) is Big and type(b) is Big and a.d is b.d and same(a.lo, b.lo) and same(a.hi, b.hi):
        return True
    return seg_term(ctx, a) == seg_term(ctx, b)


def req_cond(ctx, A, B):
    """z3/bool condition (an over-approximating one: uninterpreted where structure differs)
    equivalent to A == B"""
    if rope_same(A, B):
        return True
    la, lb = rlen(A), rlen(B)
    c = ieq(la, lb)
    if c is False:
        return False
    if c is not True:
        if not ctx.valid(zb(c)):
            if ctx.valid(zb(bnot(c))):
                return False
            if not ctx.branch(zb(c)):
                return False
    conds = []
    A, B = list(A), list(B)
    while A and B:
        a, b = A[0], B[0]
        sa, sb = slen(a), slen(b)
        if same(sa, sb) or ctx.valid(zb(ieq(sa, sb))):
            conds.append(seg_eq_cond(ctx, a, b))
            A.pop(0)
            B.pop(0)
        else:
            if ctx.valid(zb(icmp('<', sa, sb))):
                x, y = seg_split(ctx, b, sa)
                B[0:1] = list(x) + list(y)
            elif ctx.valid(zb(icmp('<', sb, sa))):
                x, y = seg_split(ctx, a, sb)
                A[0:1] = list(x) + list(y)
            else:
                conds.append(term_of(ctx, rope(*A)) == term_of(ctx, rope(*B)))
                A = B = []
        if conds and conds[-1] is False:
            return False
    return band(*conds)


def collapse(ctx, r):
    """Induction: a family of adjacent slices of one byte string is one slice."""
    out = []
    for s in r:
        if type(s) is Big and s.d.closed and len(s.d.tmpl) == 1 and type(s.d.tmpl[0]) is Sl:
            t = s.d.tmpl[0]
            if not mentions(t.t, s.d.var):
                i = z3.Const('ci!%d' % id(s.d), INT)
                a1 = isubst(t.lo, s.d.var, iadd(i, 1))
                b0 = isubst(t.hi, s.d.var, i)
                g = z3.And(i >= zi(s.lo), i + 1 < zi(s.hi))
                ok = [False]

                def body():
                    ctx.assume(g)
                    ctx.instantiate(i)
                    ctx.instantiate(iadd(i, 1))
                    ok[0] = ctx.valid(zb(ieq(a1, b0)))
                ctx.explore_det(body)
                if ok[0] and ctx.valid(zb(icmp('<', s.lo, s.hi))):
                    lo = isubst(t.lo, s.d.var, s.lo)
                    hi = isubst(t.hi, s.d.var, isub(s.hi, 1))
                    ctx.instantiate(s.lo)
                    ctx.instantiate(isub(s.hi, 1))
                    out.append(Sl(t.t, lo, hi))
                    continue
        out.append(s)
    return rope(*out)


def prove_eq(ctx, name, A, B, depth=0):
    """Obligation: ropes A and B are equal.  Elementwise for block families (induction
    over the element index).  Returns True if discharged."""
    A, B = collapse(ctx, A), collapse(ctx, B)
    if rope_same(A, B):
        return ctx.prove(name, True)
    A, B = list(A), list(B)
    nb = 0
    while A or B:
        A = [s for s in A if not same(slen(s), 0)]
        B = [s for s in B if not same(slen(s), 0)]
        if A and sym(slen(A[0])) and ctx.valid(zb(ieq(slen(A[0]), 0))):
            A.pop(0)
            continue
        if B and sym(slen(B[0])) and ctx.valid(zb(ieq(slen(B[0]), 0))):
            B.pop(0)
            continue
        if not A or not B:
            break
        a, b = A[0], B[0]
        if type(a) is Big and type(b) is Big:
            ca, cb = isub(a.hi, a.lo), isub(b.hi, b.lo)
            if same(ca, cb) or ctx.valid(zb(ieq(ca, cb))):
                n = ca
            elif ctx.valid(zb(icmp('<=', ca, cb))):
                n = ca
            elif ctx.valid(zb(icmp('<=', cb, ca))):
                n = cb
            else:
                return ctx.prove(name + '/block-count', False,
                                 'cannot relate the numbers of blocks %s and %s' % (ca, cb))
            if not (a.d is b.d and same(a.lo, b.lo)):
                if not prove_family(ctx, name, a, b, n, depth):
                    return False
            A[0:1] = list(rope(Big(a.d, iadd(a.lo, n), a.hi)))
            B[0:1] = list(rope(Big(b.d, iadd(b.lo, n), b.hi)))
            continue
        if type(a) is Big or type(b) is Big:
            X = A if type(a) is Big else B
            s = X[0]
            if ctx.valid(zb(icmp('>', s.hi, s.lo))):
                el = big_elem(ctx, s.d, s.lo)
                X[0:1] = list(el) + list(rope(Big(s.d, iadd(s.lo, 1), s.hi)))
                nb += 1
                if nb > 12:
                    return ctx.prove(name + '/shape', False, 'block family against plain bytes')
                continue
            return ctx.prove(name + '/shape', False, 'cannot align a block family')
        sa, sb = slen(a), slen(b)
        if same(sa, sb) or ctx.valid(zb(ieq(sa, sb))):
            if not prove_seg(ctx, name, a, b, depth):
                return False
            A.pop(0)
            B.pop(0)
            continue
        try:
            if ctx.valid(zb(icmp('<', sa, sb))):
                x, y = seg_split(ctx, b, sa)
                B[0:1] = list(x) + list(y)
                continue
            if ctx.valid(zb(icmp('<', sb, sa))):
                x, y = seg_split(ctx, a, sb)
                A[0:1] = list(x) + list(y)
                continue
        except Unsupported as e:
            return ctx.prove(name + '/shape', False, 'cannot align: %s' % e)
        return ctx.prove(name, zb(ieq(sa, sb)), 'segment lengths differ: %r vs %r' % (a, b))
    la, lb = rlen(A), rlen(B)
    return ctx.prove(name, zb(ieq(la, lb)), 'one side is longer: %r vs %r' % (A, B))


def prove_seg(ctx, name, a, b, depth):
    c = seg_eq_cond(ctx, a, b)
    if c is True:
        return ctx.prove(name, True)
    if c is not False and ctx.valid(c):
        return ctx.prove(name, True)
    ta = a.t if type(a) is Sl else None
    tb = b.t if type(b) is Sl else None
    if ta is not None and tb is not None and depth < 6 \
            and ta.decl().eq(tb.decl()) and ta.num_args() > 0 \
            and ta.decl().name() not in ('sl',) \
            and ctx.valid(zb(band(ieq(a.lo, b.lo), ieq(a.hi, b.hi)))):
        # same function: equal if the arguments are
        for x, y in zip(ta.children(), tb.children()):
            if x.eq(y):
                continue
            if x.sort() == BS:
                if not prove_eq(ctx, name + '/arg', rope_of_term(ctx, x), rope_of_term(ctx, y), depth + 1):
                    return False
            else:
                if not ctx.prove(name + '/arg', x == y):
                    return False
        return True
    return ctx.prove(name, zb(c), 'bytes differ: %r vs %r' % (a, b))


def prove_family(ctx, name, a, b, n, depth):
    """forall i in [0,n): a.d(a.lo+i) == b.d(b.lo+i); then prefix lengths agree"""
    ok = [True]
    nm = 'gi!%d' % ctx.next_gi()
    i = z3.Const(nm, INT)

    def body():
        ctx.assume(z3.And(i >= 0, i < zi(n)))
        # induction hypothesis: prefix lengths agree up to i
        if a.d.const is None or b.d.const is None:
            ctx.assume(zi(isub(a.d.PL(iadd(a.lo, i)), a.d.PL(a.lo))) ==
                       zi(isub(b.d.PL(iadd(b.lo, i)), b.d.PL(b.lo))))
        x = big_elem(ctx, a.d, iadd(a.lo, i))
        y = big_elem(ctx, b.d, iadd(b.lo, i))
        if not prove_eq(ctx, name + '/each', x, y, depth + 1):
            ok[0] = False
    ctx.explore(body)
    if not ok[0]:
        return False
    # prefix lengths agree on [0, n]
    for e in (n,):
        ctx._raw_assert(z3.Implies(zi(e) >= 0,
                        zi(isub(a.d.PL(iadd(a.lo, e)), a.d.PL(a.lo))) ==
                        zi(isub(b.d.PL(iadd(b.lo, e)), b.d.PL(b.lo)))))
    if same(a.lo, b.lo):
        ctx.push_list(ctx.aliases, (a.d, b.d, iadd(a.lo, n)) if same(a.lo, 0) else (a.d, b.d, 0))
    return True


__all__ = [n for n in dir() if not n.startswith('__')]
