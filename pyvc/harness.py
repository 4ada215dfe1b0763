"""run proof groups: symbolic execution of the real code with recorded obligations"""
import time, traceback, sys, os
from .core import *
from .values import *
from .interp import Interp, Signal
from . import models


class Outcome:
    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    @property
    def ok(self):
        return self.kind == 'ret'

    def raised(self, *cls):
        return self.kind == 'exc' and issubclass(self.val.cls, cls)

    def __repr__(self):
        return 'Outcome(%s, %r)' % (self.kind, self.val)


class VC:
    """what a proof group works with"""
    def __init__(self, itp):
        self.itp, self.ctx = itp, itp.ctx

    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        self.ctx.input(name, x)
        if lo is not None:
            self.ctx.assume(x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
        return x

    def bool(self, name):
        x = z3.Bool(name)
        self.ctx.input(name, x)
        return x

    def enum(self, name, vals):
        x = self.int(name, 0, len(vals) - 1)
        return SEnum(x, vals)

    def bytes(self, name, n=None):
        t = z3.Const(name, BS)
        self.ctx.assume(blen(t) >= 0)
        if n is not None:
            self.ctx.assume(blen(t) == zi(n))
            r = rope(Sl(t, 0, n))
        else:
            r = atom_rope(t)
            self.ctx.input('len(%s)' % name, blen(t))
        return SBytes(r)

    def text(self, name):
        return SText(self.bytes(name).r)

    def obj(self, name):
        return SObj(z3.Const(name, OS))

    def call(self, f, *args, **kwargs):
        try:
            return Outcome('ret', self.itp.call(f, list(args), kwargs))
        except PyExc as e:
            return Outcome('exc', e.val)

    def prove(self, name, cond, info=''):
        if cond is None:
            cond = False
        return self.ctx.prove(name, cond, info)

    def prove_eq(self, name, a, b):
        """equality of two values of the code's world"""
        if is_bytes(a) and is_bytes(b):
            return prove_eq(self.ctx, name, to_rope(a), to_rope(b))
        try:
            c = models.eq(self.itp, a, b)
        except Unsupported as e:
            return self.ctx.prove(name, False, 'cannot compare: %s (%r / %r)' % (e, a, b))
        return self.ctx.prove(name, c, '%r == %r' % (a, b))

    def raises(self, name, out, *cls):
        return self.ctx.prove(name, out.kind == 'exc' and issubclass(out.val.cls, cls), repr(out)[:300])

    def returns(self, name, out):
        return self.ctx.prove(name, out.kind == 'ret', repr(out)[:300])

    def file(self, name, content=b'', pos=0):
        ino = Inode(self.ctx, name, to_rope(content))
        f = FileV(self.ctx, ino, 'file', name=name)
        f.slots['pos'] = pos
        return f

    def content(self, x):
        """bytes of a file (by name), an inode or an open file"""
        if isinstance(x, str):
            x = self.itp.fs.slots[x]
        if isinstance(x, FileV):
            x = x.inode
        return SBytes(models.full_content(self.ctx, x))

    def put_file(self, name, content):
        ino = Inode(self.ctx, name, to_rope(content))
        self.itp.fs.slots[name] = ino
        return ino


def explore_all(ctx, itp, body):
    """explore every path of body; None or the description of an error"""
    err = None
    ctx.forking = not os.environ.get('PYVC_NOFORK')
    ctx.get_extra = lambda: (set(itp.inlined), set(itp.called))

    def merge(extra):
        if extra:
            itp.inlined |= extra[0]
            itp.called |= extra[1]
    ctx.merge_extra = merge
    home = os.getpid()
    try:
        if ctx.forking:
            ctx.stats['paths'] += 1
            try:
                body()
            except PathPruned:
                pass
        else:
            ctx.explore(body)
    except Unsupported as e:
        err = 'unsupported: %s' % e
        if os.environ.get('PYVC_DEBUG'):
            err += '\n' + traceback.format_exc()[-int(os.environ['PYVC_DEBUG']):]
    except ChildError as e:
        err = str(e)
    except Timeout as e:
        err = 'timeout: %s' % e
    except PoisonRead as e:
        err = 'unsupported: value carried between iterations (%s)' % (e.slot,)
    except (PyExc, Signal) as e:
        err = 'error: escaped %r' % (getattr(e, 'val', e),)
    except HoistCond as e:
        err = 'unsupported: hoist'
    except RecursionError:
        err = 'unsupported: recursion'
    except (AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError, z3.Z3Exception) as e:
        err = 'internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    except BaseException as e:
        if os.getpid() == home:
            raise
        err = 'internal: %s: %s' % (type(e).__name__, e)
    if os.getpid() != home:
        ctx.finish_child(err)
    return err


def run_group(name, fn, budget=120, setup=None, rlimit_ms=3000):
    t0 = time.time()
    ctx = Ctx(deadline=t0 + budget, rlimit_ms=rlimit_ms)
    itp = Interp(ctx)
    ctx.obl_prefix = name + '/'
    err = None
    vc = VC(itp)
    sys.setrecursionlimit(20000)

    def body():
        itp.depth = 0
        if setup is not None:
            setup(vc)
        fn(vc)
    err = explore_all(ctx, itp, body)
    res = {}
    sat = {}
    term = {}
    for nm, st, info, hints in ctx.results:
        if nm.startswith('TERM '):
            term[nm[5:]] = set(info) & term.get(nm[5:], set(info))
            continue
        if nm.startswith('SAT '):
            sat.setdefault(nm[4:], []).append(st)
            continue
        cur = res.get(nm)
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        if cur is None or rank[st] > rank[cur[0]]:
            res[nm] = (st, info, hints, (cur[3] if cur else 0) + 1)
        else:
            res[nm] = cur[:3] + (cur[3] + 1,)
    return {'name': name, 'error': err, 'results': res, 'count': len([1 for x in ctx.results if not x[0].startswith(('SAT ', 'TERM '))]), 'stats': dict(ctx.stats, wall=time.time() - t0),
            'inlined': sorted(itp.inlined), 'contracts': sorted(itp.called), 'variants': {k: sorted(v) for k, v in term.items()}, 'smoke': {k: {x: v.count(x) for x in set(v)} for k, v in sat.items()}}


def show(r):
    bad = {k: v for k, v in r['results'].items() if v[0] != 'proved'}
    print('%-40s obligations=%d distinct=%d paths=%d queries=%d solver=%.1fs wall=%.1fs %s' % (
        r['name'], r['count'], len(r['results']), r['stats']['paths'], r['stats']['queries'], r['stats']['solver_s'],
        r['stats']['wall'], 'OK' if not bad and not r['error'] else 'FAIL'))
    if r['error']:
        print('   ERROR', r['error'])
    for k, v in bad.items():
        print('   ', v[0], k, v[1][:400], v[2])
