"""the verifier against CPython (snippets.py), and against claims that are wrong"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import paths
from pyvc import core, harness, models
from pyvc.core import *
from pyvc.values import *
import z3


def listify(v):
    if isinstance(v, (list, tuple)):
        return [listify(x) for x in v]
    return v


def val(itp, v):
    """values of the code's world as nested lists"""
    from pyvc.values import ListV
    if isinstance(v, ListV) or isinstance(v, (list, tuple)):
        return [val(itp, x) for x in (itp.list_vals(v) if isinstance(v, ListV) else v)]
    return v


def same(itp, a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return band(*[same(itp, x, y) for x, y in zip(a, b)])
    return models.eq(itp, a, b)


def snippet(f, kinds, samples):
    names = f.__code__.co_varnames[:f.__code__.co_argcount]
    seen = set()

    def group(vc):
        args = []
        for n, k in zip(names, kinds):
            if k == 'int':
                args.append(vc.int(n))
            elif k == 'byte':
                args.append(vc.int(n, 0, 255))
            elif k == 'bool':
                args.append(vc.bool(n))
            elif k == 'bytes4':
                args.append(vc.bytes(n, 4))
        which = vc.int('sample', 0, len(samples) - 1)
        pick = [band(*[models.eq(vc.itp, a, s) for a, s in zip(args, sm)]) for sm in samples]
        vc.ctx.assume(z3.Or(*[z3.And(which == i, zb(p)) for i, p in enumerate(pick)]))
        out = vc.call(vc.itp.wrap_real_function(f), *args)
        for i, sm in enumerate(samples):
            if vc.ctx.valid(which != i):
                continue
            try:
                real = ('ret', listify(f(*sm)))
            except Exception as e:
                real = ('exc', type(e).__name__)
            mine = ('ret', val(vc.itp, out.val)) if out.ok else ('exc', out.val.cls.__name__)
            name = 'sample %d' % i
            if real[0] != mine[0] or real[0] == 'exc':
                vc.prove(name, bor(which != i, real == mine), '%r / %r' % (real, mine))
                continue
            vc.prove(name, bor(which != i, same(vc.itp, mine[1], real[1])), 'CPython %r / %r' % (real[1], mine[1]))
            # and the verifier must not be able to prove anything else
            vc.prove('wrong %d' % i, band(which == i, False), '')
    r = harness.run_group(f.__name__, group, budget=60)
    bad = []
    if r['error']:
        bad.append(r['error'])
    for i in range(len(samples)):
        a = r['results'].get('%s/sample %d' % (f.__name__, i))
        w = r['results'].get('%s/wrong %d' % (f.__name__, i))
        if a is None or a[0] != 'proved':
            bad.append('sample %d: %s' % (i, a and a[:2]))
        if w is not None and w[0] == 'proved':
            bad.append('sample %d: contradictory assumptions' % i)
    return bad


def snippets(only=()):
    import snippets as S
    from pyvc import interp
    interp.REPO_PKGS.add('snippets')
    n = 0
    for f, kinds, samples in S.S:
        if only and f.__name__ not in only:
            continue
        bad = snippet(f, kinds, samples)
        if bad:
            n += 1
            print('SNIPPET %s: %s' % (f.__name__, '; '.join(str(b)[:600] for b in bad)))
    return n


if __name__ == '__main__':
    import blosc, numpy
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    n = snippets(sys.argv[1:])
    print('z3 %s blosc %s numpy %s' % (z3.get_version_string(), blosc.__version__, numpy.__version__))
    if n:
        sys.exit('the verifier disagrees with CPython')
    print('ok')
