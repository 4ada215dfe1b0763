"""runs the concrete cases of one property.

A check is a triple (name, gen, oracle): gen(env) yields JSON parameters, oracle(params) runs the real code and
returns None or a description of what is wrong.  Everything is seeded; a failing case is replayed from its
parameters alone."""
import json, os, time, random, ast, glob, importlib, shutil, traceback
import paths
import blosc

MODULES = ['c_headers', 'c_io', 'c_meta', 'c_append', 'c_misc', 'c_numpy', 'c_cli']
CHECKS = {}      # property -> [(name, gen, oracle, rule)]


def check(*props, rule=''):
    def deco(fn):
        gen = globals_of(fn)['gen_' + fn.__name__]
        for p in props:
            CHECKS.setdefault(p, []).append((fn.__name__, gen, fn, rule or (fn.__doc__ or '').strip()))
        return fn
    return deco


def globals_of(fn):
    return fn.__globals__


class Env:
    """what generators work with"""
    def __init__(self, seed, mode, hints):
        self.seed, self.mode = seed, mode
        self.rng = random.Random(seed)
        self.deep = mode in ('deep', 'thorough')
        self.hints = [h.get('model') for h in hints if isinstance(h.get('model'), dict)]
        self.lit_ints, self.lit_strs = mine_literals()
        self.hint_ints = []
        for h in self.hints:
            for v in h.values():
                try:
                    v = int(v)
                except (TypeError, ValueError):
                    continue
                if v not in self.hint_ints:
                    self.hint_ints.append(v)

    def ints(self, lo, hi, extra=()):
        """interesting integers of a range: its ends, small values, literals of the current source, model values"""
        out = []
        for b in (lo, hi):
            out += [b - 1, b, b + 1]
        out += list(range(-2, 18)) + [31, 32, 33, 63, 64, 127, 128, 255, 256, 65535, 65536]
        for k in self.lit_ints + self.hint_ints + list(extra):
            out += [k - 1, k, k + 1]
        seen, res = set(), []
        for x in out:
            if lo <= x <= hi and x not in seen:
                seen.add(x)
                res.append(x)
        return res

    def pick_int(self, lo, hi):
        r = self.rng
        c = r.random()
        if c < 0.15:
            return r.choice([lo, hi, max(lo, hi - 1), min(hi, lo + 1)])
        if c < 0.45:
            return r.choice(self.ints(lo, hi) or [lo])
        if c < 0.75:
            return r.randint(lo, min(hi, lo + 40))
        b = r.randint(0, max(1, (hi - lo).bit_length()))
        return min(hi, lo + r.getrandbits(b) if b else lo)


_lits = None


def mine_literals():
    """integer and string literals of the code under test as it is now: constants a change might hide behind"""
    global _lits
    if _lits is None:
        ints, strs = set(), set()
        for p in sorted(glob.glob(os.path.join(paths.REPO, 'bloscpack', '*.py'))):
            try:
                tree = ast.parse(open(p).read())
            except (SyntaxError, ValueError, OSError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, int) and not isinstance(n.value, bool):
                        ints.add(n.value)
                    elif isinstance(n.value, (str, bytes)) and len(n.value) < 24:
                        strs.add(n.value)
                elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        if isinstance(n.op, ast.Pow) and n.right.value > 200:
                            continue
                        v = eval(compile(ast.Expression(n), '', 'eval'), {})
                        if isinstance(v, int):
                            ints.add(v)
                    except Exception:
                        pass
        _lits = sorted(ints), sorted(strs, key=repr)
    return _lits


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(paths.VERIF, 'concrete', m + '.py')):
            importlib.import_module('concrete.' + m)


_known = None


def known():
    global _known
    if _known is None:
        try:
            _known = json.load(open(os.path.join(paths.VERIF, 'known_findings.json')))['findings']
        except (OSError, ValueError, KeyError):
            _known = []
    return _known


def match_known(prop, name, params):
    for k in known():
        if k.get('status') == 'open' and k['property'] == prop and k['check'] == name and \
                all(params.get(a) == b for a, b in k['match'].items()):
            return k
    return None


def run(prop, mode, seed, seconds, hints, journal, only=None):
    load()
    blosc.set_nthreads(1)       # what blosc writes with several threads is not the same every time
    checks = CHECKS.get(prop, [])
    out = {'evaluations': 0, 'distinct': 0, 'samples': [], 'rules': [], 'failures': [], 'known': [], 'error': None}
    if mode == 'replay':
        d = hints[0]
        for name, gen, oracle, rule in checks:
            if name == d['check']:
                with open(journal, 'w') as f:
                    json.dump({'check': name, 'params': d['params']}, f)
                w = one(oracle, d['params'])
                out['evaluations'] += 1
                if w:
                    out['failures'].append({'check': name, 'params': d['params'], 'what': w})
        return out
    t0 = time.time()
    seen = set()
    # every known finding is replayed first, so that it is reported while it exists
    for k in known():
        if k.get('status') == 'open' and k['property'] == prop:
            for name, gen, oracle, rule in checks:
                if name == k['check'] and one(oracle, k['params']):
                    out['known'].append(k['what'])
    gens = []
    for name, gen, oracle, rule in checks:
        if only and name not in only:
            continue
        env = Env(seed * 1000003 + len(gens), mode, hints)
        gens.append([name, iter(gen(env)), oracle, 0.0, 0])
        out['rules'].append(rule)
    while gens:
        # the check that has used least time goes next: all get their share
        gens.sort(key=lambda g: g[3])
        g = gens[0]
        t = time.time()
        if t - t0 > seconds:
            break
        try:
            params = next(g[1])
        except StopIteration:
            gens.pop(0)
            continue
        key = json.dumps([g[0], params], sort_keys=True)
        if key in seen:
            g[3] += time.time() - t + 1e-5
            continue
        seen.add(key)
        with open(journal, 'w') as f:
            f.write('{"check": %s, "params": %s}' % (json.dumps(g[0]), json.dumps(params)))
        w = one(g[2], params)
        out['evaluations'] += 1
        g[4] += 1
        g[3] += time.time() - t
        if g[4] <= 2 and len(key) < 1500:
            out['samples'].append({'check': g[0], 'params': params})
        if w:
            k = match_known(prop, g[0], params)
            if k:
                if k['what'] not in out['known']:
                    out['known'].append(k['what'])
                continue
            out['failures'].append({'check': g[0], 'params': params, 'what': w})
            break
    out['distinct'] = len(seen)
    return out


def one(oracle, params):
    d = os.getcwd()
    try:
        for f in os.listdir('.'):
            shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.unlink(f)
        return oracle(json.loads(json.dumps(params)))
    except BaseException:
        return 'unexpected exception: ' + traceback.format_exc()[-1500:]
    finally:
        os.chdir(d)
