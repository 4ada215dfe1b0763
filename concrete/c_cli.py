"""command lines, run in-process in the scratch directory (main() with its own sys.argv)"""
import io, os, sys, json, struct, contextlib
from fractions import Fraction
import blosc
from .runner import check
from . import ref
from .c_headers import data, bx
from .c_io import *
from .c_misc import LIMS
from bloscpack import cli, log as LOG

EXT = '.blp'


class Result:
    pass


def main(argv, cores=None, stop=False):
    """run the command line; what it printed, its exit status, the number of threads in use at the end"""
    r = Result()
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, LOG.LEVEL, LOG.PREFIX, blosc.set_nthreads, blosc.ncores
    real = blosc.set_nthreads
    cores = cores or blosc.ncores
    r.threads = min(cores, 8)

    def set_nthreads(n):
        real(n)             # refuses what blosc refuses
        real(1)             # what blosc writes with several threads is not the same every time
        v, r.threads = r.threads, n
        return v
    try:
        LOG.LEVEL = LOG.NORMAL
        sys.argv = ['blpk'] + argv
        blosc.set_nthreads = set_nthreads
        blosc.ncores = cores
        r.exc = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main()
                r.code = 0
            except SystemExit as e:
                r.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                if not isinstance(e.code, (int, type(None))):
                    err.write(str(e.code))
            except BaseException as e:
                r.code, r.exc = 1, e
    finally:
        sys.argv, LOG.LEVEL, LOG.PREFIX, blosc.set_nthreads, blosc.ncores = old
        real(1)
    r.out, r.err = out.getvalue(), err.getvalue()
    r.text = 'exit %r, printed %r %r%s' % (r.code, r.out[-200:], r.err[-200:], ' and raised %r' % r.exc if r.exc else '')
    return r


def snapshot():
    res = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), '.')
            st = os.lstat(p)
            res[p] = (open(p, 'rb').read(), st.st_mtime_ns, st.st_ino)
    return res


def put(name, content):
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, 'wb') as f:
        f.write(content)
    os.utime(name, (1, 1))


def same(before, after, but=()):
    """what changed although it must not"""
    for f in sorted(set(before) | set(after)):
        if f in but:
            continue
        if f not in after:
            return 'file %r is gone' % f
        if f not in before:
            return 'file %r was created with %d bytes' % (f, len(after[f][0]))
        if before[f] != after[f]:
            return 'file %r was %s' % (f, 'overwritten' if before[f][0] != after[f][0] else 'written to')


# ---------------------------------------------------------------- command lines
LONG = {'t': '--typesize', 'l': '--clevel', 's': '--no-shuffle', 'c': '--codec', 'z': '--chunk-size', 'k': '--checksum',
        'o': '--no-offsets', 'm': '--metadata', 'e': '--no-check-extension', 'f': '--force', 'n': '--nthreads',
        'v': '--verbose', 'd': '--debug'}
SUBS = {'c': ['compress', 'c'], 'd': ['decompress', 'd'], 'a': ['append', 'a'], 'i': ['info', 'i']}


def argv(p):
    """the words of the command line"""
    style = p.get('style', 0)

    def opt(k, v):
        if v is True:
            return [LONG[k] if style & 1 else '-' + k]
        v = str(v)
        if style & 1:
            return [LONG[k] + '=' + v] if style & 2 else [LONG[k], v]
        return ['-' + k + v] if style & 2 and v[:1] not in ('', '-') else ['-' + k, v] if v[:1] != '-' else [LONG[k] + '=' + v]
    a = []
    for k, v in p.get('glob', {}).items():
        a += opt(k, v)
    a.append(SUBS[p['sub']][bool(p.get('alias'))])
    words = [w for w in p['files'] if w is not None]
    opts = [opt(k, v) for k, v in p.get('opts', {}).items()]
    if p.get('after'):
        a += words
    for o in opts:
        a += o
    if not p.get('after'):
        a += words
    return a


def size_of(s):
    """bytes a chunk-size option stands for; None when it is no size"""
    if s == 'max':
        return ref.MAXBUF
    if s[-1:] in LIMS and s[-1:]:
        try:
            v = Fraction(s[:-1]) * LIMS[s[-1]]
        except ValueError:
            return None
        return v.numerator // v.denominator
    try:
        return int(s)
    except ValueError:
        return None


def settings(o):
    return dict(typesize=int(o.get('t', 8)), clevel=int(o.get('l', 7)), shuffle='s' not in o, cname=o.get('c', 'blosclz'))


def legal(p):
    o, g = p.get('opts', {}), p.get('glob', {})
    try:
        if not 1 <= int(g.get('n', 1)) <= 256 or ('v' in g and 'd' in g):
            return False
        if int(o.get('l', 7)) not in range(10) or o.get('c', 'zlib') not in ref.CNAMES or o.get('k', 'md5') not in ref.CHECKSUMS:
            return False
        if not 1 <= int(o.get('t', 8)) <= 255:
            return False
        z = size_of(o.get('z', '1M'))
        return z is not None and 1 <= z <= ref.MAXBUF
    except ValueError:
        return False


def refused(what, p, r, before, quiet=False, but=()):
    """a failure must have been reported and nothing touched"""
    if r.code == 0:
        return '%s: %r ended with exit status 0' % (what, argv(p))
    if quiet and not (isinstance(r.exc, type(None)) and (r.out + r.err).strip()):
        return '%s: %r was not reported with a message: %s' % (what, argv(p), r.text)
    w = same(before, snapshot(), but)
    if w:
        return '%s: %r: %s' % (what, argv(p), w)


def expect_container(buf, p, plain, meta):
    """the container made by the options, from the documented layout and blosc itself"""
    o = p.get('opts', {})
    s = settings(o)
    z = size_of(o.get('z', '1M'))
    try:
        c = ref.parse(buf)
    except Exception as e:
        return 'no container came out: %r' % (e,)
    if c.data != plain:
        return 'other data came out'
    want = (s['typesize'], o.get('k', 'adler32'), 'o' not in o, meta is not None)
    got = (c.ts, ref.CHECKSUMS[c.ck], c.offsets, c.metadata)
    if want != got:
        return 'typesize, checksum, offsets, metadata are %r instead of %r' % (got, want)
    if meta is not None:
        if c.meta.value != meta:
            return 'metadata %r instead of %r' % (c.meta.value, meta)
        if (c.meta.fmt.rstrip(b'\0'), c.meta.ck, c.meta.codec) != (b'JSON', 1, 0 if len(c.meta.plain) <= len(
                __import__('zlib').compress(c.meta.plain, 6)) else 1):
            return 'metadata header %r' % (vars(c.meta),)
    for i, ck in enumerate(c.chunks):
        lo = i * z
        if c.plain[i] != plain[lo:lo + z]:
            return 'chunk %d does not hold bytes %d:%d' % (i, lo, lo + z)
        if ck[1] != blosc.compress(plain[lo:lo + z], **s):
            return 'chunk %d was not compressed with %r' % (i, s)


def threads(p, r):
    want = int(p.get('glob', {}).get('n', min(p.get('cores') or blosc.ncores, 256)))
    if r.threads != want:
        return '%r on %d cores works with %d threads' % (argv(p), p.get('cores') or blosc.ncores, r.threads)


def prepare(p):
    os.makedirs('sub', exist_ok=True)
    for f, spec in p['exist'].items():
        if spec == 'dir':
            os.makedirs(f, exist_ok=True)
            continue
        if 'pack' in spec:
            c = bytearray(pack(dict(CONF, **spec['pack']), 'bb'))
            if spec.get('flip'):
                c[spec['flip'][0] % len(c)] ^= spec['flip'][1]
            if 'cut' in spec:
                c = c[:max(0, len(c) - spec['cut'])]
            put(f, bytes(c))
        elif 'text' in spec:
            put(f, spec['text'].encode('utf-8'))
        else:
            put(f, data(spec))
    return snapshot()


CONF = {'d': {'n': 50, 'k': 'seq'}, 'cs': 10, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True,
        'mac': '10x', 'meta': None, 'ma': None}
DATA = {'n': 300, 'k': 'seq'}


def judge(p):
    """what a command line must do, and whether it did"""
    before = prepare(p)
    g, o = p.get('glob', {}), p.get('opts', {})
    r = main(argv(p), p.get('cores'))
    if not legal(p):
        # a file that did not exist may be left behind half-written
        new = [n for n in (p['files'][-1], p['files'][0] + EXT) if n and n not in before] if p['sub'] == 'c' else []
        return refused('illegal option', p, r, before, but=new)
    fs = p['files']
    meta = None
    if 'm' in o and p['sub'] in 'ca':
        if o['m'] not in before:
            meta_bad = True
        else:
            try:
                meta, meta_bad = json.loads(before[o['m']][0].decode('utf-8')), False
            except ValueError:
                meta_bad = True
    else:
        meta_bad = False
    ex = lambda f: f in p['exist']
    if p['sub'] in 'cd':
        src, dst = fs[0], fs[1] if len(fs) > 1 else None
        if p['sub'] == 'c':
            dst = dst or src + EXT
        elif 'e' in o:
            if not dst:
                return refused('no output name', p, r, before, True)
        else:
            if not src.endswith(EXT):
                return refused('extension', p, r, before, True)
            dst = dst or src[:-len(EXT)]
        if not ex(src):
            return refused('missing input', p, r, before, True)
        if ex(dst) and 'f' not in g:
            return refused('existing output', p, r, before, True)
        if os.path.normpath(src) == os.path.normpath(dst):
            return None
        if meta_bad:
            return refused('bad metadata file', p, r, before)
        if dst == '' or os.path.isdir(dst) or os.path.isdir(src):
            return refused('unusable file', p, r, before)
        key = os.path.normpath(dst)
    if p['sub'] == 'c':
        if r.code:
            return '%r: %s' % (argv(p), r.text)
        after = snapshot()
        w = same(before, after, [key]) or threads(p, r)
        if w:
            return '%r: %s' % (argv(p), w)
        if key not in after:
            return '%r made no file %r' % (argv(p), dst)
        w = expect_container(after[key][0], p, before[os.path.normpath(src)][0], meta)
        return w and '%r: %s' % (argv(p), w)
    if p['sub'] == 'd':
        buf = before[os.path.normpath(src)][0]
        after = snapshot()
        w = same(before, after, [key]) or threads(p, r)
        if w:
            return '%r: %s' % (argv(p), w)
        spec = p['exist'][src]
        try:
            c = ref.parse(buf, strict=False)
        except Exception:
            c = None
        if c is None:
            # only damage that is bound to be noticed is judged here
            if p.get('bad') and (r.code == 0 or r.exc is not None or not (r.out + r.err).strip()):
                return '%r with a container whose %s is wrong: %s' % (argv(p), p['bad'], r.text)
            return
        if r.code:
            return '%r: %s' % (argv(p), r.text)
        if key not in after or after[key][0] != c.data:
            return '%r: wrong output file' % (argv(p),)
        return
    if p['sub'] == 'a':
        if not fs[0].endswith(EXT) and 'e' not in o:
            return refused('extension', p, r, before, True)
        for f in fs[:2]:
            if not ex(f):
                return refused('missing file', p, r, before, True)
        if meta_bad:
            return refused('bad metadata file', p, r, before)
        key = os.path.normpath(fs[0])
        after = snapshot()
        w = same(before, after, [key])
        if w:
            return '%r: %s' % (argv(p), w)
        old = before[key][0]
        if p.get('bad'):
            return refused('bad container', p, r, before)
        w = threads(p, r)
        if w:
            return w
        c = ref.parse(old)
        new = before[os.path.normpath(fs[1])][0]
        put('ref', old)
        put('new_', new)
        try:
            AP.append('ref', 'new_', blosc_args=A.BloscArgs(**settings(o)))
            lib = open('ref', 'rb').read()
        except Exception as e:
            lib = e
        finally:
            os.unlink('ref')
            os.unlink('new_')
        if isinstance(lib, Exception) or (meta is not None and not c.metadata):
            return None if r.code else '%r ended with exit status 0: %s' % (argv(p), r.text)
        if meta is not None and len(json.dumps(meta, separators=(',', ':'))) > c.meta.max:
            return None
        if r.code:
            return '%r: %s' % (argv(p), r.text)
        try:
            n = ref.parse(after[key][0], strict=False)
        except Exception as e:
            return '%r: no container after appending: %r' % (argv(p), e)
        if n.data != c.data + new:
            return '%r: wrong data after appending' % (argv(p),)
        if meta is None:
            if after[key][0] != lib:
                return '%r: differs from append() with the same settings' % (argv(p),)
            s = settings(o)
            for i in range(c.n, n.n):
                if n.chunks[i][1] != blosc.compress(n.plain[i], **s):
                    return '%r: chunk %d was not compressed with %r' % (argv(p), i, s)
        elif n.meta.value != meta:
            return '%r: metadata is %r' % (argv(p), n.meta.value)
        else:
            ln = ref.parse(lib, strict=False)
            if [x[1:] for x in ln.chunks] != [x[1:] for x in n.chunks]:
                return '%r: differs from append() with the same settings' % (argv(p),)
        return
    # info
    w = same(before, snapshot())
    if w:
        return '%r: %s' % (argv(p), w)
    if not ex(fs[0]):
        return refused('missing file', p, r, before, True)
    if p.get('bad'):
        return refused('bad container', p, r, before)
    if r.code:
        return '%r: %s' % (argv(p), r.text)
    return threads(p, r)


# ---------------------------------------------------------------- C19: which files are touched
NAMES = ['in', 'in.dat', 'x.blp', 'x.blp.blp', 'blp', 'xblp', '.blp', 'sub/x', 'sub/x.blp', 'a b', 'x.BLP', 'x.blp.bak', 'ä.blp']


def gen_cli_files(env):
    def cases():
        for alias in (0, 1):
            for force in (0, 1):
                for src in NAMES:
                    for dst in (None, 'out', 'out.blp', 'sub/out'):
                        d = dst or src + EXT
                        for there in ([src], [src, d], [d], []):
                            yield {'sub': 'c', 'alias': alias, 'files': [src, dst], 'glob': {'f': True} if force else {},
                                   'exist': {f: DATA if f == src else {'n': 5, 'k': 'ff'} for f in there}}
                        for e in (0, 1):
                            d = dst or (src[:-4] if src.endswith(EXT) else src + '_')
                            for there in ([src], [src, d], [d], []):
                                yield {'sub': 'd', 'alias': alias, 'files': [src, dst], 'glob': {'f': True} if force else {},
                                       'opts': {'e': True} if e else {},
                                       'exist': {f: {'pack': {}} if f == src else {'n': 5, 'k': 'ff'} for f in there if f}}
    quick = list(cases())
    env.rng.shuffle(quick)
    for p in [q for q in quick if q['alias'] == 0][:250] if not env.deep else quick:
        yield p
    for sub in 'cd':
        for kind in ('out', 'in'):
            src, dst = ('in', 'in.blp') if sub == 'c' else ('in.blp', 'in')
            yield {'sub': sub, 'files': [src], 'exist': {src: {'pack': {}} if kind == 'out' else 'dir',
                                                         dst: 'dir' if kind == 'out' else DATA}}
    for alias in (0, 1):
        for name in NAMES:
            for e in (0, 1):
                for there in (3, 2, 1, 0):
                    yield {'sub': 'a', 'alias': alias, 'files': [name, 'more'], 'opts': {'e': True} if e else {},
                           'glob': {'f': True} if there == 3 and e else {},
                           'exist': dict(([(name, {'pack': {}})] if there & 1 else []) + ([('more', DATA)] if there & 2 else []))}
        for name in NAMES:
            for there in (0, 1):
                yield {'sub': 'i', 'alias': alias, 'files': [name], 'exist': {name: {'pack': {}}} if there else {}}
    for sub in 'ca':
        for m in ({'text': '{"a": [1, 2]}\n'}, {'text': '{"a": '}, None):
            ex = {'c': {'in': DATA}, 'a': {'x.blp': {'pack': {'meta': {'b': 'x' * 100}}}, 'more': DATA}}[sub]
            yield {'sub': sub, 'files': list(ex), 'opts': {'m': 'meta.json'}, 'exist': dict(ex, **({'meta.json': m} if m else {}))} \
                if sub == 'a' else {'sub': 'c', 'files': ['in'], 'opts': {'m': 'meta.json'},
                                    'exist': dict(ex, **({'meta.json': m} if m else {}))}
    k = 0
    while env.deep or k < 60:
        k += 1
        yield env.rng.choice(quick)


@check('C19', rule='subcommands x aliases x force x extension option x names with and without .blp, in subdirectories x which files exist; all other files watched')
def cli_files(p):
    return judge(p)


# ---------------------------------------------------------------- C20: options
def gen_cli_settings(env):
    base = {'sub': 'c', 'files': ['in', None], 'exist': {'in': DATA}}
    app = {'sub': 'a', 'files': ['x.blp', 'more'], 'exist': {'x.blp': {'pack': {}}, 'more': {'n': 37, 'k': 'rand', 's': 1}}}
    yield base
    yield app
    one = [{'t': 1}, {'t': 4}, {'t': 255}, {'t': 0}, {'t': 256}, {'t': -1}, {'s': True}, {'o': True}, {'z': 'max'}, {'z': '100'},
           {'z': '0.1K'}, {'z': '1K'}, {'z': '64B'}, {'z': '-5'}, {'z': '0'}, {'z': 'x'}, {'z': '1X'}, {'z': '1.5'}, {'z': 'maxi'},
           {'z': str(ref.MAXBUF + 1)}, {'z': '-1K'}, {'z': '2G'}, {'z': '1'}, {'l': 10}, {'l': -1}, {'c': 'nope'}, {'k': 'nope'}, {'t': 'x'}]
    one += [{'l': i} for i in range(10)] + [{'c': c} for c in ref.CNAMES] + [{'k': c} for c in ref.CHECKSUMS]
    for style in range(4):
        for o in one:
            yield dict(base, opts=o, style=style, after=style == 2)
            if not {'z', 'k', 'o'} & set(o):
                yield dict(app, opts=o, style=style, after=style == 2)
    big = {'in': {'n': 5000, 'k': 'seq'}}
    for l in range(10):
        yield dict(base, exist=big, opts={'l': l, 't': 4})
    for n in [1, 2, 3, 7, 8, 9, 255, 256, 0, 257, -1, 'x']:
        for cores in (1, 2, 4, 8, 12, 16, 128, 300):
            for b in (base, app):
                yield dict(b, glob={'n': n}, cores=cores)
    for cores in (1, 2, 8, 9, 64, 256, 300):
        yield dict(base, cores=cores)
        yield dict(base, cores=cores, glob={'n': cores})
        for g in ({'v': True}, {'d': True}, {'v': True, 'd': True}):
            yield dict(base, cores=cores, glob=g)
    for m in ['{}', '[]', '0', 'true', '""', '{"a": 1}', '  {"x": "ä"}\n\n', 'null', '{"k": "%s"}' % ('v' * 300)]:
        for g in ({}, {'v': True}):
            yield dict(base, opts={'m': 'm.json'}, glob=g, exist={'in': DATA, 'm.json': {'text': m}}) if m != 'null' else \
                dict(base, exist={'in': DATA, 'm.json': {'text': m}})
            if m != 'null':
                for off in (True, False):
                    yield dict(app, opts={'m': 'm.json'}, exist=dict(app['exist'], **{
                        'm.json': {'text': m}, 'x.blp': {'pack': {'meta': {'old': 'y' * 400}, 'off': off}}}))
    for off in (True, False):
        for ck in ref.CHECKSUMS:
            for n in (0, 7, 50, 55):
                yield dict(app, exist=dict(app['exist'], **{'x.blp': {'pack': {'off': off, 'ck': ck, 'd': {'n': n, 'k': 'seq'}}}}))
    k = 0
    while env.deep or k < 150:
        k += 1
        r = env.rng
        o = {}
        for key, vals in (('t', range(1, 256)), ('l', range(10)), ('c', ref.CNAMES), ('s', [True])):
            if r.random() < .5:
                o[key] = r.choice(list(vals))
        p = {'sub': r.choice('ca'), 'alias': r.randrange(2), 'style': r.randrange(4), 'after': r.randrange(2), 'glob': {}}
        if r.random() < .3:
            p['glob']['n'] = env.pick_int(1, 256)
        if r.random() < .3:
            p['glob'].update({x: True for x in r.choice(['v', 'd', 'f', 'fv', 'fd'])})
        d = {'n': r.choice([0, 1, 9, 64, 1000, 20000]), 'k': r.choice(['rand', 'seq', 'zero']), 's': r.randrange(99)}
        if p['sub'] == 'c':
            for key, vals in (('k', ref.CHECKSUMS), ('o', [True]), ('z', ['max', '1K', '0.5K', '100B', '3K', '4096', '1M', str(r.randint(100, 9000))])):
                if r.random() < .5:
                    o[key] = r.choice(list(vals))
            p.update(files=['in', None], exist={'in': d})
        else:
            c = config(env, 2000, False)
            p.update(files=['x.blp', 'more'], exist={'x.blp': {'pack': c}, 'more': d})
        p['opts'] = o
        yield p


@check('C20', rule='every option alone in four spellings, all legal codecs, levels, checksums, thread numbers on 1 to 300 cores, random combinations, illegal values; oracle: blosc called directly and the documented layout')
def cli_settings(p):
    return judge(p)


def gen_cli_failures(env):
    for ck in ref.CHECKSUMS[1:]:
        for n in (1, 50):
            for off in (True, False):
                spec = {'pack': {'ck': ck, 'd': {'n': n, 'k': 'seq'}, 'off': off}}
                for g in ({}, {'v': True}, {'d': True}):
                    yield {'sub': 'd', 'files': ['x.blp'], 'glob': g, 'exist': {'x.blp': dict(spec, flip=[-1, 1])}, 'bad': 'checksum'}
                    yield {'sub': 'd', 'files': ['x.blp'], 'glob': g,
                           'exist': {'x.blp': dict(spec, flip=[-1 - ref.SIZES[ref.CHECKSUMS.index(ck)], 64])}, 'bad': 'checksum'}
                for v in list(range(0, 6)) + [127, 255]:
                    if v != 3:
                        for e in (0, 1):
                            yield {'sub': 'd', 'alias': e, 'files': ['x.blp'] + (['out'] if e else []), 'opts': {'e': True} if e else {},
                                   'exist': {'x.blp': dict(spec, flip=[4, 3 ^ v])}, 'bad': 'version'}
    for ck in ref.CHECKSUMS[1:]:
        spec = {'pack': {'meta': {'a': [1] * 50}, 'ma': {'ck': ck, 'codec': 'zlib', 'level': 3, 'max': 'x'}}}
        yield {'sub': 'd', 'files': ['x.blp'], 'exist': {'x.blp': dict(spec, flip=[70, 1])}, 'bad': 'checksum'}
    bad = [('checksum', {'pack': {'ck': 'md5'}, 'flip': [-1, 1]}), ('version', {'pack': {}, 'flip': [4, 1]}), ('version', {'pack': {}, 'flip': [4, 7]}),
           ('checksum', {'pack': {'meta': {'a': 1}}, 'flip': [70, 1]})]
    for what, spec in bad:
        for g in ({}, {'f': True}, {'v': True}, {'d': True}, {'n': 1}, {'f': True, 'v': True}, {'f': True, 'd': True}, {'f': True, 'n': 3}):
            for alias in (0, 1):
                for out in (None, 'out'):
                    for e in ((0, 1) if out else (0,)):
                        for there in ((0, 1) if 'f' in g else (0,)):
                            yield {'sub': 'd', 'alias': alias, 'files': ['x.blp', out], 'glob': g, 'opts': {'e': True} if e else {}, 'bad': what,
                                   'style': alias, 'exist': dict([('x.blp', spec)] + ([(out or 'x', DATA)] if there else []))}
    k = 0
    while env.deep or k < 60:
        k += 1
        c = config(env, 2000, False)
        c['ck'] = env.rng.choice(ref.CHECKSUMS[1:])
        n = ref.SIZES[ref.CHECKSUMS.index(c['ck'])]
        yield {'sub': 'd', 'alias': env.rng.randrange(2), 'glob': {x: True for x in env.rng.choice(['', 'f', 'v', 'd', 'fv', 'fd'])},
               'files': ['x.blp'], 'exist': {'x.blp': {'pack': c, 'flip': [-1 - env.rng.randrange(n), env.rng.randint(1, 255)]}},
               'bad': 'checksum'}


@check('C20', rule='decompressing containers with a damaged chunk digest, damaged chunk, damaged metadata and every other format version, at all verbosities')
def cli_failures(p):
    return judge(p)


# ---------------------------------------------------------------- C18: info and the rest on things that are no containers
def gen_cli_not_containers(env):
    for sub in 'dai':
        files = {'d': ['x.blp', 'out'], 'a': ['x.blp', 'more'], 'i': ['x.blp']}[sub]
        for n in list(range(0, 33)) + [100]:
            for kd in ('rand', 'zero', 'seq'):
                yield {'sub': sub, 'files': files, 'exist': {'x.blp': {'n': n, 'k': kd}, 'more': DATA}, 'bad': 'header'}
        for i in range(0, 6):
            for x in (1, 2, 4, 7, 255):
                yield {'sub': sub, 'files': files, 'exist': {'x.blp': {'pack': {}, 'flip': [i, x]}, 'more': DATA}, 'bad': 'header'} \
                    if i < 5 or x > 3 else {'sub': sub, 'files': files, 'exist': {'x.blp': {'pack': {}}, 'more': DATA}}
        for ck in range(9, 256, 13):
            yield {'sub': sub, 'files': files, 'exist': {'x.blp': {'pack': {}, 'flip': [6, ck ^ 1]}, 'more': DATA}, 'bad': 'header'}


@check('C18', rule='decompress, append and info on short, random and damaged files: exit status and the files')
def cli_not_containers(p):
    before = prepare(p)
    r = main(argv(p))
    if not p.get('bad'):
        return None if r.code == 0 else r.text
    after = snapshot()
    w = same(before, after, ['out'])
    if w:
        return w
    if after.get('out', (b'',))[0]:
        return 'output was produced'
    if r.code == 0:
        return '%r ended with exit status 0' % (argv(p),)
