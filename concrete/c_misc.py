"""size strings, the human-readable form of sizes, verbosity"""
import io, os, json, contextlib
from fractions import Fraction
import numpy
from .runner import check
from . import ref
from .c_headers import data, bx
from .c_io import *
from bloscpack import pretty as PR, log as LOG, memory_io as MI, numpy_io as NI

LIMS = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}


# ---------------------------------------------------------------- size strings
def gen_size_string(env):
    nums = ['0', '1', '2', '7', '9', '10', '12', '100', '512', '999', '1000', '1023', '1024', '1025', '123456', '1.5', '0.5',
            '.5', '3.', '0.25', '1.75', '2.0001', '0.1', '0.3', '0.7', '1.9999', '10.001', '0.0625', '33.33', '007', '0.999']
    for n in nums:
        for s in 'BKMGT':
            yield {'num': n, 'suf': s}
        for s in ['b', 'k', 'm', 'P', 'E', 'Z', ' ', '0', '9', '.', 'i', 'µ', '%', '']:
            yield {'num': n, 'suf': s}
    for i in range(256):
        yield {'num': '3', 'suf': chr(i)}
    for i in env.ints(0, 2 ** 40):
        yield {'num': str(i), 'suf': env.rng.choice('BKMGT')}
    k = 0
    while env.deep or k < 600:
        k += 1
        n = str(env.pick_int(0, 2 ** 20))
        if env.rng.random() < .6:
            n += '.' + ''.join(env.rng.choice('0123456789') for _ in range(env.rng.randint(1, 4)))
        yield {'num': n, 'suf': env.rng.choice('BBKKMMGGTT' + 'bkmPX')}


@check('C22', rule='decimal numbers with up to four decimals x every suffix, all other last characters below 256; oracle: exact fractions')
def size_string(p):
    s = p['num'] + p['suf']
    try:
        got = PR.reverse_pretty(s)
    except ValueError as e:
        return None if p['suf'] not in LIMS or not p['num'] else 'size string %r was refused: %s' % (s, e)
    if p['suf'] not in LIMS:
        return 'size string %r with an unknown suffix was accepted as %r' % (s, got)
    v = Fraction(p['num'] + '0' if p['num'].endswith('.') else p['num']) * LIMS[p['suf']]
    if v >= 2 ** 42:
        # not exact in floating point arithmetic
        return None if isinstance(got, int) and abs(got - v) <= 1 + v / 2 ** 50 else '%r gives %r' % (s, got)
    want = v.numerator // v.denominator
    if got != want or not isinstance(got, int) or isinstance(got, bool):
        return 'size string %r gives %r instead of %r' % (s, got, want)


def gen_size_text(env):
    for k in range(0, 64, 1):
        for d in (-1, 0, 1):
            if 2 ** k + d >= 0:
                yield {'x': 2 ** k + d}
    for x in env.ints(0, 2 ** 63):
        yield {'x': x}
    for i in range(5):
        for f in (1, 2, 3, 9, 10, 99, 100, 500, 999, 1000, 1023):
            for d in (-1, 0, 1):
                yield {'x': max(0, f * 1024 ** i + d)}
    k = 0
    while env.deep or k < 500:
        k += 1
        yield {'x': env.rng.getrandbits(env.rng.randint(1, 63))}


@check('C22', rule='sizes around every power of two and random up to 2**63: suffix, number and that printing never fails')
def size_text(p):
    x = p['x']
    s = PR.pretty_size(x)
    if not isinstance(s, str) or len(s) < 2:
        return 'pretty_size(%d) is %r' % (x, s)
    suf = 'B'
    for k in 'BKMGT':
        if LIMS[k] <= x:
            suf = k
    if s[-1] != suf:
        return 'pretty_size(%d) is %r, the largest suffix not exceeding it is %s' % (x, s, suf)
    try:
        v = Fraction(s[:-1])
    except ValueError:
        return 'pretty_size(%d) is %r, no number' % (x, s)
    if abs(v * LIMS[suf] - x) > LIMS[suf] * Fraction(51, 10000) + Fraction(x, 2 ** 50):
        return 'pretty_size(%d) is %r' % (x, s)
    d = PR.double_pretty_size(x)
    if not isinstance(d, str) or not d.startswith(s) or str(x) not in d[len(s):]:
        return 'double_pretty_size(%d) is %r' % (x, d)


# ---------------------------------------------------------------- messages
LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']


def gen_messages(env):
    msgs = ['one line', '', '\n', 'a\nb', 'a\n\nb\n', '%s %d', 'ä\u1234', ' ', ' x\n y ']
    for cur in LEVELS:
        for m in msgs:
            for how in ('set_level', 'LEVEL'):
                for f in ('verbose', 'debug', 'normal'):
                    yield {'cur': cur, 'how': how, 'fn': f, 'msg': m, 'level': None}
                for l in LEVELS + ['verbose', '', 'OTHER', None, 1]:
                    yield {'cur': cur, 'how': how, 'fn': 'verbose', 'msg': m, 'level': l, 'given': True}
    for cur in LEVELS:
        for new in LEVELS + ['debug', '', None, 0, 'NORMAL ']:
            yield {'cur': cur, 'new': new}
        for m in msgs:
            for code in (None, 0, 1, 2, 77):
                yield {'cur': cur, 'error': m, 'code': code}


def lines(m):
    return [l for l in m.split('\n') if l]


def captured(fn, *a, **k):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            r = ('ok', fn(*a, **k))
    except BaseException as e:
        r = ('exc', e)
    return r, out.getvalue()


@check('C24', 'C20', rule='every level x every message level x messages of 0 to 3 lines; setting known and unknown levels; error exits')
def messages(p):
    old = LOG.LEVEL, LOG.PREFIX
    try:
        LOG.LEVEL = p['cur']
        if 'error' in p:
            r, out = captured(LOG.error, p['error'], *([] if p['code'] is None else [p['code']]))
            if r[0] != 'exc' or not isinstance(r[1], SystemExit) or r[1].code != (1 if p['code'] is None else p['code']):
                return 'error(%r, %r) at level %s: %r' % (p['error'], p['code'], p['cur'], r)
            if len(out.splitlines()) != len(lines(p['error'])):
                return 'error(%r) printed %r' % (p['error'], out)
            return
        if 'new' in p:
            r, out = captured(LOG.set_level, p['new'])
            if p['new'] in LEVELS:
                if r[0] != 'ok':
                    return 'set_level(%r): %r' % (p['new'], r)
                cur = p['new']
            else:
                if r[0] != 'exc' or not isinstance(r[1], ValueError):
                    return 'set_level(%r) was accepted' % (p['new'],)
                cur = p['cur']
            for l in LEVELS:
                r, out = captured(LOG.verbose, 'x', l)
                if bool(out) != (LEVELS.index(l) <= LEVELS.index(cur)):
                    return 'after set_level(%r) at level %s a %s message printed %r' % (p['new'], p['cur'], l, out)
            return
        if p['how'] == 'set_level':
            LOG.LEVEL = 'NORMAL'
            LOG.set_level(p['cur'])
        fn = getattr(LOG, p['fn'])
        r, out = captured(fn, p['msg'], p['level']) if p.get('given') else captured(fn, p['msg'])
        lv = p['level'] if p.get('given') else {'verbose': 'VERBOSE', 'debug': 'DEBUG', 'normal': 'NORMAL'}[p['fn']]
        if lv not in LEVELS:
            if r[0] != 'exc' or not isinstance(r[1], TypeError) or out:
                return 'a message of level %r: %r, printed %r' % (lv, r, out)
            return
        if r != ('ok', None):
            return '%s(%r): %r' % (p['fn'], p['msg'], r)
        want = lines(p['msg']) if LEVELS.index(lv) <= LEVELS.index(p['cur']) else []
        got = out.split('\n')[:-1] if out else []
        if len(got) != len(want) or not all(g.endswith(w) for g, w in zip(got, want)):
            return 'a %s message %r at level %s printed %r' % (lv, p['msg'], p['cur'], out)
    finally:
        LOG.LEVEL, LOG.PREFIX = old


# ---------------------------------------------------------------- same results at every level
def gen_verbosity(env):
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 10, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True,
            'mac': '10x', 'flip': None, 'n': 13}
    for n in (0, 1, 9, 10, 11, 50):
        for meta in (None, {'a': 1}, {}):
            for off in (True, False):
                yield dict(base, d={'n': n, 'k': 'seq'}, meta=meta, ma=None, off=off)
    for ck in ref.CHECKSUMS:
        yield dict(base, ck=ck, meta={'a': [1] * 50}, ma=None)
        yield dict(base, ck=ck, meta={'a': [1] * 50}, ma={'ck': ck, 'codec': 'zlib', 'level': 3, 'max': 'x'}, flip=[-3, 1])
    for bad in ({'ts': 0}, {'cl': 10}, {'cs': 0}, {'mac': -1}, {'mac': 0}):
        yield dict(base, **bad)
    for i in range(0, 200, 7):
        yield dict(base, flip=[i, 255], meta={'m': 'x'}, ma=None)
    k = 0
    while env.deep or k < 120:
        k += 1
        p = config(env, 800)
        p['n'] = env.rng.choice([0, 1, 5, 40, 500])
        p['flip'] = [env.rng.randrange(400), env.rng.randint(1, 255)] if env.rng.random() < .4 else None
        yield p


def operations(p):
    """results of a sequence of operations"""
    res = []

    def do(name, fn):
        for f in list(os.listdir('.')):
            if f != 'c.blp':
                os.unlink(f)
        try:
            r = fn()
            if isinstance(r, tuple):
                r = tuple(bytes(x) if isinstance(x, (bytes, bytearray)) else x for x in r)
        except BaseException as e:
            r = ('raised', type(e).__name__, str(e))
        files = {f: open(f, 'rb').read() for f in sorted(os.listdir('.'))}
        res.append((name, repr(r), files))
        return r
    if os.path.exists('c.blp'):
        os.unlink('c.blp')
    buf = do('pack', lambda: pack(p, 'bb'))
    do('pack to file', lambda: pack(p, 'bf'))
    do('pack file', lambda: pack(p, 'ff'))

    def memory():
        d = data(p['d'])
        n, cs, last = A.calculate_nchunks(len(d), p['cs'])
        with open('in', 'wb') as f:
            f.write(d)
        with open('in', 'rb') as f:
            sink = MI.CompressedMemorySink()
            AI.pack(FI.PlainFPSource(f), sink, n, cs, last, metadata=p.get('meta'), blosc_args=blosc_args(p),
                    bloscpack_args=bloscpack_args(p), metadata_args=meta_args(p))
        out = MI.PlainMemorySink()
        AI.unpack(MI.CompressedMemorySource(sink), out)
        return b''.join(out.chunks)
    do('memory', memory)
    do('array', lambda: NI.unpack_ndarray_from_bytes(NI.pack_ndarray_to_bytes(
        numpy.arange(p['d']['n']), chunk_size=800, blosc_args=blosc_args(p), bloscpack_args=bloscpack_args(p))).tobytes())
    if not isinstance(buf, bytes):
        return res
    buf = bytearray(buf)
    if p['flip'] and buf:
        buf[p['flip'][0] % len(buf)] ^= p['flip'][1]
    buf = bytes(buf)
    for via in ('bb', 'bf', 'ff'):
        do('unpack ' + via, lambda: unpack(buf, via))

    def put():
        with open('c.blp', 'wb') as f:
            f.write(buf)
    put()

    def app():
        with open('new', 'wb') as f:
            f.write(bytes(range(7)) * p['n'])
        return AP.append('c.blp', 'new', blosc_args=A.BloscArgs(typesize=4) if p['n'] % 2 else None)
    do('append', app)

    def rew():
        with open('c.blp', 'r+b') as f:
            AP._seek_to_metadata(f)
            return AP._rewrite_metadata_fp(f, {'new': p['n']}, p['ck'] if p['ck'] != 'None' else None)
    do('rewrite', rew)

    def begin():
        with open('c.blp', 'rb') as f:
            h, m, mh, o = FI._read_beginning(f)
            return repr(h), repr(m), repr(mh), o
    do('read', begin)
    return res


@check('C24', rule='packing, unpacking, appending, metadata, arrays, memory with correct, damaged and illegal parameters at all three levels')
def verbosity(p):
    old = LOG.LEVEL
    out = []
    try:
        for l in LEVELS:
            LOG.LEVEL = l
            with contextlib.redirect_stdout(io.StringIO()):
                out.append(operations(p))
    finally:
        LOG.LEVEL = old
    for l, o in zip(LEVELS[1:], out[1:]):
        if len(o) != len(out[0]):
            return 'level %s: %d operations instead of %d' % (l, len(o), len(out[0]))
        for a, b in zip(out[0], o):
            if a != b:
                return '%s at level %s: %s, at level NORMAL: %s' % (a[0], l, str(b[1:])[:200], str(a[1:])[:200])
