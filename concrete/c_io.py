"""whole containers: packing, unpacking, damage, memory storage, things that are no containers"""
import io, os, struct, json
import blosc
from .runner import check
from . import ref
from .c_headers import data, bx
import bloscpack
from bloscpack import args as A, headers as H, file_io as FI, abstract_io as AI, memory_io as MI, exceptions as EX, \
    append as AP, numpy_io as NI, checksums as CS

FNS = {'10x': lambda x: 10 * x, 'x': lambda x: x, '0': lambda x: 0, 'max': lambda x: ref.MAXC - x if x < 5 else 3}


def blosc_args(p):
    return A.BloscArgs(typesize=p['ts'], clevel=p['cl'], shuffle=p['sh'], cname=p['cn'])


def bloscpack_args(p):
    m = p['mac']
    return A.BloscpackArgs(offsets=p['off'], checksum=p['ck'], max_app_chunks=FNS[m] if isinstance(m, str) else m)


def meta_args(p):
    a = p.get('ma')
    if a is None:
        return None
    m = a['max']
    return A.MetadataArgs(b'JSON', a['ck'], a['codec'], a['level'], FNS[m] if isinstance(m, str) else m)


def pack(p, via=None):
    d = data(p['d'])
    kw = dict(chunk_size=p['cs'], blosc_args=blosc_args(p), bloscpack_args=bloscpack_args(p))
    if p.get('meta') is not None:
        kw.update(metadata=p['meta'], metadata_args=meta_args(p))
    via = via or p.get('via', 'bb')
    if via == 'bb':
        return FI.pack_bytes_to_bytes(d, **kw)
    if via == 'bf':
        FI.pack_bytes_to_file(d, 'out.blp', **kw)
    else:
        with open('in.dat', 'wb') as f:
            f.write(d)
        FI.pack_file_to_file('in.dat', 'out.blp', **kw)
        if open('in.dat', 'rb').read() != d:
            raise AssertionError('the input file changed')
    return open('out.blp', 'rb').read()


def unpack(buf, via):
    if via == 'bb':
        return FI.unpack_bytes_from_bytes(buf)
    with open('c.blp', 'wb') as f:
        f.write(buf)
    try:
        if via == 'bf':
            return FI.unpack_bytes_from_file('c.blp')
        m = FI.unpack_file_from_file('c.blp', 'plain')
        return open('plain', 'rb').read(), m
    finally:
        if open('c.blp', 'rb').read() != buf:
            raise AssertionError('the input file changed')


def want_mac(p, n):
    m = p['mac']
    if not p['off']:
        return 0
    m = FNS[m](n) if isinstance(m, str) else m
    return min(m, ref.MAXC - n)


def rand_data(env, maxn):
    r = env.rng
    c = r.random()
    n = r.choice(env.ints(0, maxn)) if c < .3 else r.randrange(0, 40) if c < .6 else r.randrange(maxn)
    return {'n': n, 'k': r.choice(['rand', 'seq', 'zero', 'ff']), 's': r.randrange(1000)}


METAS = [{}, [], 0, 1, True, 'x', '', {'a': 1}, {'dtype': 'float64', 'shape': [1, 2, 3], 'others': []},
         {'k': 'v' * 300}, [1.5, None, 'ä', '\u1234\U0001f600', {'n': [[]]}], {'1': [0] * 500}, -2 ** 70, 'é' * 40,
         {'container': 'x', 'n': 10 ** 30}, False, '\x00', [[[[['deep']]]]]]


def rand_meta(env):
    r = env.rng

    def val(d):
        c = r.random()
        if d > 3 or c < .5:
            return r.choice([None, True, False, 0, -1, r.getrandbits(r.choice([5, 40, 80])), r.random(), '',
                             'a' * r.randrange(30), chr(r.randrange(1, 0x300)) * r.randrange(4), '"\\\n'])
        if c < .75:
            return [val(d + 1) for _ in range(r.randrange(4))]
        return {str(r.randrange(100)) + 'é' * r.randrange(2): val(d + 1) for _ in range(r.randrange(4))}
    v = val(0) if r.random() < .7 else r.choice(METAS)
    return v if v is not None else {'none': None}


def rand_meta_args(env, v):
    r = env.rng
    if r.random() < .3:
        return None
    n = len(json.dumps(v, separators=(',', ':')))
    return {'ck': r.choice(ref.CHECKSUMS), 'codec': r.choice(ref.CODECS), 'level': r.randrange(10),
            'max': r.choice(['10x', 'x', n, n + 1, 2 * n + 7, 4096 if n < 4096 else n])}


def config(env, maxn, meta=None):
    r = env.rng
    d = rand_data(env, maxn)
    n = d['n']
    c = r.random()
    cs = r.choice([1, 2, 3, 5, 8, 16]) if n < 60 and c < .4 else max(1, n // r.choice([1, 2, 3, 4, 7])) if c < .6 else \
        max(1, r.choice([n - 1, n, n + 1, 2 * n])) if c < .75 else r.choice(['1K', '4K', '1M', '0.5K']) if c < .85 else \
        r.choice(env.ints(max(1, n // 200), 2 ** 24))
    p = {'d': d, 'cs': cs, 'ts': r.choice([1, 2, 3, 4, 7, 8, 16, 255, r.randint(1, 255)]), 'cl': r.randrange(10),
         'sh': r.random() < .5, 'cn': r.choice(ref.CNAMES), 'ck': r.choice(ref.CHECKSUMS), 'off': r.random() < .7,
         'mac': r.choice(['10x', 'x', '0', 0, 1, 7, 100])}
    if meta or (meta is None and r.random() < .3):
        p['meta'] = rand_meta(env)
        p['ma'] = rand_meta_args(env, p['meta'])
    return p


def gen_round_trip(env):
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 10, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True,
            'mac': '10x'}
    for n in list(range(0, 14)) + [31, 32, 33, 100]:
        for cs in (1, 2, 3, 5, 8, 100):
            for via in ('ff', 'bb', 'bf') if n in (0, 5, 12) else ('bb',):
                for u in ('ff', 'bb', 'bf') if n in (0, 5, 12) else ('bb',):
                    yield dict(base, d={'n': n, 'k': 'seq'}, cs=cs, via=via, un=u)
    for ck in ref.CHECKSUMS:
        for off in (True, False):
            for n in (0, 50):
                yield dict(base, ck=ck, off=off, d={'n': n, 'k': 'seq'}, via='ff', un='ff')
                yield dict(base, ck=ck, off=off, d={'n': n, 'k': 'seq'}, via='bb', un='bf', meta={'a': [1, 2]}, ma=None)
    for h in env.hints:
        try:
            n = int(h.get('len(X)', 20))
            if n > 2 ** 23:
                continue
            q = dict(base, d={'n': n, 'k': 'rand', 's': 1}, cs=int(h.get('chunk_size', 7)), ts=int(h.get('typesize', 8)),
                     cl=int(h.get('clevel', 7)), cn=ref.CNAMES[int(h.get('cname', 0))], ck=ref.CHECKSUMS[int(h.get('checksum', 1))],
                     off=bool(h.get('offsets', True)), mac=int(h.get('max_app_chunks', 3)))
        except (TypeError, ValueError, IndexError):
            continue
        if n // max(1, q['cs']) > 3000 or q['mac'] > 10 ** 6:
            continue
        for off in (True, False):
            for ck in (q['ck'], 'None', 'sha512'):
                for via in ('ff', 'bb'):
                    yield dict(q, off=off, ck=ck, via=via, un=via)
    for n in env.ints(1, 2 ** 21 if env.deep else 70000, extra=(2 ** 20,)):
        yield dict(base, d={'n': n, 'k': 'rand', 's': n}, cs=max(1, n // 3), via='ff', un='ff')
        yield dict(base, d={'n': min(3 * n + 1, 3 * 10 ** 6), 'k': 'seq'}, cs=n, via='bf', un='bb') if n > 50 else \
            dict(base, d={'n': 300, 'k': 'seq'}, cs=n, via='bf', un='bb')
    for nch in env.ints(2, 3000 if env.deep else 700):
        yield dict(base, d={'n': nch * 2 - 1, 'k': 'seq'}, cs=2, via='bb', un='bb', cl=0, mac=1)
    k = 0
    while env.deep or k < 500:
        k += 1
        p = config(env, 200000 if env.deep and env.rng.random() < .1 else 3000)
        p['via'], p['un'] = env.rng.choice(['ff', 'bf', 'bb']), env.rng.choice(['ff', 'bf', 'bb'])
        yield p


def meta_settings_of(p):
    a = p.get('ma') or {'ck': 'adler32', 'codec': 'zlib', 'level': 6, 'max': '10x'}
    return dict(a, max=FNS[a['max']] if isinstance(a['max'], str) else a['max'])


def judge_layout(p, buf):
    """the container buf against the documented layout for p"""
    d = data(p['d'])
    cs = p['cs']
    if isinstance(cs, str):
        cs = int(float(cs[:-1]) * {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20}[cs[-1]])
    try:
        c = ref.parse(buf)
    except ref.Bad as e:
        return 'not the documented layout: %s' % e
    wcs, wlast, parts = ref.chunks_of(d, cs)
    mac = want_mac(p, len(parts))
    for k, g, w in (('chunk size', c.cs, wcs), ('last chunk', c.last, wlast), ('chunk count', c.n, len(parts)),
                    ('reservation', c.mac, mac), ('offsets option', c.offsets, p['off']), ('typesize', c.ts, p['ts']),
                    ('checksum', ref.CHECKSUMS[c.ck], p['ck']), ('metadata option', c.metadata, p.get('meta') is not None)):
        if g != w:
            return '%s is %r, should be %r' % (k, g, w)
    for i, x in enumerate(parts):
        if c.plain[i] != x:
            return 'chunk %d holds other data' % i
        if c.chunks[i][1] != ref.compress(x, dict(typesize=p['ts'], clevel=p['cl'], shuffle=p['sh'], cname=p['cn'])):
            return 'chunk %d was compressed with other settings' % i
    if p['off']:
        if c.offs[:c.n] != [q for q, _, _ in c.chunks]:
            return 'offsets %r' % c.offs[:c.n]
        if any(o != -1 for o in c.offs[c.n:]) or len(c.offs) != c.n + mac:
            return 'reserved offsets %r' % c.offs[c.n:]
    if p.get('meta') is not None:
        return judge_section(c.meta, p['meta'], meta_settings_of(p))


def judge_section(m, obj, ma):
    import zlib
    plain = json.dumps(obj, separators=(',', ':')).encode()
    stored, codec = plain, 'None'
    if ma['codec'] == 'zlib':
        z = zlib.compress(plain, ma['level'])
        if len(z) <= len(plain):
            stored, codec = z, 'zlib'
    mx = ma['max'](len(plain)) if callable(ma['max']) else ma['max']
    if m.value != json.loads(plain) or m.plain != plain:
        return 'metadata holds %r' % (m.plain,)
    for k, g, w in (('codec', ref.CODECS[m.codec], codec), ('stored bytes', m.stored, stored), ('size', m.size, len(plain)),
                    ('reservation', m.max, mx), ('stored size', m.comp, len(stored)), ('checksum', ref.CHECKSUMS[m.ck], ma['ck']),
                    ('format', m.fmt, b'JSON\0\0\0\0')):
        if g != w:
            return 'metadata %s is %r, should be %r' % (k, g, w)
    if m.level != ma['level'] and not (codec == 'None' and m.level == 0):
        return 'metadata level is %r' % m.level


@check('C01', 'C02', 'C03', 'C04', 'C26', rule='containers of 0 to a few 10^5 bytes under boundary and random settings, all packing '
       'and unpacking functions; oracle: independent parser of the documented layout, blosc, zlib, hashlib, json')
def round_trip(p):
    try:
        buf = pack(p)
    except BaseException as e:
        return 'legal input is refused: %r' % (e,)
    w = judge_layout(p, buf)
    if w:
        return w
    try:
        out, m = unpack(buf, p.get('un', 'bb'))
    except BaseException as e:
        return 'own container is refused: %r' % (e,)
    if out != data(p['d']):
        return 'other data comes back (%d bytes for %d)' % (len(out), p['d']['n'])
    w = json.loads(json.dumps(p['meta'])) if p.get('meta') is not None else None
    if m != w or type(m) is not type(w):
        return 'metadata comes back as %r' % (m,)


def gen_defaults(env):
    for n in (0, 1, 1000, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21 + 5):
        for meta in (None, {'a': 1}, 0):
            for via in ('ff', 'bf', 'bb'):
                yield {'d': {'n': n, 'k': 'seq'}, 'meta': meta, 'via': via}


@check('C01', 'C02', 'C03', rule='packing without any arguments: the documented defaults')
def defaults(p):
    d = data(p['d'])
    kw = {} if p['meta'] is None else {'metadata': p['meta']}
    if p['via'] == 'bb':
        buf = FI.pack_bytes_to_bytes(d, **kw)
    else:
        if p['via'] == 'bf':
            FI.pack_bytes_to_file(d, 'o', **kw)
        else:
            open('i', 'wb').write(d)
            FI.pack_file_to_file('i', 'o', **kw)
        buf = open('o', 'rb').read()
    q = dict(p, cs=2 ** 20, ts=8, cl=7, sh=True, cn='blosclz', ck='adler32', off=True, mac='10x', ma=None)
    w = judge_layout(q, buf)
    if w:
        return w
    if FI.unpack_bytes_from_bytes(buf) != (d, p['meta']):
        return 'comes back differently'


# ---------------------------------------------------------------- interrupted packing
class Boom(Exception):
    pass


def gen_interrupted(env):
    for via in ('ff', 'bf'):
        for how in ('compress', 'read', 'write'):
            for n, cs in ((1, 1), (50, 10), (51, 10), (95, 10)):
                for at in range(0, -(-n // cs)):
                    if how == 'read' and via == 'bf':
                        continue
                    for meta in (None, {'a': 'b'}):
                        yield {'via': via, 'how': how, 'at': at, 'd': {'n': n, 'k': 'seq'}, 'cs': cs, 'mac': at, 'meta': meta,
                               'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': ref.CHECKSUMS[(n + at) % 9], 'off': True, 'ma': None}
    for _ in range(5000 if env.deep else 150):
        p = config(env, 400)
        p['off'] = True
        n = p['d']['n']
        p['cs'] = max(1, n // env.rng.randint(1, 9))
        p.update(via=env.rng.choice(['ff', 'bf']), how=env.rng.choice(['compress', 'write']),
                 at=env.rng.randrange(len(ref.chunks_of(data(p['d']), p['cs'])[2])))
        yield p


@check('C04', rule='packing fails while a chunk is read, compressed or written, at every chunk')
def interrupted(p):
    count = [0]

    def boom(*a, **k):
        count[0] += 1
        if count[0] == p['at'] + 1:
            raise Boom()
    oc, op = blosc.compress, open
    import builtins
    chunkset = []

    class F(object):
        """a file whose reads or writes of chunks fail at the asked place"""
        def __init__(self, f, mode):
            self.f, self.mode = f, mode

        def read(self, *a):
            if p['how'] == 'read' and self.mode == 'rb':
                boom()
            return self.f.read(*a)

        def write(self, b):
            if p['how'] == 'write' and self.mode == 'wb' and any(b is x for x in chunkset):
                boom()
            return self.f.write(b)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

        def __getattr__(self, k):
            return getattr(self.f, k)

    def comp(*a, **k):
        if p['how'] == 'compress':
            boom()
        r = oc(*a, **k)
        chunkset.append(r)
        return r
    FI.open = lambda n, m='r', *a: F(op(n, m, *a), m)
    blosc.compress = comp
    try:
        try:
            pack(p)
            return None if count[0] <= p['at'] else 'the failure was swallowed'
        except Boom:
            pass
    finally:
        blosc.compress = oc
        del FI.open
    buf = op('out.blp', 'rb').read()
    pos = 32
    if p.get('meta') is not None:
        if len(buf) < 64:
            return 'the metadata section is missing'
        f = struct.unpack('<8sBBBBIII8s', buf[32:64])
        pos += 32 + f[6] + ref.SIZES[f[2]]
    n = len(ref.chunks_of(data(p['d']), p['cs'])[2])
    k = 8 * (n + want_mac(p, n))
    if buf[pos:pos + k] != b'\xff' * k:
        return 'offsets of the partial output: %s' % buf[pos:pos + k].hex()[:200]


# ---------------------------------------------------------------- damage
def walk(buf):
    """what a reader must do with the chunks of a container whose head is sound: (plain data of the leading good
    chunks, 'ok' | 'checksum' | 'other')"""
    f = struct.unpack('<4sBBBBiiqq', buf[:32])
    pos = 32
    if f[2] & 2:
        m = struct.unpack('<8sBBBBIII8s', buf[32:64])
        pos += 32 + m[6] + ref.SIZES[m[2]]
    if f[2] & 1:
        pos += 8 * (f[7] + f[8])
    out = b''
    for i in range(f[7]):
        h = buf[pos:pos + 16]
        if len(h) < 16:
            return out, 'other'
        cb = struct.unpack('<I', h[12:])[0]
        b = buf[pos:pos + cb]
        d = buf[pos + cb:pos + cb + ref.SIZES[f[3]]]
        if f[3] and d != ref.digest(f[3], b):
            return out, 'checksum'
        if not b:
            pass
        elif len(b) < 16 or len(b) != struct.unpack('<I', b[12:16])[0]:
            return out, 'other'
        else:
            try:
                out += blosc.decompress(b)
            except Exception:
                return out, 'other'
        pos += cb + ref.SIZES[f[3]]
    return out, 'ok'


def damaged(p):
    buf = bytearray(pack(p, 'bb'))
    start = ref.parse(bytes(buf)).chunks[0][0]
    if p.get('cut') is not None:
        buf = buf[:max(start, len(buf) - p['cut'])]
    for rel, x in p.get('flip', []):
        if start + rel < len(buf):
            buf[start + rel] ^= x
    if p.get('insert'):
        at, s = p['insert']
        buf[start + at:start + at] = bx(s)
    return bytes(buf)


def gen_damage(env):
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 20, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'off': True, 'mac': 1}
    for ck in ref.CHECKSUMS[1:]:
        sz = ref.SIZES[ref.CHECKSUMS.index(ck)]
        for un in ('bb', 'ff', 'bf', 'mem', 'memk'):
            for cut in sorted({0, 1, sz - 1, sz, sz + 1, sz + 5, sz + 26, 2 * sz + 26}):
                yield dict(base, ck=ck, cut=cut, un=un)
        total = 36 + 36 + 26 + 3 * sz
        for rel in range(total) if env.deep or ck in ('adler32', 'sha512') else range(0, total, 5):
            for x in (1, 0x80) if env.deep else (1 << rel % 8,):
                yield dict(base, ck=ck, flip=[[rel, x]], un=('bb', 'ff', 'bf', 'mem', 'memk')[rel % 5])
    for n in (0, 1):
        for ck in ref.CHECKSUMS[1:]:
            for cut in range(0, ref.SIZES[ref.CHECKSUMS.index(ck)] + 18):
                yield dict(base, d={'n': n, 'k': 'seq'}, ck=ck, cut=cut, un='ff')
    k = 0
    while env.deep or k < 300:
        k += 1
        p = config(env, 300)
        p['ck'] = env.rng.choice(ref.CHECKSUMS)
        p['un'] = env.rng.choice(['bb', 'ff', 'bf', 'mem', 'memk'])
        c = env.rng.random()
        if c < .5:
            p['flip'] = [[env.rng.randrange(max(60, p['d']['n'])), env.rng.choice([1, 255, 0x80, env.rng.randint(1, 255)])]
                         for _ in range(env.rng.choice([1, 1, 2]))]
        elif c < .8:
            p['cut'] = env.rng.randrange(120)
        else:
            p['insert'] = [env.rng.randrange(80), env.rng.randbytes(env.rng.randint(1, 20)).hex()]
        yield p


@check('C09', 'C26', rule='containers with truncated, changed or inserted bytes in the chunks; oracle: independent walk over the chunks')
def damage(p):
    buf = damaged(p)
    out, how = walk(buf)
    got = None
    try:
        if p['un'] in ('mem', 'memk'):
            src = FI.CompressedFPSource(io.BytesIO(buf))
            sink = MI.PlainMemorySink(*([src.nchunks] if p['un'] == 'memk' else []))
            try:
                AI.unpack(src, sink)
            finally:
                got = b''.join(x for x in sink.chunks if x is not None)
        elif p['un'] == 'ff':
            try:
                unpack(buf, 'ff')
            finally:
                got = open('plain', 'rb').read()
        else:
            got = unpack(buf, p['un'])[0]
        e = None
    except Exception as x:
        e = x
    if how == 'checksum':
        if not isinstance(e, EX.ChecksumMismatch):
            return 'a chunk with a wrong digest: %r' % (e if e else 'accepted')
    elif how == 'other':
        if e is None:
            return 'a container with missing or invalid chunks is accepted'
        if isinstance(e, EX.ChecksumMismatch):
            return 'refused for a checksum that is right: %r' % e
    elif e is not None:
        return 'refused: %r' % e
    if got is not None and got != out:
        return 'output is %d bytes, the good chunks have %d' % (len(got), len(out))


# ---------------------------------------------------------------- metadata integrity
def gen_metadata_damage(env):
    for ck in ref.CHECKSUMS[1:]:
        for codec in (0, 1):
            for pad in (0, 5):
                p = {'ck': ck, 'codec': codec, 'pad': pad, 'meta': {'a': [1, 2, 3], 'b': 'x' * 30}}
                n = len(ref.build_meta(p['meta'], ref.CHECKSUMS.index(ck), codec, 6, pad))
                for rel in range(32, n) if env.deep or ck in ('adler32', 'sha512') else range(32, n, 7):
                    yield dict(p, flip=[[rel, 1 << rel % 8]], un=('bb', 'ff', 'bf')[rel % 3])
                for cut in range(0, n - 32, 1 if env.deep else 5):
                    yield dict(p, cut=cut, un='ff')
    k = 0
    while env.deep or k < 200:
        k += 1
        m = rand_meta(env)
        p = {'ck': env.rng.choice(ref.CHECKSUMS), 'codec': env.rng.randrange(2), 'pad': env.rng.choice([0, 1, 50]), 'meta': m,
             'flip': [], 'un': env.rng.choice(['bb', 'ff', 'bf'])}
        n = len(ref.build_meta(m, ref.CHECKSUMS.index(p['ck']), p['codec'], 6, p['pad']))
        if env.rng.random() < .7 and n > 32:
            p['flip'] = [[env.rng.randrange(32, n), env.rng.randint(1, 255)]]
        elif n > 32:
            p['cut'] = env.rng.randrange(n - 32)
        yield p


@check('C10', rule='metadata sections with changed bytes and truncated sections; oracle: stored digest against hashlib/zlib')
def metadata_damage(p):
    ck = ref.CHECKSUMS.index(p['ck'])
    s = bytearray(ref.build_meta(p['meta'], ck, p['codec'], 6, p['pad']))
    f = struct.unpack('<8sBBBBIII8s', bytes(s[:32]))
    comp, mx = f[7], f[6]
    for i, x in p.get('flip', []):
        s[i] ^= x
    s = bytes(s)
    if p.get('cut'):
        s = s[:-p['cut']]
    stored, dig = s[32:32 + comp], s[32 + mx:32 + mx + ref.SIZES[ck]]
    good = len(stored) == comp and dig == ref.digest(ck, stored)
    # the section alone
    fp = io.BytesIO(s)
    try:
        m, h = FI._read_metadata(fp)
        ok = True
    except Exception as e:
        ok, err = False, e
    if ck and not good:
        if ok:
            return 'metadata with a wrong digest is returned: %r' % (m,)
        if not isinstance(err, EX.ChecksumMismatch):
            return 'refused with %r instead of a checksum error' % err
    if good and ck and not ok:
        return 'refused: %r' % err
    if good and ok and m != json.loads(json.dumps(p['meta'])) and not p.get('flip') and ck:
        return 'metadata comes back as %r' % (m,)
    # inside a container
    if not p.get('cut'):
        d = data({'n': 40, 'k': 'seq'})
        buf = ref.build(d, 16, dict(typesize=8, clevel=7, shuffle=True, cname='lz4'), ck=1, offsets=True, mac=0, meta=s)
        calls = []
        od = blosc.decompress
        blosc.decompress = lambda b: calls.append(1) or od(b)
        try:
            out, m = unpack(buf, p['un'])
            ok = True
        except Exception as e:
            ok, err = False, e
        finally:
            blosc.decompress = od
        if ck and not good:
            if ok or not isinstance(err, EX.ChecksumMismatch):
                return 'container: %r' % ((out, m) if ok else err,)
            if calls or p['un'] == 'ff' and os.path.exists('plain') and os.path.getsize('plain'):
                return 'data was decompressed although the metadata is wrong'
        elif ck and (not ok or out != d):
            return 'container is refused: %r' % (err if not ok else 'other data')


def gen_metadata_section(env):
    for v in METAS:
        n = len(json.dumps(v, separators=(',', ':')))
        for codec in ref.CODECS:
            for ck in ('None', 'adler32', 'sha512'):
                for mx in (0, n - 1, n, n + 1, 10 * n, '10x', 'x', '0'):
                    if isinstance(mx, str) or mx >= 0:
                        yield {'meta': v, 'ma': {'ck': ck, 'codec': codec, 'level': 9 if n % 2 else 1, 'max': mx}}
    k = 0
    while env.deep or k < 300:
        k += 1
        v = rand_meta(env)
        n = len(json.dumps(v, separators=(',', ':')))
        yield {'meta': v, 'ma': {'ck': env.rng.choice(ref.CHECKSUMS), 'codec': env.rng.choice(ref.CODECS), 'level': env.rng.randrange(10),
                                 'max': env.rng.choice(['10x', 'x', '0', max(0, n + env.rng.randrange(-n, 9)), env.pick_int(0, 5000)])}}


@check('C14', 'C10', 'C02', rule='metadata objects x codec x level x checksum x reservation around the stored size')
def metadata_section(p):
    import zlib
    ma = meta_settings_of(p)
    plain = json.dumps(p['meta'], separators=(',', ':')).encode()
    stored = plain
    if ma['codec'] == 'zlib':
        z = zlib.compress(plain, ma['level'])
        stored = z if len(z) <= len(plain) else plain
    mx = ma['max'](len(plain)) if callable(ma['max']) else ma['max']
    fp = io.BytesIO(b'before')
    fp.seek(6)
    try:
        n = FI._write_metadata(fp, p['meta'], meta_args(p))
    except Exception as e:
        if len(stored) <= mx <= ref.U32:
            return 'refused: %r' % e
        return None if fp.getvalue() == b'before' else 'refused after writing %r' % fp.getvalue()[6:]
    if len(stored) > mx:
        return 'accepted although %d bytes do not fit %d' % (len(stored), mx)
    s = fp.getvalue()
    if s[:6] != b'before' or n != len(s) - 6:
        return 'length %r reported for %d bytes' % (n, len(s) - 6)
    s = s[6:]
    try:
        c = ref.parse(ref.header(metadata=True, offsets=False, n=0, cs=0, last=0) + s)
    except Exception as e:
        return 'section is malformed: %s' % e
    w = judge_section(c.meta, p['meta'], ma)
    if w:
        return w
    fp.seek(6)
    m, h = FI._read_metadata(fp)
    if m != json.loads(plain):
        return 'reads back as %r' % (m,)


# ---------------------------------------------------------------- no container at all
def gen_not_a_container(env):
    good = {'d': {'n': 50, 'k': 'seq'}, 'cs': 20, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True, 'mac': 5,
            'meta': {'a': 1}, 'ma': None}
    ops = ['ff', 'bf', 'bb', 'nd-file', 'nd-bytes', 'append', 'rewrite', 'info', 'cli-d', 'cli-a']
    for op in ops:
        for n in (0, 1, 3, 4, 16, 31):
            yield {'op': op, 'p': good, 'cut': n}
        for n in (range(32) if op[:3] not in ('inf', 'cli') else (5, 8, 16, 24)):
            # without metadata, offsets, checksums: nothing else is read
            yield {'op': op, 'p': dict(good, meta=None, off=False, ck='None'), 'cut': n}
        for v in (0, 1, 2, 4, 5, 127, 255) if op != 'x' else ():
            yield {'op': op, 'p': good, 'set': [[4, v]]}
        for i, v in ((0, 0), (1, 0x4c), (2, 0), (3, 0x71), (5, 0x83), (5, 7), (5, 0x23), (6, 9), (6, 255), (27, 0x80), (31, 0x80),
                     (15, 0x7f), (11, 0x7f), (11, 0x90), (23, 0x90)):
            yield {'op': op, 'p': good, 'set': [[i, v]]}
        yield {'op': op, 'raw': {'n': 100, 'k': 'rand', 's': 1}}
        yield {'op': op, 'raw': {'n': 100, 'k': 'zero'}}
    k = 0
    while env.deep or k < 150:
        k += 1
        op = env.rng.choice(ops)
        c = env.rng.random()
        if c < .3:
            yield {'op': op, 'raw': {'n': env.rng.randrange(200), 'k': 'rand', 's': env.rng.randrange(10 ** 6)}}
        elif c < .6:
            yield {'op': op, 'p': good, 'set': [[4, env.rng.choice([v for v in range(256) if v != 3])]]}
        else:
            yield {'op': op, 'p': good, 'set': [[env.rng.choice([0, 1, 2, 3, 5, 6, 11, 15, 23, 27, 31]), env.rng.randrange(256)]]}


def run_main(argv):
    """the command line in a child process: (exit status, output)"""
    import subprocess, sys
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([x for x in sys.path if x])
    r = subprocess.run([sys.executable, '-c', 'import sys; from bloscpack.cli import main; sys.argv[0]="blpk"; main()'] + argv, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=60)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


@check('C18', rule='inputs that are no version-3 container (truncated, other magic, version, options, checksum, sizes, random) through '
       'every reading operation')
def not_a_container(p):
    if 'raw' in p:
        buf = data(p['raw'])
    else:
        buf = bytearray(pack(p['p'], 'bb'))
        for i, v in p.get('set', []):
            buf[i] = v
        buf = bytes(buf)
        if p.get('cut') is not None:
            buf = buf[:p['cut']]
    if len(buf) >= 32:
        m, v, opt, ck, ts, cs, last, n, mac = struct.unpack('<4sBBBBiiqq', buf[:32])
        if m == b'blpk' and v == 3 and opt <= 3 and ck <= 8 and ref.legal_header(
                dict(version=v, ck=ref.CHECKSUMS[ck], ts=ts, cs=cs, last=last, n=n, mac=mac)):
            return None      # a container after all
    with open('x.blp', 'wb') as f:
        f.write(buf)
    with open('new', 'wb') as f:
        f.write(b'new content')
    op = p['op']
    out = None
    sio = io.BytesIO(buf)
    try:
        if op == 'ff':
            FI.unpack_file_from_file('x.blp', 'out')
        elif op == 'bf':
            FI.unpack_bytes_from_file('x.blp')
        elif op == 'bb':
            FI.unpack_bytes_from_bytes(buf)
        elif op == 'nd-file':
            NI.unpack_ndarray_from_file('x.blp')
        elif op == 'nd-bytes':
            NI.unpack_ndarray_from_bytes(buf)
        elif op == 'append':
            AP.append('x.blp', 'new')
        elif op == 'rewrite':
            AP._seek_to_metadata(sio)
            AP._rewrite_metadata_fp(sio, {'other': 2})
        else:
            argv = {'info': ['info', 'x.blp'], 'cli-d': ['decompress', 'x.blp', 'out'], 'cli-a': ['append', 'x.blp', 'new']}[op]
            st, txt = run_main(argv)
            if st:
                raise ValueError(txt)
        return 'accepted'
    except Exception:
        pass
    if os.path.exists('out') and os.path.getsize('out'):
        return 'output was produced'
    if open('x.blp', 'rb').read() != buf or sio.getvalue() != buf:
        return 'the input was changed'


# ---------------------------------------------------------------- memory
def gen_memory(env):
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 20, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'off': True, 'mac': 1}
    for ck in ref.CHECKSUMS:
        for meta in (None, {'a': 1}):
            for src in ('mem', 'file'):
                for sink in ('mem', 'memk', 'file'):
                    for n in (0, 20, 50):
                        yield dict(base, ck=ck, meta=meta, src=src, sink=sink, d={'n': n, 'k': 'seq'}, hurt=None,
                                   used=n // 10)
                    for hurt in (0, 1, 2):
                        for what in ('chunk', 'digest', 'short'):
                            yield dict(base, ck=ck, meta=meta, src=src, sink=sink, hurt=[hurt, what])
    for lens in ([3, 0, 3], [0], [0, 0, 5], [5, 0], [1, 9, 0, 2], [7, 7, 7]):
        for ck in ('None', 'crc32'):
            for sink in ('mem', 'memk', 'file'):
                yield dict(base, ck=ck, meta=None, src='mem', sink=sink, hurt=None, lens=lens, d={'n': sum(lens), 'k': 'seq'})
    k = 0
    while env.deep or k < 300:
        k += 1
        if env.rng.random() < .2:
            lens = [env.rng.choice([0, 1, 5, env.rng.randrange(300)]) for _ in range(env.rng.randrange(1, 9))]
            yield dict(base, ck=env.rng.choice(ref.CHECKSUMS), meta=None, src='mem', sink=env.rng.choice(['mem', 'memk', 'file']),
                       hurt=None, lens=lens, d={'n': sum(lens), 'k': 'seq'})
        p = config(env, 500)
        p.update(src=env.rng.choice(['mem', 'file']), sink=env.rng.choice(['mem', 'memk', 'file']), hurt=None,
                 used=env.rng.choice([0, 0, 0, 1, 4, 9]))
        if isinstance(p['cs'], str):
            p['cs'] = 100
        if env.rng.random() < .4:
            p['hurt'] = [env.rng.randrange(5), env.rng.choice(['chunk', 'digest', 'short'])]
        yield p


@check('C17', 'C09', rule='packing into memory from memory and files, unpacking from memory to memory and files, damaged stored chunks')
def memory(p):
    d = data(p['d'])
    ba = dict(typesize=p['ts'], clevel=p['cl'], shuffle=p['sh'], cname=p['cn'])
    cs, last, parts = ref.chunks_of(d, p['cs'])
    if p.get('lens'):       # any list of chunks
        parts = [d[sum(p['lens'][:i]):sum(p['lens'][:i + 1])] for i in range(len(p['lens']))]
    ck = ref.CHECKSUMS.index(p['ck'])
    source = MI.PlainMemorySource(parts) if p['src'] == 'mem' else FI.PlainFPSource(io.BytesIO(d))
    sink = MI.CompressedMemorySink()
    if p.get('used'):       # a sink that held something else before
        AI.pack(MI.PlainMemorySource([b'before'] * p['used']), sink, p['used'], 6, 6, metadata={'before': 1},
                bloscpack_args=A.BloscpackArgs(checksum='sha512'))
    kw = dict(blosc_args=blosc_args(p), bloscpack_args=bloscpack_args(p))
    if p.get('meta') is not None:
        kw.update(metadata=p['meta'], metadata_args=meta_args(p))
    AI.pack(source, sink, len(parts), cs, last, **kw)
    comp = [ref.compress(x, ba) for x in parts]
    if list(sink.chunks) != comp:
        return 'stored buffers differ from the compressed chunks'
    digs = [ref.digest(ck, b) for b in comp]
    if [bytes(x or b'') for x in sink.checksums] != digs:
        return 'stored digests %r' % (sink.checksums,)
    if sink.metadata != p.get('meta'):
        return 'stored metadata %r' % (sink.metadata,)
    # the same through a file
    f = io.BytesIO()
    AI.pack(MI.PlainMemorySource(parts), FI.CompressedFPSink(f), len(parts), cs, last, **dict(kw, blosc_args=blosc_args(p)))
    w = None if p.get('lens') else judge_layout(p, f.getvalue())
    if w:
        return 'memory to file: ' + w
    for known in (True, False):
        f.seek(0)
        ps = MI.PlainMemorySink(len(parts)) if known else MI.PlainMemorySink()
        fs = FI.CompressedFPSource(f)
        AI.unpack(fs, ps)
        if list(ps.chunks) != parts or fs.metadata != (json.loads(json.dumps(p['meta'])) if p.get('meta') is not None else None):
            return 'memory to file to memory: other chunks or metadata %r' % (fs.metadata,)
    k = None
    if p['hurt']:
        k, what = p['hurt']
        k %= len(parts)
        if what == 'chunk':
            b = bytearray(sink.chunks[k])
            b[-1] ^= 1
            sink.chunks[k] = bytes(b)
            bad = ck > 0
            if not ck:
                k = None
                sink.chunks = comp
        elif not ck:
            k = None
        elif what == 'digest':
            b = bytearray(sink.checksums[k])
            b[-1] ^= 0x10
            sink.checksums[k] = bytes(b)
        else:
            sink.checksums[k] = sink.checksums[k][:-1]
    src = MI.CompressedMemorySource(sink)
    if src.metadata != p.get('meta') or src.nchunks != len(parts):
        return 'source metadata %r' % (src.metadata,)
    if p['sink'] == 'file':
        o = io.BytesIO()
        ps = FI.PlainFPSink(o, len(parts))
        get = o.getvalue
    else:
        ps = MI.PlainMemorySink(*([len(parts)] if p['sink'] == 'memk' else []))
        get = lambda: b''.join(x for x in ps.chunks if x is not None)
    try:
        AI.unpack(src, ps)
    except EX.ChecksumMismatch:
        if k is None:
            return 'refused'
        return None if get() == b''.join(parts[:k]) else 'data of a bad chunk reached the output'
    except Exception as e:
        return 'fails: %r' % e
    if k is not None:
        return 'a damaged chunk is accepted'
    if get() != d or p['sink'] != 'file' and list(ps.chunks) != parts:
        return 'other data comes back'
    ps = MI.PlainMemorySink()
    AI.unpack(src, ps)
    if ps.chunks != parts or sink.metadata != p.get('meta') or list(sink.chunks) != comp:
        return 'other data comes back the second time'
