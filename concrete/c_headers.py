"""headers, chunk headers, chunking, reservation, argument sets, checksums"""
import struct, zlib, hashlib, math
from .runner import check
from . import ref
from bloscpack import headers as H, args as A, checksums as CS, exceptions as EX, metacodecs as MC, serializers as SER

N = 400


def bx(s):
    return bytes.fromhex(s)


# ---------------------------------------------------------------- container header
RANGE = dict(format_version=(0, 255), typesize=(0, 255), chunk_size=(-1, ref.MAXBUF), last_chunk=(-1, ref.MAXBUF),
             nchunks=(-1, ref.MAXC), max_app_chunks=(0, ref.MAXC))


def rand_fields(env, legal):
    r = env.rng
    f = {k: env.pick_int(lo, hi) for k, (lo, hi) in RANGE.items()}
    f['offsets'], f['metadata'] = r.random() < .5, r.random() < .5
    f['checksum'] = r.choice(ref.CHECKSUMS)
    if legal:
        if f['chunk_size'] != -1 and f['last_chunk'] > f['chunk_size']:
            f['last_chunk'] = r.choice([-1, f['chunk_size'], min(f['chunk_size'], f['last_chunk'])])
        if f['nchunks'] == -1:
            f['max_app_chunks'] = 0
        elif f['nchunks'] + f['max_app_chunks'] > ref.MAXC:
            f['max_app_chunks'] = r.choice([0, ref.MAXC - f['nchunks']])
    else:
        for k in r.sample(sorted(RANGE), r.randint(0, 2)):
            lo, hi = RANGE[k]
            f[k] = r.choice([lo - 1, hi + 1, lo - r.getrandbits(40), hi + r.getrandbits(70)])
        if r.random() < .2:
            f['checksum'] = r.choice(['', 'none', 'sha3', 'crc32 ', None, 3])
        if r.random() < .1:
            f[r.choice(sorted(RANGE))] = r.choice([None, 'x', 1.5, '3'])
    return f


HDEF = dict(format_version=3, offsets=False, metadata=False, checksum='None', typesize=0, chunk_size=-1, last_chunk=-1, nchunks=-1,
            max_app_chunks=0)
MDEF = dict(magic_format=b'', meta_checksum='None', meta_codec='None', meta_level=0, meta_size=0, max_meta_size=0, meta_comp_size=0,
            user_codec=b'')


def ref_fields(f):
    return dict(version=f['format_version'], ck=f['checksum'], ts=f['typesize'], cs=f['chunk_size'], last=f['last_chunk'],
                n=f['nchunks'], mac=f['max_app_chunks'])


def gen_container_header(env):
    yield dict(HDEF)
    for k, (lo, hi) in RANGE.items():
        for v in env.ints(lo - 1, hi + 1):
            f = dict(format_version=3, offsets=True, metadata=False, checksum='adler32', typesize=8, chunk_size=-1,
                     last_chunk=-1, nchunks=5 if k == 'max_app_chunks' else -1, max_app_chunks=0)
            f[k] = v
            yield f
    for h in env.hints:
        f = dict(format_version=3, offsets=True, metadata=False, checksum='adler32', typesize=8, chunk_size=-1,
                 last_chunk=-1, nchunks=-1, max_app_chunks=0)
        for k in RANGE:
            if k in h:
                f[k] = int(h[k])
        for ck in ref.CHECKSUMS:
            for o in (0, 1, 2, 3):
                yield dict(f, checksum=ck, offsets=bool(o & 1), metadata=bool(o & 2))
    for _ in range(20 * N if env.deep else N):
        yield rand_fields(env, env.rng.random() < .6)


@check('C05', 'C23', rule='container headers: every field at its boundaries, at literals of the source, and random legal '
       'and illegal combinations; oracle: legality predicate, struct layout')
def container_header(f):
    legal = ref.legal_header(ref_fields(f))
    try:
        h = H.BloscpackHeader(**f)
    except (TypeError, ValueError):
        return 'legal header is refused' if legal else None
    except Exception as e:
        return 'refused with %r' % e if legal or not isinstance(e, EX.NoSuchChecksum) else None
    if not legal:
        return 'illegal header is accepted'
    for k, v in f.items():
        if getattr(h, k) != v:
            return 'field %s is %r' % (k, getattr(h, k))
    short = {k: v for k, v in f.items() if type(v) is not type(HDEF[k]) or v != HDEF[k]}
    if short != f and H.BloscpackHeader(**short) != h:
        return 'with only the fields %s given it is %r' % (sorted(short), H.BloscpackHeader(**short))
    tot = h.total_prospective_chunks
    if tot != (None if f['nchunks'] == -1 else f['nchunks'] + f['max_app_chunks']):
        return 'total_prospective_chunks is %r' % tot
    e = h.encode()
    g = ref_fields(f)
    g['ck'] = ref.CHECKSUMS.index(g['ck'])
    want = ref.header(offsets=f['offsets'], metadata=f['metadata'], **g)
    if e != want:
        return 'encodes to %s, documented %s' % (e.hex(), want.hex())
    d = H.BloscpackHeader.decode(e)
    if d != h or any(getattr(d, k) != v for k, v in f.items()):
        return 'decodes to %r' % (d,)


def gen_container_header_bytes(env):
    r = env.rng
    base = ref.header(ck=1, cs=10, last=5, n=3, mac=4)
    for i in range(32):
        for v in (range(256) if i in (0, 4, 5, 6, 7) or env.deep else [0, 1, 2, 3, 8, 9, 127, 128, 255]):
            yield {'b': (base[:i] + bytes([v]) + base[i + 1:]).hex()}
    for n in (0, 1, 8, 16, 31, 33, 64):
        yield {'b': (base * 2)[:n].hex()}
    for _ in range(20 * N if env.deep else N):
        f = rand_fields(env, r.random() < .7)
        g = ref_fields(f)
        try:
            g['ck'] = ref.CHECKSUMS.index(g['ck'])
            b = bytearray(ref.header(offsets=f['offsets'], metadata=f['metadata'], **g))
        except (struct.error, ValueError, TypeError):
            continue
        for _ in range(r.choice([0, 0, 1, 2])):
            b[r.randrange(32)] = r.choice([0, 1, 2, 3, 9, 127, 128, 254, 255, r.randrange(256)])
        if r.random() < .1:
            b = b[:r.randrange(33)] + bytes(r.choice([0, 0, 5]))
        yield {'b': bytes(b).hex()}


@check('C05', 'C18', rule='32-byte buffers: one byte changed at every place, wrong lengths, random; oracle: legal encodings')
def container_header_bytes(p):
    b = bx(p['b'])
    legal = False
    if len(b) == 32:
        m, v, opt, ck, ts, cs, last, n, mac = struct.unpack('<4sBBBBiiqq', b)
        legal = m == b'blpk' and opt <= 3 and ck <= 8 and ref.legal_header(
            dict(version=v, ck=ref.CHECKSUMS[ck], ts=ts, cs=cs, last=last, n=n, mac=mac))
    try:
        h = H.BloscpackHeader.decode(b)
    except Exception as e:
        return 'legal encoding is refused: %r' % e if legal else None
    if not legal:
        return 'accepted: %r' % (h,)
    if h.encode() != b:
        return 'decodes to a header that encodes differently: %s' % h.encode().hex()


# ---------------------------------------------------------------- metadata header
MRANGE = dict(meta_level=(0, 9), meta_size=(0, ref.U32), max_meta_size=(0, ref.U32), meta_comp_size=(0, ref.U32))


def gen_metadata_header(env):
    r = env.rng
    yield dict(MDEF, magic_format='', user_codec='')
    base = dict(magic_format='4a534f4e', meta_checksum='adler32', meta_codec='zlib', meta_level=6, meta_size=10,
                max_meta_size=100, meta_comp_size=9, user_codec='')
    for k, (lo, hi) in MRANGE.items():
        for v in env.ints(lo - 1, hi + 1):
            yield dict(base, **{k: v})
    for k in ('magic_format', 'user_codec'):
        for n in range(11):
            yield dict(base, **{k: (b'abcdefghijk'[:n]).hex()})
        yield dict(base, **{k: None})
        yield dict(base, **{k: 5})
    for ck in ref.CHECKSUMS + ['x', None, 3]:
        for co in ref.CODECS + ['bz2', None]:
            yield dict(base, meta_checksum=ck, meta_codec=co)
    for _ in range(20 * N if env.deep else N):
        f = {k: env.pick_int(lo, hi) for k, (lo, hi) in MRANGE.items()}
        if r.random() < .3:
            k = r.choice(sorted(MRANGE))
            f[k] = r.choice([MRANGE[k][0] - 1, MRANGE[k][1] + 1, -5, 2 ** 40, None, 'x', 1.5])
        f['meta_checksum'], f['meta_codec'] = r.choice(ref.CHECKSUMS), r.choice(ref.CODECS)
        for k in ('magic_format', 'user_codec'):
            n = r.choice([0, 1, 4, 7, 8, 8, 9, 12] if r.random() < .3 else [0, 1, 4, 7, 8])
            f[k] = bytes(r.choice(b'\0ABz\xff') for _ in range(n)).strip(b'\0').hex()
        yield f


@check('C06', 'C23', rule='metadata headers: fields at boundaries, identifiers of 0..10 bytes, random combinations')
def metadata_header(p):
    f = dict(p)
    for k in ('magic_format', 'user_codec'):
        if isinstance(f[k], str):
            f[k] = bx(f[k])
    legal = (all(isinstance(f[k], int) and lo <= f[k] <= hi for k, (lo, hi) in MRANGE.items())
             and f['meta_checksum'] in ref.CHECKSUMS and f['meta_codec'] in ref.CODECS
             and all(isinstance(f[k], bytes) and len(f[k]) <= 8 for k in ('magic_format', 'user_codec')))
    try:
        h = H.MetadataHeader(**f)
    except (TypeError, ValueError):
        return 'legal header is refused' if legal else None
    except Exception as e:
        return 'refused with %r' % e if legal or not isinstance(e, (EX.NoSuchChecksum, EX.NoSuchCodec)) else None
    if not legal:
        return 'illegal header is accepted'
    short = {k: v for k, v in f.items() if type(v) is not type(MDEF[k]) or v != MDEF[k]}
    if short != f and H.MetadataHeader(**short) != h:
        return 'with only the fields %s given it is %r' % (sorted(short), H.MetadataHeader(**short))
    e = h.encode()
    want = ref.meta_header(f['magic_format'], ref.CHECKSUMS.index(f['meta_checksum']), ref.CODECS.index(f['meta_codec']),
                           f['meta_level'], f['meta_size'], f['max_meta_size'], f['meta_comp_size'], f['user_codec'])
    if e != want:
        return 'encodes to %s, documented %s' % (e.hex(), want.hex())
    d = H.MetadataHeader.decode(e)
    for k, v in f.items():
        if getattr(d, k) != v:
            return 'round trip: %s is %r' % (k, getattr(d, k))
    if d != h:
        return 'decoded header differs: %r' % (d,)


def gen_metadata_header_bytes(env):
    r = env.rng
    base = ref.meta_header(b'JSON', 1, 1, 6, 10, 100, 9)
    for i in range(32):
        for v in (range(256) if i in (8, 9, 10, 11) or env.deep else [0, 1, 2, 8, 9, 10, 128, 255]):
            yield {'b': (base[:i] + bytes([v]) + base[i + 1:]).hex()}
    for n in (0, 1, 8, 31, 33, 64):
        yield {'b': (base * 2)[:n].hex()}
    for _ in range(10 * N if env.deep else N):
        b = bytearray(r.randrange(256) for _ in range(32))
        b[8:12] = bytes([0, r.randrange(11), r.randrange(3), r.randrange(12)])
        yield {'b': bytes(b).hex()}


@check('C06', rule='32-byte buffers: one byte changed at every place, wrong lengths, random')
def metadata_header_bytes(p):
    b = bx(p['b'])
    ok = len(b) == 32 and b[9] <= 8 and b[10] <= 1 and b[11] <= 9
    try:
        d = H.MetadataHeader.decode(b)
    except Exception as e:
        return 'refused: %r' % e if ok and b[8] == 0 else None
    if not ok:
        return 'accepted: %r' % (d,)
    s, m, c = struct.unpack('<III', b[12:24])
    got = (d.meta_checksum, d.meta_codec, d.meta_level, d.meta_size, d.max_meta_size, d.meta_comp_size, d.magic_format,
           d.user_codec)
    want = (ref.CHECKSUMS[b[9]], ref.CODECS[b[10]], b[11], s, m, c, b[:8].strip(b'\0'), b[24:].strip(b'\0'))
    if got[:6] != want[:6] or got[6].strip(b'\0') != want[6] or got[7].strip(b'\0') != want[7]:
        return 'decodes to %r, documented %r' % (got, want)


# ---------------------------------------------------------------- chunk headers
def gen_chunk_header(env):
    r = env.rng
    for i in range(16):
        for v in (0, 1, 7, 128, 255):
            b = bytearray(16)
            b[i] = v
            yield {'b': bytes(b).hex()}
    for _ in range(20 * N if env.deep else N):
        yield {'b': bytes(r.randrange(256) for _ in range(16 + r.choice([0, 0, 3]))).hex()}


@check('C26', rule='16-byte blosc headers, one byte set or random')
def chunk_header(p):
    b = bx(p['b'])
    d = H.decode_blosc_header(b)
    want = dict(zip(['version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes'],
                    struct.unpack('<BBBBIII', b[:16])))
    if dict(d) != want or list(d) != list(want):
        return '%r, documented %r' % (d, want)


def gen_chunk_flags(env):
    for i in range(256):
        yield {'flags': i}


@check('C26', rule='all 256 flag bytes')
def chunk_flags(p):
    x = p['flags']
    try:
        d = H.decode_blosc_flags(x)
    except Exception as e:
        return None if x >> 5 > 4 else 'refused: %r' % e
    names = {0: 'blosclz', 1: 'lz4', 2: 'snappy', 3: 'zlib', 4: 'zstd'}
    want = dict(byte_shuffle=bool(x & 1), pure_memcpy=bool(x & 2), bit_shuffle=bool(x & 4), split_blocks=bool(x & 16),
                codec=names.get(x >> 5))
    if dict(d) != want:
        return '%r, documented %r' % (d, want)


# ---------------------------------------------------------------- chunking, reservation
def gen_chunking(env):
    r = env.rng
    for n in range(0, 14):
        for c in range(-1, 16):
            yield {'n': n, 'c': c}
    big = [-1, 0, 1, 2 ** 31, 2 ** 40, ref.MAXC, ref.MAXC + 1, ref.MAXC * 3, 2 ** 80]
    for c in env.ints(-2, ref.MAXBUF + 2):
        for n in [1, 10, c - 1, c, c + 1, 2 * c, 2 * c + 1, c * ref.MAXC, c * ref.MAXC + 1, c * (ref.MAXC - 1) + 1]:
            yield {'n': n, 'c': c}
    for n in big:
        for c in [0, 1, 7, '1M', '512B', '1Z', ref.MAXBUF]:
            yield {'n': n, 'c': c}
    for h in env.hints:
        if 'in_file_size' in h:
            yield {'n': int(h['in_file_size']), 'c': int(h.get('chunk_size', 1))}
    for _ in range(30 * N if env.deep else N):
        n = env.pick_int(0, 2 ** 70)
        c = r.choice([env.pick_int(-1, ref.MAXBUF + 1), env.pick_int(1, max(1, n)), '%d%s' % (r.randint(0, 2000), r.choice('BKMGT')),
                      '%.2f%s' % (r.random() * 3, r.choice('KM'))])
        yield {'n': n, 'c': c}


def size_value(s):
    """None: refused"""
    suf = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}.get(s[-1:])
    if suf is None:
        return None
    try:
        return int(float(s[:-1]) * suf)
    except ValueError:
        return None


@check('C07', rule='input sizes 0..13 x chunk sizes -1..15, boundaries around the format limits, size strings, random')
def chunking(p):
    n, c = p['n'], p['c']
    v = size_value(c) if isinstance(c, str) else c
    legal = n == 0 or (n > 0 and v is not None and 1 <= v <= ref.MAXBUF and n <= v * ref.MAXC)
    try:
        k, cs, last = A.calculate_nchunks(n, c)
    except BaseException as e:      # ChunkingException is no Exception
        return 'refused: %r' % e if legal else None
    if not legal:
        return 'accepted: %r' % ((k, cs, last),)
    if n == 0:
        want = (1, 0, 0)
    else:
        w = min(v, n)
        kk = -(-n // w)
        want = (kk, w, n - (kk - 1) * w)
    if (k, cs, last) != want:
        return '%r, should be %r' % ((k, cs, last), want)


FUNCS = ['10x', '0', 'x', 'neg', 'none', 'float', 'str', 'huge', '1-x']


def fn_of(s):
    if s[:1] == '=':
        return lambda x: int(s[1:])
    return {'10x': lambda x: 10 * x, '0': lambda x: 0, 'x': lambda x: x, 'neg': lambda x: -1, 'none': lambda x: None,
            'float': lambda x: 1.5, 'str': lambda x: '5', 'huge': lambda x: 2 ** 70, '1-x': lambda x: 1 - x}[s]


def gen_reservation(env):
    ns = [-1, 0, 1, 2, 10, 1000, ref.MAXC - 1, ref.MAXC]
    for off in (True, False):
        for n in ns:
            for m in [-1, 0, 1, 5, ref.MAXC - n - 1, ref.MAXC - n, ref.MAXC - n + 1, ref.MAXC, ref.MAXC + 1, 2 ** 70]:
                yield {'off': off, 'n': n, 'm': m}
            for f in FUNCS + ['=%d' % x for x in (ref.MAXC - n, ref.MAXC - n + 1, ref.MAXC)]:
                yield {'off': off, 'n': n, 'f': f}
            for o in (None, 'x', 1.5, '7'):
                yield {'off': off, 'n': n, 'm': o}
    for h in env.hints:
        n = int(h.get('nchunks', 1))
        for off in (True, False):
            if 'max_app_chunks' in h:
                yield {'off': off, 'n': n, 'm': int(h['max_app_chunks'])}
            if 'function_value' in h:
                yield {'off': off, 'n': n, 'f': '=%d' % int(h['function_value'])}
    for _ in range(20 * N if env.deep else N):
        n, v = env.pick_int(-1, ref.MAXC), env.pick_int(-3, ref.MAXC + 5)
        yield {'off': env.rng.random() < .7, 'n': n, 'm': v} if env.rng.random() < .5 else \
            {'off': env.rng.random() < .7, 'n': n, 'f': '=%d' % v}


@check('C08', rule='chunk counts and requests at their boundaries, functions of the chunk count, other values, random')
def reservation(p):
    off, n = p['off'], p['n']
    need = off and n != -1
    if 'f' in p:
        req = fn_of(p['f'])
        v = req(n)
        legal = isinstance(v, int) and v >= 0
    else:
        req = v = p['m']
        legal = isinstance(v, int) and 0 <= v <= ref.MAXC
    want = 0 if not need else min(v, ref.MAXC - n) if legal else None
    try:
        got = A._handle_max_apps(off, n, req)
    except (TypeError, ValueError) as e:
        return None if want is None else 'refused: %r' % e
    if want is None:
        return 'accepted: %r' % got
    if got != want:
        return '%r, should be %r' % (got, want)


# ---------------------------------------------------------------- argument sets
SETS = {'blosc': (A._check_blosc_args, A.BloscArgs, dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')),
        'bloscpack': (A._check_bloscpack_args, A.BloscpackArgs, dict(offsets=True, checksum='adler32')),
        'metadata': (A._check_metadata_arguments, A.MetadataArgs, dict(magic_format=b'JSON', meta_checksum='adler32',
                                                                       meta_codec='zlib', meta_level=6))}
FN = {'blosc': None, 'bloscpack': 'max_app_chunks', 'metadata': 'max_meta_size'}


def gen_argument_sets(env):
    for w, (_, _, d) in SETS.items():
        keys = sorted(d) + ([FN[w]] if FN[w] else [])
        for m in range(2 ** len(keys)):
            for ex in (None, 'extra', '', 'typesize ', 'checksum' if w != 'bloscpack' else 'clevel') + \
                    tuple(s for s in env.lit_strs if isinstance(s, str) and s not in keys):
                yield {'w': w, 'keys': [k for i, k in enumerate(keys) if m >> i & 1] + ([ex] if ex is not None else [])}


@check('C25', rule='every subset of the expected keys, alone and with one unexpected key')
def argument_sets(p):
    chk, cls, d = SETS[p['w']]
    keys = sorted(d) + ([FN[p['w']]] if FN[p['w']] else [])
    try:
        chk({k: 1 for k in p['keys']})
    except ValueError:
        return 'complete set is refused' if sorted(p['keys']) == sorted(keys) else None
    except Exception as e:
        return 'refused with %r' % e
    if sorted(p['keys']) != sorted(keys):
        return 'accepted'


def gen_argument_objects(env):
    for w in SETS:
        yield {'w': w, 'over': {}}
    for ck in ref.CHECKSUMS + [None]:
        yield {'w': 'bloscpack', 'over': {'checksum': ck}}
    for x in (0, 1, 100, 12345):
        yield {'w': 'bloscpack', 'over': {'max_app_chunks': x, 'offsets': False}}
        yield {'w': 'metadata', 'over': {'max_meta_size': x, 'meta_level': x % 10}}
        yield {'w': 'blosc', 'over': {'typesize': x, 'clevel': x % 10, 'shuffle': False, 'cname': 'zstd'}}
    for ck in ref.CHECKSUMS:
        for co in ref.CODECS:
            yield {'w': 'metadata', 'over': {'meta_checksum': ck, 'meta_codec': co}}


@check('C25', rule='argument objects: defaults, every checksum and codec, other values')
def argument_objects(p):
    chk, cls, d = SETS[p['w']]
    o = cls(**p['over'])
    chk(o)
    want = dict(d)
    want.update(p['over'])
    if p['w'] == 'bloscpack' and want['checksum'] is None:
        want['checksum'] = 'None'
    keys = sorted(d) + ([FN[p['w']]] if FN[p['w']] else [])
    if sorted(o) != sorted(keys) or len(o) != len(keys):
        return 'entries %r' % sorted(o)
    for k in keys:
        if k == FN[p['w']] and k not in p['over']:
            if [o[k](x) for x in (0, 1, 7, 1000)] != [0, 10, 70, 10000]:
                return 'default of %s' % k
        elif o[k] != want[k] or type(o[k]) is not type(want[k]):
            return '%s is %r, should be %r' % (k, o[k], want[k])
    # assigning to an entry changes it and nothing else, also in a copy; there are no other entries and they stay
    before = {k: o[k] for k in keys}
    for k, mark in [(k, mark) for k in keys for mark in (object(), None, 0, '')]:
        c = o.copy()
        c[k] = mark
        if c[k] is not mark or getattr(c, k) is not mark or o[k] is not before[k] or any(c[x] is not o[x] for x in keys if x != k):
            return 'assigning to %s' % k
        if sorted(c) != sorted(keys):
            return 'entries %r after an assignment' % sorted(c)
    for k in ('extra', '', keys[0] + 's'):
        for f in (lambda: o[k], lambda: o.__setitem__(k, 1)):
            try:
                f()
            except KeyError:
                continue
            return 'unknown entry %r' % k
    for k in keys:
        try:
            del o[k]
        except Exception:
            continue
        return 'entry %s can be deleted' % k
    if sorted(o) != sorted(keys) or any(o[k] is not before[k] for k in keys):
        return 'entries %r after refused changes' % dict(o)
    chk(o)


# ---------------------------------------------------------------- checksums
def gen_checksums(env):
    r = env.rng
    for i in range(9):
        for n in list(range(0, 20)) + [63, 64, 65, 127, 128, 1000, 5552, 5553, 65521, 70000]:
            yield {'i': i, 'd': {'n': n, 's': n, 'k': 'rand'}}
        for k in ('zero', 'ff'):
            yield {'i': i, 'd': {'n': 5000, 's': 0, 'k': k}}
    for n in env.ints(20, 2 ** 22 + 10):
        for m in (n, 2 * n - 1, 2 * n, 2 * n + 1):
            for i in ((1, 2, 3, 8) if env.deep else (1 + n % 8,)):
                if env.deep or m < 300000:
                    yield {'i': i, 'd': {'n': m, 's': 1, 'k': 'rand'}}
    for _ in range(2000 if env.deep else 100):
        yield {'i': r.randrange(9), 'd': {'n': env.pick_int(0, 200000 if env.deep else 3000), 's': r.randrange(10 ** 6), 'k': 'rand'}}


def data(d):
    import random
    n = d['n']
    k = d.get('k', 'rand')
    if k == 'hex':
        return bx(d['x'])
    if k == 'zero':
        return bytes(n)
    if k == 'ff':
        return b'\xff' * n
    if k == 'seq':
        return bytes(i * 7 % 251 for i in range(n)) if n < 1000 else (bytes(range(251)) * (n // 251 + 1))[:n]
    return random.Random(d.get('s', 0)).randbytes(n)


@check('C21', rule='all nine checksums on inputs of 0..19 bytes, block boundaries, constant and random data')
def checksums(p):
    i = p['i']
    b = data(p['d'])
    h = CS.CHECKSUMS[i]
    nm = ref.CHECKSUMS[i]
    if h.name != nm or CS.CHECKSUMS_LOOKUP[nm] is not h or CS.CHECKSUMS_AVAIL[i] != nm or len(CS.CHECKSUMS) != 9:
        return 'code %d is %s' % (i, h.name)
    g = h(b)
    w = ref.digest(i, b)
    if g != w or len(g) != h.size or h.size != ref.SIZES[i]:
        return '%s: %r (size %r), documented %r' % (nm, g, h.size, w)


def gen_names(env):
    for w in range(3):
        for s in ref.CHECKSUMS + ref.CODECS + ['JSON', '', 'None ', 'none', 'ADLER32', 'md4', 'sha-1', 'zlib2', 'Zlib'] + \
                [x for x in env.lit_strs if isinstance(x, str)]:
            yield {'w': w, 's': s}
        yield {'w': w, 's': None}


@check('C21', rule='known and unknown names of checksums, codecs, serializers')
def names(p):
    f, exc, known = [(CS.check_valid_checksum, EX.NoSuchChecksum, ref.CHECKSUMS), (MC.check_valid_codec, EX.NoSuchCodec, ref.CODECS),
                     (SER.check_valid_serializer, EX.NoSuchSerializer, [b'JSON'])][p['w']]
    s = p['s'].encode() if p['w'] == 2 and p['s'] is not None else p['s']
    try:
        f(s)
    except exc:
        return 'known name is refused' if s in known else None
    if s not in known:
        return 'accepted'
