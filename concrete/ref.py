"""independent reference for the concrete part: the documented format, written from the README/format notes
and the property texts, sharing no code with bloscpack (only the blosc, zlib, hashlib, json dependencies)"""
import struct, zlib, hashlib, json
import blosc

CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
SIZES = [0, 4, 4, 16, 20, 28, 32, 48, 64]
CODECS = ['None', 'zlib']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']
MAXBUF = 2147483631
MAXC = 2 ** 63 - 1
U32 = 2 ** 32 - 1


def digest(i, data):
    data = bytes(data)
    if i == 0:
        return b''
    if i == 1:
        return struct.pack('<I', zlib.adler32(data) & 0xffffffff)
    if i == 2:
        return struct.pack('<I', zlib.crc32(data) & 0xffffffff)
    return getattr(hashlib, CHECKSUMS[i])(data).digest()


def header(ck=0, offsets=True, metadata=False, ts=8, cs=-1, last=-1, n=-1, mac=0, version=3):
    return struct.pack('<4sBBBBiiqq', b'blpk', version, (1 if offsets else 0) + (2 if metadata else 0), ck, ts, cs, last,
                       n, mac)


def legal_header(f):
    i = lambda k: isinstance(f[k], int) and not isinstance(f[k], bool) or isinstance(f[k], bool)
    if not all(i(k) for k in ('version', 'ts', 'cs', 'last', 'n', 'mac')):
        return False
    return (0 <= f['version'] <= 255 and f['ck'] in CHECKSUMS and 0 <= f['ts'] <= 255 and -1 <= f['cs'] <= MAXBUF
            and -1 <= f['last'] <= MAXBUF and -1 <= f['n'] <= MAXC and 0 <= f['mac'] <= MAXC
            and (f['n'] == -1 or f['n'] + f['mac'] <= MAXC) and (f['n'] != -1 or f['mac'] == 0)
            and (f['cs'] == -1 or f['last'] == -1 or f['last'] <= f['cs']))


def meta_header(fmt=b'JSON', ck=0, codec=0, level=0, size=0, mx=0, comp=0, user=b'', options=0):
    return struct.pack('<8sBBBBIII8s', fmt, options, ck, codec, level, size, mx, comp, user)


class Bad(Exception):
    pass


class C:
    pass


def parse(buf, strict=True):
    """take a container apart; Bad when it is not exactly the documented layout"""
    c = C()
    buf = bytes(buf)
    if len(buf) < 32:
        raise Bad('shorter than a header')
    magic, c.version, opt, c.ck, c.ts, c.cs, c.last, c.n, c.mac = struct.unpack('<4sBBBBiiqq', buf[:32])
    if magic != b'blpk' or c.version != 3 or opt > 3 or c.ck > 8:
        raise Bad('header %r' % (buf[:32],))
    c.offsets, c.metadata = bool(opt & 1), bool(opt & 2)
    pos = 32
    c.meta = None
    if c.metadata:
        h = buf[pos:pos + 32]
        if len(h) < 32:
            raise Bad('short metadata header')
        m = C()
        m.fmt, m.options, m.ck, m.codec, m.level, m.size, m.max, m.comp, m.user = struct.unpack('<8sBBBBIII8s', h)
        if m.ck > 8 or m.codec > 1 or m.level > 9 or m.options:
            raise Bad('metadata header %r' % (h,))
        pos += 32
        m.stored = buf[pos:pos + m.comp]
        m.pad = buf[pos + m.comp:pos + m.max]
        m.digest = buf[pos + m.max:pos + m.max + SIZES[m.ck]]
        if m.comp > m.max or len(m.pad) != m.max - m.comp or len(m.digest) != SIZES[m.ck]:
            raise Bad('metadata section sizes')
        if m.digest != digest(m.ck, m.stored):
            raise Bad('metadata digest')
        if m.pad.strip(b'\0'):
            raise Bad('metadata padding is not zero')
        m.plain = zlib.decompress(m.stored) if m.codec else m.stored
        if len(m.plain) != m.size:
            raise Bad('metadata size %d != %d' % (len(m.plain), m.size))
        m.value = json.loads(m.plain.decode('utf-8'))
        m.section = buf[32:pos + m.max + SIZES[m.ck]]
        pos += m.max + SIZES[m.ck]
        c.meta = m
    c.offs_pos = pos
    c.offs = None
    if c.offsets:
        k = c.n + c.mac
        if len(buf) < pos + 8 * k:
            raise Bad('short offsets section')
        c.offs = list(struct.unpack('<%dq' % k, buf[pos:pos + 8 * k]))
        pos += 8 * k
    c.chunks = []
    for i in range(c.n):
        h = buf[pos:pos + 16]
        if len(h) < 16:
            raise Bad('short chunk header %d' % i)
        cb = struct.unpack('<BBBBIII', h)[6]
        b = buf[pos:pos + cb]
        d = buf[pos + cb:pos + cb + SIZES[c.ck]]
        if len(b) != cb or cb < 16 or len(d) != SIZES[c.ck]:
            raise Bad('short chunk %d' % i)
        if d != digest(c.ck, b):
            raise Bad('digest of chunk %d' % i)
        c.chunks.append((pos, b, d))
        pos += cb + SIZES[c.ck]
    c.end = pos
    c.trailing = buf[pos:]
    if strict and c.trailing:
        raise Bad('%d trailing bytes' % len(c.trailing))
    c.plain = [blosc.decompress(b) for _, b, _ in c.chunks]
    c.data = b''.join(c.plain)
    return c


def chunks_of(data, cs):
    """the documented chunking"""
    if not data:
        return 0, 0, [b'']
    cs = min(cs, len(data))
    parts = [data[i:i + cs] for i in range(0, len(data), cs)]
    return cs, len(parts[-1]), parts


def compress(b, ba):
    return blosc.compress(b, typesize=ba['typesize'], clevel=ba['clevel'], shuffle=ba['shuffle'], cname=ba['cname'])


def meta_section(obj, ma, magic=b'JSON'):
    plain = json.dumps(obj, separators=(',', ':')).encode('utf-8')
    codec = ma['codec']
    level = ma['level']
    stored = plain
    if codec:
        z = zlib.compress(plain, level)
        if len(z) > len(plain):
            codec, level = 0, 0
        else:
            stored = z
    else:
        level = 0
    mx = ma['max'](len(plain)) if callable(ma['max']) else ma['max']
    return stored, codec, level, len(plain), mx


def build(data, cs, ba, ck=0, offsets=True, mac=0, meta=None):
    """a complete container written by this file only; meta: bytes of a whole metadata section"""
    cs, last, parts = chunks_of(data, cs)
    if not offsets:
        mac = 0
    out = header(ck, offsets, meta is not None, ba['typesize'], cs, last, len(parts), mac)
    out += meta or b''
    comp = []
    for p in parts:
        b = compress(p, ba)
        comp.append(b + digest(ck, b))
    if offsets:
        pos = len(out) + 8 * (len(parts) + mac)
        for b in comp:
            out += struct.pack('<q', pos)
            pos += len(b)
        out += b'\xff' * (8 * mac)
    return out + b''.join(comp)


def build_meta(obj, ck=0, codec=0, level=6, pad=0, magic=b'JSON'):
    plain = json.dumps(obj, separators=(',', ':')).encode('utf-8')
    stored = zlib.compress(plain, level) if codec else plain
    mx = len(stored) + pad
    return (meta_header(magic, ck, codec, level if codec else 0, len(plain), mx, len(stored)) + stored + b'\0' * pad
            + digest(ck, stored))
