"""appending and rewriting metadata: histories of operations on one container"""
import io, os, struct, json
import blosc
from .runner import check
from . import ref
from .c_headers import data, bx
from .c_io import *

SIZE_KINDS = ['fill', 'fill-1', 'fill+1', 'chunk', 'room', 'room+1', 'zero', 'one', 'many']


def size_of(kind, c):
    """how many bytes to append, relative to the container's state"""
    if isinstance(kind, int):
        return kind
    fill, cs = c.cs - c.last, c.cs
    return max(0, {'fill': fill, 'fill-1': fill - 1, 'fill+1': fill + 1, 'chunk': fill + cs, 'room': fill + cs * c.mac,
                   'room+1': fill + cs * c.mac + 1, 'zero': 0, 'one': 1, 'many': fill + 2 * cs + 1}[kind])


def gen_append_history(env):
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 10, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True, 'mac': 4}
    for api in ('fp', 'file'):
        for n in (1, 9, 10, 11, 47, 50):
            for k in SIZE_KINDS:
                for meta in (None, {'a': 'b' * 30}):
                    yield dict(base, d={'n': n, 'k': 'seq'}, api=api, meta=meta, ma=None, steps=[{'n': k}, {'n': k}, {'n': 'one'}])
    for ck in ref.CHECKSUMS:
        for off in (True, False):
            yield dict(base, ck=ck, off=off, api='fp', steps=[{'n': 'many'}, {'n': 'fill-1'}, {'n': 'fill'}, {'n': 'room+1'}, {'n': 'room'}])
    for n in (0,):
        for k in (0, 1, 100):
            for off in (True, False):
                yield dict(base, d={'n': 0, 'k': 'seq'}, off=off, api='file', steps=[{'n': k}])
    for bad in ({'typesize': 0}, {'typesize': 256}, {'clevel': 10}, {'clevel': -1}, {'cname': 'nope'}, {'drop': 'clevel'},
                {'add': 'nthreads'}, {'shuffle': 7}):
        for k in SIZE_KINDS:
            yield dict(base, d={'n': 47, 'k': 'seq'}, api='fp', steps=[{'n': k, 'bad': bad}, {'n': 'one'}])
    for h in env.hints:
        try:
            cs, last, n = int(h.get('chunk_size', 10)), int(h.get('last_chunk', 5)), int(h.get('nchunks', 2))
            y, mac = int(h.get('len(Y)', 3)), int(h.get('max_app_chunks', 4))
        except (TypeError, ValueError):
            continue
        if 0 < last <= cs and 1 <= n and n * cs < 10 ** 6 and y < 10 ** 6 and mac < 10 ** 5:
            for ck in ref.CHECKSUMS[:3]:
                for meta in (None, {'a': 'b'}):
                    yield dict(base, ck=ck, d={'n': (n - 1) * cs + last, 'k': 'seq'}, cs=cs, mac=mac, meta=meta, ma=None, api='fp',
                               steps=[{'n': y}, {'n': 'one'}])
    for x in env.ints(1, 3000 if env.deep else 300):
        yield dict(base, d={'n': x, 'k': 'seq'}, cs=max(1, x // 2), mac=x, api='fp', steps=[{'n': x}, {'n': 'fill+1'}, {'n': x}])
        yield dict(base, d={'n': 6, 'k': 'seq'}, cs=2, mac=x, api='fp', steps=[{'n': 'room+1'}, {'n': 2 * x - 1}, {'n': 'room'}, {'n': 1}])
        yield dict(base, d={'n': 2 * x, 'k': 'seq'}, cs=2, mac=3, api='file', steps=[{'n': 3}, {'n': 3}, {'n': 1}])
    k = 0
    while env.deep or k < 350:
        k += 1
        r = env.rng
        p = config(env, 600 if r.random() < .9 else 20000)
        n = p['d']['n']
        p['cs'] = max(1, r.choice([1, 2, n // 2, n // 3, n, n + 5, 16]))
        p['mac'] = r.choice(['10x', 'x', '0', 0, 1, 2, 7, 30])
        p['off'] = r.random() < .93
        p['api'] = r.choice(['fp', 'file'])
        p['steps'] = []
        for _ in range(r.choice([1, 2, 3, 5])):
            s = {'n': r.choice(SIZE_KINDS + [r.randrange(3 * p['cs'] + 2)])}
            if r.random() < .5:
                s['args'] = {'typesize': r.choice([None, 1, 4, 8, 255]), 'clevel': r.choice([None, 0, 5, 9]),
                             'shuffle': r.choice([None, True, False]), 'cname': r.choice([None] + ref.CNAMES)}
            if r.random() < .1:
                s['flip'] = [r.randrange(60), r.randint(1, 255)]
            p['steps'].append(s)
        yield p


@check('C11', 'C12', 'C09', rule='histories of appends (sizes around the room in the last chunk, the chunk size and the reservation, own and '
       'default settings, unusable settings, damaged last chunks); oracle: independent parser and the state before')
def append_history(p):
    buf = pack(p, 'bb')
    content = data(p['d'])
    made = [ref.compress(x, dict(typesize=p['ts'], clevel=p['cl'], shuffle=p['sh'], cname=p['cn'])) for x in ref.parse(buf).plain]
    for no, s in enumerate(p['steps']):
        c = ref.parse(buf, strict=False)
        N = size_of(s['n'], c)
        Y = data({'n': N, 'k': 'rand', 's': no + 1})
        work = bytearray(buf)
        damaged = False
        if s.get('flip') and p['ck'] != 'None':
            pos, b, d = c.chunks[-1]
            at = pos + s['flip'][0] % (len(b) + len(d))
            # a change of the recorded length moves the digest; all other changes make it wrong
            work[at] ^= s['flip'][1]
            damaged = True
        work = bytes(work)
        args = dict(s['args']) if s.get('args') else None
        bad = s.get('bad')
        if bad:
            args = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}
            for k, v in bad.items():
                if k == 'drop':
                    del args[v]
                elif k == 'add':
                    args[v] = 1
                else:
                    args[k] = v
        eff = {'typesize': p['ts'], 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}
        for k, v in (args or {}).items():
            if v is not None:
                eff[k] = v
        fill = c.cs - c.last
        k = 0 if N <= fill else -(-(N - fill) // c.cs) if c.cs else None
        want = 'error' if not p['off'] or bad or k is None else 'checksum' if damaged else 'space' if k > c.mac else 'ok'
        with open('t.blp', 'wb') as f:
            f.write(work)
        with open('new', 'wb') as f:
            f.write(Y if p['api'] == 'file' else b'front' + Y)
        ret, err = None, None
        try:
            if p['api'] == 'file':
                AP.append('t.blp', 'new', args)
            else:
                with open('t.blp', 'r+b') as f, open('new', 'rb') as g:
                    g.seek(5)
                    ret = AP.append_fp(f, g, N, args)
        except BaseException as e:
            err = e
        after = open('t.blp', 'rb').read()
        where = 'step %d (%d bytes to %d+%d chunks of %d, last %d): ' % (no, N, c.n, c.mac, c.cs, c.last)
        if open('new', 'rb').read() != (Y if p['api'] == 'file' else b'front' + Y):
            return where + 'the new content changed'
        if want != 'ok':
            if err is None:
                return where + 'not refused (%s)' % want
            if after != work:
                return where + 'refused but the target changed'
            if want == 'space' and not isinstance(err, EX.NotEnoughSpace) or \
                    want == 'checksum' and k <= c.mac and not isinstance(err, EX.ChecksumMismatch):
                return where + 'refused with %r' % err
            continue
        if err is not None:
            return where + 'refused: %r' % err
        if ret is not None and ret != k or p['api'] == 'fp' and ret != k:
            return where + 'reports %r new chunks instead of %d' % (ret, k)
        try:
            a = ref.parse(after, strict=False)
        except ref.Bad as e:
            return where + 'the result is malformed: %s' % e
        content += Y
        if a.data != content:
            return where + 'the data is wrong'
        lastlen = c.last + N if k == 0 else N - fill - (k - 1) * c.cs
        for nm, g, w in (('chunk count', a.n, c.n + k), ('reservation', a.mac, c.mac - k), ('last chunk', a.last, lastlen),
                         ('chunk size', a.cs, c.cs), ('checksum', a.ck, c.ck), ('typesize', a.ts, c.ts), ('options', after[5], buf[5]),
                         ('version', a.version, c.version)):
            if g != w:
                return where + '%s is %r, should be %r' % (nm, g, w)
        if a.offs != [q for q, _, _ in a.chunks] + [-1] * a.mac:
            return where + 'offsets %r' % a.offs
        if [len(x) for x in a.plain] != [a.cs] * (a.n - 1) + [a.last]:
            return where + 'chunk lengths'
        if a.chunks[:c.n - 1] != c.chunks[:c.n - 1]:
            return where + 'an old chunk changed'
        if (a.meta and a.meta.section) != (c.meta and c.meta.section):
            return where + 'the metadata changed'
        made = made[:c.n - 1] + [ref.compress(x, eff) for x in a.plain[c.n - 1:]]
        if [b for _, b, _ in a.chunks] != made:
            return where + 'chunks were compressed with other settings'
        try:
            out = unpack(after, ('bb', 'bf', 'ff')[no % 3])
        except BaseException as e:
            return where + 'the result cannot be unpacked: %r' % e
        if out != (content, json.loads(json.dumps(p['meta'])) if p.get('meta') is not None else None):
            return where + 'unpacks to other data or metadata'
        buf = after


def gen_rewrite(env):
    metas = METAS + [{'b': 'y' * 20}, {'a': 2}]
    base = {'d': {'n': 50, 'k': 'seq'}, 'cs': 20, 'ts': 8, 'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True, 'mac': 2}
    for ck in ref.CHECKSUMS:
        for mx in ('10x', 'x', 60):
            yield dict(base, meta={'a': 1}, ma={'ck': ck, 'codec': 'zlib', 'level': 6, 'max': mx}, how='fp',
                       steps=[{'m': {'a': 2}}, {'m': {'a': 2}}, {'m': 'x' * 200}, {'m': [0] * 300}, {'m': 5, 'codec': 'None'},
                              {'m': 6, 'checksum': 'adler32'}, {'m': 7, 'checksum': 'None'}, {'m': 8, 'checksum': 'sha1'},
                              {'m': 9, 'checksum': 'crc32', 'level': 0}, {'m': 10, 'level': 10}, {'m': 11, 'level': -1},
                              {'m': 12, 'codec': 'lzma'}, {'m': 13, 'checksum': 'crc64'}, {'m': 14, 'magic_format': 'YAML'},
                              {'m': 15, 'magic_format': 'JSON!'}, {'m': {'$': 'set'}}, {'m': 16}])
    for v in metas:
        for codec in ref.CODECS:
            yield dict(base, meta=v, ma={'ck': 'crc32', 'codec': codec, 'level': 3, 'max': 80 + 2 * len(json.dumps(v))}, how='fp',
                       steps=[{'m': m} for m in metas[:12]])
    k = 0
    while env.deep or k < 250:
        k += 1
        r = env.rng
        p = config(env, 300, meta=True)
        p['how'] = 'fp'
        p['steps'] = []
        for _ in range(r.choice([1, 2, 4])):
            s = {'m': rand_meta(env) if r.random() < .8 else p['meta']}
            if r.random() < .4:
                s['checksum'] = r.choice(ref.CHECKSUMS + [None, 'nope'])
            if r.random() < .4:
                s['codec'] = r.choice(['None', 'zlib', None, 'gzip'])
            if r.random() < .4:
                s['level'] = r.choice([0, 1, 6, 9, None, 10, -1])
            p['steps'].append(s)
        yield p


@check('C13', 'C10', rule='sequences of metadata replacements inside containers (fitting or not, equal, other checksums, codecs, levels); '
       'oracle: independent parser and the bytes before')
def rewrite(p):
    import zlib
    buf = pack(p, 'bb')
    state = json.loads(json.dumps(p['meta']))
    for no, s in enumerate(p['steps']):
        old = ref.parse(buf).meta
        M = {1, 2} if isinstance(s['m'], dict) and '$' in s['m'] else s['m']
        kw = {k: s[k] for k in ('checksum', 'codec', 'level', 'magic_format') if k in s}
        if isinstance(kw.get('magic_format'), str):
            kw['magic_format'] = kw['magic_format'].encode()
        want = True
        ck, codec, level = s.get('checksum'), kw.get('codec', 'zlib'), kw.get('level', 6)
        if ck is None:
            ck = ref.CHECKSUMS[old.ck]
        if codec is None:
            codec = ref.CODECS[old.codec]
        if level is None:
            level = old.level
        if ck not in ref.CHECKSUMS or ref.SIZES[ref.CHECKSUMS.index(ck)] != ref.SIZES[old.ck] or codec not in ref.CODECS or \
                not 0 <= level <= 9 or kw.get('magic_format', b'JSON') not in (None, b'JSON') or state == M:
            want = False
        if want:
            try:
                plain = json.dumps(M, separators=(',', ':')).encode()
                stored = plain
                if codec == 'zlib':
                    z = zlib.compress(plain, level)
                    stored = z if len(z) <= len(plain) else plain
                want = len(stored) <= old.max
            except TypeError:
                want = False
        fp = io.BytesIO(buf)
        err = None
        try:
            pos = AP._seek_to_metadata(fp)
            if pos != 32 or fp.tell() != 32:
                return 'the metadata position is %r' % pos
            AP._rewrite_metadata_fp(fp, M, **kw)
        except BaseException as e:
            err = e
        after = fp.getvalue()
        if not want:
            if err is None:
                return 'step %d: not refused' % no
            if after != buf:
                return 'step %d: refused but the container changed' % no
            continue
        if err is not None:
            return 'step %d: refused: %r' % (no, err)
        e = 32 + len(old.section)
        if len(after) != len(buf) or after[:32] != buf[:32] or after[e:] != buf[e:]:
            return 'step %d: bytes outside the section changed' % no
        try:
            c = ref.parse(after)
        except ref.Bad as x:
            return 'step %d: malformed: %s' % (no, x)
        if c.meta.section != after[32:e]:
            return 'step %d: the section has another size' % no
        w = judge_section(c.meta, M, {'ck': ck, 'codec': codec, 'level': level, 'max': old.max})
        if w:
            return 'step %d: %s' % (no, w)
        out, m = unpack(after, ('bb', 'bf', 'ff')[no % 3])
        if m != json.loads(json.dumps(M)) or out != data(p['d']):
            return 'step %d: reads back as %r' % (no, m)
        state = json.loads(json.dumps(M))
        buf = after
