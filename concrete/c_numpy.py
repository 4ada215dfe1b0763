"""arrays: round trips, refusals, memory bounds"""
import os, struct, ctypes, itertools
import numpy, blosc
from .runner import check
from . import ref
from .c_headers import data
from .c_io import A, NI, EX, FI, FNS, bloscpack_args, meta_args, want_mac, judge_section, meta_settings_of
import bloscpack

DTYPES = ['|b1', '<i1', '|u1', '<i2', '>i2', '<u2', '<i4', '>i4', '<u4', '>u8', '<i8', '>i8', '<f2', '>f2', '<f4', '>f4', '<f8',
          '>f8', '<c8', '>c8', '<c16', '|S1', '|S5', '|S255', '<U1', '>U3', '<U60', '|V1', '|V7', '<M8[ns]', '>M8[D]', '<m8[s]',
          '<M8[25us]', '<m8', '<M8']
STRUCTS = [[['a', '<i4']], [['a', '<i4'], ['b', '>f8']], [['a', '|S3'], ['b', '<u2'], ['c', '|b1']], [['a', '<f4', [2]]],
           [['a', '<i2', [2, 3]], ['b', '|V2']], [['a', [['x', '<i4'], ['y', '>u2']]], ['b', '|S2']],
           [['a', [['x', '<i4', [2]]], [3]]], [['\u00e9', '<i4'], ['b c', '<i1']], [["q'\"", '<i4']],
           [['f0', '<M8[us]'], ['f1', '<U2']]]
PADDED = [{'names': ['a', 'b'], 'formats': ['|i1', '<i4'], 'align': True},
          {'names': ['a', 'b'], 'formats': ['|i1', '<i4'], 'offsets': [0, 10], 'itemsize': 20},
          {'names': ['a'], 'formats': ['<f8'], 'offsets': [4], 'itemsize': 12},
          {'names': ['a', 'b'], 'formats': ['|S3', '<i2'], 'offsets': [1, 6], 'itemsize': 9}]
SHAPES = [[], [0], [1], [2], [7], [50], [0, 3], [3, 0], [1, 1], [4, 5], [5, 1], [1, 6], [2, 3, 4], [3, 0, 2], [2, 1, 3], [2, 2, 2, 2],
          [1, 1, 1], [13, 3]]
LAYOUTS = ['C', 'F', 'step', 'neg', 'T', 'inner', 'bcast', 'off', 'ro', 'big', 'swap', 'Fstep', 'perm', 'own']


def dtype_of(d):
    if isinstance(d, str):
        return numpy.dtype(d)
    if isinstance(d, dict):
        d = dict(d)
        al = d.pop('align', False)
        return numpy.dtype(d, align=al)
    return numpy.dtype(fields(d))


def fields(l):
    return [tuple([f[0], fields(f[1]) if isinstance(f[1], list) else f[1]] + [tuple(x) for x in f[2:]]) for f in l]


def packed(dt):
    """without holes"""
    if dt.subdtype:
        return packed(dt.subdtype[0])
    if dt.names is None:
        return True
    pos = 0
    for n in dt.names:
        t, o = dt.fields[n][:2]
        if o != pos or not packed(t):
            return False
        pos += t.itemsize
    return pos == dt.itemsize


def fill(dt, n, s):
    """n items with arbitrary legal bytes"""
    r = data({'n': n * dt.itemsize, 'k': 'rand' if s else 'seq', 's': s})
    a = numpy.frombuffer(bytearray(r), dtype=numpy.dtype((numpy.void, dt.itemsize)), count=n).view(dt) if n and dt.itemsize else \
        numpy.empty(n, dt)
    fix(a, s)
    return a


def fix(a, s):
    """legal values where not every byte string is one"""
    if a.dtype.names is not None:
        for n in a.dtype.names:
            fix(a[n], s)
    elif a.dtype.kind == 'b':
        v = a.view('u1')
        v &= 1
    elif a.dtype.kind == 'U':
        v = numpy.empty(a.shape, a.dtype)
        v[...] = ''.join(chr(65 + (s + i) % 26) for i in range(1 + s % max(1, a.dtype.itemsize // 4)))
        if a.size > 1:
            v.reshape(-1)[0] = '\u00e9\U0001f600'[:a.dtype.itemsize // 4]
        a[...] = v


def make(p):
    dt, shape, lay, s = dtype_of(p['dt']), tuple(p['shape']), p['lay'], p.get('s', 0)
    n = int(numpy.prod(shape, dtype=int))
    if lay == 'C' or not shape and lay not in ('off', 'ro', 'big'):
        return fill(dt, n, s).reshape(shape)
    if lay == 'F':
        return fill(dt, n, s).reshape(shape, order='F')
    if lay == 'T':
        return fill(dt, n, s).reshape(shape[::-1]).T
    if lay == 'swap':
        a = fill(dt, n, s).reshape(shape[1:] + shape[:1])
        return numpy.moveaxis(a, -1, 0)
    if lay in ('perm', 'own'):
        # any order of the axes in memory; 'own': an array of that kind that is not a view of another
        axes = sorted(range(len(shape)), key=lambda i: (s * 7 + i * i * 5 + s * i) % 11)
        a = numpy.empty([shape[i] for i in axes], dt).transpose([axes.index(i) for i in range(len(shape))])
        if lay == 'own':
            a = numpy.empty_like(a, order='K')
        a[...] = fill(dt, n, s).reshape(shape)
        return a
    if lay in ('step', 'Fstep'):
        a = fill(dt, 2 * n, s)
        a = a.reshape((2 * shape[0],) + shape[1:], order='F' if lay == 'Fstep' else 'C')
        return a[::2]
    if lay == 'neg':
        return fill(dt, n, s).reshape(shape)[::-1]
    if lay == 'inner':
        a = fill(dt, 3 * n, s).reshape(shape[:-1] + (3 * shape[-1],))
        return a[..., 1::3]
    if lay == 'bcast':
        a = fill(dt, int(numpy.prod(shape[1:], dtype=int)), s).reshape(shape[1:])
        return numpy.broadcast_to(a, shape)
    if lay == 'off':
        # not aligned
        b = bytearray(n * dt.itemsize + 1)
        b[1:] = fill(dt, n, s).tobytes()
        return numpy.ndarray(shape, dt, b, 1)
    if lay == 'ro':
        a = fill(dt, n, s).reshape(shape)
        a.flags.writeable = False
        return a
    # in the middle of other data
    a = fill(dt, n + 40, s)
    return a[20:20 + n].reshape(shape)


def same(a, b):
    """the same elements, bit for bit; holes do not count"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.names is not None:
        return all(same(a[n], b[n]) for n in a.dtype.names)
    return a.tobytes() == b.tobytes()


class Watch:
    """records where blosc reads and writes; new arrays get guarded memory"""
    GUARD = 4096

    def __enter__(self):
        self.reads, self.writes, self.bad, self.blocks = [], [], [], []
        self.saved = []
        self.put('compress_ptr', blosc, self.compress_ptr)
        self.put('decompress_ptr', blosc, self.decompress_ptr)
        self.put('empty', numpy, self.empty)
        return self

    def put(self, name, mod, fn):
        orig = getattr(mod, name)
        setattr(self, 'o_' + name, orig)
        for m in [mod] + [x for k, x in list(__import__('sys').modules.items()) if k.startswith('bloscpack')]:
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.saved.append((m, k, v))
                    setattr(m, k, fn)

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        for raw, n in self.blocks:
            if bytes(raw[:self.GUARD]) != b'\xa5' * self.GUARD or bytes(raw[self.GUARD + n:]) != b'\xa5' * self.GUARD:
                self.bad.append('bytes around an array were overwritten')

    def compress_ptr(self, address, items, typesize=8, *a, **k):
        self.reads.append((address, items * typesize))
        return self.o_compress_ptr(address, items, typesize, *a, **k)

    def decompress_ptr(self, bytesobj, address, *a, **k):
        n = struct.unpack_from('<I', bytes(bytesobj[:16]).ljust(16, b'\0'), 4)[0]
        self.writes.append((address, n))
        if self.blocks and not any(self.addr(raw) + self.GUARD <= address and address + n <= self.addr(raw) + self.GUARD + m
                                   for raw, m in self.blocks):
            self.bad.append('%d bytes at %d bytes from the start of the array of %d bytes' %
                            (n, address - self.addr(self.blocks[-1][0]) - self.GUARD, self.blocks[-1][1]))
            raise ValueError('not done')
        return self.o_decompress_ptr(bytesobj, address, *a, **k)

    def addr(self, raw):
        return raw.ctypes.data

    def empty(self, shape, dtype=float, order='C', **k):
        dt = numpy.dtype(dtype)
        if dt.hasobject or k or order not in ('C', 'F'):
            return self.o_empty(shape, dtype, order=order, **k)
        t = (shape,) if isinstance(shape, (int, numpy.integer)) else tuple(shape)
        n = dt.itemsize
        for x in t:
            if isinstance(x, (int, numpy.integer)) and not isinstance(x, bool) and x >= 0:
                n *= int(x)
            else:
                return self.o_empty(shape, dtype, order=order)
        if n > 2 ** 24:
            raise MemoryError('too large here')
        raw = self.o_empty(n + 2 * self.GUARD, 'u1')
        raw[:] = 0xa5
        self.blocks.append((raw, n))
        return numpy.ndarray(t, dt, raw, self.GUARD, order=order)


def kw_of(p):
    kw = dict(bloscpack_args=bloscpack_args(p), metadata_args=meta_args(p)) if 'ck' in p else {}
    if 'cn' in p:
        kw['blosc_args'] = A.BloscArgs(typesize=p.get('ts', 8), clevel=p['cl'], shuffle=p['sh'], cname=p['cn'])
    if p.get('cs') is not None:
        kw['chunk_size'] = p['cs']
    return kw


def pack_array(a, p):
    kw = kw_of(p)
    if p.get('via') == 'f':
        NI.pack_ndarray_to_file(a, 'a.blp', **kw)
        return open('a.blp', 'rb').read()
    return NI.pack_ndarray_to_bytes(a, **kw)


def unpack_array(buf, p):
    if p.get('un') == 'f':
        with open('b.blp', 'wb') as f:
            f.write(buf)
        return NI.unpack_ndarray_from_file('b.blp')
    return NI.unpack_ndarray_from_bytes(buf)


def settings(r):
    return {'cl': r.randrange(10), 'sh': r.random() < .5, 'cn': r.choice(ref.CNAMES), 'ck': r.choice(ref.CHECKSUMS),
            'off': r.random() < .7, 'mac': r.choice(['10x', 'x', '0', 0, 1, 7]), 'ts': r.choice([1, 8, 255])}


def chunkings(isz, n):
    """chunk sizes for an array of n items"""
    return [k * isz for k in (1, 2, 3, max(1, n // 2), max(1, n - 1), n, n + 1) if k]


DEF = {'cl': 7, 'sh': True, 'cn': 'blosclz', 'ck': 'adler32', 'off': True, 'mac': '10x'}


def gen_array_round_trip(env):
    r = env.rng
    for dt in DTYPES + STRUCTS + PADDED:
        yield {'dt': dt, 'shape': [3, 4], 'lay': 'C', 'via': 'f', 'un': 'f'}
        yield {'dt': dt, 'shape': [], 'lay': 'C'}
        yield {'dt': dt, 'shape': [2, 3], 'lay': 'T', 'cs': dtype_of(dt).itemsize}
        yield {'dt': dt, 'shape': [0, 2], 'lay': 'F', 'via': 'f'}
    for shape in SHAPES:
        for lay in LAYOUTS:
            for dt in ('<i4', '>f8', STRUCTS[2]):
                isz = dtype_of(dt).itemsize
                n = int(numpy.prod(shape, dtype=int))
                for cs in [None] + (chunkings(isz, n) if dt == '<i4' else [2 * isz]):
                    yield {'dt': dt, 'shape': shape, 'lay': lay, 'cs': cs}
    for h in env.hints:
        try:
            isz, n = int(h.get('A.itemsize', 4)), int(h.get('A.size', 5))
            c, f = bool(h.get('A.c', True)), bool(h.get('A.f', False))
            cs = int(h.get('chunk_size', isz * int(h.get('items_per_chunk', 2))))
        except (TypeError, ValueError):
            continue
        if n * isz > 2 ** 22 or n * isz // max(1, cs) > 3000:
            continue
        for dt in ['|V%d' % isz] if isz else []:
            for shape in ([n], [n, 1]) + (([2, n // 2],) if n % 2 == 0 else ()):
                yield {'dt': dt, 'shape': shape, 'lay': 'C' if c else 'T' if f else 'step', 'cs': cs if cs % isz == 0 else None}
    for k in env.ints(1, 300):
        yield {'dt': '|V%d' % min(k, 255), 'shape': [3], 'lay': 'C', 'cs': min(k, 255)}
        yield {'dt': '|u1', 'shape': [k], 'lay': 'big', 'cs': max(1, k // 3)}
        yield {'dt': '<i2', 'shape': [k, 2], 'lay': 'T', 'cs': 2 * k}
        yield {'dt': '<i4', 'shape': [1] * min(k, 32), 'lay': 'C'}
    # beyond the default chunk size
    if env.deep:
        yield {'dt': '<f8', 'shape': [300000], 'lay': 'C'}
    k = 0
    while env.deep or k < 500:
        k += 1
        dt = r.choice(DTYPES + STRUCTS + PADDED)
        isz = dtype_of(dt).itemsize
        shape = r.choice(SHAPES) if r.random() < .5 else [r.choice([0, 1, 2, 3, 5, 17, r.randrange(60)]) for _ in range(r.randrange(4))]
        n = int(numpy.prod(shape, dtype=int))
        if n * isz > 300000:
            continue
        p = {'dt': dt, 'shape': shape, 'lay': r.choice(LAYOUTS), 's': r.randrange(1000), 'via': r.choice('bf'), 'un': r.choice('bf'),
             'cs': r.choice([None, '1K' if 1024 % isz == 0 else None] + chunkings(isz, n))}
        if isinstance(p['cs'], int) and n * isz > 3000 * p['cs']:
            p['cs'] = None
        p.update(settings(r))
        if r.random() < .3:
            p['ma'] = {'ck': r.choice(ref.CHECKSUMS), 'codec': r.choice(ref.CODECS), 'level': r.randrange(10),
                       'max': r.choice(['10x', 'x', 5000])}
        yield p

@check('C15', 'C16', 'C03', rule='arrays of many dtypes (byte orders, strings, times, structured, nested, with holes), shapes (0-d, empty, '
       'up to 32 dimensions), layouts (C, Fortran, strided, reversed, broadcast, unaligned, read-only, inside other data), chunk sizes, '
       'settings; oracle: the array itself, an independent parser, the addresses given to blosc')
def array_round_trip(p):
    a = make(p)
    dt = a.dtype
    want = numpy.array(a, copy=True, order='K')
    order = 'F' if a.flags['F_CONTIGUOUS'] and not a.flags['C_CONTIGUOUS'] else 'C'
    with Watch() as w:
        buf = pack_array(a, p)
    reads = sorted(w.reads)
    if w.bad:
        return w.bad[0]
    if reads:
        pos = reads[0][0]
        for ad, n in reads:
            if ad != pos:
                return 'packing reads %d bytes at offset %d, expected offset %d' % (n, ad - reads[0][0], pos - reads[0][0])
            pos += n
        if pos - reads[0][0] != a.nbytes:
            return 'packing reads %d bytes of %d' % (pos - reads[0][0], a.nbytes)
        if (a.flags['C_CONTIGUOUS'] or a.flags['F_CONTIGUOUS']) and a.nbytes and reads[0][0] != a.ctypes.data and \
                a.ctypes.data <= reads[0][0] < a.ctypes.data + a.nbytes:
            return 'packing starts %d bytes behind the start' % (reads[0][0] - a.ctypes.data)
    if not same(a, want):
        return 'packing changed the array'
    try:
        c = ref.parse(buf)
    except ref.Bad as e:
        return 'not a container: %s' % e
    if c.ts != dt.itemsize:
        return 'typesize %d in the header, item size %d' % (c.ts, dt.itemsize)
    m = {'dtype': repr(dt.descr) if dt.names is not None else repr(dt.str), 'shape': list(a.shape), 'order': order,
         'container': 'numpy'}
    if c.meta is None or c.meta.value != m:
        return 'metadata %r, expected %r' % (c.meta and c.meta.value, m)
    if packed(dt) and c.data != a.tobytes(order):
        return 'the container does not hold the bytes of the array in order %s' % order
    if len(c.data) != a.nbytes:
        return 'the container holds %d bytes, the array %d' % (len(c.data), a.nbytes)
    cs = p.get('cs')
    cs = {None: 2 ** 20, '1K': 1024}.get(cs, cs)
    ecs, last, parts = ref.chunks_of(b'\0' * a.nbytes, cs)
    if (c.n, c.cs, c.last) != (len(parts), ecs, last):
        return 'chunking %r' % ((c.n, c.cs, c.last),)
    q = dict(DEF, **p)
    for k, g, x in (('checksum', ref.CHECKSUMS[c.ck], q['ck']), ('offsets option', c.offsets, q['off']), ('reservation', c.mac, want_mac(q, c.n))):
        if g != x:
            return '%s is %r, should be %r' % (k, g, x)
    if c.offsets and (c.offs[:c.n] != [x for x, _, _ in c.chunks] or len(c.offs) != c.n + c.mac or any(x != -1 for x in c.offs[c.n:])):
        return 'offsets %r' % (c.offs,)
    for i, ck in enumerate(c.chunks if dt.itemsize else ()):
        if ck[1] != ref.compress(c.plain[i], dict(typesize=dt.itemsize, clevel=q['cl'], shuffle=q['sh'], cname=q['cn'])):
            return 'chunk %d was compressed with other settings' % i
    x = judge_section(c.meta, m, meta_settings_of(q))
    if x:
        return x
    with Watch() as w:
        b = unpack_array(buf, p)
    if w.bad:
        return w.bad[0]
    lo = b.ctypes.data
    for ad, n in w.writes:
        if n and not (lo <= ad and ad + n <= lo + b.nbytes):
            return 'unpacking writes %d bytes at offset %d of %d' % (n, ad - lo, b.nbytes)
    if type(b) is not numpy.ndarray or b.dtype != dt or b.dtype.str != dt.str or b.dtype.descr != dt.descr:
        return 'dtype %r came back as %r' % (dt, b.dtype)
    if b.shape != a.shape:
        return 'shape %r came back as %r' % (a.shape, b.shape)
    if numpy.isfortran(b) != (order == 'F') or not b.flags[order + '_CONTIGUOUS']:
        return 'order %s is lost' % order
    if not same(b, a):
        return 'the elements differ'
    b2 = NI.unpack_ndarray_from_bytes(buf)
    if not same(b2, a):
        return 'a second time the elements differ'


# ---------------------------------------------------------------- refusals
OBJ = ['|O', [['a', '|O']], [['a', '<i4'], ['b', '|O']], [['a', [['x', '|O'], ['y', '<i4']]]], [['a', '|O', [2]]]]
NOARR = [{}, [], 0, '', 'numpy', {'container': 'other'}, {'container': 'numpy '}, {'container': None}, {'a': 1}, None,
         {'dtype': "'<i4'", 'shape': [3], 'order': 'C'}, {'dtype': "'<i4'", 'shape': [3], 'order': 'C', 'container': 'NUMPY'},
         {'dtype': "'<i4'", 'shape': [3], 'order': 'C', 'container': ['numpy']}, ['container', 'numpy'], 'container',
         {'container': 'numpy'}, {'container': 'numpy', 'dtype': "'<i4'"}, {'container': 'numpy', 'dtype': "'<i4'", 'shape': [3]},
         {'dtype': "'|O'", 'shape': [1], 'order': 'C', 'container': 'numpy'}, {'dtype': "'O'", 'shape': [1], 'order': 'C', 'container': 'numpy'},
         {'dtype': "[('a', '|O')]", 'shape': [1], 'order': 'C', 'container': 'numpy'},
         {'dtype': '|O', 'shape': [1], 'order': 'C', 'container': 'numpy'}, {'dtype': [['a', '|O']], 'shape': [1], 'order': 'C', 'container': 'numpy'},
         {'dtype': "[('a', '<i4'), ('b', '|O')]", 'shape': [0], 'order': 'F', 'container': 'numpy'}]


def gen_refused_arrays(env):
    for dt in OBJ:
        for shape in ([], [0], [3], [2, 2]):
            for via in 'bf':
                yield {'k': 'obj', 'dt': dt, 'shape': shape, 'lay': 'C', 'via': via}
    for m in NOARR:
        for via in 'bf':
            for n in (0, 12):
                yield {'k': 'no', 'm': m, 'un': via, 'n': n}
    for dt in ('<i4', '<f8', '|S3', STRUCTS[1], '|V7', '|S255'):
        isz = dtype_of(dt).itemsize
        for shape in ([10], [5, 4], [64]):
            n = int(numpy.prod(shape, dtype=int))
            for cs in list(range(1, 3 * isz)) + [n * isz - 1, n * isz - isz + 1]:
                if cs % isz and cs < n * isz:
                    for via in 'bf':
                        yield {'k': 'cs', 'dt': dt, 'shape': shape, 'lay': 'C', 'cs': cs, 'via': via}
    for h in env.hints:
        try:
            isz, n, cs = int(h['A.itemsize']), int(h['A.size']), int(h['chunk_size'])
        except (KeyError, TypeError, ValueError):
            continue
        if isz and cs % isz and cs < n * isz < 2 ** 22 and n * isz // cs < 3000:
            yield {'k': 'cs', 'dt': '|V%d' % isz, 'shape': [n], 'lay': 'C', 'cs': cs, 'via': 'b'}
    for x in env.ints(1, 5000):
        for isz in (3, 8):
            if x % isz:
                yield {'k': 'cs', 'dt': '|V%d' % isz, 'shape': [x], 'lay': 'C', 'cs': x, 'via': 'b'}
    for k in range(3000 if env.deep else 200):
        r = env.rng
        isz, n = r.randint(2, 255), r.randint(2, 100)
        cs = r.randrange(1, n * isz)
        if cs % isz:
            yield {'k': 'cs', 'dt': '|V%d' % isz, 'shape': [n], 'lay': r.choice(['C', 'step', 'neg']), 'cs': cs, 'via': r.choice('bf')}


@check('C15', rule='object arrays, containers without an array or with an array of objects, chunk sizes that are no multiple of the item '
       'size; oracle: an error')
def refused_arrays(p):
    if p['k'] == 'no':
        d = data({'n': p['n'], 'k': 'seq'})
        buf = ref.build(d, 5, {'typesize': 4, 'clevel': 5, 'shuffle': True, 'cname': 'blosclz'}, 1, True, 3,
                        None if p['m'] is None else ref.build_meta(p['m'], 1))
        try:
            with Watch() as w:
                b = unpack_array(buf, p)
        except (Exception, EX.ChunkingException) as e:
            if w.writes:
                return 'refused only after %d chunks were written' % len(w.writes)
            if (p['m'] is None or isinstance(p['m'], dict) and p['m'].get('container', 'numpy') != 'numpy') and \
                    not isinstance(e, EX.NotANumpyArray):
                return 'refused with %r' % (e,)
            return
        return 'metadata %r gives the array %r' % (p['m'], b)
    if p['k'] == 'obj':
        a = numpy.empty(tuple(p['shape']), dtype_of(p['dt']))
    else:
        a = make(p)
    try:
        pack_array(a, p)
    except (Exception, EX.ChunkingException) as e:
        if p['k'] == 'obj' and not isinstance(e, EX.ObjectNumpyArrayRejection):
            return 'refused with %r' % (e,)
        return
    return 'accepted'


# ---------------------------------------------------------------- inconsistent containers
def gen_array_bounds(env):
    r = env.rng
    base = {'meta': {'dtype': "'|u1'", 'shape': [10], 'order': 'C', 'container': 'numpy'}, 'd': 10, 'cs': 4}
    for n in (0, 1, 9, 10, 11, 12, 13, 40, 1000, 5000):
        for cs in (1, 3, 4, 5, 9, 10, 11, 4096):
            for un in 'bf':
                for ck in (0, 1):
                    yield dict(base, d=n, cs=cs, un=un, ck=ck)
    for shape in ([], [0], [1], [5, 2], [2, 0], [-1], [-1, -3], [1.5], 'x', [2 ** 62], [2 ** 40, 2 ** 40], None, ['3'], 7, [[3]]):
        for dt in ("'|u1'", "'<f8'", "'S0'", "[('a', '<i4')]", "'<U3'", '|u1', [['a', '<i4']], 'x', 5, None, '', '[]', "''", '()', '1'):
            for order in ('C', 'F', 'x', None, 3):
                yield dict(base, meta={'dtype': dt, 'shape': shape, 'order': order, 'container': 'numpy'}, d=40, cs=16)
    # chunks that lie about their size
    for i in range(3):
        for nb in (0, 1, 3, 4, 5, 6, 100, 4096, 5000, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
            for bs in (None, nb):
                yield dict(base, lie=[i, nb, bs], ck=0)
                yield dict(base, lie=[i, nb, bs], ck=1)
    # the header says something else
    for f in ('cs', 'last', 'n'):
        for v in (-1, 0, 1, 2, 3, 4, 5, 10, 1000):
            yield dict(base, head=[f, v])
            yield dict(base, head=[f, v], d=30)
    for x in env.ints(1, 4000):
        yield dict(base, meta=dict(base['meta'], shape=[x]), d=x + 1, cs=max(1, x // 3))
        yield dict(base, meta=dict(base['meta'], shape=[x]), d=x + 1, cs=x)
        yield dict(base, meta=dict(base['meta'], shape=[x]), d=2 * x, cs=x, ck=0)
        yield dict(base, meta=dict(base['meta'], shape=[10]), d=10 + x, cs=10)
        yield dict(base, meta=dict(base['meta'], shape=[4]), d=x, cs=2, ck=0, un='f')
    k = 0
    while env.deep or k < 400:
        k += 1
        n, cs = r.randrange(0, 300), r.choice([1, 2, 5, 16, 64, 500])
        dt = r.choice(["'|u1'", "'<i2'", "'<f8'", "[('a', '|i1'), ('b', '<i4')]", "'|S7'"])
        p = dict(base, meta={'dtype': dt, 'shape': [r.randrange(60) for _ in range(r.randrange(3))], 'order': r.choice('CF'),
                             'container': 'numpy'}, d=n, cs=cs, ck=r.choice([0, 1, 2, 8]), un=r.choice('bf'), off=r.random() < .6,
                 cl=r.randrange(10), cn=r.choice(ref.CNAMES))
        if r.random() < .3:
            p['lie'] = [r.randrange(5), r.choice([r.randrange(100), r.getrandbits(32)]), None]
        if r.random() < .3:
            p['flip'] = [r.randrange(4000), r.randint(1, 255)]
        if r.random() < .1:
            p['cut'] = r.randrange(400)
        yield p


@check('C16', 'C09', rule='containers whose chunks do not fit the array their metadata describes: too much data, chunks that lie about '
       'their size, damaged bytes, senseless descriptions; oracle: guarded memory, recorded addresses, refusal')
def array_bounds(p):
    d = data({'n': p['d'], 'k': 'rand', 's': 5})
    ba = {'typesize': 1, 'clevel': p.get('cl', 5), 'shuffle': True, 'cname': p.get('cn', 'blosclz')}
    ck = p.get('ck', 1)
    meta = ref.build_meta(p['meta'], 1)
    buf = bytearray(ref.build(d, p['cs'], ba, ck, p.get('off', True), 2, meta))
    ref_c = ref.parse(bytes(buf))
    honest = True
    if p.get('lie'):
        i, nb, bs = p['lie']
        if i < ref_c.n:
            pos, b, dg = ref_c.chunks[i]
            struct.pack_into('<I', buf, pos + 4, nb)
            if bs is not None:
                struct.pack_into('<I', buf, pos + 8, bs)
            nw = bytes(buf[pos:pos + len(b)])
            buf[pos + len(b):pos + len(b) + len(dg)] = ref.digest(ck, nw)
            honest = False
    if p.get('head'):
        f, v = p['head']
        struct.pack_into(*{'cs': ('<i', buf, 8, v), 'last': ('<i', buf, 12, v), 'n': ('<q', buf, 16, v)}[f])
        honest = False
    if p.get('flip'):
        buf[p['flip'][0] % len(buf)] ^= p['flip'][1]
        honest = False
    if p.get('cut'):
        del buf[max(1, len(buf) - p['cut']):]
        honest = False
    buf = bytes(buf)
    b = err = None
    try:
        with Watch() as w:
            b = unpack_array(buf, p)
    except (Exception, EX.ChunkingException) as e:
        err = e
    if w.bad:
        return 'unpacking writes outside the array: ' + w.bad[0]
    if b is not None:
        for ad, n in w.writes:
            if n and not (b.ctypes.data <= ad and ad + n <= b.ctypes.data + b.nbytes):
                return 'unpacking writes %d bytes at offset %d of %d' % (n, ad - b.ctypes.data, b.nbytes)
        if not isinstance(b, numpy.ndarray):
            return 'no array: %r' % (b,)
        if honest and len(d) > b.nbytes:
            return '%d bytes of data are accepted for an array of %d bytes' % (len(d), b.nbytes)
        if honest and len(d) == b.nbytes and p['meta'].get('order') in ('C', 'F') and packed(b.dtype) and \
                b.tobytes(p['meta']['order']) != d:
            return 'the elements are not the bytes of the container'
        if p.get('flip') and ck and ref_c.offs_pos <= p['flip'][0] % len(buf):
            pos = p['flip'][0] % len(buf)
            if any(q <= pos < q + len(x) + len(g) for q, x, g in ref_c.chunks):
                return 'damage at %d is not noticed' % pos
    elif honest and isinstance(p['meta'].get('shape'), list) and err is None:
        return 'nothing came back'
