"""small functions through which the verifier is compared with CPython: every snippet is executed symbolically and, on every path,
the result is proved to be what CPython computes for the sample inputs that take this path (and every sample takes some path)"""
import io
import itertools
import struct
import json
import contextlib
import operator
from collections import OrderedDict, namedtuple

S = []


def sn(*samples, **kinds):
    def d(f):
        S.append((f, kinds.get('kinds'), samples))
        return f
    return d


I = 'int'
B4 = 'bytes4'
BO = 'bool'
Y = 'byte'


@sn((0, 5), (7, 7), (-3, 2), (100, -1), kinds=(I, I))
def count_down(n, d):
    out = []
    while n > 0 and len(out) < 4:
        out.append(n - d)
        n -= 1
    return out


@sn((0,), (1,), (5,), (17,), kinds=(I,))
def grow_text(n):
    if n > 20:
        n = 20
    b = b''
    i = 0
    while i < n:
        b += b'\x01'
        i += 1
    return len(b)


@sn((0,), (1,), (5,), (17,), (-4,), kinds=(I,))
def down_to_zero(n):
    total = 0
    left = n
    while left > 0:
        total += 3
        left -= 1
    return total, left


@sn((True, False), (False, False), (True, True), kinds=(BO, BO))
def flags_text(a, b):
    flags = [False] * 6 + [a, b]
    return "".join('1' if flag else '0' for flag in flags)


@sn((True, False), (False, False), (True, True), kinds=(BO, BO))
def flags_value(a, b):
    flags = [False] * 6 + [a, b]
    return int("".join('1' if flag else '0' for flag in flags), 2)


@sn((True, False), (False, False), (True, True), kinds=(BO, BO))
def flags_shift(a, b):
    return bool(a) << 1 | int(b)


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def bits_format(x):
    t = '{0:08b}'.format(x)
    return t, t[0] == '1', len(t), [c for c in t if c == '1'] == ['1'] * 4


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def bits_fstring(x):
    return f'{x:08b}'


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def bits_percent(x):
    return format(x, '08b')[::-1][0]


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def bits_zfill(x):
    return bin(x)[2:].zfill(8), bin(x)[2:].rjust(8, '0')


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def all_zero(x):
    t = bin(x)[2:].rjust(8, '0')
    return all(c == '0' for c in t), any(t[i] != '0' for i in range(6)), t[6:] == '00', t.count('1')


@sn((0,), (1,), (255,), (170,), kinds=(Y,))
def masks(x):
    return x & 1, x >> 1 & 1, x & 2 != 0, bool(x & 0b10000), x >> 5 & 7, x & 0xf0, x % 2, x // 2


@sn((b'\0\0\0\0',), (b'\xff\xff\xff\xff',), (b'\x01\x02\x03\x84',), kinds=(B4,))
def from_bytes(b):
    return int.from_bytes(b, 'little'), int.from_bytes(b, 'little', signed=True), int.from_bytes(b, byteorder='little')


@sn((b'\0\0\0\0',), (b'\xff\xff\xff\xff',), (b'\x01\x02\x03\x84',), kinds=(B4,))
def from_bytes_big(b):
    return int.from_bytes(b, 'big')


@sn((b'\0\0\0\0',), (b'\xff\xff\xff\xff',), (b'\x01\x02\x03\x84',), kinds=(B4,))
def unpack_forms(b):
    v, = struct.unpack('<i', b)
    w = struct.unpack_from('<HH', b, 0)
    return v, w, struct.Struct('<I').unpack(b)[0], struct.unpack('<4B', b), b[0], b[-1], list(b), b[1:3]


@sn((0,), (1,), (2 ** 31 - 1,), (70000,), kinds=(I,))
def to_bytes(x):
    return x.to_bytes(4, 'little'), struct.pack('<I', x), struct.pack('<i', x), (x & 0xffffffff).to_bytes(4, 'little')


@sn((0, 9), (1, 1), (255, 2 ** 31), kinds=(Y, I))
def join_fields(x, y):
    raw = bytearray()
    for f in (b'ab', struct.pack('<B', x), struct.pack('<I', y)):
        raw += f
    raw.extend(b'z')
    raw.append(7)
    return bytes(raw), len(raw)


@sn((0, 9), (1, 1), (255, 2 ** 31), kinds=(Y, I))
def join_list(x, y):
    return b''.join([b'ab', struct.pack('<B', x), struct.pack('<I', y)]), bytes([x, 1])


@sn((0, 9), (1, 1), (255, 2 ** 31), kinds=(Y, I))
def pad(x, y):
    b = struct.pack('<BI', x, y)
    return b.ljust(8, b'\0'), b + b'\0' * (8 - len(b)), (b'%b' % b)


@sn((0, 1), (5, 3), (7, 7), (10, 4), (1, 9), kinds=(I, I))
def chunks(n, c):
    if n < 0 or c <= 0:
        return None
    return n // c, n % c, divmod(n, c), (n + c - 1) // c, -(-n // c), n % c or c


@sn((0, 1), (5, 3), (7, 7), (10, 4), (1, 9), kinds=(I, I))
def extremes(n, c):
    return min(n, c), max(n, c), abs(n - c), n if n < c else c, n <= c <= 7, not n < c, bool(n)


@sn((0,), (3,), (8,), kinds=(I,))
def ordered(n):
    d = OrderedDict()
    for i, name in enumerate(('a', 'b', 'c')):
        d[name] = n + i
    for p, name in ((4, 'x'), (8, 'y')):
        d[name] = p
    return list(d.items()), d['b'], sorted(d), 'a' in d, d.get('q', 4), {k: v for k, v in d.items()} == dict(d)


@sn((0,), (3,), (8,), kinds=(I,))
def conditional(n):
    kind = 'small' if n < 4 else 'big'
    return kind, kind == 'small', {'small': 1, 'big': 2}[kind], kind.upper() if False else kind


@sn((0,), (3,), (8,), kinds=(I,))
def tries(n):
    try:
        if n == 0:
            raise ValueError('zero')
        if n == 3:
            raise KeyError('three')
    except ValueError as e:
        r = 'v' + str(e)
    except (KeyError, TypeError):
        r = 'k'
    else:
        r = 'none'
    finally:
        n += 1
    return r, n


@sn((0,), (3,), (8,), kinds=(I,))
def nested(n):
    total = 0

    def add(x):
        nonlocal total
        total += x
        return total
    for i in range(3):
        for j in range(2):
            if j == 1 and i == 1:
                continue
            add(n)
        else:
            total += 1
    return total, [add(1) for _ in range(2)], (lambda q: q + total)(1)


@sn((0,), (3,), (8,), kinds=(I,))
def generators(n):
    def g():
        yield n
        yield from (n + i for i in range(1, 3))
        return
    a = list(g())
    it = iter(g())
    first = next(it)
    return a, first, sum(g()), list(zip(a, range(3))), [x for x in enumerate(g(), 1)], next(iter([]), None)


@sn((0,), (3,), (8,), kinds=(I,))
def unpacking(n):
    a, (b, c), *d = n, (1, 2), 3, n
    a, b = b, a
    x = [*d, n]
    return a, b, c, d, x, x[-1], x[::-1], x[1:], (*x, 1), {**{'a': n}, 'b': 2}['a']


@sn((0,), (3,), (8,), kinds=(I,))
def walrus(n):
    if (m := n + 1) > 3:
        return m
    return -m


@sn((0,), (3,), (8,), kinds=(I,))
def formatting(n):
    n = n % 4
    return '%d:%s' % (n, 'a'), f'{n}-x', '{}'.format(n), '{} {}'.format('a', 'b'), '{a}'.format(a='q'), str(n)


class A(object):
    k = 4

    def __init__(self, v):
        self.v = v

    @property
    def twice(self):
        return self.v * 2

    @staticmethod
    def s(x):
        return x + 1

    @classmethod
    def c(cls, x):
        return cls(x).v + cls.k

    def __len__(self):
        return 5

    def __iter__(self):
        yield self.v
        yield 1

    def __getitem__(self, i):
        return i + self.v


@sn((0,), (3,), (8,), kinds=(I,))
def classes(n):
    a = A(n)
    return a.twice, A.s(n), A.c(n), len(a), list(a), a[2], isinstance(a, A), hasattr(a, 'v'), getattr(a, 'zz', 3)


@sn((0,), (3,), (8,), kinds=(I,))
def flow(n):
    for i in range(5):
        if i == n:
            break
    else:
        i = 99
    k = 0
    while True:
        k += 1
        if k > 3:
            break
    return i, k


@sn((b'\0\0\0\0',), (b'ab\0\0',), (b'abcd',), (b'\0b\0\0',), kinds=(B4,))
def stripping(b):
    return b.startswith(b'ab'), b == b'abcd', b[:2] + b[2:] == b, b != b'ab\0\0', bytes(b), len(memoryview(b)), b in (b'abcd', b'x')


@sn((0,), (3,), (8,), kinds=(I,))
def sets(n):
    s = set(['a', 'b']) | {'c'}
    return sorted(s - {'a'}), s >= {'b'}, len(s), 'a' in s, s.issuperset(['a']), not s.difference({'a', 'b', 'c'}), n in (0, 3)


@sn((0, 0), (3, 0), (0, 3), (3, 3), (8, 3), kinds=(I, I))
def symbolic_sets(n, m):
    d = dict.fromkeys(['a', 'b'], n)
    s = {n, m}
    s.add(3)
    return len(set([n, m, 3])), len({x for x in (n, m)}), len(s), n in {3, m}, d['a'], dict.fromkeys('x')['x'] is None


@sn((0,), (3,), (8,), kinds=(I,))
def partials(n):
    import functools
    import itertools
    f = functools.partial(max, n)
    return f(2), list(itertools.chain([n], [1])), list(itertools.repeat(n, 2)), \
        functools.reduce(lambda a, b: a + b, [n, 1, 2]), list(map(lambda x: x + n, [1, 2])), list(filter(None, [0, 1]))


@sn((0,), (1,), (4,), (5000,), (9001,), kinds=(I,))
def zeros_in_blocks(n):
    out = io.BytesIO()
    left = n
    while left > 0:
        block = min(left, 4096)
        out.write(b'\x00' * block)
        left -= block
    return out.tell(), left


@sn((0,), (1,), (4,), (5000,), (9001,), kinds=(I,))
def zeros_up_to(n):
    out = io.BytesIO()
    out.write(b'abc')
    done = 0
    while done < n:
        block = min(n - done, 4096)
        out.write(b'\x00' * block)
        done += block
    return len(out.getvalue()), done


def _squares(n):
    for i in range(n):
        yield i * i


@sn((0,), (1,), (4,), (30,), kinds=(I,))
def pulled(n):
    total = 0
    i = 0
    it = _squares(n)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        if x > 50:
            total += 1
        i += 1
    return i


@sn((0,), (1,), (4,), kinds=(I,))
def pulled_walrus(n):
    it = iter(_squares(n))
    i = 0
    while (x := next(it, None)) is not None:
        i += 1
    else:
        i += 100
    return i


@sn((0,), (1,), (4,), kinds=(I,))
def next_then_for(n):
    it = iter([n, n + 1, 7])
    a = next(it)
    out = [a * 100]
    for x in it:
        out.append(x)
    return out


@sn((3,), (5,), (8,), (9,), kinds=(I,))
def search(n):
    for known in (3, 5, 8):
        if n == known:
            break
    else:
        raise ValueError(n)
    return n + 1


@sn((3, 1), (5, 0), (8, 9), (9, 9), kinds=(I, I))
def search_two(n, m):
    out = 0
    for known in (3, 5, 8):
        if n == known:
            if m == 0:
                raise KeyError
            continue
        if m == 1:
            break
    else:
        return 5
    for known2 in (1, 9):
        if m == known2:
            break
    return m


@sn((0,), (1,), (4,), (12,), kinds=(I,))
def pack_many(n):
    values = [i * 3 for i in range(n)]
    raw = struct.pack('<%dq' % len(values), *values)
    back = struct.unpack('<%dq' % n, raw)
    part = list(struct.unpack_from('<%dQ' % n, raw))
    one = [v for (v,) in struct.iter_unpack('<q', raw)]
    return len(raw), len(back), len(part), len(one), sum(1 for _ in back)


@sn((0, 3), (1, 0), (4, 2), (12, 12), (2, -1), kinds=(I, I))
def pack_wrong(n, m):
    values = [7] * n
    try:
        return len(struct.pack('<%dq' % m, *values))
    except struct.error:
        return -1


@sn((0, 3), (1, 0), (4, 2), (12, 12), (2, -1), kinds=(I, I))
def slices(n, m):
    a = 0
    for x, y in itertools.islice(zip(range(n), [5] * n), m):
        a += y
    b = 0
    for x in itertools.islice((i for i in range(n)), m):
        b += 1
    return a, b


@sn((0,), (2,), kinds=(I,))
def twice(n):
    z = zip((1, 2), (n, n))
    a = list(z)
    b = list(z)
    r = itertools.repeat(n, 3)
    c = sum(r)
    d = sum(r)
    return a, b, c, d


Three = namedtuple('Three', 'a b c', defaults=(7,))


@sn((0, 3), (1, 0), (-4, 2), kinds=(I, I))
def named(n, m):
    t = Three(n, b=m)
    a, b, c = t
    u = t._replace(c=n)
    return t.a + t.b * 2 + t.c, t[1], len(t), a, u.c, t == (n, m, 7), Three(*t)[0], operator.attrgetter('b')(t)


@contextlib.contextmanager
def around(log, n):
    log.append(1)
    try:
        yield n + 1
    except KeyError:
        log.append(2)
    finally:
        log.append(3)
    log.append(4)


@sn((0,), (1,), (2,), (3,), (4,), kinds=(I,))
def with_generator(n):
    log = []

    def f():
        with around(log, n) as x:
            log.append(x)
            if n == 1:
                raise KeyError
            if n == 2:
                raise ValueError
            if n == 3:
                return 9
        log.append(5)
        return 8
    try:
        r = f()
    except ValueError:
        r = 7
    for i in range(3):
        with around(log, i):
            if i == n:
                continue
            if n == 4:
                break
            log.append(6)
    return r, log


@sn((0,), (1,), (2,), kinds=(I,))
def stacks(n):
    log = []
    try:
        with contextlib.ExitStack() as s, contextlib.suppress(KeyError, IndexError):
            f = s.enter_context(io.BytesIO(b'abc'))
            s.callback(log.append, 5)
            log.append(len(f.read()))
            if n == 1:
                raise KeyError
            if n == 2:
                raise ValueError
            log.append(3)
    except ValueError:
        log.append(4)
    return log


@sn((0, 12, 3), (1, 12, 3), (0, 0, 5), (10, 0, -3), (0, 5, -1), kinds=(I, I, I))
def steps(lo, hi, st):
    r = range(lo, hi, st)
    return len(r), sum(1 for _ in r)


@sn((0,), (3,), (5,), (9,), kinds=(I,))
def largest(n):
    d = {'a': 1, 'b': 4, 'c': 5}
    s, lim = max(((k, v) for k, v in d.items() if v <= n), key=operator.itemgetter(1), default=('z', 0))
    return s, lim, min([n, 5, 3], key=lambda x: -x), max(n, -n, key=abs)
