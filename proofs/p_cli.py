"""C19, C20 (and C18 for 'info'): the command line.

main() is verified for every parsed command line: the argparse.Namespace comes from the real parser, with every option's
attribute (found by parsing sample values with the real parser) replaced by an unknown legal value; file names are
arbitrary texts and which files exist is unknown.  The library functions main() calls are represented by contracts that
record the call and either return or raise; log.error is represented by its contract (verified in log_error)."""
import argparse, contextlib, io
from .common import *
from bloscpack import cli as CLI

BLP = b'.blp'
SUBS = {'compress': ('compress', 'c'), 'decompress': ('decompress', 'd'), 'append': ('append', 'a'), 'info': ('info', 'i')}
POS = {'compress': ['in'], 'decompress': ['in.blp'], 'append': ['in.blp', 'new'], 'info': ['in.blp']}

_parsed = {}


def parsed(argv):
    """what the real parser makes of a command line: dict, or None when it refuses"""
    k = tuple(argv)
    if k not in _parsed:
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                _parsed[k] = dict(vars(CLI.create_parser().parse_args(list(argv))))
        except SystemExit as e:
            _parsed[k] = None
    return _parsed[k]


def diff(a, b):
    return {k: b.get(k) for k in set(a) | set(b) if a.get(k, vc_missing) != b.get(k, vc_missing)}


vc_missing = object()


class Opts:
    """attribute names of the options, found with the real parser"""


def find(vc, sub, name, opt, vals, want=None, glob=False, key=None):
    """the attribute the option sets; obligations: exactly one attribute, with exactly the given value"""
    base = parsed([sub] + POS[key])
    attr = None
    for i, v in enumerate(vals):
        o = [opt] if v is True or v is False else [opt, str(v)]
        p = parsed((o + [sub] if glob else [sub] + o) + POS[key])
        w = want[i] if want else v
        if not vc.prove('option-%s-accepted' % name, p is not None and base is not None, '%s %r' % (opt, v)):
            return None
        d = diff(base, p)
        if not vc.prove('option-%s-sets-one-attribute' % name, len(d) == 1 or not d and i > 0, '%s %r: %r' % (opt, v, d)):
            return None
        if d:
            attr = list(d)[0] if attr is None else attr
        if attr is None or not vc.prove('option-%s-value' % name, p.get(attr) == w and type(p.get(attr)) is type(w) and
                                        (not d or list(d) == [attr]), '%s %r: %r' % (opt, v, d)):
            return None
    return attr


def blosc_options(vc, sub, key):
    a = Opts()
    a.typesize = find(vc, sub, 'typesize', '-t', [1, 16, 255, 300, 8], key=key)
    find(vc, sub, 'typesize-long', '--typesize', [5], key=key)
    a.clevel = find(vc, sub, 'clevel', '-l', [0, 1, 2, 3, 4, 5, 6, 8, 9, 7], key=key)
    find(vc, sub, 'clevel-long', '--clevel', [3], key=key)
    a.shuffle = find(vc, sub, 'no-shuffle', '-s', [False], key=key)
    find(vc, sub, 'no-shuffle-long', '--no-shuffle', [False], key=key)
    a.cname = find(vc, sub, 'codec', '-c', CNAMES[1:] + CNAMES[:1], key=key)
    find(vc, sub, 'codec-long', '--codec', ['zstd'], key=key)
    a.metadata = find(vc, sub, 'metadata', '-m', ['m.json'], key=key)
    find(vc, sub, 'metadata-long', '--metadata', ['m.json'], key=key)
    p = parsed([sub] + POS[key])
    for n, v in (('typesize', 8), ('clevel', 7), ('shuffle', True), ('cname', 'blosclz'), ('metadata', None)):
        x = getattr(a, n)
        vc.prove('default-%s' % n, x is not None and p.get(x) == v and type(p.get(x)) is type(v), repr(p)[:200])
    for bad in (['-l', '10'], ['-l', '-1'], ['-l', 'x'], ['-c', 'nope'], ['-t', 'x'], ['--nope']):
        vc.prove('illegal-value-refused', parsed([sub] + bad + POS[key]) is None, repr(bad))
    return a


def global_options(vc, sub, key, a):
    a.force = find(vc, sub, 'force', '-f', [True], glob=True, key=key)
    find(vc, sub, 'force-long', '--force', [True], glob=True, key=key)
    a.verbose = find(vc, sub, 'verbose', '-v', [True], glob=True, key=key)
    a.debug = find(vc, sub, 'debug', '-d', [True], glob=True, key=key)
    a.nthreads = find(vc, sub, 'nthreads', '-n', [1, 2, 3, 255, 256, blosc.ncores], glob=True, key=key)
    find(vc, sub, 'nthreads-long', '--nthreads', [5], glob=True, key=key)
    p = parsed([sub] + POS[key])
    vc.prove('default-nthreads', a.nthreads is not None and p.get(a.nthreads) == blosc.ncores, repr(p)[:200])
    for bad in ('0', '257', 'x'):
        vc.prove('illegal-nthreads-refused', parsed(['-n', bad, sub] + POS[key]) is None, bad)
    return a


def compress_options(vc, sub):
    a = global_options(vc, sub, 'compress', blosc_options(vc, sub, 'compress'))
    a.chunk_size = find(vc, sub, 'chunk-size', '-z', [1, 1000, '1K', '2.5M', '1G', '512B', 'max'],
                        [1, 1000, 1024, 2621440, 2 ** 30, 512, MAXBUF], key='compress')
    find(vc, sub, 'chunk-size-long', '--chunk-size', [100], key='compress')
    a.checksum = find(vc, sub, 'checksum', '-k', ['None'] + CHECKSUM_NAMES[2:] + ['adler32'], key='compress')
    find(vc, sub, 'checksum-long', '--checksum', ['md5'], key='compress')
    a.offsets = find(vc, sub, 'no-offsets', '-o', [False], key='compress')
    find(vc, sub, 'no-offsets-long', '--no-offsets', [False], key='compress')
    p = parsed([sub, 'in'])
    for n, v in (('chunk_size', '1M'), ('checksum', 'adler32'), ('offsets', True)):
        x = getattr(a, n)
        vc.prove('default-%s' % n, x is not None and p.get(x) in (v, 2 ** 20 if v == '1M' else v), repr(p)[:200])
    for bad in (['-z', '1Q'], ['-z', '-5'], ['-z', 'x'], ['-k', 'nope']):
        vc.prove('illegal-value-refused', parsed([sub] + bad + ['in']) is None, repr(bad))
    names(vc, a, sub, 'compress')
    return a


def names(vc, a, sub, key):
    """attributes of the file names"""
    if key in ('compress', 'decompress'):
        p, q = parsed([sub, 'AAA']), parsed([sub, 'AAA', 'BBB'])
        if vc.prove('file-names-parsed', p is not None and q is not None):
            a.in_file = [k for k in p if p[k] == 'AAA'][0]
            d = diff(p, q)
            vc.prove('output-name-parsed', list(d.values()) == ['BBB'] and p[list(d)[0]] is None, repr(d))
            a.out_file = list(d)[0]
    elif key == 'append':
        p = parsed([sub, 'AAA', 'BBB'])
        if vc.prove('file-names-parsed', p is not None):
            a.in_file, a.new_file = [k for k in p if p[k] == 'AAA'][0], [k for k in p if p[k] == 'BBB'][0]
    else:
        p = parsed([sub, 'AAA'])
        if vc.prove('file-names-parsed', p is not None):
            a.in_file = [k for k in p if p[k] == 'AAA'][0]


class Quiet:
    """the option table is an obligation of cli_options; the other groups only use it"""
    def prove(self, name, cond, info=''):
        return cond


_tables = {}


def table(sub, key):
    if sub not in _tables:
        q = Quiet()
        if key == 'compress':
            a = compress_options(q, sub)
        elif key == 'append':
            a = nce_option(q, sub, key, global_options(q, sub, key, blosc_options(q, sub, key)))
        elif key == 'decompress':
            a = nce_option(q, sub, key, global_options(q, sub, key, Opts()))
        else:
            a = global_options(q, sub, key, Opts())
            names(q, a, sub, key)
        _tables[sub] = a
    return _tables[sub]


@group('C20', 'C19', contracts=False)
def cli_options(vc):
    """the parser, exhaustively over the finite choices and on samples of the integers"""
    for s in SUBS['compress']:
        compress_options(vc, s)
    for s in SUBS['append']:
        a = global_options(vc, s, 'append', blosc_options(vc, s, 'append'))
        nce_option(vc, s, 'append', a)
    for s in SUBS['decompress']:
        a = global_options(vc, s, 'decompress', Opts())
        nce_option(vc, s, 'decompress', a)
    for s in SUBS['info']:
        global_options(vc, s, 'info', Opts())
    vc.prove('verbose-excludes-debug', parsed(['-v', '-d', 'compress', 'in']) is None)
    for argv in (['compress'], ['decompress'], ['append', 'x.blp'], ['info'], ['nope', 'x']):
        vc.prove('incomplete-refused', parsed(argv) is None, repr(argv))


def nce_option(vc, s, key, a):
    a.nce = find(vc, s, 'no-check-extension', '-e', [True], key=key)
    find(vc, s, 'no-check-extension-long', '--no-check-extension', [True], key=key)
    names(vc, a, s, key)
    return a


def setup(vc, sub, ns):
    """the interpreter's view: the parser returns this namespace; library calls are recorded"""
    itp, ctx = vc.itp, vc.ctx
    specs.use_base_contracts(itp)
    itp.hooks['unknown_fs'] = True
    opened = []
    itp.hooks['open'] = lambda itp, key, mode: opened.append((key, mode))
    nsv = Obj(ctx, argparse.Namespace)
    for k, v in ns.items():
        nsv.slots[k] = v
    par = Obj(ctx, Parser)
    par.slots['prog'] = 'blpk'
    par.slots['parse_args'] = ModelFn('parse_args', lambda itp, a, k: nsv)
    par.slots['print_usage'] = ModelFn('print_usage', lambda itp, a, k: None)
    itp.contracts['bloscpack.cli.create_parser'] = lambda itp, b: par

    def error(itp, b):
        if not isinstance(b['message'], (str, SStr, SChars, SEnum)):
            return NotImplemented
        itp.events.append(('error', b['message']))
        raise PyExc(ExcVal(SystemExit, (b['exit_code'],)))
    itp.contracts['bloscpack.log.error'] = error

    def normal(itp, b):
        itp.events.append(('normal', b['message']))
        return specs.c_log(itp, b)
    itp.contracts['bloscpack.log.normal'] = normal
    itp.hooks['set_nthreads'] = lambda itp, n: itp.events.append(('threads', n))
    return opened


class Parser:
    pass


def lib(vc, name, fn):
    """contract of a library function: record the call, then fn chooses the outcome"""
    def c(itp, b):
        itp.events.append(('lib', name, dict(b), len([e for e in itp.events if e[0] == 'error'])))
        return fn(itp, b)
    vc.itp.contracts[name] = c


def libs(vc):
    return [e for e in vc.itp.events if e[0] == 'lib']


def raise_(cls):
    raise PyExc(ExcVal(cls, (SStr(None),)))


def flag(vc, ns, sub, name, opt, attr, base, glob, key):
    """symbolic flag option; returns the z3 Bool 'the flag was given'"""
    b = vc.bool(name)
    on = parsed(([opt, sub] if glob else [sub, opt]) + POS[key])
    if attr is not None and on is not None:
        ns[attr] = iite(b, on[attr], base[attr])
    return b


def text_exists(vc, s):
    r = text_rope(s)
    return models.f_exists(term_of(vc.ctx, r))


def file_text(vc, name, t):
    """an arbitrary non-empty file name"""
    s = vc.text(t)
    vc.ctx.assume(zb(icmp('>=', rlen(s.r), 1)))
    return s


def eq_(vc, a, b):
    try:
        c = models.eq(vc.itp, a, b)
    except Unsupported:
        return False
    return zb(c) if sym(c) else bool(c)


def default_arg(fn, name):
    import inspect
    return inspect.signature(fn).parameters[name].default


def entry(vc, o, k, dflt):
    """effective entry of an argument set (None: the library's default)"""
    if o is None:
        return dflt
    return vc.itp.subscript(o, k)


def check_blosc(vc, bound, s):
    b = bound['blosc_args']
    for k, v, d in (('typesize', s.ts, 8), ('clevel', s.cl, 7), ('shuffle', s.sh, True), ('cname', s.cn, 'blosclz')):
        vc.prove('setting-%s' % k, eq_(vc, entry(vc, b, k, d), v), repr(entry(vc, b, k, d))[:100])


def threads(vc, n):
    ev = [e for e in vc.itp.events if e[0] == 'threads']
    vc.prove('threads-set', len(ev) == 1 and eq_(vc, ev[0][1], n), repr(ev)[:200])


def level_set(vc, v, d):
    """-v and -d set the level, otherwise it stays"""
    L = vc.itp.globals_over.slots[('bloscpack.log', 'LEVEL')]
    old = SEnum(z3.Int('log.LEVEL'), ('NORMAL', 'VERBOSE', 'DEBUG'))
    if vc.ctx.branch(v):
        vc.prove('verbose-level', eq_(vc, L, 'VERBOSE'))
    elif vc.ctx.branch(d):
        vc.prove('debug-level', eq_(vc, L, 'DEBUG'))
    else:
        vc.prove('level-kept', eq_(vc, L, old))


def failed(o):
    """the program ends with a non-zero status: uncaught exception or sys.exit of a non-zero code"""
    if o.kind != 'exc':
        return False
    if o.val.cls is SystemExit:
        a = o.val.args
        return len(a) == 1 and not sym(a[0]) and a[0] not in (0, None, False)
    return True


def common_options(vc, sub, key, a, ns):
    base = dict(ns)
    s = Cfg()
    s.verbose = flag(vc, ns, sub, 'verbose', '-v', a.verbose, base, True, key)
    s.debug = flag(vc, ns, sub, 'debug', '-d', a.debug, base, True, key)
    vc.ctx.assume(z3.Not(z3.And(s.verbose, s.debug)))
    s.force = flag(vc, ns, sub, 'force', '-f', a.force, base, True, key)
    s.threads = vc.int('nthreads', 1, blosc.BLOSC_MAX_THREADS)
    if a.nthreads:
        ns[a.nthreads] = s.threads
    return s


def blosc_setting(vc, sub, key, a, ns, s, with_meta):
    base = dict(ns)
    s.ts, s.cl, s.cn = vc.int('typesize'), vc.int('clevel', 0, 9), vc.enum('cname', CNAMES)
    no = flag(vc, ns, sub, 'no_shuffle', '-s', a.shuffle, base, False, key)
    s.sh = bnot(no)
    for n, v in ((a.typesize, s.ts), (a.clevel, s.cl), (a.cname, s.cn)):
        if n:
            ns[n] = v
    s.meta = None
    if with_meta:
        s.meta = file_text(vc, 'metadata', 'metadata_file')
        ns[a.metadata] = s.meta
    return s


def meta_value(vc, s):
    """(condition that the metadata file can be used, its JSON value)"""
    if s.meta is None:
        return True, None
    t = term_of(vc.ctx, s.meta.r)
    c = F('fs_content', BS, BS)(t)
    txt = models.f_u8d(c)
    if not c.decl().name() == 'fs_content':
        raise Unsupported('metadata')
    return z3.And(models.f_exists(t), models.f_u8ok(c), models.f_jok(txt)), SObj(models.f_loads(txt))


def no_writes(vc, opened, allowed=()):
    bad = [(k, m) for k, m in opened if m not in ('r', 'rb') and not any(k is x and m == y for x, y in allowed)]
    vc.prove('nothing-opened-for-writing', not bad, repr(bad)[:200])


def cli_compress(vc, sub, with_meta):
    a = table(sub, 'compress')
    ns = dict(parsed([sub, 'in']))
    base = dict(ns)
    s = common_options(vc, sub, 'compress', a, ns)
    blosc_setting(vc, sub, 'compress', a, ns, s, with_meta)
    s.ck = vc.enum('checksum', CHECKSUM_NAMES)
    ns[a.checksum] = s.ck
    off = flag(vc, ns, sub, 'no_offsets', '-o', a.offsets, base, False, 'compress')
    s.cs = '1M'
    if vc.ctx.choose(2):
        s.cs = vc.int('chunk_size', 0)
        ns[a.chunk_size] = s.cs
    inp = file_text(vc, 'input', 'input')
    ns[a.in_file] = inp
    out = mk_text(rcat(inp.r, rope(Lit(BLP))))
    if vc.ctx.choose(2):
        out = file_text(vc, 'output', 'output')
        ns[a.out_file] = out
    opened = setup(vc, sub, ns)

    def run(itp, b):
        j = itp.ctx.choose(3)
        if j:
            raise_([EX.ChunkingException, ValueError][j - 1])
    lib(vc, 'bloscpack.file_io.pack_file_to_file', run)
    o = vc.call(CLI.main)
    calls = libs(vc)
    mok, mval = meta_value(vc, s)
    ok = z3.And(text_exists(vc, inp), z3.Or(z3.Not(text_exists(vc, out)), s.force))
    no_writes(vc, opened)
    threads(vc, s.threads)
    level_set(vc, s.verbose, s.debug)
    if not calls:
        vc.prove('refused-only-with-reason', z3.Not(z3.And(ok, mok)))
        vc.prove('refusal-reported', failed(o), repr(o)[:200])
        return
    vc.prove('one-call', len(calls) == 1)
    b = calls[0][2]
    vc.prove('input-exists', text_exists(vc, inp))
    vc.prove('output-not-overwritten-unasked', ok)
    vc.prove('input-name', eq_(vc, b['in_file'], inp))
    vc.prove('output-name', eq_(vc, b['out_file'], out), repr(b['out_file'])[:200])
    vc.prove('setting-chunk-size', same_size(vc, b['chunk_size'], s.cs))
    check_blosc(vc, b, s)
    p = b['bloscpack_args']
    vc.prove('setting-offsets', eq_(vc, entry(vc, p, 'offsets', True), bnot(off)))
    vc.prove('setting-checksum', eq_(vc, entry(vc, p, 'checksum', 'adler32'), s.ck))
    vc.prove('setting-reservation-default', entry(vc, p, 'max_app_chunks', DEF.DEFAULT_MAX_APP_CHUNKS) is DEF.DEFAULT_MAX_APP_CHUNKS)
    if s.meta is None:
        vc.prove('no-metadata', b['metadata'] is None)
    else:
        vc.prove('metadata', z3.And(mok, zb(eq_(vc, b['metadata'], mval))))
    m = b['metadata_args']
    for k, v in (('magic_format', b'JSON'), ('meta_checksum', 'adler32'), ('meta_codec', 'zlib'), ('meta_level', 6)):
        vc.prove('metadata-defaults', eq_(vc, entry(vc, m, k, v), v))
    vc.prove('metadata-defaults', entry(vc, m, 'max_meta_size', DEF.DEFAULT_MAX_META_SIZE) is DEF.DEFAULT_MAX_META_SIZE)
    raised = vc.itp.events[-1][0] == 'error' or o.kind == 'exc'
    if raised:
        vc.prove('failure-reported', failed(o), repr(o)[:200])
    else:
        vc.prove('success', o.ok, repr(o)[:200])


def same_size(vc, x, want):
    if isinstance(want, str):
        return x == '1M' or eq_(vc, x, 2 ** 20)
    return eq_(vc, x, want)


@group('C19', 'C20', contracts=False)
def cli_decompress(vc):
    sub = SUBS['decompress'][vc.ctx.choose(2)]
    a = table(sub, 'decompress')
    ns = dict(parsed([sub, 'in.blp']))
    base = dict(ns)
    s = common_options(vc, sub, 'decompress', a, ns)
    nce = flag(vc, ns, sub, 'no_check_extension', '-e', a.nce, base, False, 'decompress')
    inp = file_text(vc, 'input', 'input')
    ns[a.in_file] = inp
    out = None
    if vc.ctx.choose(2):
        out = file_text(vc, 'output', 'output')
        ns[a.out_file] = out
    opened = setup(vc, sub, ns)
    outcome = {}

    def run(itp, b):
        j = itp.ctx.choose(6)
        outcome['j'] = j
        if j == 0:
            return None
        if j == 1:
            return SObj(z3.Const('metadata', OS))
        raise_([EX.FormatVersionMismatch, EX.ChecksumMismatch, ValueError, RuntimeError][j - 2])
    lib(vc, 'bloscpack.file_io.unpack_file_from_file', run)
    o = vc.call(CLI.main)
    calls = libs(vc)
    no_writes(vc, opened)
    threads(vc, s.threads)
    level_set(vc, s.verbose, s.debug)
    ends = models.text_part(vc.itp, inp, '.blp', True)
    ends = zb(ends) if sym(ends) else z3.BoolVal(ends)
    if vc.ctx.branch(nce):
        named = z3.BoolVal(out is not None)
    else:
        named = ends
        if vc.ctx.branch(ends) and out is None:
            out = mk_text(rslice(vc.ctx, inp.r, 0, isub(rlen(inp.r), 4)))
    if out is None:
        ok = z3.BoolVal(False)
    else:
        ok = z3.And(named, text_exists(vc, inp), z3.Or(z3.Not(text_exists(vc, out)), s.force))
    if not calls:
        vc.prove('refused-only-with-reason', z3.Not(ok))
        vc.prove('refusal-reported', failed(o), repr(o)[:200])
        return
    vc.prove('one-call', len(calls) == 1)
    b = calls[0][2]
    vc.prove('extension-checked', named)
    vc.prove('input-exists', text_exists(vc, inp))
    vc.prove('output-not-overwritten-unasked', ok)
    vc.prove('input-name', eq_(vc, b['in_file'], inp))
    vc.prove('output-name', out is not None and eq_(vc, b['out_file'], out), repr(b['out_file'])[:200])
    if outcome['j'] < 2:
        vc.prove('success', o.ok, repr(o)[:200])
    else:
        vc.prove('failure-reported', failed(o), repr(o)[:200])
        if outcome['j'] < 4:
            ev = [e for e in vc.itp.events if e[0] == 'error']
            vc.prove('error-message', len(ev) >= 1 and o.val.cls is SystemExit, repr(o)[:200])


def cli_append(vc, sub, with_meta):
    a = table(sub, 'append')
    ns = dict(parsed([sub, 'in.blp', 'new']))
    base = dict(ns)
    s = common_options(vc, sub, 'append', a, ns)
    blosc_setting(vc, sub, 'append', a, ns, s, with_meta)
    nce = flag(vc, ns, sub, 'no_check_extension', '-e', a.nce, base, False, 'append')
    inp, new = file_text(vc, 'input', 'input'), file_text(vc, 'new', 'new')
    ns[a.in_file], ns[a.new_file] = inp, new
    opened = setup(vc, sub, ns)
    outcome = {}

    def run(itp, b):
        outcome['j'] = itp.ctx.choose(2)
        if outcome['j']:
            raise_(RuntimeError)
        return itp.ctx.fresh_int('nchunks')
    lib(vc, 'bloscpack.append.append', run)

    def seek(itp, b):
        return None, None, None, None
    lib(vc, 'bloscpack.append._seek_to_metadata', seek)

    def rew(itp, b):
        outcome['r'] = itp.ctx.choose(2)
        if outcome['r']:
            raise_(EX.NoChangeInMetadata)
        return itp.ctx.fresh_int('size')
    lib(vc, 'bloscpack.append._rewrite_metadata_fp', rew)
    o = vc.call(CLI.main)
    calls = libs(vc)
    mok, mval = meta_value(vc, s)
    threads(vc, s.threads)
    level_set(vc, s.verbose, s.debug)
    ends = models.text_part(vc.itp, inp, '.blp', True)
    ends = zb(ends) if sym(ends) else z3.BoolVal(ends)
    ok = z3.And(z3.Or(nce, ends), text_exists(vc, inp), text_exists(vc, new))
    writes = [(k, m) for k, m in opened if m not in ('r', 'rb')]
    if not calls:
        vc.prove('refused-only-with-reason', z3.Not(z3.And(ok, mok)))
        vc.prove('refusal-reported', failed(o), repr(o)[:200])
        vc.prove('nothing-opened-for-writing', not writes, repr(writes)[:200])
        return
    vc.prove('append-called-first', calls[0][1].endswith('.append'))
    b = calls[0][2]
    vc.prove('inputs-exist', z3.And(text_exists(vc, inp), text_exists(vc, new)))
    vc.prove('extension-checked', ok)
    vc.prove('original-name', eq_(vc, b['orig_file'], inp))
    vc.prove('new-name', eq_(vc, b['new_file'], new))
    check_blosc(vc, b, s)
    rest = [c for c in calls[1:]]
    if outcome['j']:
        vc.prove('failure-reported', failed(o), repr(o)[:200])
        vc.prove('nothing-after-a-failed-append', not rest and not writes)
        return
    rw = [c for c in rest if c[1].endswith('_rewrite_metadata_fp')]
    if s.meta is None:
        vc.prove('metadata-untouched', not rest and not writes)
        vc.prove('success', o.ok, repr(o)[:200])
        return
    isnone = vc.itp.obj_isnone(mval)
    if not rw:
        # the JSON value null is no metadata
        vc.prove('metadata-rewritten', z3.And(mok, zb(isnone)) if not failed(o) else False)
        return
    vc.prove('one-rewrite', len(rw) == 1 and len(rest) == 2 and rest[0][1].endswith('_seek_to_metadata'))
    b = rw[0][2]
    vc.prove('new-metadata', z3.And(mok, zb(eq_(vc, b['new_metadata'], mval))))
    fp = b['target_fp']
    vc.prove('rewrites-the-original', isinstance(fp, FileV) and fp is rest[0][2]['target_fp'] and
             isinstance(fp.name, models.TName) and eq_(vc, fp.name.v, inp))
    vc.prove('opened-for-update', len(writes) == 1 and writes[0][1] in ('r+b', 'rb+') and writes[0][0] is fp.name)
    if outcome['r']:
        vc.prove('failure-reported', failed(o), repr(o)[:200])
    else:
        vc.prove('success', o.ok, repr(o)[:200])


@group('C19', 'C18', contracts=False)
def cli_info(vc):
    sub = SUBS['info'][vc.ctx.choose(2)]
    a = table(sub, 'info')
    ns = dict(parsed([sub, 'in.blp']))
    s = common_options(vc, sub, 'info', a, ns)
    inp = file_text(vc, 'input', 'input')
    ns[a.in_file] = inp
    opened = setup(vc, sub, ns)
    c = Cfg()
    outcome = {}

    def begin(itp, b):
        j = itp.ctx.choose(6)
        outcome['begin'] = j
        if j == 0:
            h = vc.call(H.BloscpackHeader, offsets=vc.bool('h_offsets'), checksum=vc.enum('h_checksum', CHECKSUM_NAMES),
                        typesize=vc.int('h_typesize', 0, 255)).val
            m, mh = None, None
            if itp.ctx.choose(2):
                m = SObj(z3.Const('metadata', OS))
                itp.ctx.assume(z3.Not(zb(itp.obj_isnone(m))))
                mh = vc.call(H.MetadataHeader).val
            offs = [itp.newlist([]), itp.newlist([vc.int('o1'), vc.int('o2')])][itp.ctx.choose(2)]
            return h, m, mh, offs
        raise_([ValueError, EX.FormatVersionMismatch, EX.ChecksumMismatch, RuntimeError, struct_error()][j - 1])
    lib(vc, 'bloscpack.file_io._read_beginning', begin)

    def chunk(itp, b):
        j = itp.ctx.choose(3)
        outcome['chunk'] = j
        if j == 0:
            d = {k: itp.ctx.fresh_int(k) for k in ('version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes')}
            for v in d.values():
                itp.ctx.assume(z3.And(v >= 0, v <= 255))
            return mk_bytes(vc.bytes('chunk').r), DictV(itp.ctx, d), b''
        raise_([ValueError, EX.ChecksumMismatch][j - 1])
    lib(vc, 'bloscpack.file_io._read_compressed_chunk_fp', chunk)
    itp = vc.itp
    itp.contracts['bloscpack.headers.decode_blosc_flags'] = lambda itp, b: DictV(itp.ctx, {}) if is_int(b.get('byte_', b.get('byte'))) else NotImplemented
    o = vc.call(CLI.main)
    calls = libs(vc)
    no_writes(vc, opened)
    shown = [e for e in vc.itp.events if e[0] == 'normal']
    if not calls:
        vc.prove('refused-only-with-reason', z3.Not(text_exists(vc, inp)))
        vc.prove('refusal-reported', failed(o), repr(o)[:200])
        vc.prove('nothing-shown', not shown)
        return
    vc.prove('input-exists', text_exists(vc, inp))
    vc.prove('header-read-first', calls[0][1].endswith('_read_beginning'))
    fp = list(calls[0][2].values())[0]
    vc.prove('reads-the-input', isinstance(fp, FileV) and isinstance(fp.name, models.TName) and eq_(vc, fp.name.v, inp) and
             same(fp.slots['pos'], 0))
    if outcome['begin'] or outcome.get('chunk'):
        vc.prove('failure-reported', failed(o), repr(o)[:200])
        if outcome['begin']:
            vc.prove('nothing-shown', not shown)
        return
    vc.prove('success', o.ok, repr(o)[:200])


def struct_error():
    import struct
    return struct.error


@group('C20', contracts=False)
def cli_no_subcommand(vc):
    p = parsed([])
    if p is None:
        vc.prove('refused-by-the-parser', True)
        return
    opened = setup(vc, '', dict(p))
    o = vc.call(CLI.main)
    vc.prove('fails', failed(o), repr(o)[:200])
    no_writes(vc, opened)


for _key, _fn in (('compress', cli_compress), ('append', cli_append)):
    for _sub in SUBS[_key]:
        for _m in (False, True):
            group('C19', 'C20', contracts=False, budget=200, name='cli_%s%s%s' % (_key, '_alias' if len(_sub) == 1 else '', '_with_metadata' if _m else ''))(
                lambda vc, fn=_fn, sub=_sub, m=_m: fn(vc, sub, m))


# ---------------------------------------------------------------- values of the options with own parsing
def action(sub, opt):
    """the parser's action object of an option"""
    p = CLI.create_parser()
    if sub:
        p = [a for a in p._actions if isinstance(a, argparse._SubParsersAction)][0].choices[sub]
    return p._option_string_actions[opt]


def take_value(vc, act, opt, value):
    """run the real code that turns the option's text into its value: (outcome, value)"""
    itp = vc.itp
    setup(vc, '', {})
    if act.type is not None and act.type not in (str, int):
        o = vc.call(act.type, value)
        if not o.ok:
            return o, None
        value = o.val
    if type(act).__call__ is argparse._StoreAction.__call__:
        return Outcome('ret', None), value
    me, ns = Obj(vc.ctx, type(act)), Obj(vc.ctx, argparse.Namespace)
    for k, v in vars(act).items():
        me.slots[k] = v
    o = vc.call(type(act).__call__, me, None, ns, value, opt)
    return o, ns.slots.get(act.dest, vc_missing)


@group('C20', contracts=False)
def cli_value_of_nthreads(vc):
    act = action(None, '-n')
    v = vc.int('value')
    o, x = take_value(vc, act, '-n', v)
    ok = z3.And(v >= 1, v <= blosc.BLOSC_MAX_THREADS)
    if vc.prove('type', act.type is int) and o.ok:
        vc.prove('legal', ok)
        vc.prove('value', x is not vc_missing and eq_(vc, x, v), repr(x))
    else:
        vc.prove('refused-only-illegal', z3.Not(ok))
        vc.prove('refused', failed(o), repr(o)[:200])


@group('C20', 'C22', contracts=False)
def cli_value_of_chunk_size(vc):
    """-z: 'max', a size string, or a plain integer; for every text"""
    act = action(SUBS['compress'][vc.ctx.choose(2)], '-z')
    pre = vc.text('prefix')
    last = vc.int('last_char', 0, 255)
    val = SText(rcat(pre.r, rope(Enc(1, last, False))))
    o, x = take_value(vc, act, '-z', val)
    if vc.ctx.branch(zb(models.eq(vc.itp, val, 'max'))):
        vc.prove('max', o.ok and x is not vc_missing and eq_(vc, x, MAXBUF), repr((o, x))[:200])
        return
    t = term_of(vc.ctx, pre.r)
    num, want = None, None
    for suf, k in (('B', 1), ('K', 2 ** 10), ('M', 2 ** 20), ('G', 2 ** 30), ('T', 2 ** 40)):
        if vc.ctx.branch(last == ord(suf)):
            num = F('f_isnum', BS, BOOL)(t)
            want = F('f_trunc', FS, INT)(fterm(SFloat(('mul', SFloat(('parse', t)), SFloat(('int', k))))))
            break
    else:
        tt = term_of(vc.ctx, val.r)
        num, want = F('t_isint', BS, BOOL)(tt), F('t_int', BS, INT)(tt)
    if o.ok:
        vc.prove('a-number', num)
        vc.prove('not-negative', want >= 0)
        vc.prove('value', x is not vc_missing and eq_(vc, x, want), repr(x)[:200])
    else:
        vc.prove('refused-only-illegal', z3.Not(z3.And(num, want >= 0)))
        vc.prove('refused', failed(o), repr(o)[:200])
