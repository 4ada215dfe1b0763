"""C24: the verbosity.  All groups of the other modules run with an unknown verbosity level (specs.any_level) and with
the contract 'prints, changes nothing, returns None' for the functions of bloscpack.log; that contract and the
printing rule are verified here."""
from .common import *

LEVELS = ('NORMAL', 'VERBOSE', 'DEBUG')


def level(vc):
    specs.any_level(vc.itp)
    return z3.Int('log.LEVEL')


def message(vc):
    """(value, lines): one line of arbitrary text, or several lines"""
    j = vc.ctx.choose(4)
    if j == 0:
        t = vc.text('message')
        vc.ctx.assume(zb(icmp('>=', rlen(t.r), 1)))
        vc.ctx.assume(z3.Not(models.has_sep(t, '\n')))
        return t, [t]
    return [('a\n\nbc\n', ['a', 'bc']), ('', []), ('\n\n', [])][j - 1]


def frame(vc):
    """what the log functions may change: nothing"""
    g = dict(vc.itp.globals_over.slots)
    g.pop(('bloscpack.log', 'PREFIX'), None)
    return g, dict(vc.itp.fs.slots)


def printed(vc, lines, before):
    """the prints recorded since `before` are exactly these lines with the prefix"""
    ev = [e for e in vc.itp.events[before:] if e[0] == 'print']
    if len(ev) != len(lines):
        return False
    c = True
    for e, l in zip(ev, lines):
        if len(e[1]) != 1:
            return False
        want = vc.itp.str_concat([LOG.PREFIX, ': ', l])
        c = band(c, models.eq(vc.itp, e[1][0], want))
    return c


def check_print(vc, o, lines, n0, show, g0):
    vc.prove('returns-nothing', o.ok and o.val is None, repr(o)[:200])
    g1 = frame(vc)
    vc.prove('changes-nothing', g1[0].keys() == g0[0].keys() and all(same_or_is(g1[0][k], g0[0][k]) for k in g0[0])
             and g1[1] == g0[1])
    n = len([e for e in vc.itp.events[n0:] if e[0] == 'print'])
    if vc.ctx.branch(zb(show) if sym(show) else show):
        c = printed(vc, lines, n0)
        vc.prove('printed', zb(c) if sym(c) else c, '%d lines' % n)
    else:
        vc.prove('not-printed', n == 0, '%d lines' % n)


def same_or_is(a, b):
    return a is b or a == b


@group('C24', contracts=False)
def log_function(vc):
    L = level(vc)
    j = vc.ctx.choose(6)
    m, lines = message(vc)
    g0, n0 = frame(vc), len(vc.itp.events)
    if j < 3:
        o = vc.call(LOG.verbose, m, LEVELS[j])
        idx = j
    else:
        o = vc.call([LOG.normal, LOG.verbose, LOG.debug][j - 3], m)
        idx = j - 3
    check_print(vc, o, lines, n0, L >= idx, g0)


@group('C24', contracts=False)
def log_unknown_level(vc):
    level(vc)
    t = vc.text('level')
    for l in LEVELS:
        c = models.eq(vc.itp, t, l)
        vc.ctx.assume(z3.Not(zb(c)) if sym(c) else z3.BoolVal(not c))
    n0 = len(vc.itp.events)
    o = vc.call(LOG.verbose, 'message', t)
    vc.prove('refused', not o.ok, repr(o)[:200])
    vc.raises('refusal-type', o, TypeError)
    vc.prove('nothing-printed', not [e for e in vc.itp.events[n0:] if e[0] == 'print'])


@group('C24', contracts=False)
def log_set_level(vc):
    """setting a level takes effect on the printing; an unknown one is refused and changes nothing"""
    L = level(vc)
    j = vc.ctx.choose(4)
    if j < 3:
        o = vc.call(LOG.set_level, LEVELS[j])
        vc.prove('accepted', o.ok, repr(o)[:200])
        idx = j
    else:
        t = vc.text('level')
        for l in LEVELS:
            c = models.eq(vc.itp, t, l)
            vc.ctx.assume(z3.Not(zb(c)) if sym(c) else z3.BoolVal(not c))
        o = vc.call(LOG.set_level, t)
        vc.prove('refused', not o.ok, repr(o)[:200])
        vc.raises('refusal-type', o, ValueError)
        idx = L
    for i in range(3):
        n0 = len(vc.itp.events)
        vc.call(LOG.verbose, 'message', LEVELS[i])
        ev = [e for e in vc.itp.events[n0:] if e[0] == 'print']
        c = ieq(len(ev), 1)
        show = icmp('>=', idx, i)
        vc.prove('effective-%s' % LEVELS[i], zb(beqv(c, show)) if sym(show) else c == show)


def beqv(c, s):
    return s if c else bnot(s)


@group('C24', 'C20', contracts=False)
def log_error(vc):
    """error() prints every line and ends the program with the exit code, at every level"""
    level(vc)
    m, lines = message(vc)
    n0 = len(vc.itp.events)
    k = vc.ctx.choose(2)
    code = vc.int('exit_code')
    o = vc.call(LOG.error, m, code) if k else vc.call(LOG.error, m)
    vc.prove('ends', o.kind == 'exc' and o.val.cls is SystemExit, repr(o)[:200])
    if o.kind == 'exc' and o.val.cls is SystemExit:
        a = o.val.args
        vc.prove('exit-code', len(a) == 1 and (zb(ieq(a[0], code)) if k else a[0] == 1), repr(a))
    ev = [e for e in vc.itp.events[n0:] if e[0] == 'print']
    c = len(ev) == len(lines)
    if c:
        for e, l in zip(ev, lines):
            c = band(c, models.eq(vc.itp, e[1][0], vc.itp.str_concat([LOG.PREFIX, ': error: ', l])))
    vc.prove('printed', zb(c) if sym(c) else c)
