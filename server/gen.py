"""Generators and drivers shared by the server properties."""
import random
from pogo import *
from model import *


def B(a):
    """Bytes of a JSON argument: latin-1 text or a repeated pattern."""
    if isinstance(a, dict):
        r, n = a['r'].encode('latin1'), a['n']
        return (r * (n // max(1, len(r)) + 1))[:n]
    return a.encode('latin1')


def rbytes(rng, n, alpha=None):
    if alpha:
        return ''.join(rng.choice(alpha) for _ in range(n))
    return ''.join(chr(rng.randrange(256)) for _ in range(n))


PRINT = ''.join(chr(c) for c in range(33, 127))
TRICKY = ['\r\n', '\n', '\r', '\0', ' ', '"', "'", '\\', '%', '$1', '$', ';', '--', 'END\r\n', 'STORED\r\n', '$-1\r\n', '*1\r\n', '\xff', '\x80', '\xc3\xa9',
          'HTTP/1.1', 'NOREPLY', 'noreply', '\x7f', '\t', '{', '[', ':1\r\n', '-ERR\r\n', '::bytea', 'E\'', '$$', '?', '&', '=', '+']


def key(rng, binary=True, lo=1, hi=250, alpha=None):
    r = rng.random()
    if r < 0.45:
        return alpha_str(rng, rng.randint(lo, 8), alpha or 'abcXYZ019_:-')
    if r < 0.6:
        return alpha_str(rng, rng.randint(lo, 30), alpha or PRINT)
    if r < 0.68:
        return alpha_str(rng, rng.choice([hi, hi - 1, 127, 128, 129, 31, 32, 33, 15, 16]), alpha or 'abcdef')
    if not binary:
        return alpha_str(rng, rng.randint(lo, 20), alpha or PRINT)
    if r < 0.85:
        return ''.join(rng.choice(TRICKY + ['a', 'b']) for _ in range(rng.randint(1, 5)))
    if r < 0.88:
        return ''
    return rbytes(rng, rng.randint(1, 40))


def swap(k):
    return ''.join(c.swapcase() if c < '\x80' else c for c in k)


def alpha_str(rng, n, alpha):
    return ''.join(rng.choice(alpha) for _ in range(n))


def keypool(rng, n=None, **kw):
    n = n or rng.randint(3, 8)
    out = []
    while len(out) < n:
        if out and rng.random() < 0.3:
            # close relatives: same prefix, one byte more or less, other case
            k = rng.choice(out)
            if isinstance(k, dict):
                continue
            m = rng.random()
            k = k + 'a' if m < 0.4 else k[:-1] if m < 0.7 else swap(k)
            if len(k) > kw.get('hi', 250) or not k:
                continue
        else:
            k = key(rng, **kw)
        if k not in out:
            out.append(k)
    return out


NUMS = ['0', '1', '-1', '2', '10', '99', '127', '255', '256', '65535', '4294967295', '4294967296', '9223372036854775806', '9223372036854775807',
        '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551614', '18446744073709551615', '18446744073709551616', '-2', '9', '100']


def value(rng, big=True):
    r = rng.random()
    if r < 0.25:
        return alpha_str(rng, rng.randint(1, 12), 'abcdefgh0123 ')
    if r < 0.45:
        return rng.choice(NUMS)
    if r < 0.5:
        return ''
    if r < 0.65:
        return ''.join(rng.choice(TRICKY + ['x', 'y']) for _ in range(rng.randint(1, 6)))
    if r < 0.8:
        return rbytes(rng, rng.randint(1, 60))
    if r < 0.93 or not big:
        return {'r': rbytes(rng, rng.randint(1, 9)), 'n': rng.choice([rng.randint(60, 300), rng.randint(200, 2000), 127, 128, 129, 255, 256, 16383, 16384, 16385])}
    return {'r': rbytes(rng, rng.randint(1, 9)), 'n': rng.choice([rng.randint(1000, 70000), rng.randint(1000, 400000), 65536, 65535, 4096, 131072, 1048576])}


def word(rng, s):
    """A command or option word in a random case."""
    r = rng.random()
    return s if r < 0.6 else s.lower() if r < 0.8 else ''.join(rng.choice([c, c.lower()]) for c in s)


def config(rng, cas=None, threads=None, tcp=None):
    o = {}
    if rng.random() < 0.6:
        o['shards'] = rng.choice([1, 2, 3, 13, 16, 71, 4096])
    o['threads'] = threads or rng.choice([1, 1, 2, 4])
    if cas is None:
        cas = rng.random() < 0.7
    if cas:
        o['cas'] = 'yes'
    if rng.random() < 0.4:
        o['loadfactor'] = rng.choice([55, 60, 75, 90, 95])
    if rng.random() < 0.3:
        o['sixpack'] = rng.choice(['yes', 'no'])
    if rng.random() < 0.3:
        o['autosweep'] = 'no'
    if rng.random() < 0.3:
        o['seed'] = rng.randrange(1 << 32)
    return {'opts': o, 'tcp': (rng.random() < 0.4) if tcp is None else tcp}


def deadline(rng):
    """Amounts of time that straddle what the lifetimes below use."""
    return rng.choice([0, 1, 1_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_500_000_000, 2_000_000_000, 3_600_000_000_000, 10**14,
                       rng.randrange(1, 5 * 10**9), rng.randrange(1, 10**13)])


def reset(srv, auth=None):
    """Empty the cache; returns a fresh model in step with the server's clock."""
    c = srv.conn()
    if auth is not None and resp_call(c, b'AUTH', auth) != OK:
        raise Fail('AUTH with the right password failed')
    r = resp_call(c, 'FLUSHALL')
    if r != ('+', b'OK'):
        raise Fail('FLUSHALL answered %r' % (r,))
    c.close()
    return Model(srv.ctl.get('boot'), srv.ctl.get('real'), usecas=srv.opts.get('cas') == 'yes')


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def learn_cas(srv, m, k, conn=None):
    """Make the model know the cas number of a live key."""
    e = m.live(k)
    if e is None or e.cas is not None or not m.usecas:
        return
    c = conn or srv.conn()
    r = resp_call(c, b'MGETS', k)
    m.stat('cmd_get')
    m.stat('get_hits')
    exp = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)])])
    if not same(exp, r):
        raise Fail('MGETS %s answered %s, expected %s' % (short(k), short(r), short(exp)))
    if conn is None:
        c.close()


def cas_arg(m, k, spec):
    """The cas number a spec means: {'cas': 'cur'|'stale'|int}"""
    e = m.live(k)
    cur = e.cas if e is not None and e.cas else 0
    w = spec['cas']
    if w == 'stale':
        old = sorted(x for x in m.casseen.get(k, ()) if x != cur)
        return old[-1] if old else cur + 1000
    return (cur + w) % 2**64
