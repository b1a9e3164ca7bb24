"""Memcache text protocol: operations, their bytes and their model."""
from gen import *

DAY30 = 30 * 86400
MCBYTES = ''.join(chr(c) for c in range(33, 256) if c != 0x7f)
STORES = ('set', 'add', 'replace', 'append', 'prepend', 'cas')


def mckey(rng):
    r = rng.random()
    if r < 0.6:
        return alpha_str(rng, rng.randint(1, 8), 'abcXYZ019_:-')
    if r < 0.7:
        return alpha_str(rng, rng.choice([250, 249, 128, 127]), 'abcdef')
    return alpha_str(rng, rng.randint(1, 30), MCBYTES)


def mcpool(rng, n=None):
    n = n or rng.randint(3, 7)
    out = []
    while len(out) < n:
        k = mckey(rng) if not out or rng.random() < 0.7 else (rng.choice(out) + rng.choice('ab'))[:250]
        if k not in out and k != 'noreply':
            out.append(k)
    return out


def mcexp(rng):
    r = rng.random()
    if r < 0.6:
        return '0'
    if r < 0.8:
        return rng.choice(['1', '2', '10', '60', '3600', str(DAY30), str(DAY30 - 1)])
    if r < 0.88:
        return rng.choice(['-1', '-100', '-9223372036854775808', '00', '-0', '000', '-01', '0060'])
    now = T_REAL // SEC
    return str(rng.choice([DAY30 + 1, now - 1, now, now + 1, now + 2, now + 10, now + 5000, now + DAY30 * 2, 9223372036, 9223372036854775807, 4102444800]))


def mc_op(rng, pool, big=True):
    k = lambda: rng.choice(pool)
    r = rng.random()
    nr = {'nr': 1} if rng.random() < 0.2 else {}
    if r < 0.42:
        c = rng.choice(['set', 'set', 'set', 'add', 'replace', 'append', 'prepend', 'cas'])
        fl = rng.choice(['0', '0', '0', '1', '5', '65535', '4294967295', '2147483648', '00', '007'])
        op = {'w': [c, k(), fl, mcexp(rng)], 'd': value(rng, big)}
        if c == 'cas':
            op['cas'] = rng.choice([0, 0, 0, 1, -1, 'stale'])
        op.update(nr)
        return op
    if r < 0.62:
        return {'w': [rng.choice(['get', 'get', 'gets'])] + [k() for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]}
    if r < 0.69:
        return dict({'w': ['delete', k()]}, **nr)
    if r < 0.8:
        return dict({'w': [rng.choice(['incr', 'decr']), k(), rng.choice([x for x in NUMS] + ['x', '1x', '0'])]}, **nr)
    if r < 0.86:
        return dict({'w': ['touch', k(), mcexp(rng)]}, **nr)
    if r < 0.875:
        return dict({'w': ['flush_all'] + (['0'] if rng.random() < 0.3 else [])}, **nr)
    if r < 0.9:
        return {'w': ['version']}
    if r < 0.91:
        return {'quit': 1}
    return {'raw': rng.choice(mc_bad(rng, pool))}


def mc_bad(rng, pool):
    """Malformed requests, each answered with exactly one error line."""
    k = rng.choice(pool)
    return ['\r\n', '\n', 'bogus\r\n', 'get\r\n', 'gets\r\n', 'delete\r\n', 'incr %s\r\n' % k, 'incr\r\n', 'touch %s\r\n' % k, 'set %s 0 0\r\n' % k, 'set\r\n', 'add %s 0 0 1 2 3\r\n' % k,
            'set %s x 0 1\r\n' % k, 'set %s 0 x 1\r\n' % k, 'set %s 0 0 x\r\n' % k, 'set %s 0 0 -1\r\n' % k, 'set %s -1 0 1\r\n' % k, 'set %s 0 0 99999999999999999999\r\n' % k,
            'set %s 1 0 600000000\r\n' % k, 'set %s 0 0 600000000\r\n' % k, 'cas %s 0 0 1 x\r\n' % k, 'cas %s 0 0 1\r\n' % k, 'get %s\r\n' % ('q' * 251), 'set %s 0 0 1\r\n' % ('q' * 251),
            'get a\x01b\r\n', 'get a\x7fb\r\n', 'get a\tb\r\n', 'delete a\x1f\r\n', 'incr %s 1 2\r\n' % ('q' * 251), 'delete %s 0 0\r\n' % k, 'flush_all 1 2\r\n', 'flush_all x\r\n',
            'GET %s\r\n' % k, 'Set %s 0 0 1\r\n' % k, 'mget %s\r\n' % k, 'keys *\r\n', 'save\r\n', 'auth x\r\n', 'x' * 2000 + '\r\n', '\xff\xfe\r\n', '\0\r\n', '%s %s\r\n' % ('bo', k),
            'set %s 0 0 3\r\nabcXY' % k, 'add %s 5 0 2\r\nab\n\n' % k, 'set %s 0 0 0\r\n\r\r' % k, 'cas %s 0 0 1 7\r\nab\r' % k, 'gets %s %s\r\n' % (k, 'z' * 251), 'get %s \x02\r\n' % k,
            'touch %s x\r\n' % k, 'incr %s 1 2\r\n' % k, 'verbosityx 1\r\n', 'dbsize\r\n', 'ttl %s\r\n' % k]


def mc_bytes(op, m):
    if 'raw' in op:
        return B(op['raw'])
    if op.get('quit'):
        return b'quit\r\n'
    w = [B(x) for x in op['w']]
    d = B(op['d']) if 'd' in op else None
    if d is not None:
        w.append(b'%d' % len(d))
    if 'cas' in op:
        w.append(b'%d' % cas_arg(m, w[1], op))
    if op.get('nr'):
        w.append(b'noreply')
    eol = b'\n' if op.get('lf') else b'\r\n'
    out = b' '.join(w) + eol
    if d is not None:
        out += d + b'\r\n'
    return out


def mc_deadline(m, x):
    """-> deadline in the model's clock (0 never) for an exptime."""
    n = int(x)
    if n == 0:
        return 0
    if n < 0:
        return m.boot
    if n > DAY30:
        u = m.clamp(n * SEC)
        return m.boot if u <= m.real else m.at(u)
    return m.after(n * SEC)


ERRL = ('err',)
BADDELTA = ('line', b'CLIENT_ERROR invalid numeric delta argument')
NONNUM = ('line', b'CLIENT_ERROR cannot increment or decrement non-numeric value')


def L(s):
    return ('line', s.encode())


def mc_model(m, op):
    try:
        return mc_model_(m, op)
    except NoMem:
        return ('nomem',)


def mc_model_(m, op):
    """The reply, without regard to noreply."""
    if 'raw' in op:
        return ERRL
    w = [B(x) for x in op['w']]
    c = op['w'][0]
    k = w[1] if len(w) > 1 else None
    if c in STORES:
        d = B(op['d'])
        if c in ('append', 'prepend'):
            e = m.live(k)
            if e is None:
                return L('NOT_STORED')
            m.put(k, d + e.val if c == 'prepend' else e.val + d, e.flags, e.exp)
            return L('STORED')
        kw = {}
        if c == 'cas':
            kw['cas'] = cas_arg(m, k, op)
        fl = int(w[2]) & 0xffffffff
        r, old = m.store(k, d, mc_deadline(m, w[3]), c == 'add', c == 'replace', False, fl, kw.get('cas'))
        if r == 'stored':
            return L('STORED')
        if c == 'cas':
            return L('EXISTS' if r == 'exists' else 'NOT_FOUND')
        return L('NOT_STORED')
    if c in ('get', 'gets'):
        out = []
        for x in w[1:]:
            m.stat('cmd_get')
            e = m.live(x)
            m.hit(e)
            if e is not None:
                out.append((x, e.flags, CasOf(m, x, e) if c == 'gets' else None, e.val))
        return ('values', out)
    if c == 'delete':
        ok = m.rem(k)
        m.stat('delete_hits' if ok else 'delete_misses')
        return L('DELETED' if ok else 'NOT_FOUND')
    if c in ('incr', 'decr'):
        n = num(w[2], 0, U64MAX)
        if n is None:
            return BADDELTA
        e = m.live(k)
        if e is None:
            m.stat(c + '_misses')
            return L('NOT_FOUND')
        cur = num(e.val, 0, U64MAX)
        if cur is None:
            return NONNUM
        r = (cur + n) % 2**64 if c == 'incr' else max(0, cur - n)
        m.put(k, b'%d' % r, e.flags, e.exp)
        m.stat(c + '_hits')
        return ('line', b'%d' % r)
    if c == 'touch':
        m.stat('cmd_touch')
        e = m.live(k)
        if e is None:
            m.stat('touch_misses')
            return L('NOT_FOUND')
        m.stat('touch_hits')
        m.setexp(k, e, mc_deadline(m, w[2]))
        return L('TOUCHED')
    if c == 'flush_all':
        m.stat('cmd_flush')
        m.clear()
        return L('OK')
    if c == 'version':
        return ('version',)
    raise AssertionError(c)


def mc_same(exp, got):
    if exp == ERRL:
        return got[0] == 'line' and (got[1] == b'ERROR' or got[1].startswith((b'CLIENT_ERROR ', b'SERVER_ERROR ')))
    if exp == ('nomem',):
        return got[0] == 'line' and got[1].startswith(b'SERVER_ERROR ')
    if exp == ('version',):
        return got[0] == 'line' and got[1].startswith(b'VERSION ')
    if exp[0] == 'values' and got[0] == 'values':
        if len(exp[1]) != len(got[1]):
            return False
        for e, g in zip(exp[1], got[1]):
            if e[0] != g[0] or e[1] != g[1] or e[3] != g[3]:
                return False
            if (e[2] is None) != (g[2] is None) or e[2] is not None and not e[2].check(g[2]):
                return False
        return True
    return exp == got
