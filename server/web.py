"""HTTP requests, their bytes and their model."""
from gen import *

HKEY = ''.join(chr(c) for c in range(33, 127) if chr(c) not in '%+@$?=')
KCHARS = HKEY.replace('/', '') + '/'


def hkey(rng):
    r = rng.random()
    if r < 0.6:
        return alpha_str(rng, rng.randint(1, 8), 'abcXYZ019_:-')
    if r < 0.7:
        return alpha_str(rng, rng.choice([250, 249, 128]), 'abcdef')
    return alpha_str(rng, rng.randint(1, 30), KCHARS)


def hpool(rng, n=None):
    n = n or rng.randint(3, 6)
    out = []
    while len(out) < n:
        k = hkey(rng) if not out or rng.random() < 0.7 else (rng.choice(out) + rng.choice('ab'))[:250]
        if k not in out:
            out.append(k)
    return out


HEADERS = [('Host', 'localhost'), ('Accept', '*/*'), ('User-Agent', 'curl/8.1'), ('X-A', 'b:c d'), ('X-Empty', ''), ('Accept-Encoding', 'gzip, deflate'), ('Connection', 'keep-alive'), ('Connection', 'close'),
           ('connection', 'Keep-Alive'), ('Content-Type', 'application/octet-stream'), ('X-Long', 'y' * 700), ('Cookie', 'a=b; c=d'), ('Content-Length-X', '99'), ('X-Content-Length', '7'), ('Accept', 'text/html'), ('Expect', 'x')]


def http_op(rng, pool, big=True):
    k = rng.choice(pool)
    r = rng.random()
    h = [list(rng.choice(HEADERS)) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    op = {'k': k, 'h': h, 'v': rng.choice(['1.1', '1.1', '1.0']), 'q': []}
    if r < 0.5:
        op['m'] = 'PUT'
        op['body'] = value(rng, big)
        if rng.random() < 0.4:
            op['q'].append([rng.choice(['ttl', 'ex']), rng.choice(['1', '2', '10', '60', '100000', '9223372036854775807', '0', '-1', 'x', ''])])
        x = rng.random()
        if x < 0.2:
            op['q'].append(['nx', rng.choice([None, '', '1'])])
        elif x < 0.4:
            op['q'].append(['xx', rng.choice([None, '', '1'])])
        elif x < 0.45:
            op['q'] += [['nx', None], ['xx', None]]
        elif x < 0.55:
            op['q'].append(['cas', rng.choice([{'cas': 0}, {'cas': 0}, {'cas': 1}, {'cas': 'stale'}, 'x'])])
        if rng.random() < 0.3:
            op['q'].append(['flags', rng.choice(['0', '1', '77', '4294967295', 'x', '-1'])])
        if rng.random() < 0.15:
            op['q'].append([rng.choice(['foo', 'NX', 'nxx', 'x', 'tt', '']), rng.choice([None, '1'])])
        rng.shuffle(op['q'])
        op['cl'] = rng.choice(['Content-Length', 'content-length', 'CONTENT-LENGTH'])
        op['clpos'] = rng.randint(0, len(h))
    elif r < 0.75:
        op['m'] = 'GET'
        if rng.random() < 0.1:
            op['q'].append(['foo', '1'])
    elif r < 0.87:
        op['m'] = 'DELETE'
    else:
        return {'raw': rng.choice(http_bad(rng, k))}
    return op


def http_bad(rng, k):
    e = ' HTTP/1.1\r\n\r\n'
    c = ' HTTP/1.1\r\nContent-Length: 1\r\n\r\nz'
    bk = rng.choice(['%41', 'a+b', '@a', 'a$', 'a=b', 'q' * 251, '\x7f', 'a\x01', '\xe9', ''])
    return ['GET /%s%s' % (bk or '@', e), 'PUT /%s%s' % (bk, c), 'DELETE /%s%s' % (bk, e), 'HEAD /%s%s' % (k, e), 'POST /%s%s' % (k, c), 'put /%s%s' % (k, c), 'PATCH /%s%s' % (k, c), 'OPTIONS *' + e,
            'GET %s%s' % (k, e), 'PUT http://x/%s%s' % (k, c), 'PUT /%s HTTP/1.1\r\nContent-Length: x\r\n\r\nz' % k, 'PUT /%s HTTP/1.1\r\nContent-Length: -1\r\n\r\nz' % k,
            'PUT /%s HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nz' % k, 'PUT /%s HTTP/1.1\r\nContent-Length: 999999999\r\n\r\nz' % k, 'PUT /%s HTTP/1.1\r\nA: b\nContent-Length: 1\r\n\r\nz' % k,
            'PUT /%s HTTP/9.9\r\nContent-Length: 1\r\n\r\nz' % k, 'PUT /%s  HTTP/1.1\r\nContent-Length: 1\r\n\r\nz' % k, 'DELETE /%s x HTTP/1.1\r\n\r\n' % k, ' GET /%s%s' % (k, e), 'GET /@stats' + e, 'PUT /@x' + c,
            'DELETE /' + e, 'PUT /' + c, 'PUT /?nx' + c, 'DELETE /@flushall' + e, 'PUT /%s HTTP/1.1\r\nA: b\r\n\rz\r\n\r\n' % k]


def http_bytes(op, m):
    if 'raw' in op:
        return B(op['raw'])
    q = []
    for n, v in op['q']:
        if isinstance(v, dict):
            v = '%d' % cas_arg(m, B(op['k']), v)
        q.append(n if v is None else n + '=' + v)
    uri = '/' + op['k'] + ('?' + '&'.join(q) if q else '')
    h = [(a, b) for a, b in op['h']]
    body = b''
    if 'body' in op:
        body = B(op['body'])
        h.insert(op.get('clpos', 0), (op['cl'], '%d' % len(body)))
    return ('%s %s HTTP/%s\r\n' % (op['m'], uri, op['v'])).encode('latin1') + b''.join(('%s: %s\r\n' % x).encode('latin1') for x in h) + b'\r\n' + body


def http_model(m, op):
    try:
        return http_model_(m, op)
    except NoMem:
        return 'nomem'


def http_model_(m, op):
    """(status, body), or 'err'."""
    if 'raw' in op:
        return 'err'
    k = B(op['k'])
    if op['m'] == 'GET':
        m.stat('cmd_get')
        e = m.live(k)
        m.hit(e)
        return (200, e.val) if e else (404, b'Not Found\r\n')
    if op['m'] == 'DELETE':
        ok = m.rem(k)
        m.stat('delete_hits' if ok else 'delete_misses')
        return (200, b'Deleted\r\n') if ok else (404, b'Not Found\r\n')
    q = {}
    for n, v in op['q']:
        if n in ('ttl', 'ex'):
            q['ex'] = v
        elif n in ('nx', 'xx'):
            q[n] = True
        elif n in ('flags', 'cas'):
            q[n] = v
    exp, flags, cas = 0, 0, None
    if 'cas' in q:
        if not isinstance(q['cas'], dict):
            return 'err'
        cas = cas_arg(m, k, q['cas'])
    if 'ex' in q:
        n = num(q['ex'].encode(), I64MIN, I64MAX)
        if n is None or n <= 0:
            return 'err'
        exp = m.after(m.clamp(n * SEC))
    if 'flags' in q:
        n = num(q['flags'].encode(), 0, U64MAX)
        if n is None:
            return 'err'
        flags = n & 0xffffffff
    if 'nx' in q and 'xx' in q:
        return 'err'
    r, old = m.store(k, B(op['body']), exp, 'nx' in q, 'xx' in q, False, flags, cas)
    return (200, b'Stored\r\n') if r == 'stored' else (404, b'Not Found\r\n')


def http_same(exp, got):
    status, hdrs, body = got
    if exp == 'nomem':
        return 500 <= status <= 599
    if exp == 'err':
        return 400 <= status <= 599
    return (status, body) == exp


def http_call(srv, data, kind='unix', conn=None):
    c = conn or srv.conn(kind)
    try:
        c.send(data)
        d = c.read_eof()
        if not d:
            srv.check_soon()
            raise Fail('no response to %s' % short(data))
        return http_parse(d)
    finally:
        c.close()
