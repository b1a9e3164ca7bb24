"""Sessions whose replies depend on nothing that other clients do: private keys, own errors.

A session is a list of byte streams, one per connection, each of which the server ends by closing.
The same sessions are run one after the other and then all at once; neither the bytes received nor the sum of
the statistics may differ.
"""
import random, threading
from pogo import Fail
from multi import *

KINDS = ('resp', 'resp', 'inline', 'mc', 'mc', 'pg', 'http', 'errs')


def keys(tag):
    return [tag + b'a', tag + b'b' * 30, tag + b'c' * 200, tag + b'n']


def val(rng, tag):
    return tag * rng.choice([1, 1, 3, 20, 100]) if rng.random() < 0.75 else b'%d' % rng.choice([0, 7, 12345, 2**40])


def resp_cmd(rng, tag):
    ks = keys(tag)
    k, v = rng.choice(ks), val(rng, tag)
    r = rng.random()
    if r < 0.3:
        return [rng.choice([b'GET', b'GET', b'TTL', b'PTTL', b'EXISTS', b'TOUCH']), k]
    if r < 0.6:
        return rng.choice([[b'SET', k, v], [b'SET', k, v, b'GET'], [b'SET', k, v, b'NX'], [b'SET', k, v, b'EX', b'500', b'FLAGS', b'77'], [b'SETEX', k, b'300', v], [b'APPEND', k, tag], [b'PREPEND', k, tag], [b'DEL', k], [b'DEL', ks[0], ks[1], ks[2]]])
    if r < 0.75:
        return rng.choice([[b'INCR', ks[3]], [b'INCRBY', k, b'%d' % rng.randrange(1000)], [b'UDECRBY', k, b'3'], [b'DECR', ks[3]], [b'MGET'] + ks, [b'EXPIRE', k, b'100'], [b'EXISTS', ks[0], ks[1], b'nokey']])
    return rng.choice([[b'ECHO', tag * 30], [b'PING', tag], [b'NOSUCH' + tag, b'x'], [b'GET'], [b'SET', k], [b'SET', k, v, b'EX', tag], [b'INCRBY', k, tag], [b'EXPIRE', k, tag], [b'SCAN', tag], [b'SELECT', b'1'], [b'AUTH', tag], [b'KEYS', ks[0]],
                       [b'SCAN', b'0', b'TYPE', tag], [b'DEBUG', tag], [b'FLUSHALL', tag], [b'SAVE', tag, tag], [b'SET', k, v, b'XX'], [b'SET', k, v, tag]])


def resp(rng, tag, n):
    return [b''.join(resp_multi(resp_cmd(rng, tag)) for _ in range(n)) + resp_multi([b'QUIT'])]


def inline(rng, tag, n):
    out = b''
    for _ in range(n):
        q = rng.choice([b'"', b"'", b''])
        out += b' '.join(q + x + q for x in resp_cmd(rng, tag)) + b'\r\n'
    # starts with a capital letter, as it must
    return [b'PING\r\n' + out + b'QUIT\r\n']


def mc(rng, tag, n):
    out = b''
    ks = keys(tag)
    for _ in range(n):
        k, v = rng.choice(ks), val(rng, tag)
        r = rng.random()
        if r < 0.3:
            out += b'%s %s %d %d %d\r\n%s\r\n' % (rng.choice([b'set', b'set', b'add', b'replace', b'append', b'prepend']), k, rng.choice([0, 0, 5, 4294967295]), rng.choice([0, 0, 100]), len(v), v)
        elif r < 0.5:
            out += b'get ' + b' '.join(rng.sample(ks, rng.randint(1, 4))) + b'\r\n'
        elif r < 0.75:
            out += rng.choice([b'delete %s\r\n' % k, b'incr %s 3\r\n' % ks[3], b'incr %s 1\r\n' % k, b'decr %s 5\r\n' % k, b'touch %s 200\r\n' % k, b'set %s 0 0 1\r\n5\r\n' % ks[3], b'incr %s %s\r\n' % (k, tag)])
        else:
            out += rng.choice([b'nosuch %s\r\n' % tag, b'set %s x 0 5\r\n' % k, b'get\r\n', b'get %s\r\n' % (b'q' * 251), b'set %s 0 0\r\n' % k, b'delete %s %s\r\n' % (k, tag), b'touch %s\r\n' % k, b'add %s 0 0 2\r\nabXY' % k, b'\r\n', b'version\r\n'])
    return [b'version\r\n' + out + b'quit\r\n']


def pg(rng, tag, n):
    out = pg_startup()
    for _ in range(n):
        a = resp_cmd(rng, tag)
        while a[0] in (b'AUTH', b'MONITOR', b'QUIT'):
            a = resp_cmd(rng, tag)
        if rng.random() < 0.6:
            out += pg_msg(b'Q', b' '.join(b"'" + x + b"'" for x in a) + b'\0')
        elif rng.random() < 0.8:
            out += pg_P(b'', a[0] + b''.join(b' $%d' % (i + 1) for i in range(len(a) - 1))) + (pg_D(b'S', b'') if rng.random() < 0.3 else b'') + pg_B(b'', b'', a[1:], rng) + pg_E(b'') + PG_S
        else:
            out += pg_msg(b'Q', rng.choice([b"get 'x" + tag, b'get $1', b'', b'bogus' + tag]) + b'\0')
    return [out + pg_msg(b'X')]


def http(rng, tag, n):
    out = []
    for _ in range(max(1, n // 10)):
        k, v = rng.choice(keys(tag)), val(rng, tag)
        out.append(rng.choice([b'GET /%s HTTP/1.1\r\n\r\n' % k, b'GET /%s HTTP/1.1\r\n\r\n' % k, b'PUT /%s HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s' % (k, len(v), v), b'PUT /%s?ttl=100&nx HTTP/1.0\r\nContent-Length: %d\r\n\r\n%s' % (k, len(v), v),
                               b'DELETE /%s HTTP/1.1\r\n\r\n' % k, b'POST /%s HTTP/1.1\r\n\r\n' % k, b'GET /@stats HTTP/1.1\r\n\r\n', b'GET /%s HTTP/1.1\r\nAuthorization: Bearer %s\r\n\r\n' % (k, tag), b'PUT /%s?ex=%s HTTP/1.1\r\nContent-Length: 0\r\n\r\n' % (k, tag)]))
    return out


def errs(rng, tag, n):
    out = []
    for _ in range(max(1, n // 10)):
        good = b''.join(resp_multi([b'ECHO', tag * rng.choice([1, 40])]) for _ in range(rng.choice([0, 1, 5])))
        out.append(good + rng.choice([b'*x\r\n', b'*1\r\n$x\r\n', b'*1\r\n#', b'*1\r\n' + tag[:1], b'GET "' + tag + b'\r\n', b'GET "a"b\r\n', b'*1\r\n$-5\r\n', b'*99999999999\r\n']))
    return out


def session(rng, tag, n):
    return {'resp': resp, 'inline': inline, 'mc': mc, 'pg': pg, 'http': http, 'errs': errs}[rng.choice(KINDS)](rng, tag, n)


def tagof(i):
    return bytes([97 + i]) + b'%02d' % (i * 7 + 10)


def sessions(seed, n, length):
    rng = random.Random(seed)
    return [session(rng, tagof(i), rng.choice([length, length, max(1, length // 5)])) for i in range(n)]


def play(srv, s, out, kind='unix'):
    try:
        for b in s:
            c = srv.conn(kind)
            try:
                c.send(b)
                out.append(bytes(c.read_eof()))
            finally:
                c.close()
    except BaseException as e:
        out.append(e)


def clean(srv, side, n):
    for i in range(n):
        if resp_call(side, b'DEL', *keys(tagof(i)))[0] != ':':
            raise Fail('DEL failed')


def alone(srv, ss):
    l = []
    for s in ss:
        out = []
        play(srv, s, out)
        if out and isinstance(out[-1], BaseException):
            raise out[-1]
        l.append(out)
    return l


def together(srv, ss):
    outs = [[] for _ in ss]
    ths = [threading.Thread(target=play, args=(srv, s, o)) for s, o in zip(ss, outs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for o in outs:
        if o and isinstance(o[-1], BaseException):
            raise o[-1]
    return outs


def compare(ss, a, b):
    """Number of bytes compared."""
    n = 0
    for i, (x, y) in enumerate(zip(a, b)):
        for j, (p, q) in enumerate(zip(x, y)):
            if p != q:
                d = next((k for k in range(min(len(p), len(q))) if p[k] != q[k]), min(len(p), len(q)))
                raise Fail('client %d (%s) received %r alone and %r beside others, at byte %d of its replies' % (i, short(ss[i][j][:60]), p[max(0, d - 40):d + 120], q[max(0, d - 40):d + 120], d))
            n += len(p)
    return n
