"""C19: no input bytes crash, hang or corrupt the server."""
from harness import Prop
from multi import *

NUMB = ['-1', '0', '1', '2', '4', '127', '128', '255', '256', '1023', '65535', '65536', '99999', '100000', '100001', '536870911', '536870912', '536870913', '2147483647', '2147483648', '4294967295', '4294967296',
        '9223372036854775807', '-9223372036854775808', '18446744073709551615', '18446744073709551616', '1' * 30, '', ' 1', '1 ', '+1', '0x1', '1.5', 'nan', '-0']
EXTRA = [['KEYS', '*'], ['KEYS', '\\'], ['KEYS', '*' * 40 + 'b'], ['SCAN', '0'], ['SCAN', '18446744073709551615', 'COUNT', '10'], ['SCAN', '5', 'MATCH', '*a*'], ['STATS'], ['VERSION'], ['MONITOR'], ['QUIT'], ['SWEEP', 'ASYNC'], ['PURGE', 'ASYNC'],
         ['SAVE', 'TO', 'f1'], ['LOAD', 'FROM', 'f1'], ['SAVE', 'TO', 'f2', 'FAST'], ['LOAD', 'FROM', 'f2', 'FAST'], ['LOAD', 'FROM', 'nofile'], ['AUTH', 'x'], ['AUTH', 'x', 'y'], ['DEBUG', 'DETACH', '0'], ['DEBUG'], ['ECHO', '\n\r\0'],
         ['BOGUS\r\n', 'x'], ['\0'], ['SELECT', '0'], ['MGETS', 'a', 'b', 'c']]
NOFLUSH = ('FLUSH', 'FLUSHALL', 'FLUSHDB', 'FLUSH_ALL')


def valid(rng, pr, pool):
    """The bytes of one valid request."""
    while True:
        o = op_for(rng, pr, pool, rng.random() < 0.2)
        name = str((o.get('a') or o.get('w') or [''])[0]).upper().strip('\0')
        if name in NOFLUSH or 'flush' in str(o.get('raw')).lower():
            continue
        break
    m = Model(T_BOOT, T_REAL)
    if pr == 'mc':
        return mc_bytes(o, m)
    if pr == 'http':
        return http_bytes(o, m)
    if 'a' in o and rng.random() < 0.2:
        o['a'] = rng.choice(EXTRA)
    a = [b'7' if isinstance(x, dict) and 'cas' in x else B(x) for x in o['a']]
    if pr == 'resp':
        return (rng.random() < 0.4 and sum(map(len, a)) < 5000 and resp_inline(a, rng)) or resp_multi(a)
    toks = [pg_token(x.replace(b'\0', b'0'), rng) for x in a]
    if rng.random() < 0.4:
        return pg_msg(b'Q', pg_query(toks, rng) + b'\0')
    params = []
    for i in range(1, len(a)):
        if rng.random() < 0.5:
            params.append(a[i])
            toks[i] = b'$%d' % len(params)
    n, p = [rng.choice([b'', x, rbytes(rng, rng.randint(1, 30)).encode('latin1').replace(b'\0', b'\x80')]) for x in (b's', b'p')]
    d = pg_D(rng.choice([b'S', b'P']), n) if rng.random() < 0.3 else b''
    return pg_P(n, pg_query(toks, rng)) + pg_B(p, n, params, rng) + d + pg_E(p) + PG_S


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        r = rng.random()
        n = len(b)
        if n == 0:
            break
        i = rng.randrange(n)
        if r < 0.2:
            b[i] ^= 1 << rng.randrange(8)
        elif r < 0.3:
            b[i] = rng.choice([0, 255, 10, 13, 32, 39, 34, 36, 42, 92, 45, 0x7f, 0x80, 59, 58])
        elif r < 0.42:
            del b[i:i + rng.choice([1, 1, 2, 4, 16])]
        elif r < 0.52:
            b[i:i] = rng.choice(TRICKY + ['$9\r\n', '*2\r\n', '\\u00', '\\ud800', "''", "E'", '$1', '$65536', ';', '\0\0\0\x08', '\0\0\0\0', '\xff\xff\xff\xff', 'HTTP/1.1\r\n', ' noreply', 'Content-Length: 5\r\n']).encode('latin1')
        elif r < 0.57:
            j = rng.randrange(n)
            b[i:i] = b[j:j + rng.choice([1, 4, 20, 200])]
        elif r < 0.62:
            del b[i:]
        elif r < 0.9:
            # replace a number
            spots = [x for x in NUMRE.finditer(bytes(b[:4000]))]
            if spots:
                s = rng.choice(spots)
                b[s.start():s.end()] = rng.choice(NUMB).encode()
            elif n >= 4:
                i = rng.randrange(n - 3)
                b[i:i + 4] = struct.pack('>I', rng.choice([0, 1, 3, 4, 5, 7, 8, 100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb]))
        else:
            if n >= 4:
                i = rng.randrange(n - 3)
                b[i:i + 4] = struct.pack('>I', rng.choice([0, 1, 3, 4, 5, 7, 8, 100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb]))
    return bytes(b)


NUMRE = re.compile(rb'-?\d+')


def proto_of(b):
    if b[:1] == b'*':
        return 'resp'
    if b[:1] == b'\0':
        return 'pg'
    i = b.find(b'\n')
    if i < 0:
        return None
    if re.search(rb' HTTP.\d\.\d\r$', b[:i]) or b' HTTP' in b[:i]:
        return 'http'
    l = b[:i + 1].lstrip(b' ')
    return 'resp' if l and 65 <= l[0] <= 90 else 'mc'


def wellformed(pr, b, auth):
    """Parse a whole output stream."""
    p = 0
    if pr == 'http':
        if b and b[:4] == b'HTTP':
            http_parse(b)
        return
    f = {'resp': resp_parse, 'mc': mc_parse, 'pg': pg_parse}[pr]
    if pr == 'pg' and b[:1] in b'NY' and b[1:2] in (b'', b'R', b'N', b'E'):
        while b[p:p + 1] and b[p:p + 1] in b'NY' and not b[p + 1:p + 2] == b'\0':
            p += 1
    while p < len(b):
        r = f(b, p)
        if r is None:
            raise Fail('incomplete %s output: %s' % (pr, short(bytes(b[p:]))))
        p = r[1]


class PROP(Prop):
    ID = 'C19'
    RULE = ('one case sends 1 to 12 byte streams, each a valid request sequence of one protocol damaged by structure-aware mutations (flipped bytes, replaced numbers and lengths, cuts, splices), under random '
            'packetisation; the server is built with AddressSanitizer and UndefinedBehaviorSanitizer, its output must parse, and a second connection must keep seeing its own data; non-trivial when at least one damaged stream was answered')
    ASSUME = ('SAVE and LOAD write under the scratch directory of an unprivileged user', 'DEBUG POPULATE with huge counts is taken at its word and not generated')
    QUICK = (2000, 28)
    THOROUGH = (200000, 500)
    PER = 60

    def config(self, rng):
        c = config(rng)
        if rng.random() < 0.3:
            c['opts']['auth'] = rng.choice(['pw', 'a' * 100, 'p w'])
        return c

    def gen(self, rng, cfg):
        st = []
        for _ in range(rng.randint(1, 12)):
            pr = rng.choice(PROTOS)
            pool = hpool(rng, 3) if pr == 'http' else mcpool(rng, 3) if pr == 'mc' else keypool(rng, 3)
            b = pg_startup() if pr == 'pg' else b''
            if pr == 'pg' and rng.random() < 0.2:
                b = PG_SSL + b
            for _ in range(rng.choice([1, 2, 3, 8]) if pr != 'http' else 1):
                b += valid(rng, pr, pool)
            if rng.random() < 0.08:
                b += valid(rng, rng.choice(PROTOS), pool)
            r = rng.random()
            if r < 0.03:
                b = rbytes(rng, rng.randint(1, 200)).encode('latin1')
            elif r < 0.93:
                keep = len(pg_startup()) if pr == 'pg' and rng.random() < 0.8 else 0
                b = b[:keep] + mutate(rng, b[keep:])
            if b'flush' in b.lower():
                continue
            s = {'b': b.decode('latin1')} if len(b) < 20000 else {'b': b[:20000].decode('latin1')}
            if rng.random() < 0.3:
                s['rd'] = rng.choice([1, 3, 16, 100])
            if rng.random() < 0.15:
                s['abort'] = 1
            if rng.random() < 0.25 and cfg['opts'].get('auth') and pr == 'resp':
                s['auth'] = 1
            st.append(s)
        return {'st': st, 'canary': rbytes(rng, 16), 'val': value(rng, False)}

    LISTS = ('st',)

    def start(self, env, cfg):
        srv = env.server(cfg['opts'], tcp=cfg['tcp'])
        srv.can = None
        return srv

    def canary(self, srv, cfg):
        c = srv.conn()
        if cfg['opts'].get('auth'):
            if resp_call(c, 'AUTH', cfg['opts']['auth']) != ('+', b'OK'):
                raise Fail('AUTH failed')
        return c

    def run(self, env, srv, cfg, case):
        info = {'nt': False, 'feats': set(), 'checks': 0}
        srv.ctl.set('maxrd', 0)
        can = self.canary(srv, cfg)
        resp_call(can, 'FLUSHALL')
        k, v = B(case['canary']), B(case['val'])
        if resp_call(can, b'SET', k, v) != ('+', b'OK'):
            raise Fail('SET of the canary failed')
        for s in case['st']:
            b = B(s['b'])
            pr = proto_of(b)
            c = srv.conn('tcp' if srv.tcp else 'unix')
            pre = 0
            if s.get('auth'):
                c.send(resp_multi([b'AUTH', cfg['opts']['auth'].encode()]))
                if c.read(resp_parse) != ('+', b'OK'):
                    raise Fail('AUTH failed')
                pr = 'resp'
            srv.ctl.set('maxrd', s.get('rd', 0))
            c.send(b)
            if s.get('abort'):
                c.abort()
                info['feats'].add('aborted')
            # the other connection is served meanwhile
            if resp_call(can, b'GET', k) != ('$', v):
                raise Fail('the canary entry changed after %s' % short(b, 400))
            if not s.get('abort'):
                out = b''
                for t in (0.0, 0.001, 0.004):
                    n = len(c.pending(t))
                    if n and t:
                        break
                out = c.pending(0.002)
                # let everything arrive: a complete parse or the end of the stream
                for _ in range(200):
                    try:
                        if pr:
                            wellformed(pr, out, cfg)
                        break
                    except Fail as e:
                        if not str(e).startswith('incomplete') or c.eof:
                            raise Fail('%s, in answer to %s' % (e, short(b, 400)))
                    out = c.pending(0.02)
                else:
                    raise Fail('incomplete %s output %s in answer to %s' % (pr, short(out), short(b, 400)))
                if out:
                    info['nt'] = True
                    info['feats'].add('%s answered' % pr)
                info['checks'] += 1
                c.close()
            srv.ctl.set('maxrd', 0)
        if resp_call(can, b'MGET', k, k + b'?') != ('*', [('$', v), NIL]):
            raise Fail('the canary entry changed')
        r = resp_call(can, b'DBSIZE')
        if r[0] != ':' or not 1 <= r[1] < 10000:
            raise Fail('DBSIZE is %s' % (r,))
        can.close()
        return info
