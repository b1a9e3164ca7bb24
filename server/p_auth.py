"""C20: with a password set nothing works before authenticating."""
from harness import Prop
from multi import *
import p_bytes

PWCH = ''.join(chr(c) for c in range(33, 127))
SECRET = b'SECRET-'


def wrong(rng, pw):
    while True:
        r = rng.choice([pw[:-1], pw + 'x', pw[1:], 'x' + pw, pw.swapcase(), '', pw + '\0', '\0', pw + ' ', ' ' + pw, pw[:-1] + chr(ord(pw[-1]) ^ 1), chr(ord(pw[0]) ^ 1) + pw[1:], pw + pw, pw[::-1], 'default', 'a' * 1000,
                        pw[:-1] + '\0', '*', pw[:len(pw) // 2], pw[0], pw.rstrip('=') or 'x', pw.split('=')[0] or 'x', pw.split(' ')[0], alpha_str(rng, len(pw), PWCH), pw + '\r', pw + '\n'])
        if r != pw:
            return r


def req(rng, pool):
    r = rng.random()
    if r < 0.2:
        return [x for x in rng.choice(p_bytes.EXTRA) if x != 'QUIT'] or ['PING']
    if r < 0.3:
        return [rng.choice(['GET', 'DEL', 'TTL', 'INCR', 'EXISTS']), 'SECRET-KEY']
    while True:
        a = p_resp.command(rng, pool)
        if a and not any(isinstance(x, dict) and 'cas' in x for x in a):
            return a


class PROP(Prop):
    ID = 'C20'
    RULE = ('one case is a history of 5 to 40 requests against a server with a password: unauthenticated requests and authentication attempts (missing, wrong, prefix, extended, re-cased, with NUL) in all four protocols, pipelined '
            'with later requests, damaged byte streams, and authenticated requests in between; after every few requests an authenticated client compares all keys with the model; non-trivial when at least three requests were refused and at least one connection authenticated')
    ASSUME = ('the memcache text protocol of this server has no way to authenticate: every command on such a connection is refused', 'HTTP parse errors and the help page need no password')
    QUICK = (1400, 32)
    THOROUGH = (20000, 780)

    def config(self, rng):
        c = config(rng)
        c['opts']['auth'] = rng.choice(['pw', 'x', alpha_str(rng, rng.randint(2, 12), PWCH), alpha_str(rng, rng.randint(2, 12), 'abAB01'), 'a' * 100, 'aaaaaaab', 'auth', 'p w', 'c2VzYW1l==', 'a=b', alpha_str(rng, rng.randint(3, 8), 'a=')])
        return c

    def start(self, env, cfg):
        return env.server(cfg['opts'], tcp=cfg['tcp'])

    def gen(self, rng, cfg):
        pw = cfg['opts']['auth']
        pool = [k for k in hpool(rng, rng.randint(2, 4)) if k != 'noreply']
        ops = []
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            if r < 0.2:
                ops.append(dict(op_for(rng, rng.choice(['resp', 'http', 'pg']), pool, False), k='in', **{}) if False else {'k': 'in', 'o': op_for(rng, rng.choice(['resp', 'http', 'pg']), pool, False)})
            elif r < 0.5:
                cmds = []
                for _ in range(rng.choice([1, 1, 2, 4, 8])):
                    x = rng.random()
                    if x < 0.25:
                        cmds.append([word(rng, 'AUTH'), wrong(rng, pw)])
                    elif x < 0.33:
                        cmds.append(rng.choice([['AUTH'], ['AUTH', 'default', pw], ['AUTH', pw, pw], ['AUTH', pw, 'x', 'y'], ['AUTHX', pw], ['AUT', pw], ['', pw], ['AUTH\0', pw]]))
                    elif x < 0.42:
                        cmds.append([word(rng, 'AUTH'), pw])
                    else:
                        cmds.append(req(rng, pool))
                ops.append({'k': 'r', 'i': rng.randrange(3), 'c': cmds, 'il': rng.randrange(1000) if rng.random() < 0.3 else None, 'new': int(rng.random() < 0.3)})
            elif r < 0.6:
                o = mc_op(rng, pool, False)
                if 'cas' in o or o.get('quit'):
                    o = {'w': ['get', 'SECRET-KEY']}
                ops.append({'k': 'm', 'o': o})
            elif r < 0.76:
                o = http_op(rng, pool, False)
                if 'raw' in o or any(isinstance(v, dict) for _, v in o['q']):
                    o = {'k': 'SECRET-KEY', 'h': [], 'v': '1.1', 'q': [], 'm': rng.choice(['GET', 'DELETE'])}
                w = wrong(rng, pw)
                cred = rng.choice([None, None, 'Bearer ' + w, 'Basic ' + pw, 'bearer ' + pw, pw, 'Bearer' + pw, 'Bearer  x', '', 'Bearer ', 'right'])
                if cred and (cred != cred.rstrip() or '\n' in cred or '\r' in cred):
                    cred = None
                q = rng.choice([None, None, None, 'right', w])
                if q is not None and (any(c in q for c in ' &?#%+\r\n\0') or any(c in pw for c in ' &?#%+')):
                    q = None
                ops.append({'k': 'h', 'o': o, 'cred': cred, 'q': q})
            elif r < 0.9:
                kind = rng.choice(['wrong', 'wrong', 'noask', 'ext', 'early', 'right', 'two'])
                ops.append({'k': 'p', 'kind': kind, 'w': wrong(rng, pw).replace('\0', '0') + ('' if kind != 'wrong' else ''), 'a': req(rng, pool), 's': rng.randrange(1 << 30), 'ssl': int(rng.random() < 0.2)})
            elif r < 0.95:
                pr = rng.choice(PROTOS)
                b = p_bytes.valid(rng, pr, pool)
                for _ in range(rng.randint(0, 3)):
                    b += p_bytes.valid(rng, pr, pool)
                b = (pg_startup() if pr == 'pg' else b'') + p_bytes.mutate(rng, b)
                ops.append({'k': 'x', 'b': b[:20000].decode('latin1')})
            else:
                ops.append({'k': 'look'})
        return {'pool': pool, 'ops': ops, 'sec': alpha_str(rng, 12, 'abcdef0123456789')}

    def run(self, env, srv, cfg, case):
        pw = cfg['opts']['auth'].encode('latin1')
        m = reset(srv, pw)
        cl = Clients(srv, m, pw)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        refused = unlocked = 0
        feats = info['feats']
        secret = SECRET + case['sec'].encode()
        for k in (b'SECRET-KEY', b'SECRET-KEY2'):
            a = [b'SET', k, secret]
            if resp_call(cl.resp(0), *a) != m.execute(a):
                raise Fail('SET failed')
        rc, ra = {}, {}
        mc = None
        extra = []

        def leak(d, what):
            if SECRET in d:
                raise Fail('stored data was shown to an unauthenticated client: %s for %s' % (short(d), short(what)))

        def look():
            for k in [B(x) for x in case['pool']] + [b'SECRET-KEY', b'SECRET-KEY2']:
                cl.look(k, ('resp',))
            m.purge()
            r = resp_call(cl.side(), b'KEYS', b'*')
            if r[0] != '*' or sorted(r[1]) != sorted(('$', k) for k in m.d):
                raise Fail('KEYS * is %s, expected %s' % (short(r), short(list(m.d))))
            info['checks'] += 1

        def shut(c, data, what):
            c.send(data)
            try:
                c.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            d = c.read_eof()
            leak(d, what)
            return d

        try:
            for o in case['ops']:
                info['checks'] += 1
                kind = o['k']
                if kind == 'in':
                    cl.do(o['o'])
                elif kind == 'look':
                    look()
                elif kind == 'r':
                    i = o['i']
                    if i not in rc or o['new']:
                        if i in rc:
                            rc[i].close()
                        rc[i], ra[i] = srv.conn(cl.kinds[i % 2]), False
                    c = rc[i]
                    out, exps = b'', []
                    for a in o['c']:
                        a = [B(x) for x in a]
                        n = a[0].upper() if a else b''
                        if n == b'AUTH':
                            if len(a) == 2 and a[1] == pw:
                                exp = OK
                                ra[i] = True
                                unlocked += 1
                            else:
                                exp = ERR
                                refused += 1
                        elif not ra[i]:
                            exp = ERR
                            refused += 1
                        elif n in (b'AUTHX', b'AUT', b'', b'AUTH\0'):
                            exp = ERR
                        elif n in (b'SCAN', b'STATS', b'VERSION', b'MONITOR', b'SAVE', b'LOAD', b'DEBUG', b'SWEEP', b'PURGE', b'BOGUS\r\n', b'\0', b'QUIT'):
                            continue
                        else:
                            exp = m.execute(a)
                        enc = None
                        if o['il'] is not None:
                            enc = resp_inline(a, random.Random(o['il']))
                        if exp == ERR and n == b'AUTH':
                            feats.add('wrong password')
                        out += enc or resp_multi(a)
                        exps.append((a, exp))
                    c.send(out)
                    for a, exp in exps:
                        got = c.read(resp_parse)
                        if not same(exp, got):
                            raise Fail('%s on a RESP connection was answered %s, expected %s' % (short(a), short(got), short(exp)))
                        if got[0] == '-':
                            leak(got[1], a)
                elif kind == 'm':
                    if mc is None:
                        mc = srv.conn(cl.kinds[0])
                        extra.append(mc)
                        mc.send(b'get a\r\n')
                        mc.read(mc_parse)
                    b = mc_bytes(o['o'], m)
                    mc.send(b + (b'version\r\n' if o['o'].get('nr') else b''))
                    got = mc.read(mc_parse)
                    if not mc_same(ERRL, got):
                        raise Fail('memcache %s without a password was answered %s' % (short(b), short(got)))
                    leak(repr(got).encode(), b)
                    refused += 1
                    feats.add('memcache refused')
                elif kind == 'h':
                    h = dict(o['o'])
                    h['h'] = [list(x) for x in h['h']]
                    h['q'] = [list(x) for x in h['q']]
                    good = False
                    if o['cred'] is not None:
                        v = 'Bearer ' + pw.decode('latin1') if o['cred'] == 'right' else o['cred']
                        h['h'].insert(len(h['h']) // 2, ['Authorization', v])
                        good = v == 'Bearer ' + pw.decode('latin1')
                        if 'clpos' in h:
                            h['clpos'] = 0
                    if o['q'] is not None:
                        v = pw.decode('latin1') if o['q'] == 'right' else o['q']
                        h['q'].insert(len(h['q']) // 2, ['auth', v])
                        if v:
                            good = v.encode('latin1') == pw
                    b = http_bytes(h, m)
                    got = http_call(srv, b, cl.kinds[refused % 2])
                    if good:
                        exp = http_model(m, h)
                        unlocked += 1
                        feats.add('http with password')
                        if not http_same(exp, got):
                            raise Fail('HTTP %s answered %s, expected %s' % (short(b), short(got), short(exp)))
                    else:
                        refused += 1
                        feats.add('http refused')
                        if got[0] != 401:
                            raise Fail('HTTP %s without the right password answered %s' % (short(b, 400), short(got)))
                        leak(repr(got).encode(), b)
                elif kind == 'p':
                    rng = random.Random(o['s'])
                    a = [B(x).replace(b'\0', b'0') for x in o['a']]
                    toks = [pg_token(x, rng) for x in a]
                    q = pg_msg(b'Q', pg_query(toks, rng) + b'\0')
                    kd = o['kind']
                    if kd == 'right':
                        c = PgConn(srv, cl.kinds[1], ssl=bool(o['ssl']), auth=pw)
                        extra.append(c)
                        k = b'SECRET-KEY'
                        pg_check(c, [b'GET', k], m.execute([b'GET', k]), c.query(b'GET ' + k), 25)
                        unlocked += 1
                        feats.add('postgres with password')
                        continue
                    c = srv.conn(cl.kinds[1])
                    extra.append(c)
                    w = B(o['w'])
                    if kd == 'wrong':
                        d = pg_startup() + pg_msg(b'p', w + b'\0') + q
                        if w == pw:
                            continue
                    elif kd == 'noask':
                        d = pg_startup() + q
                    elif kd == 'two':
                        d = pg_startup() + pg_startup() + q
                    elif kd == 'early':
                        d = (PG_SSL if o['ssl'] else pg_startup()) + pg_msg(b'S') + pg_msg(b'p', w + b'\0') * (w != pw) + q
                    else:
                        d = pg_startup() + pg_P(b'', pg_query(toks, rng)) + pg_B(b'', b'', [], rng) + pg_D(b'S', b'') + pg_E(b'') + PG_S + q
                    b = shut(c, d, (kd, a))
                    refused += 1
                    feats.add('postgres ' + kd)
                    p = 0
                    if b[:1] == b'N' and o['ssl'] and kd == 'early':
                        p = 1
                    while p < len(b):
                        r = pg_parse(b, p)
                        if r is None:
                            raise Fail('incomplete Postgres output %s' % short(b))
                        (t, x), p = r
                        if t in 'TDCI' or t == 'R' and x != b'\0\0\0\3':
                            raise Fail('message %s %s on an unauthenticated Postgres connection (%s, %s)' % (t, short(x), kd, short(a)))
                elif kind == 'x':
                    b = B(o['b'])
                    if pw in b and len(pw) > 1 or len(pw) == 1:
                        continue
                    shut(srv.conn(cl.kinds[0]), b, b)
                    refused += 1
                    feats.add('damaged stream')
            look()
            for c in list(rc.values()) + ([mc] if mc else []):
                d = c.pending()
                if d:
                    raise Fail('unexpected extra bytes %s' % short(d))
        finally:
            cl.close()
            for c in list(rc.values()) + extra:
                c.close()
        info['nt'] = refused >= 3 and unlocked >= 1
        return info
