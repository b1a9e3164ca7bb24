"""C31: MONITOR reports every executed command, once, in order and byte for byte."""
import socket, threading
from harness import Prop
from multi import *

KNOWN = set(b'set get del mget mgets ttl pttl expire setex dbsize echo exists flushdb flushall flush purge sweep keys select ping touch debug incrby decrby incr decr uincrby udecrby uincr udecr append prepend '
            b'save load stats version scan'.split())
HIDDEN = set(b'auth quit monitor'.split())
LINE = re.compile(rb'\+(\d+\.\d{6}) \[0 ([^\]]*)\]((?: "(?:[^"\\]|\\.)*")+)\Z', re.S)
ARG = re.compile(rb' "((?:[^"\\]|\\.)*)"', re.S)
ESC = re.compile(rb'\\(x[0-9A-Fa-f]{2}|.)', re.S)


def line_parse(b, p):
    i = b.find(b'\r\n', p)
    return None if i < 0 else (bytes(b[p:i]), i + 2)


def decode(line):
    """(timestamp, address, arguments) of a line, or None."""
    m = LINE.match(line)
    if not m or any(c < 32 or c > 126 for c in line):
        return None

    def unesc(x):
        x = x.group(1)
        if x[:1] == b'x' and len(x) == 3:
            return bytes([int(x[1:], 16)])
        return {b'n': b'\n', b'r': b'\r', b't': b'\t', b'"': b'"', b'\\': b'\\'}.get(x, b'?' + x)
    return m.group(1), m.group(2), [ESC.sub(unesc, x) for x in ARG.findall(m.group(3))]


class Mon:
    def __init__(self, srv, cl, kind, inline):
        self.c = cl.login(srv.conn(kind))
        self.c.send(b'MONITOR\r\n' if inline else b'*1\r\n$7\r\nMONITOR\r\n')
        if self.c.read(resp_parse) != OK:
            raise Fail('MONITOR was not answered OK')
        self.ping()

    def ping(self, early=()):
        """Lines that come before the reply are reports."""
        self.c.send(b'*1\r\n$4\r\nPING\r\n')
        l = self.c.read(line_parse)
        if l != b'+PONG':
            raise Fail('PING while monitoring answered %s' % short(l))

    def lines(self, n):
        return [self.c.read(line_parse) for _ in range(n)]


def addr(c):
    return b'unixsocket' if c.s.family == socket.AF_UNIX else b'127.0.0.1:%d' % c.s.getsockname()[1]


def simple(rng, pool):
    """A request of memcache or HTTP that the server certainly executes, with the bytes its report has to show."""
    k = rng.choice(pool)
    v = value(rng, big=False)
    v = v if isinstance(v, str) else 'val'
    r = rng.random()
    if r < 0.5:
        n = rng.choice(['get', 'gets', 'set', 'add', 'replace', 'append', 'prepend', 'delete', 'incr', 'decr', 'touch', 'get', 'set'])
        if n in ('get', 'gets'):
            ks = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 5]))]
            return {'pr': 'mc', 'b': '%s %s\r\n' % (n, ' '.join(ks)), 'has': ks}
        if n in ('set', 'add', 'replace', 'append', 'prepend'):
            return {'pr': 'mc', 'b': '%s %s %d 0 %d%s\r\n%s\r\n' % (n, k, rng.choice([0, 0, 7]), len(v.encode('latin1')), nr(rng), v), 'has': [k, v]}
        return {'pr': 'mc', 'b': '%s %s%s%s\r\n' % (n, k, '' if n == 'delete' else ' 17', nr(rng)), 'has': [k] if n == 'delete' else [k, '17']}
    if rng.random() < 0.5:
        return {'pr': 'http', 'b': 'PUT /%s%s HTTP/1.1\r\nContent-Length: %d\r\n@\r\n%s' % (k, rng.choice(['', '?ttl=100', '?nx', '?flags=3&xx']), len(v.encode('latin1')), v), 'has': [k, v]}
    return {'pr': 'http', 'b': '%s /%s HTTP/1.1\r\n@\r\n' % (rng.choice(['GET', 'DELETE']), k), 'has': [k]}


def nr(rng):
    return ' noreply' if rng.random() < 0.2 else ''


class PROP(Prop):
    ID = 'C31'
    RULE = ('one case is a history of 5 to 50 steps with up to 40 monitoring connections that come and go while other connections run commands over RESP, Postgres, memcache and HTTP (any argument bytes, pipelines, wrong argument counts, unknown commands, AUTH, '
            'refused commands, clock advances) or run pipelines at the same time; non-trivial when at least five commands were reported to a monitor')
    ASSUME = ('commands up to 15 kB are used, because a monitor that does not read for a second is dropped', 'for memcache and HTTP the report shows the command the server runs in their place, so only its key, value and amounts are checked',
              'a monitor counts from the reply to its first PING, which follows the OK')
    QUICK = (700, 30)
    THOROUGH = (15000, 700)

    def config(self, rng):
        c = config(rng)
        if rng.random() < 0.4:
            c['opts']['auth'] = 'PaSsWoRd-' + alpha_str(rng, 6, 'abcdefgh')
        return c

    def start(self, env, cfg):
        return env.server(cfg['opts'], tcp=cfg['tcp'])

    def gen(self, rng, cfg):
        pool = [k for k in keypool(rng) if len(k) < 2000]
        hp = [k for k in hpool(rng, rng.randint(2, 4)) if k != 'noreply'] or ['k']
        ops = [{'mon': rng.randrange(4)}]
        auth = cfg['opts'].get('auth')
        for _ in range(rng.randint(5, 50)):
            r = rng.random()
            if r < 0.05:
                ops.append({'mon': rng.randrange(4), 'x': rng.choice([1, 1, 1, 2, 5, 9, 17, 33])})
            elif r < 0.1:
                ops.append({'unmon': rng.randrange(64), 'x': rng.choice([1, 1, 1, 3, 20]), 'how': rng.choice(['close', 'abort', 'quit', 'cmd', 'shut'])})
            elif r < 0.13:
                ops.append({'mping': rng.randrange(4)})
            elif r < 0.18:
                ops.append({'t': rng.choice([1, 999, 1000, 500_000, 123_456_789, 10**9, rng.randrange(10**12)])})
            elif r < 0.24:
                ops.append({'hid': rng.choice([['AUTH', auth or 'x'], ['AUTH', 'wrong'], ['AUTH'], ['auth', 'a', 'b'], ['NOSUCH', 'a'], ['', 'x'], ['GETX', 'secret'], ['QUIT']]), 'i': rng.randrange(2)})
            elif r < 0.28 and auth:
                ops.append({'unauth': rng.choice(['resp', 'http', 'mc', 'pg']), 's': rng.randrange(1 << 30)})
            elif r < 0.34:
                ops.append({'par': [[rng.choice(['resp', 'resp', 'mc']), rng.choice([1, 5, 40])] for _ in range(rng.randint(2, 4))]})
            elif r < 0.5:
                ops.append(simple(rng, hp))
            elif r < 0.68:
                a = pg_case_cmd(rng, pool)
                ops.append({'pr': 'pg', 'a': a, 's': rng.randrange(1 << 30), 'x': rng.randrange(2)})
            else:
                l = []
                for _ in range(rng.choice([1, 1, 1, 2, 5, 12])):
                    a = p_resp.command(rng, pool)
                    if any(isinstance(x, dict) and 'cas' in x for x in a) or sum(len(B(x)) for x in a) > 15000 // 12:
                        a = ['ECHO', rbytes(rng, rng.randint(0, 40))]
                    l.append(a)
                ops.append({'pr': 'resp', 'l': l, 'i': rng.randrange(2), 'il': rng.randrange(1000) if rng.random() < 0.3 else None})
        return {'ops': ops}

    def expect(self, mons, exp, srv, why, info):
        """exp: [(address, arguments or None, bytes that occur)] in order."""
        for mon in mons:
            for ad, args, has in exp:
                l = mon.c.read(line_parse)
                d = decode(l)
                if d is None:
                    raise Fail('%s was reported as %s' % (short(why), short(l)))
                if d[1] != ad:
                    raise Fail('%s was reported from address %r, expected %r' % (short(why), d[1], ad))
                real = srv.ctl.get('real')
                if abs(int(d[0].replace(b'.', b'')) - real // 1000) > 1:
                    raise Fail('%s was reported at %s, expected %d ns' % (short(why), d[0], real))
                if args is not None:
                    if d[2] != args:
                        raise Fail('%s was reported as %s, expected %s' % (short(why), short(d[2]), short(args)))
                else:
                    rest = list(d[2][1:])
                    for x in has:
                        if x not in rest:
                            raise Fail('%s was reported as %s, without %s' % (short(why), short(d[2]), short(x)))
                        rest.remove(x)
                info['n'] += 1

    def silent(self, mons, cl, srv, why, info):
        """Nothing but the sentinel is reported."""
        self.n += 1
        tag = b'sentinel%d' % self.n
        c = cl.side()
        if resp_call(c, b'ECHO', tag) != ('$', tag):
            raise Fail('ECHO failed')
        self.expect(mons, [(addr(c), [b'ECHO', tag], ())], srv, why, info)

    def run(self, env, srv, cfg, case):
        auth = cfg['opts'].get('auth')
        auth = auth.encode() if auth else None
        m = reset(srv, auth)
        cl = Clients(srv, m, auth)
        info = {'nt': False, 'feats': set(), 'checks': 0, 'n': 0}
        mons, extra = [], []
        self.n = 0
        cl.side()
        try:
            for o in case['ops']:
                if 'mon' in o:
                    for _ in range(o.get('x', 1)):
                        if len(mons) < 40:
                            mons.append(Mon(srv, cl, cl.kinds[o['mon'] % 2], o['mon'] > 1))
                    if len(mons) > 8:
                        info['feats'].add('over eight monitors')
                    continue
                if 'unmon' in o:
                    for _ in range(o.get('x', 1)):
                        if not mons:
                            break
                        mon = mons.pop(o['unmon'] % len(mons))
                        c, how = mon.c, o['how']
                        if how == 'close':
                            c.close()
                        elif how == 'abort':
                            c.abort()
                        else:
                            if how == 'shut':
                                c.s.shutdown(socket.SHUT_WR)
                            else:
                                c.send(b'QUIT\r\n' if how == 'quit' else b'GET x\r\n')
                            d = c.read_eof()
                            if d:
                                raise Fail('a monitor that ended got %s' % short(d))
                            c.close()
                        info['feats'].add('monitor ends: ' + how)
                    self.silent(mons, cl, srv, o, info)
                    continue
                if 'mping' in o:
                    if mons:
                        mons[o['mping'] % len(mons)].ping()
                    continue
                if 't' in o:
                    srv.adv(o['t'])
                    continue
                if 'hid' in o:
                    c = cl.login(srv.conn(cl.kinds[o['i'] % 2]))
                    c.send(resp_multi([B(x) for x in o['hid']]))
                    c.read(resp_parse)
                    c.close()
                    info['feats'].add('hidden or unknown command')
                    self.silent(mons, cl, srv, o, info)
                    continue
                if 'unauth' in o:
                    self.unauth(srv, cl, o)
                    info['feats'].add('refused command')
                    self.silent(mons, cl, srv, o, info)
                    continue
                if 'par' in o:
                    self.par(srv, cl, mons, o['par'], info)
                    continue
                if o['pr'] == 'resp':
                    c = cl.resp(o['i'])
                    out, exp, n = b'', [], 0
                    for a in o['l']:
                        a = [B(x) for x in a]
                        il = o['il'] is not None and resp_inline(a, random.Random(o['il']))
                        if a[0].lower() in (b'quit', b'save', b'load', b'monitor', b'auth'):
                            continue
                        out += il or resp_multi(a)
                        n += 1
                        if a[0].lower() in KNOWN:
                            exp.append((addr(c), a, ()))
                    c.send(out)
                    for _ in range(n):
                        c.read(resp_parse)
                    self.expect(mons, exp, srv, o['l'], info)
                elif o['pr'] == 'pg':
                    a = self.pg(cl, o)
                    self.expect(mons, [(addr(cl.pg(0).c), a, ())], srv, a, info)
                else:
                    b = B(o['b'])
                    has = [B(x) for x in o['has']]
                    if o['pr'] == 'http':
                        b = b.replace(b'@\r\n', b'Authorization: Bearer ' + auth + b'\r\n\r\n' if auth else b'\r\n', 1)
                        c = srv.conn(cl.kinds[len(b) % 2])
                        ad = addr(c)
                        c.send(b)
                        c.read_eof()
                        c.close()
                        self.expect(mons, [(ad, None, has)], srv, b, info)
                    elif not auth:
                        c = cl.mc(0)
                        # opening the connection asks for the version
                        if len(cl.m_) == 1 and not hasattr(cl, 'mcseen'):
                            cl.mcseen = True
                            self.expect(mons, [(addr(c), None, ())], srv, b'version', info)
                        c.send(b + b'version\r\n')
                        if not b.split(b'\r\n', 1)[0].endswith(b' noreply'):
                            c.read(mc_parse)
                        if not mc_same(('version',), c.read(mc_parse)):
                            raise Fail('version is not answered')
                        self.expect(mons, [(addr(c), None, has), (addr(c), None, ())], srv, b, info)
                info['feats'].add('command over ' + o['pr'])
            for mon in mons:
                mon.ping()
                d = mon.c.pending()
                if d:
                    raise Fail('a monitor got %s after everything was reported' % short(d))
            info['nt'] = info['n'] >= 5
            info['checks'] = info.pop('n')
        finally:
            for mon in mons:
                mon.c.close()
            cl.close()
        return info

    def pg(self, cl, o):
        pc = cl.pg(0)
        a = [B(x).replace(b'\0', b'0') for x in o['a']]
        if sum(map(len, a)) > 15000 or a[0].lower() not in KNOWN:
            a = [b'ECHO', b'x']
        rng = random.Random(o['s'])
        if o['x']:
            toks, params = [a[0]], []
            for x in a[1:]:
                if rng.random() < 0.6:
                    params.append(x)
                    toks.append(b'$%d' % len(params))
                else:
                    toks.append(pg_token(x, rng))
            pc.c.send(pg_P(b'', pg_query(toks, rng)) + pg_B(b'', b'', params, rng) + pg_E(b'') + PG_S)
            for want in '12':
                t, d = pc.msg()
                if t != want:
                    raise Fail('Postgres %s answered message %s %s, expected %s' % (short(a), t, short(d), want))
            pc.answer()
            pc.ready()
        else:
            pc.query(pg_query([a[0]] + [pg_token(x, rng) for x in a[1:]], rng))
        return a

    def unauth(self, srv, cl, o):
        rng = random.Random(o['s'])
        c = srv.conn(cl.kinds[rng.randrange(2)])
        if o['unauth'] == 'resp':
            c.send(resp_multi([rng.choice([b'GET', b'SET', b'ECHO', b'AUTH']), b'wrong', b'x']))
            if c.read(resp_parse)[0] != '-':
                raise Fail('a command without a password was not refused')
        elif o['unauth'] == 'http':
            c.send(b'GET /key?auth=wrong HTTP/1.1\r\n\r\n')
            c.read_eof()
        elif o['unauth'] == 'mc':
            c.send(b'get key\r\n')
            c.read(mc_parse)
        else:
            c.send(pg_startup() + pg_msg(b'p', b'wrong\0') + pg_msg(b'Q', b'ECHO key\0'))
            c.s.shutdown(socket.SHUT_WR)
            c.read_eof()
        c.close()

    def par(self, srv, cl, mons, plan, info):
        """Pipelines on several connections at once: every one is reported in its own order."""
        cs, want = [], {}
        for j, (pr, n) in enumerate(plan):
            if pr == 'mc' and cl.auth is not None:
                pr = 'resp'
            c = srv.conn('unix') if pr == 'mc' else cl.login(srv.conn('unix'))
            ids = [b'p%d-%d' % (j, i) for i in range(n)]
            if pr == 'mc':
                out = b''.join(b'get ' + x + b'\r\n' for x in ids)
            else:
                out = b''.join(resp_multi([b'GET', x]) for x in ids)
            cs.append((c, pr, out, n))
            want[j] = ids
        ths = []
        errs = []

        def go(c, pr, out, n):
            try:
                c.send(out)
                for _ in range(n):
                    c.read(mc_parse if pr == 'mc' else resp_parse)
            except Exception as e:
                errs.append(e)
        for x in cs:
            ths.append(threading.Thread(target=go, args=x))
            ths[-1].start()
        for t in ths:
            t.join()
        for x in cs:
            x[0].close()
        if errs:
            raise errs[0]
        for mon in mons:
            got = {j: [] for j in want}
            for l in mon.lines(sum(map(len, want.values()))):
                d = decode(l)
                if d is None or len(d[2]) != 2 or not re.fullmatch(rb'p\d-\d+', d[2][1]):
                    raise Fail('a GET was reported as %s' % short(l))
                got.setdefault(int(d[2][1][1:2]), []).append(d[2][1])
                info['n'] += 1
            if got != want:
                j = [j for j in want if got.get(j) != want[j]][:1]
                raise Fail('commands of a connection were reported as %s, expected %s' % (short(got.get(j[0]) if j else got), short(want[j[0]] if j else want)))
        info['feats'].add('pipelines at once')
