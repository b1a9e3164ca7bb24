"""One client of every protocol over the same cache and the same model."""
import p_resp
from mc import *
from web import *
from pgc import *

PROTOS = ('resp', 'mc', 'http', 'pg')


def op_for(rng, pr, pool, big=True, debug=True):
    if pr == 'resp':
        o = {'a': p_resp.command(rng, pool, debug)}
    elif pr == 'mc':
        o = mc_op(rng, pool, big)
        if o.get('quit'):
            o = {'w': ['version']}
    elif pr == 'http':
        o = http_op(rng, pool, big)
    else:
        o = {'a': pg_case_cmd(rng, pool, debug), 's': rng.randrange(1 << 30), 'x': int(rng.random() < 0.5)}
    o['pr'] = pr
    o['i'] = rng.randrange(2)
    return o


class Clients:
    def __init__(self, srv, m, auth=None):
        self.srv, self.m, self.auth = srv, m, auth
        self.kinds = ['unix', 'tcp'] if srv.tcp else ['unix', 'unix']
        self.r, self.m_, self.p, self.side_ = {}, {}, {}, None
        self.all = []

    def login(self, c):
        if self.auth is not None:
            r = resp_call(c, b'AUTH', self.auth)
            if r != OK:
                raise Fail('AUTH with the right password answered %r' % (r,))
        return c

    def side(self):
        if self.side_ is None:
            self.side_ = self.login(self.srv.conn())
            self.all.append(self.side_)
        return self.side_

    def resp(self, i=0):
        if i not in self.r:
            self.r[i] = self.login(self.srv.conn(self.kinds[i % 2]))
            self.all.append(self.r[i])
        return self.r[i]

    def mc(self, i=0):
        if i not in self.m_:
            c = self.m_[i] = self.srv.conn(self.kinds[i % 2])
            self.all.append(c)
            c.send(b'version\r\n')
            if not mc_same(('version',), c.read(mc_parse)):
                raise Fail('version is not answered')
        return self.m_[i]

    def pg(self, i=0):
        if i not in self.p:
            self.p[i] = PgConn(self.srv, self.kinds[i % 2], auth=self.auth)
            self.all.append(self.p[i])
        return self.p[i]

    def close(self):
        for c in self.all:
            c.close()

    def learn(self, k):
        learn_cas(self.srv, self.m, k, self.side())

    def do(self, o):
        """Run one operation and compare; returns (expected, got)."""
        m, pr, i = self.m, o['pr'], o.get('i', 0)
        if pr == 'resp':
            a = []
            for x in o['a']:
                if isinstance(x, dict) and 'cas' in x:
                    self.learn(B(o['a'][1]))
                    a.append(b'%d' % cas_arg(m, B(o['a'][1]), x))
                else:
                    a.append(B(x))
            c = self.resp(i)
            exp = m.execute(a)
            c.send(resp_multi(a))
            got = c.read(resp_parse)
            if not same(exp, got):
                raise Fail('RESP %s answered %s, expected %s' % (short(a), short(got), short(exp)))
            return exp, got
        if pr == 'mc':
            if 'cas' in o:
                self.learn(B(o['w'][1]))
            c = self.mc(i)
            sent = mc_bytes(o, m)
            exp = mc_model(m, o)
            if o.get('nr'):
                c.send(sent + b'version\r\n')
                got = c.read(mc_parse)
                if not mc_same(('version',), got):
                    raise Fail('memcache %s answered %s despite noreply' % (short(sent), short(got)))
                return exp, None
            c.send(sent)
            got = c.read(mc_parse)
            if not mc_same(exp, got):
                raise Fail('memcache %s answered %s, expected %s' % (short(sent), short(got), short(exp)))
            return exp, got
        if pr == 'http':
            if any(isinstance(v, dict) for n, v in o.get('q', ())):
                self.learn(B(o['k']))
            if self.auth is not None and 'raw' not in o:
                o = dict(o, h=o['h'] + [['Authorization', 'Bearer ' + self.auth.decode('latin1')]])
            sent = http_bytes(o, m)
            exp = http_model(m, o)
            got = http_call(self.srv, sent, self.kinds[i % 2])
            if not http_same(exp, got):
                raise Fail('HTTP %s answered %s, expected %s' % (short(sent), short(got), short(exp)))
            return exp, got
        pc = self.pg(i)
        a = [B(x) for x in o['a']]
        rng = random.Random(o.get('s', 0))
        if o.get('x'):
            toks, params = [], []
            for j, x in enumerate(a):
                if j and (b'\0' in x or rng.random() < 0.6):
                    params.append(x)
                    toks.append(b'$%d' % len(params))
                else:
                    toks.append(x if j == 0 and pg_bare_ok(x) else pg_token(x.replace(b'\0', b'0'), rng))
                    a[j] = x.replace(b'\0', b'0')
            exp = m.execute(a, 'pg')
            pc.c.send(pg_P(b'', pg_query(toks, rng)) + pg_B(b'', b'', params, rng) + pg_E(b'') + PG_S)
            for want in '12':
                t, d = pc.msg()
                if t != want:
                    raise Fail('Postgres %s answered message %s %s, expected %s' % (short(a), t, short(d), want))
            ans = pc.answer()
            pc.ready()
        else:
            a = [x.replace(b'\0', b'0') for x in a]
            toks = [a[0] if pg_bare_ok(a[0]) else pg_token(a[0], rng)] + [pg_token(x, rng) for x in a[1:]]
            exp = m.execute(a, 'pg')
            ans = pc.query(pg_query(toks, rng))
        pg_check(pc, a, exp, ans, 25)
        return exp, ans

    def look(self, k, protos=PROTOS):
        """Read one key in every protocol and compare with the model."""
        m = self.m
        e = m.live(k)
        n = 0
        if 'resp' in protos:
            for i in (0, 1):
                got = resp_call(self.resp(i), b'MGETS', k)
                exp = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)]) if e else NIL])
                if not same(exp, got):
                    raise Fail('RESP MGETS %s is %s, expected %s' % (short(k), short(got), short(exp)))
        if 'mc' in protos:
            c = self.mc(0)
            c.send(b'gets ' + k + b'\r\n')
            got = c.read(mc_parse)
            exp = ('values', [(k, e.flags, CasOf(m, k, e), e.val)] if e else [])
            if not mc_same(exp, got):
                raise Fail('memcache gets %s is %s, expected %s' % (short(k), short(got), short(exp)))
        if 'http' in protos:
            got = http_call(self.srv, b'GET /' + k + b' HTTP/1.1\r\n' + (b'Authorization: Bearer ' + self.auth + b'\r\n' if self.auth else b'') + b'\r\n', self.kinds[0])
            exp = (200, e.val) if e else (404, b'Not Found\r\n')
            if not http_same(exp, got):
                raise Fail('HTTP GET %s is %s, expected %s' % (short(k), short(got), short(exp)))
        if 'pg' in protos:
            ans = self.pg(0).query(b'MGETS ' + pg_simple(k))
            exp = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)]) if e else NIL])
            pg_check(self.pg(0), [b'MGETS', k], exp, ans, 25)
        t = resp_call(self.side(), b'PTTL', k)
        want = -2 if e is None else (e.exp - m.boot) // 10**6 if e.exp else -1
        if t != (':', want):
            raise Fail('PTTL %s is %s, expected %d' % (short(k), t, want))
