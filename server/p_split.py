"""C18: replies do not depend on how the bytes are packetised."""
from harness import Prop
from multi import *
from p_http import final


def unit(rng, pr, pool, bigs):
    """One request of the stream."""
    if pr == 'resp':
        r = rng.random()
        if r < 0.12:
            a = rng.choice([['KEYS', '*'], ['FLUSHALL'], ['SWEEP'], ['PURGE'], ['DBSIZE'], ['FLUSHALL', 'SYNC'], ['KEYS', 'a*']])
        elif r < 0.2 and bigs:
            a = ['SET', rng.choice(pool), {'r': rbytes(rng, 7), 'n': rng.choice([20000, 70000, 70000, 300000, 1500000])}]
        elif r < 0.26 and bigs:
            a = ['MGET'] + [rng.choice(pool) for _ in range(rng.randint(2, 12))]
        else:
            while True:
                a = p_resp.command(rng, pool)
                if not any(isinstance(x, dict) and 'cas' in x for x in a):
                    break
        o = {'a': a}
        if rng.random() < 0.35:
            o['i'] = rng.randrange(1000)
        return o
    if pr == 'mc':
        while True:
            o = mc_op(rng, pool, bigs)
            if 'cas' not in o and not o.get('quit'):
                return o
    if pr == 'http':
        while True:
            o = http_op(rng, pool, bigs)
            if not any(isinstance(v, dict) for n, v in o.get('q', ())):
                return o
    o = {'a': pg_case_cmd(rng, pool), 's': rng.randrange(1 << 30), 'x': int(rng.random() < 0.6)}
    return o


class PROP(Prop):
    ID = 'C18'
    RULE = ('one case is a stream of 3 to 40 requests (some repeated up to 400 times) in one protocol, sent two to four times to a freshly emptied cache under different packetisations (fixed read '
            'sizes from 1 byte, random cuts with pauses, all at once); non-trivial when some packet boundary fell inside a request and at least three replies were compared')
    ASSUME = ('the shim caps the size of the server\'s reads, which is how a given packetisation is enforced',)
    QUICK = (400, 32)
    THOROUGH = (10000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pr = rng.choice(PROTOS)
        pool = hpool(rng, rng.randint(2, 5)) if pr == 'http' else mcpool(rng) if pr == 'mc' else keypool(rng)
        bigs = rng.random() < 0.3
        ops = []
        for _ in range(rng.randint(3, 40) if pr != 'http' else rng.randint(1, 8)):
            o = unit(rng, pr, pool, bigs)
            if rng.random() < 0.04 and pr != 'http' and not any(isinstance(x, dict) for x in o.get('a', [])) and not isinstance(o.get('d'), dict):
                bg = str((o.get('a') or o.get('w') or [''])[0]).upper() in ('KEYS', 'FLUSHALL', 'FLUSHDB', 'FLUSH', 'SWEEP', 'PURGE', 'DBSIZE', 'FLUSH_ALL')
                o['rep'] = rng.choice([5, 50, 400]) if not bg else 8
            ops.append(o)
        # keep the replies of repeated reads within some megabytes
        top = max([x.get('n', 0) for o in ops for x in [*o.get('a', ()), o.get('d')] if isinstance(x, dict)] + [1000])
        for o in ops:
            if 'rep' in o:
                o['rep'] = max(2, min(o['rep'], 40000000 // (top * max(1, len(o.get('a') or o.get('w') or ())))))
        plans = []
        for _ in range(rng.randint(2, 4)):
            r = rng.random()
            if r < 0.55:
                plans.append({'rd': rng.choice([1, 1, 2, 3, 5, 7, 16, 50, 100, 1000, 4096, 16384])})
            elif r < 0.85:
                plans.append({'cut': rng.randrange(1 << 30), 'n': rng.choice([1, 2, 5, 20]), 'rd': rng.choice([0, 0, 16, 1000])})
            else:
                plans.append({'rd': 0})
        return {'pr': pr, 'ops': ops, 'plans': plans, 'kind': rng.choice(['tcp', 'unix'])}

    def run(self, env, srv, cfg, case):
        info = {'nt': False, 'feats': {case['pr']}, 'checks': 0}
        inside = False
        for plan in case['plans']:
            srv.ctl.set('maxrd', 0)
            m = reset(srv)
            inside |= getattr(self, 'go_' + case['pr'])(srv, m, case, plan, info)
            srv.ctl.set('maxrd', 0)
            side = srv.conn()
            final(srv, m, side)
            side.close()
        info['nt'] = inside and info['checks'] >= 3
        return info

    def transmit(self, srv, c, data, plan, marks):
        """Send data under the plan. True when a boundary fell inside a request."""
        n = len(data)
        rd = plan.get('rd', 0)
        while rd and n // rd > 3000:
            rd *= 4
        inside = bool(rd) and any(b % rd for b in marks) and n > rd
        srv.ctl.set('maxrd', rd)
        if 'cut' in plan and n > 1:
            rng = random.Random(plan['cut'])
            cuts = set()
            for _ in range(plan['n']):
                p = rng.choice([rng.randrange(1, n), min(n - 1, max(1, rng.choice(marks) + rng.choice([-2, -1, 0, 1, 2, 3])))])
                cuts.add(p)
            inside = inside or not cuts <= set(marks)
            last = 0
            for p in sorted(cuts) + [n]:
                c.send(data[last:p])
                last = p
                if p < n:
                    time.sleep(rng.choice([0, 0.0003, 0.002]))
        else:
            c.send(data)
        return inside

    def go_resp(self, srv, m, case, plan, info):
        data, exps, marks = bytearray(), [], []
        first = True
        for o in case['ops']:
            a = [B(x) for x in o['a']]
            for _ in range(o.get('rep', 1)):
                exp = m.execute(a)
                if exp is None:
                    continue
                enc = resp_inline(a, random.Random(o['i'])) if 'i' in o and sum(map(len, a)) < 4000 else None
                data += enc or resp_multi(a)
                marks.append(len(data))
                exps.append((a, exp))
        if not data:
            return False
        c = srv.conn(case['kind'])
        try:
            inside = self.transmit(srv, c, bytes(data), plan, marks)
            for a, exp in exps:
                got = c.read(resp_parse)
                info['checks'] += 1
                if not same(exp, got):
                    raise Fail('under %s: %s answered %s, expected %s' % (plan, short(a), short(got), short(exp)))
            if c.pending():
                raise Fail('under %s: extra bytes %s' % (plan, short(c.pending())))
        finally:
            c.close()
        return inside

    def go_mc(self, srv, m, case, plan, info):
        data, exps, marks = bytearray(b'version\r\n'), [(b'version', ('version',))], [9]
        for o in case['ops']:
            for _ in range(o.get('rep', 1)):
                sent = mc_bytes(o, m)
                exp = mc_model(m, o)
                data += sent
                marks.append(len(data))
                if not o.get('nr'):
                    exps.append((sent, exp))
        data += b'version\r\n'
        exps.append((b'version', ('version',)))
        c = srv.conn(case['kind'])
        try:
            inside = self.transmit(srv, c, bytes(data), plan, marks)
            for sent, exp in exps:
                got = c.read(mc_parse)
                info['checks'] += 1
                if not mc_same(exp, got):
                    raise Fail('under %s: %s answered %s, expected %s' % (plan, short(sent), short(got), short(exp)))
            if c.pending():
                raise Fail('under %s: extra bytes %s' % (plan, short(c.pending())))
        finally:
            c.close()
        return inside

    def go_http(self, srv, m, case, plan, info):
        inside = False
        for o in case['ops']:
            data = http_bytes(o, m)
            if 'raw' in o:
                continue
            exp = http_model(m, o)
            c = srv.conn(case['kind'])
            try:
                i = self.transmit(srv, c, data, plan, [data.find(b'\n') + 1, data.find(b'\r\n\r\n') + 4])
                inside |= i
                d = c.read_eof()
                got = http_parse(d) if d else None
            finally:
                c.close()
            info['checks'] += 1
            if got is None or not http_same(exp, got):
                raise Fail('under %s: %s answered %s, expected %s' % (plan, short(data), short(got), short(exp)))
        return inside

    def go_pg(self, srv, m, case, plan, info):
        data, exps, marks = bytearray(pg_startup()), [], []
        marks.append(len(data))
        for o in case['ops']:
            for rep in range(o.get('rep', 1)):
                a = [B(x) for x in o['a']]
                rng = random.Random(o['s'])
                if o['x']:
                    toks, params = [], []
                    for j, x in enumerate(a):
                        if j and (b'\0' in x or rng.random() < 0.6):
                            params.append(x)
                            toks.append(b'$%d' % len(params))
                        else:
                            a[j] = x.replace(b'\0', b'0')
                            toks.append(a[j] if j == 0 and pg_bare_ok(x) else pg_token(a[j], rng))
                    for part in (pg_P(b'', pg_query(toks, rng)), pg_B(b'', b'', params, rng), pg_E(b''), PG_S):
                        data += part
                        marks.append(len(data))
                else:
                    a = [x.replace(b'\0', b'0') for x in a]
                    toks = [a[0] if pg_bare_ok(a[0]) else pg_token(a[0], rng)] + [pg_token(x, rng) for x in a[1:]]
                    data += pg_msg(b'Q', pg_query(toks, rng) + b'\0')
                    marks.append(len(data))
                exps.append((a, m.execute(a, 'pg'), o['x']))
        pc = PgConn.__new__(PgConn)
        pc.c, pc.oid = srv.conn(case['kind']), 25
        try:
            inside = self.transmit(srv, pc.c, bytes(data), plan, marks)
            while True:
                t, d = pc.msg()
                if t == 'Z':
                    break
                if t not in 'RS':
                    raise Fail('under %s: unexpected startup message %s %r' % (plan, t, d))
            for a, exp, x in exps:
                if x:
                    for want in '12':
                        t, d = pc.msg()
                        if t != want:
                            raise Fail('under %s: %s: message %s %s, expected %s' % (plan, short(a), t, short(d), want))
                ans = pc.answer()
                pc.ready()
                info['checks'] += 1
                try:
                    pg_check(pc, a, exp, ans, 25)
                except Fail as e:
                    raise Fail('under %s: %s' % (plan, e))
            if pc.c.pending():
                raise Fail('under %s: extra bytes %s' % (plan, short(pc.c.pending())))
        finally:
            pc.c.close()
        return inside
