"""C21: lifetimes in every protocol under a virtual clock."""
from harness import Prop
from multi import *

REL = ['1', '2', '3', '10', '60', '3600', '86400', '2592000', '2592001', '100000000', '9223372036', '9223372037', '9223372036854775807']
BADT = ['0', '-1', 'x', '', '1.5', '9223372036854775808', '-9223372036854775808', '1e3']


HUGE = [9223372035, 9223372036, 9223372037, 18446744073, 18446744074, 9223372036853, 9223372036854, 9223372036855, 18446744073709, 18446744073710, 9223372036854775, 9223372036854776, 2**63 - 1, 2**62]


def rel(rng):
    return rng.choice(['1', '1', '2', '3', '5', '10']) if rng.random() < 0.7 else rng.choice(REL)


def now(rng, unit):
    """A wall-clock time near the present, resolved when the request is made."""
    return {'now': rng.choice([-1000, -1, 0, 0, 1, 1, 2, 3, 10, 5000, 10**9]) * (1000 if unit == 'ms' else 1) + (rng.randint(-999, 999) if unit == 'ms' else 0), 'u': unit}


def set_life(rng):
    r = rng.random()
    if r < 0.22:
        return ['EX', rel(rng)]
    if r < 0.4:
        return ['PX', str(rng.choice([1, 2, 10, 999, 1000, 1001, 1500, 60000, rng.randint(1, 5000), 10**12, rng.choice(HUGE)]))]
    if r < 0.52:
        return ['EXAT', now(rng, 's') if rng.random() < 0.9 else str(rng.choice(HUGE))]
    if r < 0.66:
        return ['PXAT', now(rng, 'ms') if rng.random() < 0.9 else str(rng.choice(HUGE))]
    if r < 0.8:
        return ['KEEPTTL']
    if r < 0.85:
        return [rng.choice(['EX', 'PX', 'EXAT', 'PXAT']), rng.choice(BADT)]
    return []


class PROP(Prop):
    ID = 'C21'
    RULE = ('one case is a history of 8 to 50 requests over RESP, Postgres, memcache and HTTP that give, keep, change and clear lifetimes (relative, absolute, at the numeric limits) on 1-4 keys while the clock is moved to within a nanosecond of '
            'chosen deadlines and the wall clock is set back and forth; every reply and, around each deadline, a read through every protocol is compared with the model; non-trivial when the clock crossed the deadline of a live key step by step')
    ASSUME = ('time is the virtual clock of the interposed clock_gettime, time, gettimeofday and sleep',)
    QUICK = (2000, 34)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = [k for k in hpool(rng, rng.randint(1, 4)) if k != 'noreply'] or ['k']
        ops = []
        for _ in range(rng.randint(8, 50)):
            k = rng.choice(pool)
            r = rng.random()
            if r < 0.3:
                ops.append({'to': k, 'd': rng.choice([-1, -1, 0, 0, 1, -10**6, -10**6 + 1, -10**9, -10**9 + 1, 10**9, -5 * 10**8])})
                if ops[-1]['d'] < 0 and rng.random() < 0.5:
                    ops.append({'to': k, 'd': rng.choice([0, 0, 1])})
                continue
            if r < 0.34:
                ops.append({'t': deadline(rng)})
                continue
            if r < 0.37:
                ops.append({'wall': rng.choice([-1, 1]) * rng.choice([1, 10**9, 10**10, 10**13])})
                continue
            if r < 0.4:
                ops.append({'look': k})
                continue
            pr = rng.choice(PROTOS)
            b = {'pr': pr, 'i': rng.randrange(2)}
            if pr in ('resp', 'pg'):
                if pr == 'pg':
                    b.update(s=rng.randrange(1 << 30), x=int(rng.random() < 0.5))
                x = rng.random()
                v = rng.choice(['5', '5', 'v', value(rng, False)])
                if x < 0.45:
                    a = ['SET', k, v] + set_life(rng) + rng.choice([[], [], [], ['NX'], ['XX'], ['GET'], ['FLAGS', '5']])
                elif x < 0.52:
                    a = ['SETEX', k, rel(rng) if rng.random() < 0.85 else rng.choice(BADT), v]
                elif x < 0.68:
                    a = ['EXPIRE', k, rel(rng) if rng.random() < 0.8 else rng.choice(['0', '-1', '-1000', '-9223372036854775808', 'x', ''])]
                elif x < 0.74:
                    a = [rng.choice(['INCR', 'DECR', 'UINCR'])] + [k]
                elif x < 0.8:
                    a = [rng.choice(['APPEND', 'PREPEND']), k, '1']
                elif x < 0.84:
                    a = ['DEL', k]
                elif x < 0.88:
                    a = ['TOUCH', k]
                elif x < 0.94:
                    a = [rng.choice(['TTL', 'PTTL', 'GET', 'EXISTS']), k]
                elif x < 0.97:
                    a = ['KEYS', '*']
                else:
                    a = rng.choice([['SWEEP'], ['DBSIZE'], ['PURGE'], ['SWEEP', 'FAST']])
                ops.append(dict(b, a=a))
            elif pr == 'mc':
                x = rng.random()
                e = rng.choice(['0', '-1', rel(rng), rel(rng), rel(rng), now(rng, 's'), now(rng, 's'), str(DAY30), str(DAY30 + 1), '9223372036854775807', '-9223372036854775808'])
                if x < 0.5:
                    c = rng.choice(['set', 'set', 'set', 'add', 'replace', 'cas', 'append', 'prepend'])
                    o = dict(b, w=[c, k, rng.choice(['0', '9']), e], d=rng.choice(['5', '1', value(rng, False)]))
                    if c == 'cas':
                        o['cas'] = rng.choice([0, 0, 1])
                elif x < 0.75:
                    o = dict(b, w=['touch', k, e])
                elif x < 0.85:
                    o = dict(b, w=[rng.choice(['incr', 'decr']), k, '1'])
                elif x < 0.93:
                    o = dict(b, w=['gets', k])
                else:
                    o = dict(b, w=['delete', k])
                ops.append(o)
            else:
                o = dict(b, k=k, h=[], v='1.1', q=[], m=rng.choice(['PUT', 'PUT', 'PUT', 'GET', 'DELETE']))
                if o['m'] == 'PUT':
                    o.update(body=rng.choice(['5', value(rng, False)]), cl='Content-Length')
                    if rng.random() < 0.7:
                        o['q'].append([rng.choice(['ttl', 'ex']), rel(rng) if rng.random() < 0.85 else rng.choice(BADT)])
                    if rng.random() < 0.2:
                        o['q'].append([rng.choice(['nx', 'xx']), None])
                ops.append(o)
        c = {'pool': pool, 'ops': ops}
        if rng.random() < 0.2:
            c['flush'] = [rng.choice([2, 3, 10, 3600, 31536000]), rng.choice(['resp', 'mc', 'pg', 'mcnr'])]
        return c

    def resolve(self, o, m):
        def f(x):
            if isinstance(x, dict) and 'now' in x:
                return str(m.real // (SEC if x['u'] == 's' else 10**6) + x['now'])
            return x
        o = dict(o)
        for n in ('a', 'w'):
            if n in o:
                o[n] = [f(x) for x in o[n]]
        return o

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        near = set()
        try:
            for o in case['ops']:
                info['checks'] += 1
                if 'to' in o:
                    k = B(o['to'])
                    e = m.live(k)
                    if e is None or not e.exp or e.exp > 2**62:
                        m.purge()
                        for k in [B(x) for x in case['pool']]:
                            e = m.live(k)
                            if e and e.exp and e.exp < 2**62:
                                break
                    if e is None or not e.exp or e.exp + o['d'] < m.boot or e.exp > 2**62:
                        continue
                    dt = e.exp + o['d'] - m.boot
                    srv.adv(dt)
                    m.adv(dt)
                    if o['d'] < 0:
                        near.add(k)
                    elif k in near:
                        info['nt'] = True
                        info['feats'].add('deadline crossed')
                    cl.look(k)
                    info['checks'] += 5
                elif 't' in o:
                    srv.adv(o['t'])
                    m.adv(o['t'])
                elif 'wall' in o:
                    srv.adv(0, o['wall'])
                    m.adv(0, o['wall'])
                    info['feats'].add('wall clock set')
                elif 'look' in o:
                    cl.look(B(o['look']))
                else:
                    cl.do(self.resolve(o, m))
                    info['feats'].add(o['pr'])
            for k in case['pool']:
                cl.look(B(k))
            if case.get('flush'):
                self.flush(srv, m, cl, case, info)
        finally:
            cl.close()
        return info

    def flush(self, srv, m, cl, case, info):
        """A delayed flush: nothing goes before its time, everything at it."""
        secs, pr = case['flush']
        k = B(case['pool'][0])
        n = srv.ctl.get('sleepers')
        base = min(p_resp.tasks(srv) for _ in range(5) if not time.sleep(0.0005))
        if pr == 'resp':
            got = resp_call(cl.resp(0), b'FLUSHALL', b'DELAY', b'%d' % secs)
            if got != OK:
                raise Fail('FLUSHALL DELAY answered %r' % (got,))
        elif pr == 'pg':
            rows, tag, err, empty, cols = cl.pg(0).query(b'FLUSHALL DELAY %d' % secs)
            if err or tag is None:
                raise Fail('FLUSHALL DELAY answered %r' % (err,))
        elif pr == 'mcnr':
            cl.mc(0).send(b'flush_all %d noreply\r\nversion\r\n' % secs)
            got = cl.mc(0).read(mc_parse)
            if not mc_same(('version',), got):
                raise Fail('flush_all noreply answered %r' % (got,))
        else:
            cl.mc(0).send(b'flush_all %d\r\n' % secs)
            got = cl.mc(0).read(mc_parse)
            if got != L('OK'):
                raise Fail('flush_all answered %r' % (got,))
        info['feats'].add('delayed flush')
        t = time.time()
        while srv.ctl.get('sleepers') <= n:
            srv.check()
            if time.time() - t > 20:
                raise Fail('the delayed flush did not start to wait')
            time.sleep(0.001)
        a = [b'SET', k, b'later']
        if resp_call(cl.resp(0), *a) != m.execute(a):
            raise Fail('SET failed')
        srv.adv(secs * SEC - 1)
        m.adv(secs * SEC - 1)
        time.sleep(0.003)
        cl.look(k)
        srv.adv(1)
        m.adv(1)
        t = time.time()
        while resp_call(cl.side(), b'DBSIZE') != (':', 0):
            srv.check()
            if time.time() - t > 20:
                raise Fail('the delayed flush did not happen')
            time.sleep(0.001)
        t = time.time()
        # the flush goes shard by shard: it may take keys stored before its thread is done
        while srv.ctl.get('sleepers') > n or p_resp.tasks(srv) > base:
            srv.check()
            if time.time() - t > 20:
                raise Fail('the delayed flush did not end')
            time.sleep(0.001)
        m.clear()
        a = [b'SET', k, b'after']
        if resp_call(cl.resp(0), *a) != m.execute(a):
            raise Fail('SET failed')
        time.sleep(0.003)
        cl.look(k)
