"""C29: at the memory limit stores evict or are refused, as configured."""
from harness import Prop
from multi import *

PAGE = 4096
LIMITS = [('1048576', 1 << 20), ('5000000', 5000000), ('123456789', 123456789), ('64k', 64 << 10), ('100kb', 100 << 10), ('64m', 64 << 20), ('1MB', 1 << 20), ('1.5m', 3 << 19), ('2G', 2 << 30),
          ('0.5g', 1 << 29), ('3Gb', 3 << 30), ('1t', 1 << 40), ('4097', 4097), ('8192', 8192)]


class PROP(Prop):
    ID = 'C29'
    RULE = ('one case is a history of 10 to 50 requests over all four protocols on 3-8 keys, during which the resident size the server reads goes over, onto and under --maxmemory (given in bytes, units or percent); with eviction off every store over the limit must be refused '
            'and change nothing; with eviction on the full key list is compared with the model after every store of a new key; part of the cases check which of the entries goes; non-trivial when a store was refused or an entry evicted, and a store succeeded after the size fell again')
    ASSUME = ('the measured size is the resident size in /proc/self/statm, interposed; the server looks at it about once a second (2 ms here)', 'a size equal to the limit keeps the mode it was in')
    QUICK = (1000, 34)
    THOROUGH = (20000, 780)
    PER = 20

    def config(self, rng):
        c = config(rng)
        o = c['opts']
        r = rng.random()
        if r < 0.1:
            o['maxmemory'] = 'unlimited'
            c['limit'] = None
        elif r < 0.2:
            p = rng.choice([1, 10, 50, 80, 0.5])
            o['maxmemory'] = '%s%%' % p
            c['limit'] = ['%', p]
        else:
            o['maxmemory'], n = rng.choice(LIMITS)
            c['limit'] = n
        if rng.random() < 0.75:
            o['evict'] = rng.choice(['yes', 'no'])
        if rng.random() < 0.6:
            o['shards'] = 1
        return c

    def bounds(self, cfg):
        """-> pages under, exactly on (or None) and over the limit"""
        n = cfg['limit']
        if n is None:
            return 1, None, 1 << 36
        if isinstance(n, list):
            total = os.sysconf('SC_PHYS_PAGES') * n[1] / 100
            return int(total * 0.99), None, int(total * 1.01)
        if n % PAGE == 0:
            return n // PAGE - 1, n // PAGE, n // PAGE + 1
        return n // PAGE, None, n // PAGE + 1

    def gen(self, rng, cfg):
        pool = [k for k in hpool(rng, rng.randint(3, 8)) if k != 'noreply']
        if rng.random() < 0.3:
            # which entry goes
            n = rng.randint(1, 5)
            keys = pool[:n] if len(pool) >= n else pool
            ops = []
            for i in range(rng.randint(4, 25)):
                r = rng.random()
                ops.append([rng.choice(['get', 'get', 'mcget', 'http', 'mget']) if r < 0.5 else 'new' if r < 0.75 else 'ttl' if r < 0.85 else 'put', rng.randrange(8)])
            return {'keys': keys, 'lru': ops, 'tick': rng.choice([1, 1000, SEC])}
        ops = []
        for _ in range(rng.randint(10, 50)):
            r = rng.random()
            if r < 0.04:
                ops.append({'t': deadline(rng)})
            elif r < 0.2:
                ops.append({'mem': rng.choice(['over', 'over', 'over', 'under', 'under', 'on', 'way'])})
            elif r < 0.45:
                k = rng.choice(pool)
                ops.append(rng.choice([{'pr': 'resp', 'i': 1, 'a': ['SET', k, 'v%d' % rng.randrange(99)]}, {'pr': 'resp', 'i': 0, 'a': ['DEL', k]}, {'pr': 'resp', 'i': 0, 'a': ['SET', k, '5']}, {'pr': 'resp', 'i': 0, 'a': ['INCR', k]},
                                       {'pr': 'mc', 'i': 1, 'w': ['set', k, '0', '0'], 'd': '7'}, {'pr': 'resp', 'i': 0, 'a': ['APPEND', k, 'x']}, {'pr': 'mc', 'i': 1, 'w': ['delete', k]}, {'pr': 'resp', 'i': 0, 'a': ['EXPIRE', k, '100']},
                                       {'pr': 'resp', 'i': 0, 'a': ['SETEX', k, '3', 'z']}]))
            else:
                while True:
                    o = op_for(rng, rng.choice(PROTOS), pool, False, False)   # DEBUG POPULATE ignores the limit
                    if 'raw' not in o:
                        break
                ops.append(o)
        return {'ops': ops}

    LISTS = ('ops', 'lru')

    def mem(self, srv, pages):
        c = srv.ctl
        c.set('rss', pages)
        n = c.get('rss_reads')
        end = time.time() + 20
        while c.get('rss_reads') < n + 2:
            time.sleep(0.0005)
            if time.time() > end:
                srv.check()
                raise Fail('the server no longer looks at its memory use')

    def keys(self, cl):
        r = resp_call(cl.side(), b'KEYS', b'*')
        if r[0] != '*':
            raise Fail('KEYS * answered %s' % short(r))
        l = [x[1] for x in r[1]]
        if len(set(l)) != len(l):
            raise Fail('KEYS * lists a key twice: %s' % short(l))
        return set(l)

    def evicted(self, cl, m, cfg, new, why):
        """After one new key was stored in low memory mode: who is gone?"""
        m.purge()
        got = self.keys(cl)
        have = set(m.d)
        if got - have:
            raise Fail('unknown or expired keys are listed: %s' % short(sorted(got - have)))
        gone = have - got
        if new[0] in gone:
            raise Fail('%s evicted the very key it stored' % why)
        if len(gone) > 1:
            raise Fail('%s evicted %d entries: %s' % (why, len(gone), short(sorted(gone))))
        others = have - {new[0]}
        if new[1] is False and int(cfg['opts'].get('shards', 4096)) == 1 and others and not m.dead and not gone:
            raise Fail('%s evicted nothing of %d other entries' % (why, len(others)))
        for k in gone:
            m.rem(k)
        return gone

    def run(self, env, srv, cfg, case):
        under, on, over = self.bounds(cfg)
        self.mem(srv, under)
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        try:
            if 'lru' in case:
                self.lru(cl, m, srv, cfg, case, over, info)
            else:
                self.history(cl, m, srv, cfg, case, under, on, over, info)
        finally:
            cl.close()
            self.mem(srv, under)
        return info

    def history(self, cl, m, srv, cfg, case, under, on, over, info):
        ev = cfg['opts'].get('evict', 'yes') == 'yes'
        low, acted = False, False
        base = self.stat(cl)
        m.st['store_no_memory'] = 0
        for o in case['ops']:
            if 't' in o:
                srv.adv(o['t'])
                m.adv(o['t'])
                continue
            if 'mem' in o:
                w = o['mem']
                p = {'over': over, 'under': under, 'way': over * 3, 'on': on}[w]
                if p is None:
                    continue
                self.mem(srv, p)
                if w != 'on' and cfg['limit'] is not None:
                    low = p >= over
                m.refuse = low and not ev
                info['feats'].add('size ' + w + (' with eviction' if ev else ' without'))
                continue
            info['checks'] += 1
            m.inserted = []
            n0 = m.st['store_no_memory']
            cl.do(o)
            if m.st['store_no_memory'] != n0:
                acted = True
                info['feats'].add('refused over ' + o['pr'])
            if m.inserted:
                if low:
                    if self.evicted(cl, m, cfg, m.inserted[-1], '%s %s' % (o['pr'], short(o, 100))):
                        acted = True
                        info['feats'].add('evicted over ' + o['pr'])
                elif acted:
                    info['nt'] = True
                    info['feats'].add('stored after the limit')
        if low is False or not ev:
            m.purge()
            got = self.keys(cl)
            if got != set(m.d):
                raise Fail('KEYS * differs from what was stored: missing %s, extra %s' % (short(sorted(set(m.d) - got)), short(sorted(got - set(m.d)))))
        for k in sorted(m.d):
            cl.look(k)
            info['checks'] += 1
        n = self.stat(cl) - base
        if n != m.st['store_no_memory']:
            raise Fail('store_no_memory advanced by %d for %d refused stores' % (n, m.st['store_no_memory']))

    def stat(self, cl):
        r = resp_call(cl.side(), b'STATS')
        for x in r[1]:
            if x[1][0][1] == b'store_no_memory':
                return int(x[1][1][1])
        raise Fail('no store_no_memory in STATS')

    def lru(self, cl, m, srv, cfg, case, over, info):
        if cfg['limit'] is None or cfg['opts'].get('evict') == 'no':
            self.lru_off(cl, m, srv, cfg, case, over)
            return
        used = {}
        c = cl.resp(0)

        def tick():
            srv.adv(case['tick'])
            m.adv(case['tick'])
        for k in case['keys']:
            k = B(k)
            tick()
            if resp_call(c, b'SET', k, b'v' + k) != OK:
                raise Fail('SET failed')
            m.put(k, b'v' + k)
            used[k] = m.boot
        self.mem(srv, over)
        for i, (w, j) in enumerate(case['lru']):
            tick()
            ks = sorted(m.d)
            k = ks[j % len(ks)]
            info['checks'] += 1
            if w == 'new':
                k = b'new%d' % i
                others = set(m.d)
                if resp_call(c, b'SET', k, b'v' + k) != OK:
                    raise Fail('SET of a new key failed while eviction is on')
                m.put(k, b'v' + k)
                used[k] = m.boot
                gone = self.evicted(cl, m, cfg, (k, False), 'SET')
                if gone and int(cfg['opts'].get('shards', 4096)) == 1:
                    g = list(gone)[0]
                    if len(others) >= 2 and all(used[g] > used[x] for x in others - gone):
                        raise Fail('of %d other entries the most recently used one was evicted' % len(others))
                    info['feats'].add('%d others' % min(len(others), 3))
                    info['nt'] = True
                continue
            if w == 'put':
                if resp_call(c, b'SET', k, b'v' + k) != OK:
                    raise Fail('SET of an existing key failed')
                if self.keys(cl) != set(m.d):
                    raise Fail('overwriting a key evicted something')
                used[k] = m.boot
            elif w == 'get':
                if resp_call(c, b'GET', k) != ('$', b'v' + k):
                    raise Fail('GET of a stored key failed')
                used[k] = m.boot
            elif w == 'mget':
                if resp_call(c, b'MGET', b'nokey', k) != ('*', [NIL, ('$', b'v' + k)]):
                    raise Fail('MGET of a stored key failed')
                used[k] = m.boot
            elif w == 'mcget':
                x = cl.mc(0)
                x.send(b'get ' + k + b'\r\n')
                if x.read(mc_parse) != ('values', [(k, 0, None, b'v' + k)]):
                    raise Fail('memcache get of a stored key failed')
                used[k] = m.boot
            elif w == 'http':
                if http_call(srv, b'GET /' + k + b' HTTP/1.1\r\n\r\n')[2] != b'v' + k:
                    raise Fail('HTTP GET of a stored key failed')
                used[k] = m.boot
            else:
                # neither of these counts as a use
                resp_call(c, b'TTL', k)
                resp_call(c, b'EXISTS', k)

    def lru_off(self, cl, m, srv, cfg, case, over):
        """Nothing is ever evicted without eviction or a limit."""
        self.mem(srv, over)
        c = cl.resp(0)
        n = 0
        for i in range(12):
            r = resp_call(c, b'SET', b'k%d' % i, b'v')
            if cfg['limit'] is None:
                if r != OK:
                    raise Fail('SET answered %s without a memory limit' % (r,))
                n += 1
            elif r[0] != '-':
                raise Fail('SET answered %s over the limit with eviction off' % (r,))
        if len(self.keys(cl)) != n:
            raise Fail('entries were evicted with eviction off')
