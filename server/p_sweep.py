"""C34: expired entries are reclaimed, live ones are left alone."""
from harness import Prop
import sys
from multi import *

VIAS = ('EX', 'PX', 'PXAT', 'SETEX', 'EXPIRE', 'mc', 'http', 'pg')


class PROP(Prop):
    ID = 'C34'
    RULE = ('one case stores groups of 1 to 1500 entries with lifetimes given in eight ways over all protocols, advances the clock past some of them, changes, renews and stores over entries, and runs SWEEP (FAST, ASYNC; over RESP and Postgres) or lets the background sweeper work; the number of items, their bytes, the key list, values and lifetimes are compared with '
            'a model; non-trivial when some entries expired, some did not, and the expired ones were reclaimed by a command or in the background')
    ASSUME = ('the background sweeper looks at 20 entries of one shard at a time and is given up to 300 rounds; it is required to act only when at least half of the entries have expired and every shard holds about 40 or more',)
    QUICK = (600, 30)
    THOROUGH = (12000, 780)
    PER = 20

    def config(self, rng):
        c = config(rng)
        c['opts']['shards'] = rng.choice([1, 1, 2, 3, 5, 8])
        c['opts'].pop('autosweep', None)
        r = rng.random()
        if r < 0.4:
            c['opts']['autosweep'] = 'no'
        elif r < 0.7:
            c['opts']['autosweep'] = 'yes'
        return c

    def gen(self, rng, cfg):
        ops = []
        lifes = [rng.choice([1, 2, 10, 100, 3600]) for _ in range(3)]
        for _ in range(rng.randint(4, 22)):
            r = rng.random()
            if r < 0.4 or not ops:
                ops.append({'fill': rng.choice([1, 2, 20, 100, 300, 500, 1500]), 'life': rng.choice([0, 0] + lifes * 2), 'via': rng.choice(VIAS), 'len': rng.choice([0, 1, 5, 100, 3000])})
                if ops[-1]['len'] == 3000:
                    ops[-1]['fill'] = min(300, ops[-1]['fill'])
            elif r < 0.6:
                l = rng.choice(lifes)
                ops.append({'adv': rng.choice([l * SEC, l * SEC, l * SEC - 1, l * SEC + 1, SEC // 2, 1])})
            elif r < 0.72:
                ops.append({'sweep': rng.choice(['SWEEP', 'SWEEP', 'SWEEP FAST', 'sweep fast async', 'SWEEP ASYNC', 'Sweep async FAST']), 'pg': int(rng.random() < 0.3)})
            elif r < 0.86:
                ops.append({'wait': 1})
            else:
                ops.append({'touch': rng.randrange(1 << 20), 'n': rng.choice([1, 5, 50]), 'how': rng.choice(['set', 'setkeep', 'expire', 'append', 'del', 'nx', 'get'])})
        ops.append(rng.choice([{'wait': 1}, {'sweep': 'SWEEP', 'pg': 0}]))
        return {'ops': ops}

    def run(self, env, srv, cfg, case):
        srv.adv(rng_s(case))
        m = reset(srv)
        c = srv.conn()
        auto = cfg['opts'].get('autosweep', 'yes') == 'yes'
        cl = Clients(srv, m)
        live, dead = {}, {}      # key -> (value, deadline or 0)
        groups = {}              # bytes of a group that is unchanged
        whole = True
        info = {'nt': False, 'feats': set(), 'checks': 0}
        now = lambda: srv.ctl.get('boot')
        base = self.stats(c)
        stored = 0
        gone = False

        def expire():
            t = now()
            for k in [k for k, (v, x) in live.items() if x and x <= t]:
                dead[k] = live.pop(k)
            for g in list(groups):
                if groups[g][1] and groups[g][1] <= t:
                    del groups[g]

        def count(why, exact=False):
            expire()
            n = int(self.stats(c)['curr_items'])
            lo, hi = len(live), len(live) + (0 if exact else len(dead))
            if not auto and not exact:
                lo = hi
            if not lo <= n <= hi:
                raise Fail('%s: %d items, expected %s (%d live, %d expired)' % (why, n, lo if lo == hi else '%d to %d' % (lo, hi), len(live), len(dead)))
            info['checks'] += 1
            return n

        def reclaimed(why):
            nonlocal gone
            count(why, True)
            if dead:
                info['feats'].add('reclaimed ' + why)
                gone |= bool(live)
            dead.clear()
            if whole and not auto:
                b = int(self.stats(c)['bytes']) - int(base['bytes'])
                want = sum(x[0] for x in groups.values())
                if b != want:
                    raise Fail('%s: the entries take %d bytes, expected %d' % (why, b, want))
        try:
            for i, o in enumerate(case['ops']):
                if 'fill' in o:
                    b0 = int(self.stats(c)['bytes'])
                    x = self.fill(srv, c, cl, m, i, o, live)
                    stored += o['fill']
                    groups[i] = (int(self.stats(c)['bytes']) - b0, x)
                    count('storing')
                elif 'adv' in o:
                    srv.adv(o['adv'])
                    m.adv(o['adv'])
                    count('time passing')
                elif 'sweep' in o:
                    a = o['sweep'].encode().split()
                    alone = min(p_resp.tasks(srv) for _ in range(5) if not time.sleep(0.0005))
                    if o['pg']:
                        g = cl.pg(0).query(b' '.join(a))
                        ok = g[2] is None and g[1].upper().startswith(b'SWEEP')
                    else:
                        g = resp_call(c, *a)
                        ok = g == OK
                    if not ok:
                        raise Fail('%s is answered %s' % (o['sweep'], short(g)))
                    if b'async' in o['sweep'].lower().encode():
                        expire()
                        end = time.time() + 15
                        while (p_resp.tasks(srv) > alone or int(self.stats(c)['curr_items']) != len(live)) and time.time() < end:
                            time.sleep(0.002)
                    reclaimed(' '.join(sorted(o['sweep'].upper().split(), reverse=True)))
                elif 'wait' in o:
                    n = count('waiting')
                    full = auto and (n - len(live)) * 2 >= n and n >= 40 * int(cfg['opts']['shards'])
                    old = set(dead)
                    for r in range(300 if full else 10):
                        srv.adv(1)
                        m.adv(1)
                        self.tick(srv)
                        if full and int(self.stats(c)['curr_items']) <= len(live) + len(dead) - len(old):
                            break
                    count('background sweeps')
                    if full and len(dead) > len(old):
                        # some expired only now
                        for k in old:
                            dead.pop(k, None)
                        count('after background sweeps')
                    elif full:
                        if n > len(live):
                            info['feats'].add('rounds of the sweeper: %s' % (r if r < 3 else '3..20' if r <= 20 else 'more'))
                        reclaimed('in the background')
                else:
                    ks = sorted(live) + sorted(dead)
                    rng = random.Random(o['touch'])
                    for k in rng.sample(ks, min(o['n'], len(ks))):
                        whole = False
                        stored += self.touch(c, k, o['how'], live, dead, now())
                    count('changes')
            expire()
            r = resp_call(c, b'KEYS', b'*')
            got = sorted(x[1] for x in r[1])
            if got != sorted(live):
                raise Fail('at the end %d keys are listed, expected %d: missing %s, extra %s' % (len(got), len(live), short(sorted(set(live) - set(got))), short(sorted(set(got) - set(live)))))
            ks = list(live)
            for j in range(0, len(ks), 200):
                g = resp_call(c, b'MGET', *ks[j:j + 200])
                for k, v in zip(ks[j:j + 200], g[1]):
                    if v != ('$', live[k][0]):
                        raise Fail('at the end %s is %s, expected %s' % (short(k), short(v), short(live[k][0])))
            for k in ks[::max(1, len(ks) // 20)]:
                x = live[k][1]
                g = resp_call(c, b'PTTL', k)
                if g != (':', (x - now()) // 10**6 if x else -1):
                    raise Fail('at the end the PTTL of %s is %s' % (short(k), g))
            for k in list(dead)[:20]:
                if resp_call(c, b'GET', k) != NIL:
                    raise Fail('the expired %s is read' % short(k))
            info['checks'] += len(ks)
            t = int(self.stats(c)['total_items']) - int(base['total_items'])
            if whole and t != stored:
                raise Fail('total_items advanced by %d for %d stores' % (t, stored))
        finally:
            c.close()
            cl.close()
        info['nt'] = gone
        return info

    def fill(self, srv, c, cl, m, g, o, live):
        """-> the deadline of the group"""
        t, l = srv.ctl.get('boot'), o['life']
        x = t + l * SEC if l else 0
        v = (b'v%d.' % g * (o['len'] // 3 + 1))[:o['len']]
        ks = [b'g%d-%d' % (g, j) for j in range(o['fill'])]
        via = o['via']
        if via in ('http',) and o['fill'] > 20:
            via = 'EX'
        if via == 'http':
            for k in ks:
                st = http_call(srv, b'PUT /%s%s HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s' % (k, b'?ttl=%d' % l if l else b'', len(v), v))
                if st[0] != 200:
                    raise Fail('HTTP PUT answered %s' % short(st))
        elif via == 'mc':
            d = cl.mc(0)
            for j in range(0, len(ks), 50):
                d.send(b''.join(b'set %s 0 %d %d\r\n%s\r\n' % (k, l, len(v), v) for k in ks[j:j + 50]))
                for k in ks[j:j + 50]:
                    if d.read(mc_parse) != ('line', b'STORED'):
                        raise Fail('memcache set failed')
        elif via == 'pg':
            d = cl.pg(0)
            for k in ks:
                a = d.query(b"SET %s '%s'%s" % (k, v, b' EX %d' % l if l else b''))
                if a[2] is not None:
                    raise Fail('SET over Postgres failed: %s' % short(a))
        else:
            r = srv.ctl.get('real')
            for j in range(0, len(ks), 100):
                for k in ks[j:j + 100]:
                    if not l or via == 'EXPIRE':
                        a = [b'SET', k, v]
                    elif via == 'SETEX':
                        a = [b'SETEX', k, b'%d' % l, v]
                    elif via == 'EX':
                        a = [b'SET', k, v, b'EX', b'%d' % l]
                    elif via == 'PX':
                        a = [b'SET', k, v, b'PX', b'%d' % (l * 1000)]
                    else:
                        a = [b'SET', k, v, b'PXAT', b'%d' % (r // 10**6 + l * 1000)]
                    c.send(resp_multi(a))
                for k in ks[j:j + 100]:
                    if c.read(resp_parse) != OK:
                        raise Fail('SET failed')
                if l and via == 'EXPIRE':
                    for k in ks[j:j + 100]:
                        c.send(resp_multi([b'EXPIRE', k, b'%d' % l]))
                    for k in ks[j:j + 100]:
                        if c.read(resp_parse) != (':', 1):
                            raise Fail('EXPIRE failed')
            if l and via == 'PXAT':
                x = t + (r // 10**6 + l * 1000) * 10**6 - r
        for k in ks:
            live[k] = (v, x)
        return x

    def touch(self, c, k, how, live, dead, t):
        """-> entries stored"""
        was = live.get(k)
        if how == 'get':
            if was is None:
                return 0
            if resp_call(c, b'GET', k) != ('$', was[0]):
                raise Fail('GET %s' % short(k))
        elif how == 'del':
            g = resp_call(c, b'DEL', k)
            if g != (':', 1 if was else 0):
                raise Fail('DEL of %s entry is answered %s' % ('a live' if was else 'an expired', g))
            live.pop(k, None)
            dead.pop(k, None)
        elif how == 'expire':
            g = resp_call(c, b'EXPIRE', k, b'50')
            if g != (':', 1 if was else 0):
                raise Fail('EXPIRE of %s entry is answered %s' % ('a live' if was else 'an expired', g))
            if was:
                live[k] = (was[0], t + 50 * SEC)
            else:
                dead.pop(k, None)
        else:
            a = {'set': [b'SET', k, b'again', b'EX', b'20'], 'setkeep': [b'SET', k, b'again', b'KEEPTTL'], 'nx': [b'SET', k, b'again', b'NX'], 'append': [b'APPEND', k, b'+']}[how]
            g = resp_call(c, *a)
            if how == 'append':
                v = (was[0] if was else b'') + b'+'
                if g != (':', len(v)):
                    raise Fail('APPEND is answered %s' % short(g))
                live[k] = (v, was[1] if was else 0)
            elif how == 'nx':
                if g != (NIL if was else OK):
                    raise Fail('SET NX of %s entry is answered %s' % ('a live' if was else 'an expired', short(g)))
                if was:
                    return 0
                live[k] = (b'again', 0)
            else:
                if g != OK:
                    raise Fail('SET is answered %s' % short(g))
                live[k] = (b'again', t + 20 * SEC if how == 'set' else was[1] if was else 0)
            dead.pop(k, None)
            return 1
        return 0

    def tick(self, srv):
        t = srv.ctl.get('ticks')
        end = time.time() + 20
        while srv.ctl.get('ticks') < t + 2:
            time.sleep(0.0004)
            if time.time() > end:
                srv.check()
                raise Fail('the background threads no longer run')

    def stats(self, c):
        return {x[1][0][1].decode(): x[1][1][1].decode() for x in resp_call(c, b'STATS')[1]}


def rng_s(case):
    """Another time of day for each case."""
    return random.Random(repr(case)).randrange(1, SEC)
