"""C30: the statistics equal what the replies imply."""
from harness import Prop
from multi import *
import private

COUNT = ('cmd_get cmd_set cmd_flush cmd_touch get_hits get_misses delete_hits delete_misses incr_hits incr_misses decr_hits decr_misses touch_hits touch_misses '
         'store_too_large store_no_memory auth_cmds auth_errors').split()
NUMERIC = COUNT + 'max_connections curr_connections total_connections rejected_connections threads bytes curr_items total_items'.split()


def read_stats(cl, pr):
    if pr == 'resp':
        r = resp_call(cl.side(), b'STATS')
        if r[0] != '*' or any(x[0] != '*' or len(x[1]) != 2 or x[1][0][0] != '$' or x[1][1][0] != '$' for x in r[1]):
            raise Fail('STATS answered %s' % short(r))
        l = [(x[1][0][1], x[1][1][1]) for x in r[1]]
    elif pr == 'mc':
        c = cl.mc(0)
        c.send(b'stats\r\n')
        r = c.read(mc_parse)
        if r[0] != 'stats':
            raise Fail('stats answered %s' % short(r))
        l = r[1]
    else:
        rows, tag, err, empty, cols = cl.pg(0).query(b'STATS')
        if err or rows is None or tag != b'STATS %d' % len(rows) or any(len(x) != 2 for x in rows):
            raise Fail('STATS answered %s %s %s' % (short(rows), tag, err))
        l = [tuple(x) for x in rows]
    d = dict((k.decode(), v) for k, v in l)
    if len(d) != len(l):
        raise Fail('a statistic is listed twice: %s' % short(l))
    for n in NUMERIC:
        if n not in d or not d[n].isdigit():
            raise Fail('statistic %s is %s' % (n, d.get(n)))
    return {n: int(d[n]) for n in NUMERIC}, sorted(d)


class PROP(Prop):
    ID = 'C30'
    RULE = ('one case is a history of 10 to 60 requests in RESP, Postgres, memcache and HTTP on 2-5 keys, with STATS read in a random protocol at 2-6 quiescent points and compared with counts kept by the reference model; a fifth begin with 2-6 pipelined sessions on private keys, run alone and then at once, whose counts must agree; at the end the stored bytes figure is '
            'compared with that of the same contents stored afresh in another order; non-trivial when at least six different counters advanced')
    ASSUME = ('figures kept per worker thread are summed a moment after a reply is sent, so a differing figure is read again for up to two seconds',
              'a TTL query counts as a get hit or miss but not as a get, and failed increments count as neither hit nor miss, as implemented')
    QUICK = (1000, 34)
    THOROUGH = (20000, 780)
    PER = 25

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = [k for k in hpool(rng, rng.randint(2, 5)) if k != 'noreply']
        ops = []
        for _ in range(rng.randint(10, 60)):
            r = rng.random()
            if r < 0.05:
                ops.append({'t': deadline(rng)})
            elif r < 0.11:
                ops.append({'stats': rng.choice(['resp', 'resp', 'mc', 'pg'])})
            elif r < 0.15:
                ops.append({'auth': rng.choice([['AUTH'], ['AUTH', 'x'], ['AUTH', 'a', 'b'], ['AUTH', 'a', 'b', 'c']])})
            elif r < 0.17:
                # answered by nothing at all: seen by their effect only
                l = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    k = rng.choice(pool)
                    l.append({'w': rng.choice([['delete', k], ['incr', k, '3'], ['decr', k, '1'], ['touch', k, '5000']]), 'nr': 1} if rng.random() < 0.7 else {'w': ['set', k, '1', '0'], 'd': '44', 'nr': 1})
                ops.append({'quiet': l, 'end': rng.choice(['keep', 'keep', 'close', 'quit', 'shut'])})
            elif r < 0.19:
                ops.append({'large': rng.choice(['mc', 'http'])})
            elif r < 0.3:
                # counters and touches deserve more than their usual share
                k = rng.choice(pool)
                ops.append(rng.choice([{'pr': 'mc', 'i': 0, 'w': ['touch', k, '100']}, {'pr': 'mc', 'i': 0, 'w': ['incr', k, '1']}, {'pr': 'mc', 'i': 0, 'w': ['decr', k, '1']}, {'pr': 'resp', 'i': 1, 'a': ['TOUCH', k, k, 'nokey']},
                                       {'pr': 'resp', 'i': 0, 'a': ['SET', k, '5']}, {'pr': 'resp', 'i': 0, 'a': ['DECRBY', k, '2']}, {'pr': 'mc', 'i': 1, 'w': ['set', k, '0', '0'], 'd': '7'}, {'pr': 'mc', 'i': 0, 'w': ['get', k, k, pool[0]]}]))
            else:
                while True:
                    o = op_for(rng, rng.choice(PROTOS), pool, False)
                    if 'raw' in o:
                        continue
                    break
                ops.append(o)
        storm = {'n': rng.choice([2, 4, 6]), 'len': rng.choice([50, 200, 500]), 's': rng.randrange(1 << 30)} if rng.random() < 0.2 else None
        return {'pool': pool, 'ops': ops, 'storm': storm, 'last': rng.choice(['resp', 'mc', 'pg']), 'sh': rng.randrange(1 << 30), 'bytes': int(rng.random() < 0.3)}

    def expect(self, m, st, extra):
        return {n: m.st.get(n, 0) + extra.get(n, 0) for n in COUNT}

    def check(self, srv, m, cl, base, extra, pr, info, prev):
        end = time.time() + 2
        while True:
            cur, names = read_stats(cl, pr)
            want = self.expect(m, base, extra)
            bad = {n: (cur[n] - base[n], want[n]) for n in COUNT if cur[n] - base[n] != want[n]}
            for n in COUNT + ['total_connections', 'rejected_connections', 'total_items']:
                if cur[n] < prev.get(n, 0):
                    raise Fail('%s went from %d to %d' % (n, prev[n], cur[n]))
            prev.update(cur)
            if not bad:
                break
            if any(cur[n] - base[n] > want[n] for n in bad) or time.time() > end:
                raise Fail('STATS differ from what the replies imply (counted, expected): %s' % bad)
            time.sleep(0.002)
        m.purge()
        info['checks'] += 1
        if not len(m.d) <= cur['curr_items'] <= len(m.d) + len(m.dead):
            raise Fail('curr_items is %d with %d live and up to %d expired entries' % (cur['curr_items'], len(m.d), len(m.dead)))
        if cur['total_items'] - base['total_items'] != m.total:
            raise Fail('total_items advanced by %d for %d new items' % (cur['total_items'] - base['total_items'], m.total))
        if (cur['bytes'] > 0) != (cur['curr_items'] > 0):
            raise Fail('bytes is %d with %d items' % (cur['bytes'], cur['curr_items']))
        least = sum(len(e.val) for e in m.d.values())
        if cur['bytes'] < least:
            raise Fail('bytes is %d while the values alone have %d' % (cur['bytes'], least))
        if cur['threads'] != int(srv.opts['threads']):
            raise Fail('threads is %d' % cur['threads'])
        return cur, names

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        extra, kept = {}, []
        try:
            if case.get('storm'):
                self.storm(srv, cl, case['storm'], info)
            time.sleep(0.002)
            prev = {}
            end = time.time() + 2
            base, _ = read_stats(cl, 'resp')
            # the flush of the reset and earlier cases must have been summed
            for _ in range(3):
                time.sleep(0.002)
                base, _ = read_stats(cl, 'resp')
            m.total = 0
            names = None
            for o in case['ops']:
                if 't' in o:
                    srv.adv(o['t'])
                    m.adv(o['t'])
                elif 'stats' in o:
                    _, nn = self.check(srv, m, cl, base, extra, o['stats'], info, prev)
                    if names is not None and nn != names:
                        raise Fail('the protocols list different statistics: %s' % short(sorted(set(nn) ^ set(names))))
                    names = nn
                    info['feats'].add('stats over ' + o['stats'])
                elif 'auth' in o:
                    a = [x.encode() for x in o['auth']]
                    r = resp_call(cl.resp(0), *a)
                    if r[0] != '-':
                        raise Fail('%s answered %s' % (a, r))
                    extra['auth_cmds'] = extra.get('auth_cmds', 0) + 1
                    extra['auth_errors'] = extra.get('auth_errors', 0) + 1
                elif 'quiet' in o:
                    self.quiet(srv, m, cl, o, kept)
                    info['feats'].add('noreply only, ' + o['end'])
                elif 'large' in o:
                    self.large(srv, o['large'])
                    extra['store_too_large'] = extra.get('store_too_large', 0) + 1
                else:
                    cl.do(o)
            cur, _ = self.check(srv, m, cl, base, extra, case['last'], info, prev)
            moved = [n for n in COUNT if cur[n] != base[n]]
            info['feats'] |= set(moved)
            info['nt'] = len(moved) >= 6
            if case['bytes']:
                self.fresh(srv, m, cl, case, info)
            for c in kept:
                d = c.pending()
                if d:
                    raise Fail('a noreply command was answered %s' % short(d))
        finally:
            for c in kept:
                c.close()
            cl.close()
        return info

    def storm(self, srv, cl, o, info):
        """Sessions on private keys count the same at once as one after the other."""
        names = COUNT + ['total_items']
        ss = private.sessions(o['s'], o['n'], o['len'])

        def settled():
            cur, n = None, 0
            while n < 3:
                time.sleep(0.003)
                new, _ = read_stats(cl, 'resp')
                new = [new[x] for x in names]
                n = n + 1 if new == cur else 0
                cur = new
            return cur

        def delta(run, want=None):
            private.clean(srv, cl.side(), o['n'])
            a = settled()
            out = run(srv, ss)
            end = time.time() + 2
            while True:
                b = settled()
                d = [y - x for x, y in zip(a, b)]
                # figures are summed late: what is missing may still come
                if want is None or all(x >= y for x, y in zip(d, want)) or time.time() > end:
                    return out, d
        d0 = None
        for _ in range(8):
            r1, d1 = delta(private.alone)
            if d1 == d0:
                break
            d0 = d1
        else:
            return
        over = 0
        for _ in range(4):
            r2, d2 = delta(private.together, d1)
            private.compare(ss, r1, r2)
            if d2 != d1:
                # too much may be from before, so it must be seen again
                over += 1
                if over == 3 or any(x < y for x, y in zip(d2, d1)):
                    raise Fail('the statistics of %d sessions are (alone, at once): %s' % (len(ss), {n: (x, y) for n, x, y in zip(names, d1, d2) if x != y}))
        private.clean(srv, cl.side(), o['n'])
        info['feats'].add('sessions at once')
        info['checks'] += 3

    def quiet(self, srv, m, cl, o, kept):
        k = b'quiet%d' % len(m.d)
        while m.live(k):
            k += b'x'
        b = b''
        for x in o['quiet'] + [{'w': ['set', k.decode(), '0', '0'], 'd': 'q', 'nr': 1}]:
            b += mc_bytes(x, m)
            mc_model(m, x)
        c = srv.conn(cl.kinds[0])
        c.send(b + (b'quit\r\n' if o['end'] == 'quit' else b''))
        if o['end'] == 'close':
            c.close()
        elif o['end'] == 'shut':
            c.s.shutdown(socket.SHUT_WR)
        end = time.time() + 10
        while resp_call(cl.side(), b'KEYS', k) == ('*', []):
            if time.time() > end:
                raise Fail('%s has no effect' % short(b))
            time.sleep(0.001)
        if o['end'] in ('quit', 'shut'):
            d = c.read_eof()
            if d:
                raise Fail('%s was answered %s' % (short(b), short(d)))
        if o['end'] == 'keep':
            kept.append(c)
        else:
            c.close()

    def large(self, srv, pr):
        c = srv.conn()
        if pr == 'mc':
            c.send(b'set k 0 0 536870913\r\n')
            r = c.read(mc_parse)
            if not mc_same(ERRL, r):
                raise Fail('an oversized item was answered %s' % short(r))
            c.close()
        elif pr == 'http':
            r = http_call(srv, b'PUT /k HTTP/1.1\r\nContent-Length: 536870913\r\n\r\n')
            if not 400 <= r[0] <= 599:
                raise Fail('an oversized body was answered %s' % short(r))
        else:
            c.send(b'*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$536870913\r\n')
            r = c.read(resp_parse)
            if r[0] != '-':
                raise Fail('an oversized argument was answered %s' % short(r))
            c.close()

    def fresh(self, srv, m, cl, case, info):
        """The bytes figure depends on the contents, not on their history."""
        if resp_call(cl.side(), b'SWEEP') != OK:
            raise Fail('SWEEP failed')
        m.purge()
        m.dead = {}
        a, _ = read_stats(cl, 'resp')
        ents = [(k, e) for k, e in m.d.items() if not e.exp or e.exp - m.boot > 10**9]
        if len(ents) != len(m.d):
            return
        if resp_call(cl.side(), b'FLUSHALL') != OK:
            raise Fail('FLUSHALL failed')
        z, _ = read_stats(cl, 'resp')
        if z['bytes'] or z['curr_items']:
            raise Fail('bytes is %d and curr_items %d after FLUSHALL' % (z['bytes'], z['curr_items']))
        random.Random(case['sh']).shuffle(ents)
        for k, e in ents:
            c = [b'SET', k, e.val, b'FLAGS', b'%d' % e.flags]
            if e.exp:
                c += [b'PX', b'100000000']
            if resp_call(cl.side(), *c) != OK:
                raise Fail('%s failed' % short(c))
        b, _ = read_stats(cl, 'resp')
        info['feats'].add('bytes compared')
        info['checks'] += 1
        if a['bytes'] != b['bytes'] or b['curr_items'] != len(ents):
            raise Fail('bytes is %d after the history and %d for the same contents stored afresh (%d items)' % (a['bytes'], b['bytes'], len(ents)))
