"""C13: RESP commands against the reference model."""
import os
from harness import Prop
from gen import *

TIMES = ['1', '2', '3', '10', '60', '3600', '86400', '100000000', '9223372036854775807', '9223372036', '9223372037', '0', '-1', 'abc', '', '1.5', '9223372036854775808', '1e3', '-9223372036854775808']


def set_opts(rng, k):
    o = []
    r = rng.random()
    if r < 0.3:
        u = rng.choice(['EX', 'PX', 'EXAT', 'PXAT'])
        t = rng.choice(TIMES)
        if u.endswith('AT') and rng.random() < 0.8:
            t = str((T_REAL // SEC + rng.choice([-5, 0, 1, 2, 10, 1000])) * (1 if u[0] == 'E' else 1000) + (rng.randint(0, 999) if u[0] == 'P' else 0))
        o.append([word(rng, u), t])
    elif r < 0.4:
        o.append([word(rng, 'KEEPTTL')])
    r = rng.random()
    if r < 0.15:
        o.append([word(rng, 'NX')])
    elif r < 0.3:
        o.append([word(rng, 'XX')])
    elif r < 0.42:
        o.append([word(rng, 'CAS'), rng.choice([{'cas': 0}, {'cas': 0}, {'cas': 1}, {'cas': 'stale'}, {'cas': -1}])])
    if rng.random() < 0.2:
        o.append([word(rng, 'GET')])
    if rng.random() < 0.25:
        o.append([word(rng, 'FLAGS'), rng.choice(['0', '1', '77', '4294967295', '2147483648', 'x', '-1', ''])])
    if rng.random() < 0.06:
        o.append([rng.choice(['BOGUS', 'EX', 'NX', 'XX', 'FLAGS', 'PX', 'CAS', 'KEEPTTL', ''])])
    rng.shuffle(o)
    return [x for y in o for x in y]


def command(rng, pool, debug=True, bg=False):
    k = lambda: rng.choice(pool)
    w = lambda s: word(rng, s)
    r = rng.random()
    if r < 0.3:
        kk = k()
        return [w('SET'), kk, value(rng)] + set_opts(rng, kk)
    if r < 0.34:
        return [w('SETEX'), k(), rng.choice(TIMES), value(rng)]
    if r < 0.46:
        return [w('GET'), k()]
    if r < 0.52:
        return [w(rng.choice(['MGET', 'MGETS']))] + [k() for _ in range(rng.randint(1, 6))]
    if r < 0.58:
        return [w('DEL')] + [k() for _ in range(rng.randint(1, 3))]
    if r < 0.62:
        return [w('EXISTS')] + [k() for _ in range(rng.randint(1, 3))]
    if r < 0.68:
        return [w(rng.choice(['TTL', 'PTTL'])), k()]
    if r < 0.73:
        return [w('EXPIRE'), k(), rng.choice(TIMES)]
    if r < 0.75:
        return [w('TOUCH')] + [k() for _ in range(rng.randint(1, 3))]
    if r < 0.81:
        return [w(rng.choice(['APPEND', 'PREPEND'])), k(), value(rng, big=False)]
    if r < 0.9:
        n = rng.choice(['', 'U']) + rng.choice(['INCR', 'DECR'])
        if rng.random() < 0.5:
            return [w(n), k()]
        return [w(n + 'BY'), k(), rng.choice(NUMS + ['x', '', '1 ', ' 1', '1.0', '0x10', '--1', '-'])]
    if r < 0.915:
        return [w('DBSIZE')]
    if r < 0.925:
        return [w(rng.choice(['FLUSHALL', 'FLUSHDB', 'FLUSH']))] + rng.choice([[], [], [], [w('SYNC')], [w('FAST')], [w('FAST')], [w('SYNC'), w('FAST')], [w('ASYNC'), w('SYNC')], [w('ASYNC' if bg else 'SYNC')], [w('FAST'), w('ASYNC' if bg else 'SYNC')], [w('DELAY'), '0'], [w('FAST'), w('DELAY'), '00'],
                                                                           [w('DELAY')], [w('DELAY'), '-1'], [w('DELAY'), 'x'], [w('DELAY'), '31536001'], [w('FAS')], ['', w('FAST')]])
    if r < 0.935:
        return [w('SWEEP')] + [w('FAST')] * (rng.random() < 0.3) + [w('ASYNC')] * (bg and rng.random() < 0.2)
    if r < 0.94:
        return [w('PURGE')] + [w('ASYNC')] * (bg and rng.random() < 0.2)
    if r < 0.95:
        return [w('ECHO'), value(rng)]
    if r < 0.96:
        return [w('PING')] + ([value(rng)] if rng.random() < 0.5 else [])
    if r < 0.965:
        return [w('KEYS'), rng.choice(['*', '?', 'a*', '*a', '\\*', ''])]
    if r < 0.968 and debug:
        return [w('DEBUG'), w('POPULATE'), rng.choice(['0', '1', '3', '8', '17', '20', '-1', 'x']), rng.choice(['p', '', rng.choice([x for x in pool if not isinstance(x, dict) and len(x) <= 200] or ['q'])]), rng.choice(['0', '1', '5', '300', '-1'])] + ([rng.choice(['x', '1', '5-5', '5-4', '-'])] if rng.random() < 0.2 else [])
    if r < 0.97:
        return [w('SELECT'), rng.choice(['0', '1', 'x'])]
    # wrong numbers of arguments and unknown commands
    c = rng.choice(['SET', 'SETEX', 'GET', 'MGET', 'MGETS', 'DEL', 'EXISTS', 'TTL', 'PTTL', 'EXPIRE', 'TOUCH', 'APPEND', 'INCR', 'INCRBY', 'UDECRBY', 'ECHO', 'PING', 'DBSIZE',
                    'KEYS', 'FLUSHALL', 'SWEEP', 'NOSUCH', 'GETX', 'SE', '', 'SETEXX', 'PURGE', 'FLUSHALL\0', 'A' * 300, 'MGETSX', 'BO\r\nGUS', 'NO\n+OK\r', '\r\n$1\r\nx', 'A\tB\x1f', '\x7f\x80'])
    n = rng.choice([0, 1, 1, 2, 3, 4, 5])
    a = [c] + [rng.choice(pool + ['x', '5']) for _ in range(n)]
    if c == 'EXPIRE' and n > 2:
        a = a[:3]
    return a


def is_async(a):
    x = [v.lower() for v in a[1:] if v.lower() in (b'async', b'sync')]
    return bool(x) and x[-1] == b'async'


def tasks(srv):
    return len(os.listdir('/proc/%d/task' % srv.proc.pid))


class PROP(Prop):
    ID = 'C13'
    RULE = ('one case is a history of 5 to 60 RESP commands over 1-3 connections on 3-8 keys with clock advances; non-trivial when at least four commands '
            'succeeded on keys and at least one read returned a value that an earlier command of the same history wrote')
    ASSUME = ('the reference model in server/model.py states the documented meaning of the commands', 'time is the virtual clock of the interposed clock_gettime')
    QUICK = (900, 30)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = keypool(rng) + (['p:0', 'p:2'] if rng.random() < 0.3 else [])
        ops = []
        nc = rng.randint(1, 3)
        for _ in range(rng.randint(5, 60)):
            r = rng.random()
            if r < 0.06:
                ops.append({'t': deadline(rng), 'rt': rng.random() < 0.1})
            elif r < 0.08:
                ops.append({'n': rng.randrange(nc)})
            else:
                op = {'c': rng.randrange(nc), 'a': command(rng, pool, bg=True)}
                if rng.random() < 0.3:
                    op['p'] = 1
                if rng.random() < 0.25:
                    op['i'] = rng.randrange(1000)
                ops.append(op)
        return {'nc': nc, 'ops': ops}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        kinds = ['tcp', 'unix'] if srv.tcp else ['unix']
        conns = [srv.conn(kinds[i % len(kinds)]) for i in range(case['nc'])]
        queue, out = [], bytearray()
        info = {'nt': False, 'feats': set(), 'checks': 0}
        good = hits = 0

        def drain():
            nonlocal good, hits
            if not queue:
                return
            cur.send(bytes(out))
            out.clear()
            for a, exp in queue:
                got = cur.read(resp_parse)
                info['checks'] += 1
                if not same(exp, got):
                    raise Fail('%s answered %s, expected %s' % (short(a), short(got), short(exp)))
                if got[0] != '-' and len(a) > 1:
                    good += 1
                if got[0] == '-':
                    info['feats'].add('error')
                elif a[0].upper() in (b'GET', b'MGET', b'MGETS') and got[1]:
                    hits += 1
                info['feats'].add(a[0].upper().decode('latin1')[:10])
            queue.clear()

        cur = conns[0]
        try:
            for op in case['ops']:
                if 't' in op:
                    drain()
                    srv.adv(op['t'], -op['t'] if op.get('rt') else None)
                    m.adv(op['t'], -op['t'] if op.get('rt') else None)
                    continue
                if 'n' in op:
                    drain()
                    i = op['n']
                    same_ = cur is conns[i]
                    conns[i].close()
                    conns[i] = srv.conn(kinds[i % len(kinds)])
                    if same_:
                        cur = conns[i]
                    continue
                c = conns[op['c']]
                if c is not cur:
                    drain()
                    cur = c
                a = []
                for x in op['a']:
                    if isinstance(x, dict) and 'cas' in x:
                        drain()
                        k = B(op['a'][1])
                        learn_cas(srv, m, k, cur)
                        a.append(b'%d' % cas_arg(m, k, x))
                    else:
                        a.append(B(x))
                exp = m.execute(a)
                if exp is None:
                    continue
                enc = None
                if 'i' in op:
                    enc = resp_inline(a, random.Random(op['i']))
                    if enc is not None:
                        info['feats'].add('inline')
                bg = a[0].lower() in (b'flushall', b'flushdb', b'flush', b'sweep', b'purge') and exp == OK and is_async(a)
                if bg:
                    drain()
                    base = min(tasks(srv) for _ in range(20) if not time.sleep(0.001))
                queue.append((a, exp))
                out += enc or resp_multi(a)
                if bg:
                    # answered at once, carried out soon: no thread is left and, for a flush, nothing is stored
                    drain()
                    info['feats'].add('async')
                    t = time.time()
                    while tasks(srv) > base or a[0].lower().startswith(b'flush') and resp_call(cur, b'DBSIZE') != (':', 0):
                        srv.check()
                        if time.time() - t > 20:
                            raise Fail('%s is not done after 20 s' % short(a))
                        time.sleep(0.001)
                if not op.get('p') or len(queue) > 30:
                    drain()
                else:
                    info['feats'].add('pipelined')
            drain()
            # the state at the end is the model's
            m.purge()
            for k, e in list(m.d.items()):
                r = resp_call(cur, b'MGETS', k)
                exp = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)])])
                if not same(exp, r):
                    raise Fail('at the end %s holds %s, expected %s' % (short(k), short(r), short(exp)))
                t = resp_call(cur, b'PTTL', k)
                if t != (':', (e.exp - m.boot) // 10**6 if e.exp else -1):
                    raise Fail('at the end the PTTL of %s is %s' % (short(k), t))
                info['checks'] += 2
            r = resp_call(cur, b'KEYS', b'*')
            if r[0] != '*' or sorted(r[1]) != sorted(('$', k) for k in m.d):
                raise Fail('at the end KEYS * is %s, expected %s' % (short(r), short(list(m.d))))
            for c in conns:
                rest = c.pending()
                if rest:
                    raise Fail('unexpected extra bytes %s' % short(rest))
        finally:
            for c in conns:
                c.close()
        info['nt'] = good >= 4 and hits >= 1
        return info
