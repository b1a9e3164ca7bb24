"""C22: counters are exact 64-bit arithmetic in every protocol."""
from harness import Prop
from multi import *

EDGES = [0, 2**31, 2**32, 2**53, 10**18, 10**19, 2**62, 2**63, 2**64, 99, 999999999, 10**9, 10**10]


def edge(rng):
    r = rng.random()
    if r < 0.6:
        n = rng.choice(EDGES) + rng.choice([0, 0, 1, -1, 2, -2, 10, -10, rng.randint(-100, 100)])
        return -n if rng.random() < 0.35 else n
    if r < 0.75:
        return rng.randint(-200, 200)
    if r < 0.9:
        return rng.randint(-2**63, 2**63)
    return rng.randint(0, 2**64)


def junk(rng):
    n = str(edge(rng))
    i = rng.randrange(len(n) + 1)
    return rng.choice(['', ' ', '-', '--1', 'x', n + ' ', ' ' + n, n + '\0', n + 'x', 'x' + n, n + '.0', n + 'e1', n[:i] + rng.choice(' .,_x\0-/:') + n[i:] if 0 < i < len(n) else n + ':', '0x1f', 'inf', '1' * 22, '-' + '9' * 25, '9' * 40,
                       n + '\n', '\xff', n + '-', '1e3', '1,000'])


def num_text(rng):
    return str(edge(rng)) if rng.random() < 0.82 else junk(rng)


class PROP(Prop):
    ID = 'C22'
    RULE = ('one case is a history of 8 to 60 counter commands in RESP, Postgres and memcache on 1-3 keys holding numbers dense around 0, 2^31, 2^32, 2^53, 10^18, 2^63 and 2^64 (with flags and lifetimes) or near-numbers, with deltas that step over the '
            'limits; every reply and the stored text, flags and lifetime are compared with exact integer arithmetic; non-trivial when at least two counter commands succeeded and at least one was rejected')
    ASSUME = ('spellings whose meaning the documentation leaves open (leading zeros, an explicit plus sign) are not generated',)
    QUICK = (2000, 32)
    THOROUGH = (30000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = [k for k in mcpool(rng, rng.randint(1, 3)) if pgsafe(k)] or ['k']
        ops = []
        cur = {}
        for _ in range(rng.randint(8, 60)):
            k = rng.choice(pool)
            r = rng.random()
            pr = rng.choice(['resp', 'resp', 'mc', 'pg'])
            base = {'pr': pr, 'i': rng.randrange(2)}
            if pr == 'pg':
                base.update(s=rng.randrange(1 << 30), x=int(rng.random() < 0.5))
            if r < 0.16:
                v = num_text(rng)
                cur[k] = v
                if pr == 'mc':
                    ops.append(dict(base, w=['set', k, rng.choice(['0', '7', '4294967295']), rng.choice(['0', '100'])], d=v))
                else:
                    ops.append(dict(base, a=['SET', k, v] + rng.choice([[], ['FLAGS', '77'], ['EX', '100'], ['PX', '1500', 'FLAGS', '1']])))
            elif r < 0.2:
                ops.append({'t': rng.choice([1, 10**9, 10**11])})
            elif r < 0.25:
                ops.append({'look': k})
            elif r < 0.28:
                ops.append(dict(base, w=['delete', k]) if pr == 'mc' else dict(base, a=['DEL', k]))
            elif r < 0.3:
                ops.append(dict(base, w=['get', k]) if pr == 'mc' else dict(base, a=[rng.choice(['APPEND', 'PREPEND']), k, rng.choice(['0', '1', '-', '9', ' '])]))
            else:
                # a delta, often the one that lands on a limit
                d = num_text(rng)
                try:
                    c = int(cur.get(k, '0'))
                    if rng.random() < 0.4:
                        lim = rng.choice([2**63 - 1, 2**64 - 1, -2**63, 0, 2**64])
                        d = str(abs(lim - c) + rng.choice([0, 1, -1]))
                        if d[0] == '-' and pr == 'mc':
                            d = '0'
                except ValueError:
                    pass
                if pr == 'mc':
                    if not d or any(ord(x) <= 32 or x == '\x7f' for x in d):
                        d = '1'
                    o = dict(base, w=[rng.choice(['incr', 'decr']), k, d])
                    if rng.random() < 0.15:
                        o['nr'] = 1
                    ops.append(o)
                else:
                    n = rng.choice(['', 'U']) + rng.choice(['INCR', 'DECR'])
                    a = [word(rng, n), k] if rng.random() < 0.25 else [word(rng, n + 'BY'), k, d]
                    if pr == 'pg':
                        a = [x.replace('\0', '0') for x in a]
                    ops.append(dict(base, a=a))
        return {'pool': pool, 'ops': ops}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        good = bad = 0
        try:
            for o in case['ops']:
                info['checks'] += 1
                if 't' in o:
                    srv.adv(o['t'])
                    m.adv(o['t'])
                    continue
                if 'look' in o:
                    cl.look(B(o['look']), ('resp', 'mc'))
                    continue
                exp, got = cl.do(o)
                name = (o.get('a') or o['w'])[0].lower()
                if 'incr' in name or 'decr' in name:
                    info['feats'].add('%s %s' % (o['pr'], name))
                    if exp == ERR or exp in (BADDELTA, NONNUM) or exp == L('NOT_FOUND'):
                        bad += 1
                        info['feats'].add('rejected by ' + o['pr'])
                    else:
                        good += 1
                    k = B((o.get('a') or o['w'])[1])
                    e = m.live(k)
                    r = resp_call(cl.side(), b'MGETS', k)
                    want = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)])]) if e else ('*', [NIL])
                    if not same(want, r):
                        raise Fail('after %s the entry is %s, expected %s' % (short(o), short(r), short(want)))
            for k in case['pool']:
                cl.look(B(k), ('resp', 'mc'))
        finally:
            cl.close()
        info['nt'] = good >= 2 and bad >= 1
        return info


def pgsafe(k):
    return k != 'noreply'
