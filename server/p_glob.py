"""C23: KEYS and SCAN find exactly the matching live keys."""
from harness import Prop
from multi import *


def pattern(rng, keys):
    r = rng.random()
    if r < 0.12:
        return rng.choice(['*', '', '?', '**', '*?', '?*', '*?*', '\\*', '\\?', '\\', '*\\', 'a\\', '\\\\', '*\\\\*', '[a]*', '[^a]', '??', '*a*b*', '*\\**', '\\a*', '***a', '?' * 16, '*' * 30 + 'q', '*a' * 12])
    k = rng.choice(keys)
    p = []
    i = 0
    dens = rng.choice([0.05, 0.2, 0.5, 0.9])
    while i < len(k):
        x = rng.random()
        c = k[i]
        if x < dens * 0.5:
            p.append('*')
            i += rng.choice([0, 1, 1, 2, 5, 100])
        elif x < dens:
            p.append('?')
            i += 1
        else:
            p.append('\\' + c if c in '*?\\' and rng.random() < 0.8 or rng.random() < 0.05 else c)
            i += 1
    if rng.random() < 0.2:
        p.append(rng.choice(['*', '?', '\\', 'x', '**', '\\x']))
    if rng.random() < 0.15 and p:
        del p[rng.randrange(len(p))]
    if rng.random() < 0.1:
        p.insert(0, rng.choice('*?'))
    return ''.join(p)


def gkey(rng, keys):
    r = rng.random()
    if r < 0.35 and keys:
        k = rng.choice(keys)
        i = rng.randrange(len(k) + 1)
        return rng.choice([k + rng.choice('ab*?\\'), k[:i] + rng.choice('ab*?\\\0\xff') + k[i:], k[:i] + k[i + 1:], k[i:] + k[:i], k.swapcase() if k.isascii() else k])
    if r < 0.6:
        return alpha_str(rng, rng.randint(1, 8), 'ab')
    if r < 0.75:
        return alpha_str(rng, rng.randint(1, 8), 'ab*?\\[]-^')
    if r < 0.8:
        return ''
    if r < 0.85:
        return alpha_str(rng, rng.choice([127, 128, 129, 250, 170, 171, 1000]), 'ab_')
    return key(rng)


BIGN = [127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1 << 24, 1 << 30, 2147483646, 2147483647]


class PROP(Prop):
    ID = 'C23'
    RULE = ('one case stores 0 to 2000 keys (some expired, deleted or overwritten), then asks KEYS and walks SCAN with generated patterns, counts and cursors in RESP and Postgres and compares with the set given by a reference matcher; '
            'non-trivial when some pattern matched at least one key and missed at least one')
    ASSUME = ('the glob language is *, ? and backslash escapes, as implemented; a pattern ending in a lone backslash matches nothing',
              'during a SCAN walk nothing is stored, deleted or swept (entries may expire)')
    QUICK = (800, 34)
    THOROUGH = (20000, 780)
    LISTS = ('keys', 'q')

    def config(self, rng):
        c = config(rng)
        if rng.random() < 0.5:
            c['opts']['shards'] = rng.choice([1, 2, 5, 64])
        return c

    def gen(self, rng, cfg):
        keys = []
        n = rng.choice([rng.randint(0, 30), rng.randint(10, 200), rng.randint(100, 2000) if rng.random() < 0.3 else 5])
        big = n > 200
        while len(keys) < n:
            k = 'k%d' % len(keys) if big and rng.random() < 0.8 else gkey(rng, [x[0] for x in keys[-20:]])
            keys.append([k, rng.choices([0, 1, 2, 3, 4], [12, 2, 2, 1, 1])[0]])
        q = []
        names = [k[0] for k in keys] or ['a']
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            o = {'p': pattern(rng, names), 'pr': rng.choice(['resp', 'resp', 'pg'])}
            if r < 0.45:
                o['k'] = 'keys'
            elif r < 0.85:
                o['k'] = 'walk'
                if rng.random() < 0.3:
                    o['p'] = None
                o['n'] = rng.choice([1, 2, 3, 7, 10, 50, 100, 1000, None, rng.choice(BIGN)]) if len(keys) < 200 else rng.choice([7, 50, 99, 100, 101, 1000, None, rng.choice(BIGN)])
                if rng.random() < 0.2:
                    o['t'] = 1
            elif r < 0.95:
                o['k'] = 'cur'
                o['c'] = str(rng.choice([0, 1, 2**32, 2**32 - 1, 2**63, 2**64 - 1, rng.randrange(2**64), rng.randrange(5000), rng.randrange(2**32) << 32, rng.randrange(100) << 32, 2**16, 1 << 48]))
                o['n'] = rng.choice([1, 10, 100000, rng.choice(BIGN)])
            else:
                o['k'] = 'bad'
                o['a'] = rng.choice([['SCAN'], ['SCAN', 'x'], ['SCAN', '-1'], ['SCAN', '0', 'COUNT'], ['SCAN', '0', 'COUNT', '0'], ['SCAN', '0', 'COUNT', '-1'], ['SCAN', '0', 'MATCH'], ['SCAN', '0', 'BOGUS', 'x'],
                                     ['SCAN', '0', 'TYPE', 'hash'], ['SCAN', '18446744073709551616'], ['KEYS'], ['KEYS', 'a', 'b'], ['SCAN', ''], ['SCAN', '0', 'COUNT', 'x'], ['SCAN', '0', 'TYPE']])
            q.append(o)
        return {'keys': keys, 'q': q}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        try:
            c = cl.resp(0)
            cmds = []
            for k, f in case['keys']:
                k = B(k)
                if f == 1:
                    cmds.append([b'SET', k, b'v', b'PX', b'10'])
                elif f == 2:
                    cmds.append([b'SET', k, b'v' * (len(k) * 7 % 300), b'EX', b'100'])
                elif f == 3:
                    cmds += [[b'SET', k, b''], [b'DEL', k]]
                elif f == 4:
                    cmds += [[b'SET', k, b'1'], [b'SET', k, b'22', b'KEEPTTL']]
                else:
                    cmds.append([b'SET', k, b'v'])
            c.send(b''.join(resp_multi(a) for a in cmds))
            for a in cmds:
                exp = m.execute(a)
                got = c.read(resp_parse)
                if not same(exp, got):
                    raise Fail('%s answered %s' % (short(a), short(got)))
            if case['keys'] and len(case['keys']) % 2:
                srv.adv(10**7)
                m.adv(10**7)
            m.purge()
            still = cfg['opts'].get('autosweep') == 'no'
            if not still and resp_call(c, b'SWEEP') != OK:
                raise Fail('SWEEP failed')
            for o in case['q']:
                info['checks'] += 1
                if o['k'] == 'bad':
                    a = [B(x) for x in o['a']]
                    got = resp_call(c, *a)
                    if got[0] != '-':
                        raise Fail('%s answered %s' % (short(a), short(got)))
                    continue
                p = None if o.get('p') is None else B(o['p'])
                if o['pr'] == 'pg' and p is not None:
                    p = p.replace(b'\0', b'?')
                live = set(m.d)
                want = {k for k in live if p is None or glob(p, k)}
                if want and want != live:
                    info['nt'] = True
                info['feats'].add('%s %s' % (o['pr'], o['k']))
                if o['k'] == 'keys':
                    if o['pr'] == 'resp':
                        r = resp_call(c, b'KEYS', p)
                        if r[0] != '*':
                            raise Fail('KEYS %s answered %s' % (short(p), short(r)))
                        got = [x[1] for x in r[1]]
                    else:
                        rows, tag, err, empty, cols = cl.pg().query(b'KEYS ' + pg_simple(p))
                        if err or tag != b'KEYS %d' % len(rows or ()):
                            raise Fail('KEYS %s answered %s %s' % (short(p), tag, err))
                        got = [x[0] for x in rows or ()]
                    self.compare('KEYS %s' % short(p), got, want)
                elif o['k'] == 'walk':
                    cur, got, steps = 0, [], 0
                    mid = set()
                    while True:
                        cur, page = self.scan(cl, o, cur, p)
                        got += page
                        steps += 1
                        if o['n'] is not None and len(page) > o['n']:
                            raise Fail('SCAN COUNT %d returned %d keys' % (o['n'], len(page)))
                        if cur == 0:
                            break
                        if steps > len(live) + 5:
                            raise Fail('SCAN MATCH %s COUNT %s did not end after %d pages' % (short(p), o['n'], steps))
                        if o.get('t') and steps == 2 and still:
                            srv.adv(10**7)
                            m.adv(10**7)
                            m.purge()
                            mid = want - set(m.d)
                    if steps > 2:
                        info['feats'].add('walk of 3 or more pages')
                    if mid:
                        got = [x for x in got if x not in mid]
                    self.compare('SCAN walk MATCH %s COUNT %s' % (short(p), o['n']), got, want - mid)
                else:
                    cur, page = self.scan(cl, o, int(o['c']), p)
                    if len(set(page)) != len(page) or not set(page) <= want or len(page) > o['n']:
                        raise Fail('SCAN %s MATCH %s returned %s, of the keys %s' % (o['c'], short(p), short(page), short(want)))
        finally:
            cl.close()
        return info

    def compare(self, what, got, want):
        if sorted(got) != sorted(want):
            g = set(got)
            dup = [x for x in g if got.count(x) > 1]
            raise Fail('%s returned %d keys, expected %d; missing %s, wrong %s, repeated %s' % (what, len(got), len(want), short(sorted(want - g)[:5]), short(sorted(g - want)[:5]), short(dup[:5])))

    def scan(self, cl, o, cur, p):
        a = [b'SCAN', b'%d' % cur]
        if p is not None:
            a += [b'MATCH', p]
        if o.get('n') is not None:
            a += [b'COUNT', b'%d' % o['n']]
        if len(o.get('p') or '') % 3 == 1:
            a += [b'TYPE', b'string']
        if o['pr'] == 'resp':
            r = resp_call(cl.resp(0), *a)
            if r[0] != '*' or len(r[1]) != 2 or r[1][0][0] != '$' or not r[1][0][1].isdigit() or r[1][1][0] != '*':
                raise Fail('%s answered %s' % (short(a), short(r)))
            return int(r[1][0][1]), [x[1] for x in r[1][1][1]]
        rows, tag, err, empty, cols = cl.pg().query(b' '.join([a[0], a[1]] + [pg_simple(x) for x in a[2:]]))
        if err or rows is None or tag != b'SCAN %d' % len(rows) or any(x[1] != rows[0][1] for x in rows):
            raise Fail('%s answered %s %s %s' % (short(a), short(rows), tag, err))
        return (int(rows[0][1]) if rows else 0), [x[0] for x in rows]
