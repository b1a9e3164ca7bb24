"""C24: what was saved is what is loaded."""
import shutil
from harness import Prop
from gen import *

FAR = 1 << 61


def rawbytes(seed, n):
    return random.Random(seed).randbytes(n)


def VB(v):
    return rawbytes(v['rnd'], v['n']) if isinstance(v, dict) and 'rnd' in v else B(v)


def content_op(rng, pool):
    k = rng.choice(pool)
    r = rng.random()
    if r < 0.1:
        return {'del': k}
    o = {'k': k}
    x = rng.random()
    if x < 0.12:
        o['v'] = {'rnd': rng.randrange(1 << 30), 'n': rng.choice([1, 15, 16, 17, 60, 255, 300, 4096, 65535, 65536, 70000])}
    else:
        o['v'] = value(rng, True)
    if rng.random() < 0.45:
        o['x'] = rng.choice([['PX', '1'], ['PX', '1500'], ['EX', '1'], ['EX', '2'], ['EX', '10'], ['EX', '3600'], ['EX', '100000'], ['PX', '%d' % rng.randint(1, 20000)], ['EX', '9000000000'], ['PX', '9223372036854775807'],
                             ['EXAT', '%d' % (T_REAL // SEC + rng.randint(1, 100))], ['PXAT', '%d' % (T_REAL // 10**6 + rng.randint(1, 20000))]])
    if rng.random() < 0.35:
        o['f'] = rng.choice([1, 2, 127, 128, 255, 65535, 65536, 2**31, 2**32 - 1])
    return o


def contents(rng):
    pool = keypool(rng, rng.randint(1, 10), hi=1000)
    r = rng.random()
    ops = [content_op(rng, pool) for _ in range(rng.randint(0, 25))]
    if r < 0.15:
        ops.append({'many': rng.choice([100, 500, 2000, 5000]), 'len': rng.choice([0, 5, 5, 100]), 'ex': rng.choice([0, 0, 5])})
    elif r < 0.25:
        ops.append({'k': 'big', 'v': rng.choice([{'rnd': rng.randrange(1 << 30), 'n': rng.choice([1 << 20, (1 << 20) - 16, 3000000, 1500000])}, {'r': rbytes(rng, rng.randint(1, 9)), 'n': rng.choice([1 << 20, 5000000, 2097152])}])})
    rng.shuffle(ops)
    return ops


def apply(m, c, ops):
    """Send the operations in one go and compare the replies."""
    out, exps = [], []
    for o in ops:
        if 'many' in o:
            l = [[b'SET', b'm%d' % i, (b'v%d' % i) + b'x' * o['len']] + ([b'EX', b'%d' % o['ex']] if o['ex'] and i % 2 else []) for i in range(o['many'])]
        elif 'flush' in o:
            l = [[b'FLUSHALL']]
        elif 'del' in o:
            l = [[b'DEL', B(o['del'])]]
        else:
            l = [[b'SET', B(o['k']), VB(o['v'])] + [B(x) for x in o.get('x', ())] + ([b'FLAGS', b'%d' % o['f']] if 'f' in o else [])]
        for a in l:
            exps.append((a, m.execute(a)))
            out.append(resp_multi(a))
    for i in range(0, len(out), 500):
        c.send(b''.join(out[i:i + 500]))
    for a, e in exps:
        g = c.read(resp_parse)
        if not same(e, g):
            raise Fail('%s answered %s, expected %s' % (short(a), short(g), short(e)))


def compare(m, c, what, check_exp=True):
    """The whole cache equals the model's."""
    m.purge()
    r = resp_call(c, b'KEYS', b'*')
    if r[0] != '*':
        raise Fail('KEYS * answered %s' % short(r))
    got = [x[1] for x in r[1]]
    if len(set(got)) != len(got):
        raise Fail('KEYS * lists a key twice %s' % what)
    miss, extra = set(m.d) - set(got), set(got) - set(m.d)
    if miss or extra:
        raise Fail('%s %d keys are missing (%s) and %d should not be there (%s)' % (what, len(miss), short(sorted(miss)[:5]), len(extra), short(sorted(extra)[:5])))
    ks = sorted(m.d)
    for i in range(0, len(ks), 300):
        part = ks[i:i + 300]
        c.send(resp_multi([b'MGETS'] + part) + b''.join(resp_multi([b'PTTL', k]) for k in part))
        r = c.read(resp_parse)
        for k, g in zip(part, r[1]):
            e = m.d[k]
            if g[0] != '*' or len(g[1]) != 3 or g[1][0] != ('+', b'%d' % e.flags) or g[1][2] != ('$', e.val):
                raise Fail('%s %s is %s, expected flags %d and %s' % (what, short(k), short(g), e.flags, short(e.val)))
        for k in part:
            e = m.d[k]
            g = c.read(resp_parse)
            if e.exp > FAR:
                ok = g[0] == ':' and g[1] > 10**11
            else:
                ok = g == (':', (e.exp - m.boot) // 10**6 if e.exp else -1)
            if check_exp and not ok:
                raise Fail('%s the PTTL of %s is %s, expected %s' % (what, short(k), g, (e.exp - m.boot) // 10**6 if e.exp else -1))
    return len(ks)


def snapshot(m):
    m.purge()
    return {k: (e.val, e.flags, 0 if not e.exp else e.exp if e.exp > FAR else m.real + e.exp - m.boot) for k, e in m.d.items()}


def load_model(m, snap):
    """What a LOAD of the snapshot means now."""
    n = 0
    for k, (v, f, x) in snap.items():
        if x:
            if x > FAR:
                exp = x
            else:
                left = x - m.real
                if left <= 0:
                    continue
                exp = m.boot + left
        else:
            exp = 0
        m.put(k, v, f, exp)
        n += 1
    return n


def give(srv, src, name):
    """Copy a file into a server's directory."""
    dst = os.path.join(srv.dir, name)
    shutil.copyfile(src, dst)
    os.chown(dst, UID, UID)
    os.chmod(dst, 0o600)


NAMES = ['data.pogo', 'a', 'x y', 'snap.pogocache', 'd\xe9j\xe0', './z', 'sub/f', '0', 'TO', 'fast.', 'data.pogo.work']


def config1(rng):
    o = config(rng)['opts']
    if rng.random() < 0.3:
        o['shards'] = rng.choice([1, 2, 5, 7, 9, 13, 31, 64, 65, 999, 1000])
    return o


class PROP(Prop):
    ID = 'C24'
    RULE = ('one case fills a server with 0 to 5000 entries (any bytes, up to 5 MB, with lifetimes and flags), saves it (SAVE TO, or --persist and SIGTERM; fast or not), moves the clocks, loads the file into another server with other options and a different boot clock '
            '(LOAD FROM over existing data, or --persist at start) and compares everything, one to three such hops in a row; non-trivial when at least one entry with a lifetime, one with flags and three in all were loaded')
    ASSUME = ('the wall clock is the virtual CLOCK_REALTIME and elapsed time the virtual CLOCK_BOOTTIME', 'compare-and-store numbers need not survive', 'a key whose saved entry has expired by the time of a LOAD is left as it is')
    QUICK = (230, 36)
    THOROUGH = (6000, 780)
    OWN = True
    LISTS = ('init', 'hops')

    def gen(self, rng, cfg):
        hops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            h = {'cfg': config1(rng), 'name': rng.choice(NAMES[:3] if rng.random() < 0.6 else NAMES), 'boot': rng.choice([T_BOOT, SEC, 10**15, 77 * SEC]), 'adv': deadline(rng), 'step': rng.choice([0, 0, 0, 1, -SEC, SEC, 3600 * SEC, -10**6])}
            h['save'] = rng.choice(['cmd', 'cmd', 'term'])
            h['load'] = rng.choice(['cmd', 'persist'])
            h['fast'], h['lfast'] = int(rng.random() < 0.5), int(rng.random() < 0.5)
            h['form'] = rng.randrange(1 << 20)
            if h['load'] == 'cmd' and rng.random() < 0.5:
                h['pre'] = [content_op(rng, ['p1', 'p2', 'big', 'm1', 'm2']) for _ in range(rng.randint(1, 6))]
            if h['save'] == 'cmd' and rng.random() < 0.4:
                h['after'] = [content_op(rng, ['p1', 'p2', 'big', 'm1', 'm2']) for _ in range(rng.randint(1, 6))]
            if rng.random() < 0.4:
                h['post'] = contents(rng)[:12]
            if rng.random() < 0.25:
                h['post'] = h.get('post', []) + [{'flush': 1}] + rng.choice([[], [], [], [{'k': 'p1', 'v': 'x'}]])
            if rng.random() < 0.3:
                h['self'] = 1
            hops.append(h)
        return {'init': contents(rng), 'opts': config1(rng), 'hops': hops, 'adv': deadline(rng) if rng.random() < 0.5 else 0}

    def fixed(self, w):
        return [{'huge': 4, 'init': [{'k': 's%d' % i, 'v': 'w%d' % i, 'f': i + 1, 'x': ['EX', '%d' % (1000 + i)]} if i % 2 else {'k': 's%d' % i, 'v': 'w%d' % i} for i in range(12)], 'hops': []}] if w == 0 else []

    def huge(self, env, case):
        """A single shard of more than 2 GB."""
        n, size = case['huge'], 1 << 29
        s = env.server({'shards': 1, 'threads': 2, 'persist': 'a'})
        m = Model(s.ctl.get('boot'), s.ctl.get('real'), usecas=False)
        c = s.conn(timeout=400)
        apply(m, c, case['init'])
        if n and resp_call(c, b'DEBUG', b'POPULATE', b'%d' % n, b'h', b'%d' % size) != OK:
            raise Fail('DEBUG POPULATE failed')
        if resp_call(c, b'SAVE') != OK:
            raise Fail('SAVE failed')
        snap = snapshot(m)
        keep = os.path.join(env.base, 'keep')
        shutil.copyfile(os.path.join(s.dir, 'a'), keep)
        c.close()
        s.kill()
        env.done(s)
        s = env.server({'shards': 7, 'threads': 2, 'persist': 'none'}, prep=lambda x: give(x, keep, 'input'))
        m = Model(s.ctl.get('boot'), s.ctl.get('real'), usecas=False)
        c = s.conn(timeout=400)
        r = resp_call(c, b'LOAD', b'FROM', b'input')
        if r != OK:
            raise Fail('LOAD of a shard of %d entries of %d bytes answered %s' % (n, size, short(r)))
        load_model(m, snap)
        hs = sorted(x[1] for x in resp_call(c, b'KEYS', b'h*')[1])
        if len(hs) != n:
            raise Fail('%d of %d entries of %d bytes are there after saving and loading their shard' % (len(hs), n, size))
        for h in hs:
            if resp_call(c, b'EXISTS', h) != (':', 1):
                raise Fail('%s is missing after saving and loading a shard of %d entries of %d bytes' % (h, n, size))
        for h in hs[:1]:
            c.send(resp_multi([b'GET', h]))
            g = c.read(resp_parse)
            if g[0] != '$' or len(g[1]) != size or g[1].count(0) != size:
                raise Fail('%s is %s' % (h, short(g)))
            del g
        for h in hs:
            if resp_call(c, b'DEL', h) != (':', 1):
                raise Fail('DEL failed')
        k = compare(m, c, 'after loading')
        c.close()
        s.kill()
        return {'nt': True, 'feats': {'more than 2 GB in a shard'}, 'checks': k + n}

    def cmd(self, rng, word, name, fast, default=False):
        a = [word]
        parts = []
        if not default:
            parts.append([rng.choice([b'to', b'TO', b'To']) if word.lower() == b'save' else rng.choice([b'from', b'FROM']), name])
        if fast:
            parts.append([rng.choice([b'FAST', b'fast'])])
        rng.shuffle(parts)
        for p in parts:
            a += p
        return a

    def run(self, env, srv, cfg, case):
        if 'huge' in case:
            return self.huge(env, case)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        name0 = case['hops'][0]['name'] if case['hops'] else 'a'
        s = env.server(dict(case['opts'], persist=name0), prep=lambda x: self.sub(x))
        m = Model(s.ctl.get('boot'), s.ctl.get('real'), usecas=case['opts'].get('cas') == 'yes')
        c = s.conn()
        apply(m, c, case['init'])
        if case['adv']:
            s.adv(case['adv'])
            m.adv(case['adv'])
        for i, h in enumerate(case['hops']):
            rng = random.Random(h['form'])
            name = s.opts['persist']
            path = os.path.join(s.dir, name)
            if h['save'] == 'cmd':
                dflt = rng.random() < 0.3
                if rng.random() < 0.3:
                    # an older and longer file is in the way
                    with open(path, 'wb') as f:
                        f.write(b'POGO' + b'old contents ' * 5000)
                    os.chown(path, UID, UID)
                a = self.cmd(rng, rng.choice([b'SAVE', b'save', b'Save']), name.encode('latin1') if not name.isascii() else name.encode(), h['fast'], dflt) if name.isascii() else self.cmd(rng, b'SAVE', os.fsencode(name), h['fast'], dflt)
                r = resp_call(c, *a)
                if r != OK:
                    raise Fail('%s answered %s' % (a, short(r)))
                snap = snapshot(m)
                info['checks'] += compare(m, c, 'after SAVE')
                if 'after' in h:
                    apply(m, c, h['after'])
                info['feats'].add('SAVE' + (' FAST' if h['fast'] else ''))
                if h.get('self'):
                    # empty the very server and take the file back
                    mm = s
                    if resp_call(c, b'FLUSHALL') != OK:
                        raise Fail('FLUSHALL failed')
                    m.clear()
                    a = self.cmd(rng, b'LOAD', os.fsencode(name), h['lfast'])
                    r = resp_call(c, *a)
                    if r != OK:
                        raise Fail('%s answered %s' % (a, short(r)))
                    load_model(m, snap)
                    info['checks'] += compare(m, c, 'after a LOAD into the emptied server')
                    info['feats'].add('LOAD into the same server')
                keep = os.path.join(env.base, 'keep')
                shutil.copyfile(path, keep)
                s.check()
            else:
                snap = snapshot(m)
                rc = s.term()
                if rc != 0:
                    raise Crash('shutdown with --persist ended with status %s: %s' % (rc, s.report()))
                keep = os.path.join(env.base, 'keep')
                if not os.path.exists(path):
                    raise Fail('shutdown with --persist left no file')
                shutil.copyfile(path, keep)
                info['feats'].add('SIGTERM')
            junk = [x for x in os.listdir(os.path.dirname(path)) if x.endswith('.pogocache.work')]
            if junk:
                raise Fail('work files are left: %s' % junk)
            real = s.ctl.get('real') + h['adv'] + h['step']
            c.close()
            env.done(s)
            # the next server
            nh = case['hops'][i + 1] if i + 1 < len(case['hops']) else None
            inname = h['name'] if h['load'] == 'persist' else 'input'
            pname = h['name'] if h['load'] == 'persist' else (nh['name'] if nh else 'none')

            def prep(x):
                self.sub(x)
                give(x, keep, inname)
            s = env.server(dict(h['cfg'], persist=pname), boot=h['boot'], real=real, prep=prep)
            m = Model(s.ctl.get('boot'), s.ctl.get('real'), usecas=h['cfg'].get('cas') == 'yes')
            c = s.conn()
            if h['load'] == 'cmd':
                if 'pre' in h:
                    apply(m, c, h['pre'])
                a = self.cmd(rng, rng.choice([b'LOAD', b'load']), b'input', h['lfast'])
                r = resp_call(c, *a)
                if r != OK:
                    raise Fail('%s answered %s' % (a, short(r)))
                info['feats'].add('LOAD' + (' FAST' if h['lfast'] else ''))
            else:
                info['feats'].add('load at start')
            n = load_model(m, snap)
            if n < len(snap):
                info['feats'].add('entries expired between save and load')
            info['checks'] += compare(m, c, 'after loading')
            live = list(m.d.values())
            if len(live) >= 3 and any(e.exp for e in live) and any(e.flags for e in live):
                info['nt'] = True
            if 'post' in h:
                apply(m, c, h['post'])
                t = deadline(rng)
                s.adv(t)
                m.adv(t)
                info['checks'] += compare(m, c, 'some time after loading')
        if not case['hops']:
            compare(m, c, 'at the end')
        c.close()
        rc = s.term()
        if rc != 0:
            raise Crash('the server did not shut down cleanly (status %s): %s' % (rc, s.report()))
        return info

    def sub(self, s):
        d = os.path.join(s.dir, 'sub')
        os.mkdir(d)
        os.chown(d, UID, UID)
