"""C17: every protocol, transport and connection works on one and the same cache."""
from harness import Prop
from multi import *


class PROP(Prop):
    ID = 'C17'
    RULE = ('one case is a history of 6 to 50 requests, each over a randomly chosen protocol (RESP, memcache, HTTP, Postgres simple or extended), transport and connection, on 2-5 shared keys, every reply '
            'compared with one model and every key read back through all protocols at random moments and at the end; non-trivial when a key written in one protocol was read or changed in another')
    ASSUME = ('keys that every protocol accepts (1 to 250 printable bytes)', 'reference model in server/model.py')
    QUICK = (500, 32)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = hpool(rng, rng.randint(2, 5))
        pool = [k for k in pool if k != 'noreply']
        ops = []
        for _ in range(rng.randint(6, 50)):
            r = rng.random()
            if r < 0.05:
                ops.append({'t': deadline(rng), 'rt': 0})
            elif r < 0.15:
                ops.append({'look': rng.choice(pool)})
            else:
                ops.append(op_for(rng, rng.choice(PROTOS), pool))
        return {'pool': pool, 'ops': ops}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        cl = Clients(srv, m)
        info = {'nt': False, 'feats': set(), 'checks': 0}
        wrote = {}
        try:
            for o in case['ops']:
                if 't' in o:
                    srv.adv(o['t'])
                    m.adv(o['t'])
                    continue
                info['checks'] += 1
                if 'look' in o:
                    cl.look(B(o['look']))
                    continue
                before = set(m.d)
                cl.do(o)
                info['feats'].add(o['pr'])
                k = o['a'][1] if len(o.get('a', ())) > 1 else o['w'][1] if len(o.get('w', ())) > 1 else o.get('k')
                if isinstance(k, str):
                    b = B(k)
                    if b in before and wrote.get(b, o['pr']) != o['pr']:
                        info['nt'] = True
                        info['feats'].add(wrote[b] + ' then ' + o['pr'])
                    if b in m.d and b not in before:
                        wrote[b] = o['pr']
            for k in case['pool']:
                cl.look(B(k))
                info['checks'] += 1
            for c in list(cl.r.values()) + list(cl.m_.values()):
                if c.pending():
                    raise Fail('unexpected extra bytes %s' % short(c.pending()))
        finally:
            cl.close()
        return info
