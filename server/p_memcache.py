"""C14: the memcache text protocol against the reference model."""
from harness import Prop
from mc import *


class PROP(Prop):
    ID = 'C14'
    RULE = ('one case is a history of 5 to 60 memcache requests (storage commands with arbitrary data blocks, reads, arithmetic, noreply forms and malformed lines) on 3-7 keys with '
            'clock advances; non-trivial when a read returned at least one stored block and at least three storage commands succeeded')
    ASSUME = ('the reference model states the memcached text protocol as far as Pogocache documents it (gat, gats and verbosity are not supported)',
              'time is the virtual clock of the interposed clock_gettime')
    QUICK = (900, 30)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = mcpool(rng)
        ops = []
        nc = rng.randint(1, 3)
        for _ in range(rng.randint(5, 60)):
            if rng.random() < 0.05:
                ops.append({'t': deadline(rng)})
                continue
            op = mc_op(rng, pool)
            op['c'] = rng.randrange(nc)
            if rng.random() < 0.3:
                op['p'] = 1
            if rng.random() < 0.1:
                op['lf'] = 1
            ops.append(op)
        return {'nc': nc, 'ops': ops}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        kinds = ['tcp', 'unix'] if srv.tcp else ['unix']

        def opn(i):
            c = srv.conn(kinds[i % len(kinds)])
            c.send(b'version\r\n')   # settles the protocol of the connection
            if not mc_same(('version',), c.read(mc_parse)):
                raise Fail('version is not answered')
            return c
        conns = [opn(i) for i in range(case['nc'])]
        side = srv.conn()
        queue, out = [], bytearray()
        info = {'nt': False, 'feats': set(), 'checks': 0}
        stored = blocks = 0

        def drain(fence=False):
            nonlocal stored, blocks
            if fence:
                out.extend(b'version\r\n')
            if not out:
                return
            cur.send(bytes(out))
            out.clear()
            for sent, exp, nr in queue:
                if nr == 'maybe':
                    continue
                got = cur.read(mc_parse)
                info['checks'] += 1
                if not mc_same(exp, got):
                    raise Fail('%s answered %s, expected %s' % (short(sent), short(got), short(exp)))
                if got == ('line', b'STORED'):
                    stored += 1
                if got[0] == 'values':
                    blocks += len(got[1])
            queue.clear()
            if fence:
                got = cur.read(mc_parse)
                if not mc_same(('version',), got):
                    raise Fail('a request with noreply was answered %s' % short(got))

        cur = conns[0]
        try:
            for op in case['ops']:
                if 't' in op:
                    drain(True)
                    srv.adv(op['t'])
                    m.adv(op['t'])
                    continue
                c = conns[op['c']]
                if c is not cur:
                    drain(True)
                    cur = c
                if op.get('quit'):
                    drain(True)
                    cur.send(b'quit\r\n')
                    if cur.read_eof():
                        raise Fail('quit answered something')
                    cur.close()
                    i = op['c']
                    cur = conns[i] = opn(i)
                    info['feats'].add('quit')
                    continue
                if 'cas' in op:
                    drain(True)
                    learn_cas(srv, m, B(op['w'][1]), side)
                sent = mc_bytes(op, m)
                exp = mc_model(m, op)
                out += sent
                info['feats'].add(op['w'][0] if 'w' in op else 'malformed')
                if op.get('nr'):
                    info['feats'].add('noreply')
                else:
                    queue.append((sent, exp, 0))
                if not op.get('p') or len(queue) > 30:
                    drain(op.get('nr'))
            drain(True)
            m.purge()
            for k, e in list(m.d.items()):
                cur.send(b'gets ' + k + b'\r\n')
                got = cur.read(mc_parse)
                exp = ('values', [(k, e.flags, CasOf(m, k, e), e.val)])
                if not mc_same(exp, got):
                    raise Fail('at the end gets %s is %s, expected %s' % (short(k), short(got), short(exp)))
                t = resp_call(side, b'PTTL', k)
                if t != (':', (e.exp - m.boot) // 10**6 if e.exp else -1):
                    raise Fail('at the end the PTTL of %s is %s, expected %s' % (short(k), t, (e.exp - m.boot) // 10**6 if e.exp else -1))
            r = resp_call(side, b'KEYS', b'*')
            if r[0] != '*' or sorted(r[1]) != sorted(('$', k) for k in m.d):
                raise Fail('at the end KEYS * is %s, expected %s' % (short(r), short(list(m.d))))
            for c in conns:
                if c.pending():
                    raise Fail('unexpected extra bytes %s' % short(c.pending()))
        finally:
            for c in conns + [side]:
                c.close()
        info['nt'] = stored >= 3 and blocks >= 1
        return info
