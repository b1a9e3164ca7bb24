"""C15: the HTTP interface against the reference model."""
from harness import Prop
from web import *


class PROP(Prop):
    ID = 'C15'
    RULE = ('one case is a history of 5 to 40 HTTP requests (PUT with query options and any header order, GET, DELETE, malformed requests) on 3-6 keys with clock advances; '
            'non-trivial when a GET returned a stored body and at least two PUTs stored')
    ASSUME = ('the reference model states the documented meaning of the requests', 'one request per connection: the server announces and performs Connection: Close')
    QUICK = (700, 30)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = hpool(rng)
        ops = []
        for _ in range(rng.randint(5, 40)):
            if rng.random() < 0.05:
                ops.append({'t': deadline(rng)})
            else:
                ops.append(http_op(rng, pool))
        return {'ops': ops}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        kind = 'tcp' if srv.tcp else 'unix'
        side = srv.conn()
        info = {'nt': False, 'feats': set(), 'checks': 0}
        stored = reads = 0
        for op in case['ops']:
            if 't' in op:
                srv.adv(op['t'])
                m.adv(op['t'])
                continue
            if any(isinstance(v, dict) for n, v in op.get('q', ())):
                learn_cas(srv, m, B(op['k']), side)
            sent = http_bytes(op, m)
            exp = http_model(m, op)
            got = http_call(srv, sent, kind)
            info['checks'] += 1
            info['feats'].add(op.get('m', 'malformed') + ' %d' % got[0])
            if not http_same(exp, got):
                raise Fail('%s answered %s, expected %s' % (short(sent), short(got), short(exp)))
            stored += got[0] == 200 and op.get('m') == 'PUT'
            reads += got[0] == 200 and op.get('m') == 'GET'
            for n, v in op.get('q', ()):
                info['feats'].add('?' + n)
        final(srv, m, side)
        side.close()
        info['nt'] = stored >= 2 and reads >= 1
        return info


def final(srv, m, side):
    """The stored state equals the model's."""
    m.purge()
    for k, e in list(m.d.items()):
        r = resp_call(side, b'MGETS', k)
        exp = ('*', [('*', [('+', b'%d' % e.flags), CasOf(m, k, e), ('$', e.val)])])
        if not same(exp, r):
            raise Fail('at the end %s holds %s, expected %s' % (short(k), short(r), short(exp)))
        t = resp_call(side, b'PTTL', k)
        if t != (':', (e.exp - m.boot) // 10**6 if e.exp else -1):
            raise Fail('at the end the PTTL of %s is %s' % (short(k), t))
    r = resp_call(side, b'KEYS', b'*')
    if r[0] != '*' or sorted(r[1]) != sorted(('$', k) for k in m.d):
        raise Fail('at the end KEYS * is %s, expected %s' % (short(r), short(list(m.d))))
