"""C16: the Postgres wire protocol against the reference model."""
from harness import Prop
from pgc import *
from p_http import final

TYPES = [b'::bytea', b'::text', b'::BYTEA', b'::bytes']
BADQ = [b'get "k"', b'get $$k$$', b"get 'k", b"get E'k", b'get $x', b'get $0', b'; x', b"get E'k\\'", b"set k 'v''", b'get $99999999', b'get k; get k', b'::foo get k', b"'", b'$', b'"']


class PROP(Prop):
    ID = 'C16'
    RULE = ('one case is a session history of 4 to 40 steps over 1-2 Postgres connections: simple queries with every quoting form, and Parse/Bind/Describe/Execute/Sync sequences with named and '
            'unnamed statements and portals, reordered and repeated parameters, and erroneous steps; non-trivial when a row came back and an extended statement with parameters was executed')
    ASSUME = ('limits of the documented interface: no Close or Flush message, no reply to Describe of a portal, no identifiers or dollar quotes', 'reference model in server/model.py')
    QUICK = (700, 30)
    THOROUGH = (20000, 780)

    def config(self, rng):
        return config(rng)

    def gen(self, rng, cfg):
        pool = keypool(rng)
        if rng.random() < 0.4:
            pool.append(pg_utf8(rng))
        ops, nc = [], rng.randint(1, 2)

        def cmd():
            r = rng.random()
            if r < 0.03:
                return [word(rng, rng.choice(['BEGIN', 'COMMIT', 'ROLLBACK']))]
            if r < 0.05:
                return []
            a = pg_case_cmd(rng, pool)
            if rng.random() < 0.1 and len(a) > 2 and a[0].upper() == 'SET':
                a[2] = pg_utf8(rng)
            return a
        names = ['', 's1', 's2', 'n' * 63] + [alpha_str(rng, rng.randint(1, 15), 'ab\x01 \'\\é漢😀\x7f') for _ in range(2)]
        ports = ['', 'p1', 'p' * 63]
        for _ in range(rng.randint(4, 40)):
            r = rng.random()
            c = rng.randrange(nc)
            s = rng.randrange(1 << 30)
            if r < 0.04:
                ops.append({'t': deadline(rng)})
            elif r < 0.38:
                ops.append({'c': c, 'o': 'q', 'a': cmd(), 's': s})
            elif r < 0.42:
                ops.append({'c': c, 'o': 'badq', 'q': rng.choice(BADQ).decode('latin1')})
            elif r < 0.7:
                # a whole sequence with one statement
                n, p = rng.choice(names), rng.choice(ports)
                ops.append({'c': c, 'o': 'P', 'n': n, 'a': cmd(), 's': s, 'pt': rng.choice([0, 0.3, 0.6, 1]), 'p': 1})
                for _ in range(rng.choice([1, 1, 1, 2])):
                    ops.append({'c': c, 'o': 'B', 'n': n, 'l': p, 's': rng.randrange(1 << 30), 'p': 1})
                    if rng.random() < 0.3:
                        ops.append({'c': c, 'o': 'D', 'n': n, 'p': 1})
                    ops.append({'c': c, 'o': 'E', 'l': p, 'p': 1})
                ops.append({'c': c, 'o': 'S'})
            else:
                o = rng.choice(['P', 'B', 'B', 'E', 'E', 'D', 'S', 'S', 'rebind', 'bad'])
                op = {'c': c, 'o': o, 'n': rng.choice(names), 'l': rng.choice(ports), 's': s}
                if o == 'P':
                    op.update(a=cmd(), pt=rng.choice([0, 0.5, 1]))
                elif o == 'rebind':
                    op.update(v=[value(rng, False) for _ in range(2)] + [rng.choice(pool)])
                elif o == 'bad':
                    op.update(q=rng.choice(['P', 'E', 'D', 'F', 'Pn']), b=rng.choice(BADQ[:11]).decode('latin1'))
                if rng.random() < 0.5:
                    op['p'] = 1
                ops.append(op)
        return {'nc': nc, 'ops': ops, 'ssl': rng.random() < 0.2}

    def run(self, env, srv, cfg, case):
        m = reset(srv)
        kinds = ['tcp', 'unix'] if srv.tcp else ['unix']
        conns = [PgConn(srv, kinds[i % len(kinds)], case['ssl']) for i in range(case['nc'])]
        side = srv.conn()
        info = {'nt': False, 'feats': set(), 'checks': 0}
        got = {'rows': 0, 'ext': 0}
        queue, out = [], bytearray()

        def drain():
            if not out:
                return
            cur.c.send(bytes(out))
            out.clear()
            for f in queue:
                f()
                info['checks'] += 1
            queue.clear()

        def statement(pc, a, exp, oid):
            def f():
                ans = pc.answer()
                if ans[0]:
                    got['rows'] += 1
                if ans[2] is not None:
                    info['feats'].add('error')
                pg_check(pc, a, exp, ans, oid)
            queue.append(f)

        def one(pc, kind, what=''):
            def f():
                t, d = pc.msg()
                if t != kind:
                    raise Fail('%s answered %s %s, expected message %s' % (what, t, short(d), kind))
                return d
            queue.append(f)

        def nparams(pc, n):
            def f():
                t, d = pc.msg()
                if t != 't' or d != n:
                    raise Fail('Describe of a statement with %d parameters answered %s %s' % (n, t, short(d)))
            queue.append(f)

        def execute(pc, a):
            """-> expected reply; the type prefix is in force from then on."""
            if a and a[0][:2] == b'::':
                pc.oid = 17 if a[0].lower() != b'::text' else 25
                a = a[1:]
                if not a:
                    return a, ('tag',)
            if not a:
                return a, None
            if a[0].lower() in (b'begin', b'commit', b'rollback'):
                return a, OK
            return a, m.execute(a, 'pg')

        cur = conns[0]
        try:
            for op in case['ops']:
                if 't' in op:
                    drain()
                    srv.adv(op['t'])
                    m.adv(op['t'])
                    continue
                pc = conns[op['c']]
                if pc is not cur:
                    drain()
                    cur = pc
                o = op['o']
                rng = random.Random(op.get('s', 0))
                info['feats'].add(o)
                if o == 'q':
                    a = [B(x) for x in op['a']]
                    if any(b'\0' in x for x in a):
                        a = [x.replace(b'\0', b'0') for x in a]
                    toks = [a[0] if a and pg_bare_ok(a[0]) else pg_token(a[0], rng)] if a else []
                    toks += [pg_token(x, rng) for x in a[1:]]
                    pre = a and rng.random() < 0.1 and not trans(a)
                    if pre:
                        ty = rng.choice(TYPES)
                        toks.insert(0, ty)
                    out += pg_msg(b'Q', pg_query(toks, rng) + b'\0')
                    if pc.skip:
                        continue
                    a, exp = execute(pc, ([ty] if pre else []) + a)
                    statement(pc, a, exp, pc.oid)
                    one(pc, 'Z', 'the end of a simple query')
                elif o == 'badq':
                    out += pg_msg(b'Q', op['q'].encode('latin1') + b'\0')
                    if not pc.skip:
                        one(pc, 'E', 'the query %r' % op['q'])
                        one(pc, 'Z', 'after an erroneous query')
                elif o == 'P':
                    a = [B(x) for x in op['a']]
                    params, toks, tmpl = [], [], []
                    pre = a and rng.random() < 0.05 and not trans(a)
                    for i, x in enumerate(a):
                        if b'\0' in x or i and rng.random() < op['pt']:
                            if x in params and rng.random() < 0.7:
                                j = params.index(x)
                            else:
                                params.append(x)
                                j = len(params) - 1
                            tmpl.append(j)
                        else:
                            tmpl.append(x)
                    # parameters are numbered in an order of their own
                    perm = list(range(len(params)))
                    rng.shuffle(perm)
                    tmpl = [perm[x] if isinstance(x, int) else x for x in tmpl]
                    vals = [None] * len(params)
                    for i, x in enumerate(params):
                        vals[perm[i]] = x
                    toks = [b'$%d' % (x + 1) if isinstance(x, int) else (x if i == 0 and pg_bare_ok(x) else pg_token(x, rng)) for i, x in enumerate(tmpl)]
                    if pre:
                        ty = rng.choice(TYPES)
                        toks.insert(0, ty)
                        tmpl = [ty] + tmpl
                    n = op['n']
                    out += pg_P(n.encode(), pg_query(toks, rng))
                    if not pc.skip:
                        pc.st[n] = (tmpl, vals)
                        for p in [p for p in pc.po if pc.po[p][0] == n]:
                            del pc.po[p]
                        pc.po.pop(None, None)
                        one(pc, '1', 'Parse')
                elif o in ('B', 'rebind'):
                    n, p = op['n'], op['l']
                    if n not in pc.st:
                        continue
                    tmpl, vals = pc.st[n]
                    v = list(vals)
                    if o == 'rebind' and v:
                        v[rng.randrange(len(v))] = B(op['v'][rng.randrange(3)])
                        if any(isinstance(x, int) and x < len(v) for x in tmpl[:1]):
                            v = list(vals)
                    wrong = rng.random() < 0.06
                    if wrong:
                        v = v + [b'extra'] if rng.random() < 0.5 or not v else v[:-1]
                    out += pg_B(p.encode(), n.encode(), v, rng)
                    if not pc.skip:
                        pc.po[p] = (n, v)
                        one(pc, '2', 'Bind')
                elif o == 'D':
                    n = op['n']
                    out += pg_D(b'S', n.encode())
                    if not pc.skip:
                        if n in pc.st:
                            nparams(pc, len(pc.st[n][1]))
                        else:
                            one(pc, 'E', 'Describe of a missing statement')
                            pc.skip = True
                elif o == 'E':
                    p = op['l']
                    if p not in pc.po:
                        continue
                    n, v = pc.po[p]
                    tmpl, vals = pc.st[n]
                    out += pg_E(p.encode())
                    if not pc.skip:
                        if len(v) != len(vals):
                            one(pc, 'E', 'Execute with %d of %d parameters' % (len(v), len(vals)))
                            pc.skip = True
                            info['feats'].add('mismatch')
                        else:
                            a = [v[x] if isinstance(x, int) else x for x in tmpl]
                            if a and a[0][:2] == b'::' and not (tmpl and tmpl[0] in TYPES):
                                raise AssertionError('generator')
                            if any(isinstance(x, int) for x in tmpl):
                                got['ext'] += 1
                            if len(set(x for x in tmpl if isinstance(x, int))) < sum(isinstance(x, int) for x in tmpl):
                                info['feats'].add('repeated parameter')
                            a, exp = execute(pc, a)
                            if exp == ('tag',):
                                continue
                            statement(pc, a, exp, pc.oid)
                            if exp == ERR:
                                pc.skip = True
                elif o == 'S':
                    out += PG_S
                    pc.skip = False
                    one(pc, 'Z', 'Sync')
                elif o == 'bad':
                    w = op['q']
                    if w == 'P':
                        out += pg_P(b'bad', op['b'].encode('latin1'))
                    elif w == 'Pn':
                        out += pg_P(b'z' * 64, b'get k')
                    elif w == 'E':
                        out += pg_E(b'nosuchportal')
                    elif w == 'D':
                        out += pg_D(b'S', b'nosuchstatement')
                    else:
                        out += pg_D(b'X', b'')
                    if not pc.skip:
                        one(pc, 'E', 'an erroneous message')
                        pc.skip = True
                if not op.get('p') or len(queue) > 40:
                    drain()
                else:
                    info['feats'].add('pipelined')
            for pc in conns:
                drain()
                cur = pc
                out += PG_S
                pc.skip = False
                one(pc, 'Z', 'Sync')
                drain()
                a = [b'ECHO', b'bye']
                statement(pc, a, m.execute(a, 'pg'), pc.oid)
                one(pc, 'Z', 'the end')
                out += pg_msg(b'Q', b'ECHO bye\0')
                drain()
                if pc.c.pending():
                    raise Fail('unexpected extra bytes %s' % short(pc.c.pending()))
                pc.c.send(pg_msg(b'X'))
                if pc.c.read_eof():
                    raise Fail('Terminate was answered')
            final(srv, m, side)
        finally:
            for c in conns + [side]:
                c.close()
        info['nt'] = got['rows'] >= 1 and got['ext'] >= 1
        return info


def trans(a):
    return a[0].lower() in (b'begin', b'commit', b'rollback')
