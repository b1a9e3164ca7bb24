"""C28: connection limits, counters and what a finished connection leaves behind."""
from harness import Prop
import os, sys
from multi import *
import p_bytes

PING = {
    'resp': (b'*2\r\n$4\r\nECHO\r\n$3\r\nabc\r\n', b'$3\r\nabc\r\n'),
    'inline': (b'ECHO abc\r\n', b'$3\r\nabc\r\n'),
    'mc': (b'get nokey\r\n', b'END\r\n'),
    'pg': (pg_startup(), None),
}
PGQ = pg_msg(b'Q', b'ECHO abc\0')
HTTP = b'GET /nokey HTTP/1.1\r\n\r\n'
HOWS = ('close', 'close', 'abort', 'shut', 'quit', 'err', 'half', 'unread', 'bg', 'monitor')


def pg_session(rng):
    """Extended protocol messages that redefine, describe, run and break statements and portals."""
    out = b''
    names = rng.choice([[b''], [b'', b's'], [b's', b't', b'uu'], [b'\xff\xfe' * 6, b'\x80' * 63]])
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        n, p = rng.choice(names), rng.choice([b'', b'p', b'q'])
        if r < 0.35:
            out += pg_P(n, rng.choice([b'get $1', b'echo $1', b'set $1 $2', b'ping', b'mget $1 a b', b'keys *', b'bogus $1', b"echo 'it''s'", b'get $7', b"echo 'x"]))
        elif r < 0.55:
            out += pg_B(p, n, [rng.choice([b'a', b'bb', b'', b'c' * 40]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))], rng)
        elif r < 0.75:
            out += pg_D(rng.choice([b'S', b'P']), rng.choice([n, p]))
        elif r < 0.9:
            out += pg_E(p)
        if rng.random() < 0.5:
            out += PG_S
    if rng.random() < 0.7:
        # what every driver does, with its describes
        k = rng.choice([1, 1, 2, 5])
        out += PG_S + pg_P(b'', b'get $1') + pg_D(b'S', b'') + PG_S + pg_B(b'', b'', [b'a'], rng) + PG_S + (pg_D(b'P', b'') + PG_S) * k + pg_E(b'') + PG_S
    return out


def session(rng):
    """The bytes of one client session, which ends when they have been sent."""
    pool = ['a', 'bb', 'k7', 'c' * 40, '17']
    pr = rng.choice(list(PROTOS) + ['pg'])
    b = b''
    if pr == 'pg':
        b = pg_startup()
    for _ in range(1 if pr == 'http' else rng.choice([1, 2, 5, 10])):
        while True:
            x = pg_session(rng) if pr == 'pg' and rng.random() < 0.5 else p_bytes.valid(rng, pr, pool)
            if len(x) < 4000 and b'MONITOR' not in x.upper() and b'SAVE' not in x.upper() and b'LOAD' not in x.upper() and b'DEBUG' not in x.upper() and b'ASYNC' not in x.upper():
                break
        b += x
    r = rng.random()
    if r < 0.2:
        i = rng.randint(len(pg_startup()) if pr == 'pg' else 0, len(b))
        b = b[:i] + p_bytes.mutate(rng, b[i:i + 400])
    elif r < 0.3:
        b = b[:rng.randrange(1, len(b))]
    low = b.lower()
    if any(x in low for x in (b'monitor', b'save', b'load', b'delay', b'debug', b'async', b'populate')):
        return session(rng)
    return b[:30000]


class Peer:
    """One client connection and what the server owes it."""

    def __init__(self, srv, kind, proto):
        self.c, self.proto, self.kind = srv.conn(kind), proto, kind
        self.first = True

    def send(self):
        if self.proto == 'pg' and not self.first:
            self.c.send(PGQ)
        elif self.proto == 'http':
            self.c.send(HTTP)
        else:
            self.c.send(PING[self.proto][0])

    def recv(self):
        """True: served; False: closed without a byte."""
        c, first = self.c, self.first
        self.first = False
        if len(c.buf) == c.pos and not c.more():
            if not first:
                raise Fail('an accepted %s connection was closed in place of a reply' % self.proto)
            return False
        if self.proto == 'http':
            st, hd, body = http_parse(c.read_eof())
            if st != 404:
                raise Fail('HTTP GET of an absent key answered %d' % st)
        elif self.proto == 'pg':
            seen = ''
            while not seen.endswith('Z'):
                seen += c.read(pg_parse)[0]
            if first and seen[0] != 'R' or not first and seen != 'TDCZ':
                raise Fail('unexpected Postgres messages %s' % seen)
        else:
            want = PING[self.proto][1]
            got = c.read(lambda b, p: (bytes(b[p:p + len(want)]), p + len(want)) if len(b) - p >= len(want) else None)
            if got != want:
                raise Fail('%s ping answered %r' % (self.proto, got))
        return True

    def ping(self):
        self.send()
        if not self.recv():
            raise Fail('a served connection was closed')
        if self.c.pos != len(self.c.buf):
            raise Fail('extra bytes after a reply: %r' % bytes(self.c.buf[self.c.pos:])[:100])

    def finish(self, how, rng):
        c, p = self.c, self.proto
        if how == 'half':
            if p == 'pg':
                c.send(PGQ[:rng.randrange(1, len(PGQ))])
            elif p in PING:
                c.send(b'*2\r\n$4\r\nECHO\r\n$9\r\nab' if p == 'resp' else b'ECHO "ab' if p == 'inline' else b'set k 0 0 5\r\nab')
        elif how == 'unread':
            n = rng.choice([1, 50, 4000])
            c.send((PGQ if p == 'pg' else PING[p][0]) * n)
        elif how == 'bg':
            q = rng.choice([b'KEYS *', b'FLUSHALL', b'SWEEP', b'PURGE'])
            if p == 'pg':
                c.send(pg_msg(b'Q', q + b'\0'))
            elif p == 'mc':
                c.send(b'flush_all\r\n' * rng.choice([1, 3]))
            else:
                c.send((q + b'\r\n') * rng.choice([1, 3]))
        elif how == 'monitor' and p in ('resp', 'inline'):
            c.send(b'*1\r\n$7\r\nMONITOR\r\n')
            if rng.random() < 0.7 and c.read(resp_parse) != ('+', b'OK'):
                raise Fail('MONITOR was not answered OK')
        elif how == 'quit':
            c.send(pg_msg(b'X') if p == 'pg' else b'quit\r\n' if p == 'mc' else b'*1\r\n$4\r\nQUIT\r\n')
            c.read_eof()
        elif how == 'err' and p in ('resp', 'inline'):
            c.send(b'*1\r\n$x\r\n')
            c.read_eof()
        elif how == 'shut':
            c.s.shutdown(socket.SHUT_WR)
            c.read_eof()
        if how == 'abort' or how != 'close' and rng.random() < 0.2:
            c.abort()
        else:
            c.close()


class World:
    def __init__(self, srv, cfg):
        self.srv, self.max = srv, cfg['max']
        self.kinds = ['unix', 'tcp'] if srv.tcp else ['unix']
        self.ctl = None
        end = time.time() + 20
        while self.ctl is None:
            # connections of an earlier case may still be closing
            c = srv.conn()
            c.send(resp_multi([b'STATS']))
            while not len(c.buf) and c.more():
                pass
            if len(c.buf):
                c.read(resp_parse)
                self.ctl = c
            elif time.time() > end:
                raise Fail('no connection is accepted although every earlier one is closed')
            else:
                c.close()
                time.sleep(0.01)
        self.served, self.idle = [], []
        self.n = 1
        s = self.wait(lambda s: s[0] == 1)
        if s[0] != 1:
            raise Fail('curr_connections stays %d with one connection open' % s[0])
        self.total, self.rej = s[1], s[2]
        self.checks = 0

    def stats(self):
        r = resp_call(self.ctl, b'STATS')
        d = {x[1][0][1]: x[1][1][1] for x in r[1]}
        if int(d[b'max_connections']) != self.max:
            raise Fail('max_connections is %s, expected %d' % (d[b'max_connections'], self.max))
        return int(d[b'curr_connections']), int(d[b'total_connections']), int(d[b'rejected_connections'])

    def wait(self, ok, secs=8):
        end = time.time() + secs
        while True:
            s = self.stats()
            if ok(s) or time.time() > end:
                return s
            time.sleep(0.002)

    def settle(self, why):
        want = (self.n, self.total, self.rej)
        s = self.wait(lambda s: s == want)
        self.checks += 1
        if s != want:
            raise Fail('after %s: current/total/rejected connections are %s, expected %s' % (why, s, want))

    def count(self, served):
        if served:
            self.n += 1
            self.total += 1
        else:
            self.rej += 1

    def use(self, p, why):
        """The first request of a connection: served when there is room."""
        room = self.n < self.max
        p.send()
        got = p.recv()
        if got != room:
            raise Fail('%s: a connection was %s with %d of %d in use' % (why, 'served' if got else 'refused', self.n, self.max))
        self.count(got)
        if not got:
            p.c.close()
        elif p.proto == 'http':
            p.c.close()
            self.n -= 1
        else:
            self.served.append(p)
        return got

    def fill(self, srv, rng):
        """Open until the limit and one more."""
        while self.n < self.max:
            self.use(Peer(srv, rng.choice(self.kinds), rng.choice(['resp', 'mc', 'inline', 'pg'])), 'filling up')
        self.settle('filling up')
        for _ in range(2):
            self.use(Peer(srv, rng.choice(self.kinds), rng.choice(['resp', 'mc', 'http', 'pg'])), 'at the limit')
        self.settle('a refusal')

    def end(self, p, how, rng):
        self.served.remove(p)
        p.finish(how, rng)
        self.n -= 1


class PROP(Prop):
    ID = 'C28'
    RULE = ('one case is a history of 10 to 60 steps around --maxconns (2 to 20, or 100 or 300): connections of every protocol over TCP and unix sockets opened with a request, opened idle, opened in bursts, used again, and ended by closing, reset, half close, '
            'QUIT, a protocol error, in the middle of a request, with unread replies, during a background command or while monitoring, with the reported figures compared with the model after each step; or rounds of hundreds of alike connections and sessions (all protocols, statements and portals redefined and described, errors, cut requests) with the live heap compared between '
            'rounds; non-trivial when connections were refused and a freed slot was reused, or for the rounds')
    ASSUME = ('a connection counts from its first event (data or close), as implemented, and the figures may lag an event, so a differing figure is read again for up to 8 s',
              'connects that race a refusal are not judged: a step waits for the figures to agree before the next')
    QUICK = (400, 34)
    THOROUGH = (8000, 900)
    PER = 12

    def config(self, rng):
        mx = rng.choice([2, 3, 4, 4, 5, 8, 8, 20, 20, 100, 300])
        return {'max': mx, 'tcp': rng.random() < 0.6, 'opts': {'maxconns': mx, 'threads': rng.choice([1, 1, 2, 3, 4])}}

    def gen(self, rng, cfg):
        if cfg['max'] >= 100 and rng.random() < 0.5:
            return {'kind': 'churn', 'per': rng.choice([60, 120, 250]), 'at': rng.choice([5, 30, 90]), 'work': int(rng.random() < 0.7), 'seed': rng.randrange(1 << 30)}
        ops = []
        for _ in range(rng.randint(10, 60)):
            r = rng.random()
            p = rng.choice(['resp', 'mc', 'inline', 'pg', 'pg', 'http'])
            if r < 0.3:
                ops.append({'open': p, 'u': rng.randrange(2)})
            elif r < 0.38:
                ops.append({'idle': p, 'u': rng.randrange(2)})
            elif r < 0.44:
                ops.append({'wake': rng.randrange(100)})
            elif r < 0.48:
                ops.append({'drop': rng.randrange(100), 'abort': rng.randrange(2)})
            elif r < 0.55:
                ops.append({'ping': rng.randrange(100)})
            elif r < 0.65:
                ops.append({'burst': rng.choice([2, 3, 5, 8, cfg['max'] + rng.randint(-2, 3)]), 'p': rng.choice(['resp', 'mc', 'inline', 'pg']), 'close': rng.randrange(3)})
            elif r < 0.68:
                ops.append({'endall': rng.randrange(1 << 20)})
            else:
                ops.append({'end': rng.randrange(100), 'how': rng.choice(HOWS), 's': rng.randrange(1 << 20)})
        return {'kind': 'hist', 'ops': ops, 'seed': rng.randrange(1 << 30), 'fill': int(cfg['max'] <= 20 or rng.random() < 0.4)}

    def fixed(self, w):
        return [{'kind': 'long', 'n': 40000, 'threads': w + 1, 'proto': ('resp', 'mc', 'pg')[w]}] if w < 3 else []

    def long(self, env, case):
        """Tens of thousands of short connections leave nothing."""
        s = env.server({'maxconns': 500, 'threads': case['threads']})
        ctl = s.conn()
        sent = PING[case['proto']][0]

        def batch(n):
            l = [s.conn() for _ in range(n)]
            for c in l:
                c.send(sent)
            for c in l:
                c.more()
                c.close()

        def mark():
            end = time.time() + 20
            while True:
                d = {x[1][0][1]: x[1][1][1] for x in resp_call(ctl, b'STATS')[1]}
                if int(d[b'curr_connections']) == 1:
                    break
                if time.time() > end:
                    raise Fail('%s connections stay open' % d[b'curr_connections'].decode())
                time.sleep(0.005)
            t = s.ctl.get('ticks')
            while s.ctl.get('ticks') < t + 2 and time.time() < end:
                time.sleep(0.005)
            return s.ctl.get('alloced')
        for _ in range(20):
            batch(100)
        a = mark()
        for _ in range(case['n'] // 50):
            batch(50)
        b = mark()
        ctl.close()
        s.kill()
        if b - a > case['n'] * 3:
            raise Fail('%d connections, all closed, left %d bytes of heap' % (case['n'], b - a))
        return {'nt': True, 'feats': ['tens of thousands of connections'], 'checks': case['n']}

    def run(self, env, srv, cfg, case):
        if case['kind'] == 'long':
            return self.long(env, case)
        w = World(srv, cfg)
        try:
            return self.churn(srv, cfg, case, w) if case['kind'] == 'churn' else self.hist(srv, cfg, case, w)
        finally:
            for p in w.served + w.idle:
                p.c.close()
            w.ctl.close()

    def hist(self, srv, cfg, case, w):
        feats = set()
        refused = reused = False
        freed = False
        for o in case['ops']:
            why = json_short(o)
            if 'open' in o:
                ok = w.use(Peer(srv, w.kinds[o['u'] % len(w.kinds)], o['open']), why)
                refused |= not ok
                reused |= ok and freed and refused
            elif 'idle' in o:
                if len(w.idle) < 20:
                    w.idle.append(Peer(srv, w.kinds[o['u'] % len(w.kinds)], o['idle']))
            elif 'wake' in o:
                if w.idle:
                    ok = w.use(w.idle.pop(o['wake'] % len(w.idle)), why)
                    refused |= not ok
                    feats.add('idle connection used later')
            elif 'drop' in o:
                if w.idle:
                    p = w.idle.pop(o['drop'] % len(w.idle))
                    # the close is the first event: counted, and gone at once
                    if w.n < w.max:
                        w.total += 1
                    else:
                        w.rej += 1
                    (p.c.abort if o['abort'] else p.c.close)()
                    feats.add('idle connection closed')
            elif 'ping' in o:
                if w.served:
                    w.served[o['ping'] % len(w.served)].ping()
            elif 'burst' in o:
                n = max(1, o['burst'])
                free = w.max - w.n
                l = [Peer(srv, w.kinds[i % len(w.kinds)], o['p']) for i in range(n)]
                if o['close'] == 2:
                    # closed right after the request: any number up to the free slots is served
                    s0 = w.total + w.rej
                    for p in l:
                        p.send()
                        p.c.close()
                    s = w.wait(lambda s: s[0] == w.n and s[1] + s[2] == s0 + n)
                    if s[0] != w.n or s[1] + s[2] != s0 + n or s[1] < w.total or s[2] < w.rej or s[1] - w.total < min(free, n):
                        raise Fail('%s: current/total/rejected connections are %s after (%d, %d, %d)' % (why, s, w.n, w.total, w.rej))
                    w.total, w.rej = s[1], s[2]
                    feats.add('burst of connections closed at once')
                    continue
                for p in l:
                    p.send()
                ok = 0
                for p in l:
                    if p.recv():
                        ok += 1
                        w.served.append(p)
                        w.count(True)
                    else:
                        p.c.close()
                        w.count(False)
                        refused = True
                if ok != min(free, n):
                    raise Fail('%s: %d connections were served with %d slots free' % (why, ok, free))
                feats.add('burst of connections')
            elif 'endall' in o:
                rng = random.Random(o['endall'])
                freed |= len(w.served) > 0
                for p in list(w.served):
                    w.end(p, rng.choice(HOWS), rng)
            elif w.served:
                w.end(w.served[o['end'] % len(w.served)], o['how'], random.Random(o['s']))
                freed = True
                feats.add('end by ' + o['how'])
            w.settle(why)
        rng = random.Random(case['seed'])
        if case['fill']:
            w.fill(srv, rng)
        for p in rng.sample(w.served, min(len(w.served), 20)):
            p.ping()
        for p in list(w.served):
            w.end(p, rng.choice(HOWS), rng)
        w.settle('closing everything')
        for p in w.idle:
            w.total += 1
            p.c.close()
            w.settle('closing an idle connection')
        w.idle = []
        if case['fill'] and cfg['max'] <= 20 and rng.random() < 0.5:
            # every slot is usable again
            w.fill(srv, rng)
        if refused:
            feats.add('refused at the limit')
        if reused:
            feats.add('freed slot reused')
        return {'nt': refused and freed, 'feats': feats, 'checks': w.checks}

    def work(self, srv, kind, b, rng):
        c = srv.conn(kind)
        try:
            c.send(b)
            c.s.shutdown(socket.SHUT_WR)
            c.read_eof()
        except OSError:
            pass
        c.close()

    def churn(self, srv, cfg, case, w):
        rng = random.Random(case['seed'])
        marks = []
        grows = lambda: all(b - a >= 16 for a, b in zip(marks[1:], marks[2:]))
        for rnd in range(9):
            if rnd >= 5 and not grows():
                break
            left = case['per']
            r2 = random.Random(case['seed'])   # the same round again
            while left > 0 or w.served:
                if left > 0 and len(w.served) < min(case['at'], w.max - 1):
                    left -= 1
                    if case.get('work') and r2.random() < 0.7:
                        w.n += 1
                        w.total += 1
                        self.work(srv, r2.choice(w.kinds), session(r2), r2)
                        w.n -= 1
                        w.settle('a session of round %d' % rnd) if r2.random() < 0.05 or w.n + 3 >= w.max else None
                        continue
                    p = Peer(srv, r2.choice(w.kinds), r2.choice(['resp', 'mc', 'inline', 'pg', 'http']))
                    if r2.random() < 0.1 and p.proto != 'http':
                        w.idle.append(p)
                        w.idle.pop().c.close()
                        w.count(True)
                        w.n -= 1
                        continue
                    w.use(p, 'round %d' % rnd)
                    w.settle('an open of round %d' % rnd) if r2.random() < 0.05 or p.proto == 'http' else None
                else:
                    w.end(r2.choice(w.served), r2.choice(HOWS), r2)
                    if w.n + 1 >= w.max:
                        w.settle('an end of round %d' % rnd)
            w.settle('round %d' % rnd)
            if case.get('work'):
                for x in (b'FLUSHALL', b'SWEEP'):
                    if resp_call(w.ctl, x) != OK:
                        raise Fail('%s failed' % x)
            t = srv.ctl.get('ticks')
            end = time.time() + 10
            while srv.ctl.get('ticks') < t + 2 and time.time() < end:
                time.sleep(0.005)
            marks.append(srv.ctl.get('alloced'))
        # the rounds are all alike: a heap larger after each of them is one that finished connections fill
        if grows():
            raise Fail('the heap grew in every round of %d connections: %s' % (case['per'], marks))
        return {'nt': True, 'feats': ['rounds of connections', 'over 64 connections at once'] if case['at'] > 64 else ['rounds of connections'], 'checks': w.checks + len(marks)}


def json_short(o):
    import json
    return json.dumps(o)
