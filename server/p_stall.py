"""C32: a client that does not read, or does not finish, never holds up the others, and loses nothing."""
from harness import Prop
import errno, os, sys
from multi import *

SIZES = (30, 1000, 20000, 300000)
NKEYS = 4000
WAIT = 15     # seconds in which a probe must be answered


def want_len(k):
    return SIZES[k % 4]


def big(k):
    n = want_len(k)
    return (b'<%d>' % k * (n // 3 + 1))[:n]


class Hog:
    """A client with requests of its own and what it is owed, byte for byte."""

    def __init__(self, srv, kind, o):
        self.pr, self.how, self.o = o['pr'], o['hog'], o
        self.kind = kind
        self.rng = random.Random(o['s'])
        self.own = b'own%d' % o['s']
        self.c = srv.conn(kind)
        if kind == 'tcp':
            self.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 100000)
        self.c.timeout = WAIT
        self.stored = None     # the value its complete requests have stored
        self.units = []        # (what is sent, parser and check of the reply)
        self.todo = b''        # not yet given to the socket
        self.rest = b''        # held back on purpose
        self.fifo = None
        self.srv = srv
        self.build()
        self.got = 0

    def unit(self, b, exp, check=None):
        self.units.append((exp, check))
        self.todo += b

    def build(self):
        r, pr, o = self.rng, self.pr, self.o
        if pr == 'pg':
            self.todo += pg_startup()
            self.units.append(('start', None))
        if self.how == 'half':
            # one request of which a part is sent, the rest later
            n = r.choice([0, 5, 3000, 100000, 900000])
            v = (r.choice([b'x', b'ab', b'12345']) * (n + 1))[:n]
            b = self.store(v)
            cut = r.choice([1, len(b) - 1, len(b) // 2, r.randrange(1, len(b)), min(len(b) - 1, 20), min(len(b) - 1, 60)])
            self.todo, self.rest = self.todo + b[:cut], b[cut:]
            self.units.append(('stored', v))
            return
        if pr == 'http':
            k = r.randrange(4, 8) | 3
            self.unit(b'GET /big%d HTTP/1.1\r\n\r\n' % k, 'get', k)
            return
        if self.how == 'load':
            # a command that stays in the background until the pipe is written to
            self.fifo = os.path.join(self.srv.dir, 'fifo%d' % o['s'])
            os.mkfifo(self.fifo)
            os.chmod(self.fifo, 0o666)
            self.junk = r.random() < 0.3
            if r.random() < 0.5:
                self.store_unit(b'before')
            a = [b'LOAD', b'FROM', self.fifo.encode()]
            if r.random() < 0.4:
                a.insert(r.choice([1, 3]), b'FAST')
            self.unit(resp_multi(a) if pr == 'resp' else pg_msg(b'Q', b' '.join(a[:-1] if a[-1] == b'FAST' else a) .replace(self.fifo.encode(), b"'%s'" % self.fifo.encode()) + b'\0'), 'load')
            for _ in range(r.randrange(4)):
                if r.random() < 0.5:
                    self.store_unit(b'after%d' % r.randrange(100))
                else:
                    self.get(r.randrange(8))
            return
        if self.how == 'bg':
            for _ in range(o['n'] % 12 + 1):
                if r.random() < 0.5:
                    self.keys()
                else:
                    self.get(r.randrange(8))
            return
        total = 0
        i = 0
        while total < o['total'] and i < 3000:
            i += 1
            if r.random() < 0.2 and not (pr == 'mc' and r.random() < 0.5):
                v = b'v%d' % i
                self.todo += self.store(v)
                self.units.append(('stored', v))
            else:
                k = r.choice(o['ks'])
                total += want_len(k)
                self.get(k)

    def store(self, v):
        if self.pr == 'resp':
            return resp_multi([b'SET', self.own, v])
        if self.pr == 'mc':
            return b'set %s 0 0 %d\r\n%s\r\n' % (self.own, len(v), v)
        if self.pr == 'http':
            return b'PUT /%s HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s' % (self.own, len(v), v)
        return pg_msg(b'Q', b"SET %s '%s'\0" % (self.own, v))

    def store_unit(self, v):
        self.todo += self.store(v)
        self.units.append(('stored', v))

    def release(self, must=True):
        """Let the LOAD go on."""
        if not self.fifo:
            return
        end = time.time() + WAIT
        while True:
            try:
                fd = os.open(self.fifo, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError as e:
                if e.errno != errno.ENXIO:
                    raise
                if not must and time.time() > end - WAIT + 0.3:
                    # the request was lost with the connection
                    os.unlink(self.fifo)
                    return
                if time.time() > end:
                    raise Fail('LOAD does not read its file')
            time.sleep(0.001)
        if self.junk:
            os.write(fd, b'junk')
        os.close(fd)
        os.unlink(self.fifo)
        self.fifo = None

    def get(self, k):
        if self.pr == 'resp':
            self.unit(resp_multi([b'GET', b'big%d' % k]), 'get', k)
        elif self.pr == 'mc':
            self.unit(b'get big%d\r\n' % k, 'get', k)
        else:
            self.unit(pg_msg(b'Q', b'GET big%d\0' % k), 'get', k)

    def keys(self):
        if self.pr == 'resp':
            self.unit(b'*2\r\n$4\r\nKEYS\r\n$4\r\npad*\r\n', 'keys')
        elif self.pr == 'mc':
            self.get(3)
        else:
            self.unit(pg_msg(b'Q', b'KEYS pad*\0'), 'keys')

    def shove(self):
        """Give the socket what it takes, without reading."""
        c = self.c
        while self.todo:
            try:
                n = c.s.send(self.todo[:1 << 18])
                self.todo = self.todo[n:]
            except (BlockingIOError, InterruptedError):
                return
            except OSError as e:
                raise Fail('the connection of a client that does not read was closed: %s' % e)

    def drip(self, n):
        """Send a little more of an unfinished request, never the end of it."""
        if self.rest and not self.todo:
            n = min(n, len(self.rest) - 1)
            self.todo, self.rest = self.rest[:n], self.rest[n:]
            self.shove()

    def complete(self):
        self.todo += self.rest
        self.rest = b''

    def reply(self):
        """Read and check the reply to the next unit."""
        exp, x = self.units.pop(0)
        c, pr = self.c, self.pr
        if exp == 'start':
            while c.read(pg_parse)[0] != 'Z':
                pass
            return
        if exp == 'stored':
            self.stored = x
        if exp == 'load':
            if pr == 'resp':
                g = c.read(resp_parse)
                ok = (g[0] == '-') if self.junk else g == OK
            else:
                g = ''
                while True:
                    t = c.read(pg_parse)[0]
                    g += t
                    if t == 'Z':
                        break
                ok = g == ('EZ' if self.junk else 'CZ')
        elif pr == 'resp':
            g = c.read(resp_parse)
            ok = g == OK if exp == 'stored' else g == ('$', big(x)) if exp == 'get' else g[0] == '*' and len(g[1]) == NKEYS and len(set(g[1])) == NKEYS
        elif pr == 'mc':
            g = c.read(mc_parse)
            ok = g == ('line', b'STORED') if exp == 'stored' else g == ('values', [(b'big%d' % x, 0, None, big(x))])
        elif pr == 'http':
            st, hd, body = http_parse(c.read_eof())
            g = st, body
            ok = st == 200 and (exp == 'stored' or body == big(x))
        else:
            g = []
            while True:
                t, d = c.read(pg_parse)[:2]
                if t == 'Z':
                    break
                g.append((t, tuple(d) if t == 'D' else None))
            rows = [d for t, d in g if t == 'D']
            ts = ''.join(t for t, d in g)
            if exp == 'stored':
                ok = 'E' not in ts and 'C' in ts
            elif exp == 'get':
                v = big(x)
                ok = len(rows) == 1 and ts[-1:] == 'C' and rows[0] == (v,)
            else:
                ok = len(rows) == NKEYS and len(set(rows)) == NKEYS
        if not ok:
            raise Fail('%s: reply to %s %s of a client that had not read for a while: %s' % (pr, exp, short(x), short(g)))
        self.got += 1

    def part(self, n):
        """Read some and stop again."""
        self.shove()
        while n > 0 and self.units and not (self.rest and len(self.units) == 1):
            self.c.out, self.todo = self.c.out + self.todo, b''
            self.c.push()
            self.reply()
            n -= 1

    def resume(self):
        self.shove()
        if self.fifo:
            self.release()
        self.complete()
        self.c.out, self.todo = self.c.out + self.todo, b''
        self.c.push()
        while self.units:
            self.reply()
        if len(self.c.buf) > self.c.pos:
            raise Fail('%s: extra bytes after the replies: %r' % (self.pr, bytes(self.c.buf[self.c.pos:][:100])))

    def blocked(self):
        """Requests that the server has not taken, or a request that is not finished."""
        return bool(self.todo or self.rest or self.fifo)


class PROP(Prop):
    ID = 'C32'
    RULE = ('one case is a history of 6 to 40 steps with up to 8 clients that send pipelines whose replies (up to 9 MB) they do not read, whole key listings, a LOAD from a pipe that nobody writes to yet, or a part of a request, in every protocol and over both transports, and that later read a part, send a little more, '
            'continue to the end or vanish, with requests of other (old and new) clients in between; non-trivial when at least three of those requests were answered while another client was stuck (the server had stopped taking its requests, or its request was unfinished)')
    ASSUME = ('held up means no answer within %d s' % WAIT, 'clients that monitor and do not read are the subject of C31')
    QUICK = (280, 32)
    THOROUGH = (5000, 780)
    PER = 25

    def config(self, rng):
        c = config(rng)
        c['opts']['threads'] = rng.choice([1, 1, 1, 2, 3])
        c['opts'].pop('maxconns', None)
        c['tcp'] = rng.random() < 0.5
        return c

    def start(self, env, cfg):
        s = Prop.start(self, env, cfg)
        c = s.conn()
        if resp_call(c, b'DEBUG', b'POPULATE', b'%d' % NKEYS, b'pad', b'3') != OK:
            raise Fail('DEBUG POPULATE failed')
        for k in range(8):
            if resp_call(c, b'SET', b'big%d' % k, big(k)) != OK:
                raise Fail('SET failed')
        c.close()
        return s

    def gen(self, rng, cfg):
        ops, n = [], 0
        for _ in range(rng.randint(6, 40)):
            r = rng.random()
            if r < 0.25 and n < 8 or n == 0:
                n += 1
                ks = rng.choice([[0], [1, 2], [3], [2, 3], [0, 1, 2, 3, 7]])
                tot = rng.choice([1000, 400000, 1500000, 3000000])
                how = rng.choice(['unread', 'unread', 'half', 'half', 'bg', 'load'])
                ops.append({'hog': how, 'pr': rng.choice(['resp', 'resp', 'mc', 'mc', 'pg', 'pg', 'http'] if how != 'load' else ['resp', 'pg']), 's': rng.randrange(1 << 30), 'u': rng.randrange(2),
                            'ks': ks, 'total': tot * (3 if cfg['tcp'] and rng.random() < 0.5 else 1), 'n': rng.randrange(40)})
            elif r < 0.65:
                ops.append({'probe': rng.choice(PROTOS), 'new': int(rng.random() < 0.4), 'bg': rng.choice([0] * 12 + [1, 2, 3, 4, 5, 6]), 'u': rng.randrange(2)})
            elif r < 0.75:
                ops.append({'part': rng.randrange(8), 'n': rng.choice([1, 1, 3, 20])})
            elif r < 0.83:
                ops.append({'drip': rng.randrange(8), 'n': rng.choice([1, 1, 7, 5000])})
            elif r < 0.92:
                ops.append({'resume': rng.randrange(8)})
            else:
                ops.append({'gone': rng.randrange(8), 'abort': rng.randrange(2)})
        return {'ops': ops}

    def run(self, env, srv, cfg, case):
        kinds = ['unix', 'tcp'] if srv.tcp else ['unix']
        hogs, probes = [], {}
        info = {'nt': False, 'feats': set(), 'checks': 0}
        seen = 0
        count = 0
        side = srv.conn(timeout=WAIT)
        if resp_call(side, b'SET', b'count', b'0') != OK:
            raise Fail('SET failed')

        def probe(pr, new, kind, bg=0):
            nonlocal count
            if pr == 'http':
                g = http_call(srv, b'GET /count HTTP/1.1\r\n\r\n', kind, srv.conn(kind, WAIT))
                if g[0] != 200 or g[2] != b'%d' % count:
                    raise Fail('HTTP GET of another client answered %s, the counter is %d' % (short(g), count))
                return
            if new or (pr, kind) not in probes:
                c = PgConn(srv, kind, timeout=WAIT) if pr == 'pg' else srv.conn(kind, WAIT)
                if not new:
                    probes[pr, kind] = c
            else:
                c = probes[pr, kind]
            count += 1
            if pr == 'resp':
                g = resp_call(c, b'INCR', b'count')
                ok = g == (':', count)
            elif pr == 'mc':
                c.send(b'incr count 1\r\n')
                g = c.read(mc_parse)
                ok = g == ('line', b'%d' % count)
            else:
                g = c.query(b'INCR count')
                ok = g[0] == [[b'%d' % count]]
            if not ok:
                raise Fail('%s: another client\'s INCR answered %s, expected %d' % (pr, short(g), count))
            if ok and bg and pr in ('resp', 'pg'):
                a = [[b'KEYS', b'pad*'], [b'SAVE', b'TO', b'stall.snap'], [b'SAVE', b'FAST', b'TO', b'stall2.snap'], [b'SWEEP'], [b'SWEEP', b'FAST'], [b'PURGE']][bg - 1]
                if pr == 'resp':
                    g = resp_call(c, *a)
                    ok = g[0] == '*' and len(g[1]) == NKEYS if bg == 1 else g == OK
                else:
                    g = c.query(b' '.join(b"'%s'" % x if b'.' in x or b'*' in x else x for x in a))
                    ok = g[2] is None and (bg != 1 or len(g[0]) == NKEYS)
                if not ok:
                    raise Fail('%s: the %s of another client is answered %s' % (pr, a[0].decode(), short(g)))
                info['feats'].add('others: ' + a[0].decode())
            if new:
                (c.c if pr == 'pg' else c).close()
        try:
            for o in case['ops']:
                info['checks'] += 1
                if 'hog' in o:
                    h = Hog(srv, kinds[o['u'] % len(kinds)], o)
                    hogs.append(h)
                    h.shove()
                    info['feats'].add('%s over %s' % (o['hog'], o['pr']))
                    continue
                if 'probe' in o:
                    for h in hogs:
                        h.shove()
                    stuck = sum(h.blocked() for h in hogs)
                    probe(o['probe'], o['new'], kinds[o['u'] % len(kinds)], o.get('bg', 0))
                    seen += stuck > 0
                    if any(h.todo for h in hogs):
                        info['feats'].add('requests not taken')
                    info['feats'].add('%d stuck' % min(stuck, 4))
                    continue
                k = [x for x in ('part', 'drip', 'resume', 'gone') if x in o][0]
                if not hogs:
                    continue
                i = o[k] % len(hogs)
                h = hogs[i]
                if k == 'part':
                    if h.pr != 'http' and not h.fifo:
                        h.part(o['n'])
                elif k == 'drip':
                    h.drip(o['n'])
                elif k == 'gone':
                    hogs.pop(i)
                    (h.c.abort if o['abort'] else h.c.close)()
                    h.release(False)
                    info['feats'].add('vanished')
                else:
                    hogs.pop(i)
                    self.end(h, side, info)
            for h in list(hogs):
                hogs.remove(h)
                self.end(h, side, info)
            for k in range(8):
                if resp_call(side, b'GET', b'big%d' % k) != ('$', big(k)):
                    raise Fail('big%d has changed' % k)
        finally:
            for h in hogs:
                h.c.close()
                if h.fifo:
                    h.release(False)
            for c in probes.values():
                getattr(c, 'c', c).close()
            side.close()
        info['nt'] = seen >= 3
        return info

    def end(self, h, side, info):
        """Let it finish: nothing may be lost."""
        h.resume()
        info['checks'] += h.got
        if h.stored is not None:
            g = resp_call(side, b'GET', h.own)
            if g != ('$', h.stored):
                raise Fail('%s: the last value stored by a client that was stuck is %s, expected %s' % (h.pr, short(g), short(h.stored)))
        resp_call(side, b'DEL', h.own)
        h.c.close()
