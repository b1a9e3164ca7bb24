"""C27: commands of concurrent clients are atomic and answered in order."""
from harness import Prop
from multi import *
import private

BIG = 1 << 62


# one request of each protocol, and its reply in a common form ------------------
def q_resp(op, k, v):
    a = {'get': [b'GET', k], 'mgets': [b'MGETS', k], 'set': [b'SET', k, v], 'nx': [b'SET', k, v, b'NX'], 'xx': [b'SET', k, v, b'XX'], 'xchg': [b'SET', k, v, b'GET'], 'del': [b'DEL', k],
         'incr': [b'INCRBY', k, v], 'app': [b'APPEND', k, v], 'pre': [b'PREPEND', k, v], 'exp': [b'EXPIRE', k, b'100000'], 'touch': [b'TOUCH', k], 'echo': [b'ECHO', v], 'flush': [b'FLUSHALL'],
         'exists': [b'EXISTS', k]}.get(op)
    if op == 'cas':
        a = [b'SET', k, v[0], b'CAS', b'%d' % v[1]]
    if op == 'mget':
        a = [b'MGET'] + k
    return a


def d_resp(op, r):
    t, x = r
    if t == '-':
        return ('err', x)
    if op in ('get', 'xchg', 'echo') and t == '$':
        return x
    if op == 'mget' and t == '*' and all(y[0] == '$' for y in x):
        return [y[1] for y in x]
    if op == 'mgets' and t == '*' and len(x) == 1:
        return None if x[0] == NIL else (x[0][1][2][1], int(x[0][1][1][1]))
    if op in ('set', 'flush') and r == OK:
        return True
    if op in ('nx', 'xx', 'cas') and r in (OK, NIL):
        return r == OK
    if op in ('del', 'exp', 'touch', 'exists') and t == ':' and x in (0, 1):
        return x == 1
    if op in ('incr', 'app', 'pre') and t == ':':
        return x
    raise Fail('%s was answered %s' % (op, short(r)))


def q_mc(op, k, v):
    s = lambda c, x=b'': b'%s %s 0 0 %d%s\r\n%s\r\n' % (c, k, len(v), x, v)
    if op == 'get':
        return b'get ' + k + b'\r\n'
    if op == 'mget':
        return b'get ' + b' '.join(k) + b'\r\n'
    if op == 'mgets':
        return b'gets ' + k + b'\r\n'
    if op == 'set':
        return s(b'set')
    if op == 'nx':
        return s(b'add')
    if op == 'xx':
        return s(b'replace')
    if op == 'app':
        return s(b'append')
    if op == 'pre':
        return s(b'prepend')
    if op == 'cas':
        return b'cas %s 0 0 %d %d\r\n%s\r\n' % (k, len(v[0]), v[1], v[0])
    if op == 'del':
        return b'delete ' + k + b'\r\n'
    if op == 'incr':
        return b'incr ' + k + b' ' + v + b'\r\n'
    if op == 'touch':
        return b'touch ' + k + b' 100000\r\n'
    if op == 'flush':
        return b'flush_all\r\n'
    if op == 'echo':
        return b'get noecho' + v + b'\r\n'
    return None


def d_mc(op, k, v, r):
    t, x = r[0], r[1]
    if op == 'echo' and r == ('values', []):
        return v
    if t == 'values' and op in ('get', 'mget', 'mgets'):
        ks = k if op == 'mget' else [k]
        got, i = [], 0
        for kk in ks:
            if i < len(x) and x[i][0] == kk:
                got.append((x[i][3], x[i][2]))
                i += 1
            else:
                got.append(None)
        if i != len(x) or (op == 'mgets') != any(y and y[1] is not None for y in got) and any(got):
            raise Fail('%s of %s was answered %s' % (op, short(ks), short(r)))
        return got[0] if op == 'mgets' else [y and y[0] for y in got] if op == 'mget' else got[0] and got[0][0]
    if t == 'line':
        w = {'set': {b'STORED': True}, 'nx': {b'STORED': True, b'NOT_STORED': False}, 'xx': {b'STORED': True, b'NOT_STORED': False}, 'app': {b'STORED': True, b'NOT_STORED': False}, 'pre': {b'STORED': True, b'NOT_STORED': False},
             'cas': {b'STORED': True, b'EXISTS': False, b'NOT_FOUND': False}, 'del': {b'DELETED': True, b'NOT_FOUND': False}, 'incr': {b'NOT_FOUND': 'nf'}, 'touch': {b'TOUCHED': True, b'NOT_FOUND': False}, 'flush': {b'OK': True}}.get(op, {})
        if x in w:
            return w[x]
        if op == 'incr' and x.isdigit():
            return int(x)
        if op == 'incr' and x.startswith(b'CLIENT_ERROR'):
            return ('err', x)
    raise Fail('memcache %s was answered %s' % (op, short(r)))


def q_http(op, k, v):
    p = b'PUT /' + k
    if op == 'get':
        return b'GET /' + k + b' HTTP/1.1\r\n\r\n'
    if op == 'del':
        return b'DELETE /' + k + b' HTTP/1.1\r\n\r\n'
    if op in ('set', 'nx', 'xx'):
        return p + {'set': b'', 'nx': b'?nx=yes', 'xx': b'?xx=yes'}[op] + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % len(v) + v
    if op == 'cas':
        return p + b'?cas=%d HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % (v[1], len(v[0])) + v[0]
    return None


def d_http(op, r):
    st, hd, body = r
    if op == 'get':
        if st == 200:
            return body
        if st == 404:
            return None
    elif (st, body) in ((200, b'Stored\r\n'), (200, b'Deleted\r\n')):
        return True
    elif st == 404 and op in ('del', 'nx', 'xx', 'cas'):
        return False
    raise Fail('HTTP %s was answered %s' % (op, short(r)))


def d_pg(op, k, v, msgs):
    rows, tag, err = [], None, None
    for t, x in msgs:
        if t == 'D':
            rows.append(x)
        elif t == 'C':
            tag = x
        elif t == 'E':
            err = x
        elif t not in 'TZ':
            raise Fail('Postgres %s was answered with message %s' % (op, t))
    if err is not None:
        return ('err', err)
    w = tag.split(b' ')
    n = int(w[1]) if len(w) == 2 and w[1].isdigit() else None
    if op in ('get', 'xchg', 'echo') and len(rows) < 2:
        return rows[0][0] if rows else None
    if op == 'mget':
        d = [(x[0], x[1]) for x in rows]
        out = []
        for kk in k:
            out.append(d.pop(0)[1] if d and d[0][0] == kk else None)
        if d:
            raise Fail('Postgres MGET of %s was answered rows %s' % (short(k), short(rows)))
        return out
    if op == 'mgets' and len(rows) < 2:
        return (rows[0][3], int(rows[0][2])) if rows else None
    if op in ('set', 'nx', 'xx', 'cas', 'del', 'exp', 'touch') and not rows and n in (0, 1):
        return n == 1
    if op in ('app', 'pre') and n is not None:
        return n
    if op == 'incr' and len(rows) == 1:
        return int(rows[0][0])
    if op == 'exists' and len(rows) == 1:
        return rows[0][0] == b'1'
    if op == 'flush':
        return True
    raise Fail('Postgres %s was answered rows %s tag %s' % (op, short(rows), tag))


class Op:
    __slots__ = ('c', 'op', 'k', 'v', 'inv', 'res', 'r', 'seq')

    def __init__(self, c, op, k, v=None):
        self.c, self.op, self.k, self.v = c, op, k, v
        self.inv, self.res, self.r, self.seq = None, BIG, None, 0

    def __repr__(self):
        return 'client %d #%d %s %s %s -> %s' % (self.c, self.seq, self.op, short(self.k, 40), short(self.v, 40), short(self.r, 60))


CAN = {'resp': {'get', 'mget', 'mgets', 'set', 'nx', 'xx', 'xchg', 'del', 'incr', 'app', 'pre', 'exp', 'touch', 'echo', 'flush', 'exists', 'cas'},
       'pg': {'get', 'mget', 'mgets', 'set', 'nx', 'xx', 'xchg', 'del', 'incr', 'app', 'pre', 'exp', 'touch', 'echo', 'flush', 'exists', 'cas'},
       'mc': {'get', 'mget', 'mgets', 'set', 'nx', 'xx', 'del', 'incr', 'app', 'pre', 'touch', 'echo', 'cas', 'flush'},
       'http': {'get', 'set', 'nx', 'xx', 'del', 'cas'}}


class Client:
    def __init__(self, srv, i, pr, kind):
        self.srv, self.i, self.pr, self.kind = srv, i, pr, kind
        self.c = None
        self.seq = 0
        if pr == 'pg':
            p = PgConn(srv, kind)
            self.c = p.c
        elif pr != 'http':
            self.c = srv.conn(kind)
        self.todo, self.wait, self.msgs = [], [], []

    def enc(self, o):
        if self.pr == 'resp':
            return resp_multi(q_resp(o.op, o.k, o.v))
        if self.pr == 'mc':
            return q_mc(o.op, o.k, o.v)
        if self.pr == 'http':
            return q_http(o.op, o.k, o.v)
        return pg_msg(b'Q', b' '.join(pg_simple(x) if i else x for i, x in enumerate(q_resp(o.op, o.k, o.v))) + b'\0')

    def parse(self):
        """The reply to the oldest request, or None."""
        c, o = self.c, self.wait[0]
        if self.pr == 'http':
            if not c.eof:
                return None
            if len(c.buf) == 0:
                raise Fail('an HTTP request was not answered')
            o.r = d_http(o.op, http_parse(bytes(c.buf)))
            return o
        if self.pr == 'pg':
            while True:
                x = pg_parse(c.buf, c.pos)
                if x is None:
                    return None
                c.pos = x[1]
                self.msgs.append(x[0])
                if x[0][0] == 'Z':
                    m, self.msgs = self.msgs, []
                    o.r = d_pg(o.op, o.k, o.v, m)
                    return o
        x = (resp_parse if self.pr == 'resp' else mc_parse)(c.buf, c.pos)
        if x is None:
            return None
        c.pos = x[1]
        o.r = d_resp(o.op, x[0]) if self.pr == 'resp' else d_mc(o.op, o.k, o.v, x[0])
        return o


def now():
    return time.monotonic_ns()


def drive(srv, clients, win, chaos=None, secs=40):
    """Run every client's list with the given number of requests in flight."""
    live = {}
    history = []
    out = {}

    def feed(cl):
        if cl.wait or not cl.todo:
            return
        n = 1 if cl.pr == 'http' else win
        batch, cl.todo = cl.todo[:n], cl.todo[n:]
        if cl.pr == 'http':
            cl.c = srv.conn(cl.kind)
        data = b''.join(cl.enc(o) for o in batch)
        t = now()
        for o in batch:
            o.inv = t
            cl.seq += 1
            o.seq = cl.seq
        cl.wait = batch
        history.extend(batch)
        out[cl] = data
        live[cl] = True

    def push(cl):
        d = out.get(cl)
        while d:
            try:
                n = cl.c.s.send(d[:1 << 18])
            except (BlockingIOError, InterruptedError):
                break
            except OSError as e:
                raise Fail('client %d was disconnected: %s' % (cl.i, e))
            d = d[n:]
        out[cl] = d

    for cl in clients:
        feed(cl)
    for cl in clients:
        if cl in live:
            push(cl)
    last = time.time()
    while live:
        if chaos:
            chaos.step()
        p = select.poll()
        fds = {}
        for cl in live:
            fds[cl.c.fileno()] = cl
            p.register(cl.c.fileno(), select.POLLIN | (select.POLLOUT if out.get(cl) else 0))
        if chaos:
            for f in chaos.fds():
                p.register(f, select.POLLIN)
        got = p.poll(200)
        for f, ev in got:
            cl = fds.get(f)
            if cl is None:
                chaos.drain(f)
                continue
            if ev & select.POLLOUT:
                push(cl)
            if ev & (select.POLLIN | select.POLLHUP | select.POLLERR):
                moved = cl.c.recv_some()
                t = now()
                if moved or cl.c.eof:
                    last = time.time()
                while cl.wait:
                    o = cl.parse()
                    if o is None:
                        break
                    o.res = t
                    cl.wait.pop(0)
                if cl.c.eof and cl.wait:
                    srv.check_soon()
                    raise Fail('the connection of client %d was closed before the reply to %s' % (cl.i, cl.wait[0]))
                if not cl.wait:
                    if cl.pr == 'http':
                        cl.c.close()
                    elif cl.c.pos != len(cl.c.buf):
                        raise Fail('client %d received bytes nobody asked for: %r' % (cl.i, bytes(cl.c.buf[cl.c.pos:])[:80]))
                    else:
                        cl.c.buf, cl.c.pos = bytearray(), 0
                    del live[cl]
                    feed(cl)
                    if cl in live:
                        push(cl)
        if not got and not srv.alive():
            srv.check()
        if time.time() - last > secs:
            srv.check()
            raise Fail('no client made progress for %d s; waiting for %s' % (secs, next(iter(live)).wait[0]))
    return history


# checkers ------------------------------------------------------------------------
def order(ops, what):
    """ops: (position, is_read, Op); positions must respect real time and each client's order."""
    ops.sort(key=lambda x: (x[0], x[1], x[2].inv, x[2].seq))
    late, seen = (0, None), {}
    for pos, rd, o in ops:
        if o.res < late[0]:
            raise Fail('%s: %s took effect after %s, which was sent later than its reply' % (what, o, late[1]))
        if o.inv > late[0]:
            late = (o.inv, o)
        p = seen.get(o.c)
        if p is not None and p.seq > o.seq:
            raise Fail('%s: %s took effect before the earlier request %s of the same client' % (what, p, o))
        seen[o.c] = o


def check_count(ops, k, final):
    w = [o for o in ops if o.op == 'incr']
    for o in w:
        if not isinstance(o.r, int):
            raise Fail('counter %s: %s' % (short(k), o))
    w.sort(key=lambda o: o.r)
    at, pos, prev = {0: 0}, [], 0
    for i, o in enumerate(w):
        prev += int(o.v)
        if o.r != prev:
            raise Fail('counter %s: %s although the updates answered so far add up to %d: an update was lost or doubled' % (short(k), o, prev))
        at[prev] = i + 1
        pos.append((i + 1, 0, o))
    if final != b'%d' % prev:
        raise Fail('counter %s is %s after updates that add up to %d' % (short(k), short(final), prev))
    for o in ops:
        if o.op == 'get':
            n = int(o.r) if o.r is not None else 0
            if n not in at:
                raise Fail('counter %s: %s is no value the counter ever had' % (short(k), o))
            pos.append((at[n], 1, o))
    order(pos, 'counter ' + short(k))


def check_append(ops, k, final, n, start):
    w = [o for o in ops if o.op == 'app']
    final = final or b''
    if len(final) % n or not final.startswith(start):
        raise Fail('appended value %s: length %d with pieces of %d' % (short(k), len(final), n))
    at = {}
    for i in range(len(start), len(final), n):
        t = final[i:i + n]
        if t in at:
            raise Fail('piece %r was appended twice to %s' % (t, short(k)))
        at[t] = i + n
    pos = []
    for o in w:
        if o.r is False:
            if start == b'' and True:
                pos.append((0, 1, o))   # memcache append before the first store
                continue
            raise Fail('append to an existing key failed: %s' % o)
        p = at.pop(o.v, None)
        if p is None:
            raise Fail('piece %r of %s is lost although the append succeeded' % (o.v, o))
        if o.r is not True and o.r != p:
            raise Fail('%s but the piece ends at %d' % (o, p))
        pos.append((p, 0, o))
    if at:
        raise Fail('%s contains %r which nobody appended' % (short(k), next(iter(at))))
    for o in ops:
        if o.op == 'get':
            v = o.r or b''
            if not final.startswith(v) or len(v) % n:
                raise Fail('%s is no prefix of the final value' % o)
            pos.append((len(v), 1, o))
    order(pos, 'appended value ' + short(k))


def check_xchg(ops, k, final):
    """SET GET: the old values form one chain."""
    nxt = {}
    for o in ops:
        if o.op == 'xchg':
            if o.r in nxt:
                raise Fail('exchange on %s: %s and %s replaced the same value' % (short(k), nxt[o.r], o))
            nxt[o.r] = o
    pos, at, v, i = [], {None: 0}, None, 0
    while v in nxt:
        o = nxt.pop(v)
        i += 1
        pos.append((i, 0, o))
        v = o.v
        at[v] = i
    if nxt:
        raise Fail('exchange on %s: %s replaced a value that was never current' % (short(k), next(iter(nxt.values()))))
    if final != v:
        raise Fail('exchange on %s: the final value is %s, expected %s' % (short(k), short(final), short(v)))
    for o in ops:
        if o.op == 'get':
            if o.r not in at:
                raise Fail('exchange on %s: %s was never current' % (short(k), o))
            pos.append((at[o.r], 1, o))
    order(pos, 'exchange on ' + short(k))


def one_winner(ops, k, what, final=None):
    w = [o for o in ops if o.r is True]
    if len(w) != 1:
        raise Fail('%s on %s: %d of %d clients won: %s' % (what, short(k), len(w), len(ops), w[:3]))
    w = w[0]
    for o in ops:
        if o is not w and o.res < w.inv:
            raise Fail('%s on %s: %s lost before the winner %s was sent' % (what, short(k), o, w))
    if final is not None and final != (w.v[0] if isinstance(w.v, tuple) else w.v):
        raise Fail('%s on %s: the winner stored %s but the value is %s' % (what, short(k), short(w.v), short(final)))


def big(tag, n):
    return (tag * (n // len(tag) + 1))[:max(n, len(tag))]


def check_reg(ops, k):
    """Large values: every read returns one value that was written, whole."""
    wrote = {o.v: o for o in ops if o.op in ('set', 'nx', 'xx')}
    for o in ops:
        if o.op in ('get', 'xchg') and o.r is not None:
            w = wrote.get(o.r)
            if w is None:
                raise Fail('%s returned a value nobody wrote (torn?)' % o)
            if w.inv > o.res or w.r is False:
                raise Fail('%s returned the value of %s' % (o, w))


def spec(st, o):
    """Sequential behaviour of one key: (new state, reply). The state is None or the value."""
    op, v = o.op, o.v
    if op in ('get',):
        return st, st
    if op == 'mgets':
        return st, (st, o.r[1]) if st is not None and o.r is not None else None if st is None else 0
    if op == 'exists':
        return st, st is not None
    if op in ('exp', 'touch'):
        return st, st is not None
    if op == 'set':
        return v, True
    if op == 'nx':
        return (st, False) if st is not None else (v, True)
    if op == 'xx':
        return (st, False) if st is None else (v, True)
    if op == 'xchg':
        return v, st
    if op == 'del':
        return None, st is not None
    if op == 'flush':
        return None, True
    if op == 'cas':
        # v is (new value, cas number, value read with that number)
        if o.r is True:
            return (v[0], True) if st is not None and st == v[2] else (st, 0)
        return st, False
    if op in ('app', 'pre'):
        if o.r is True or o.r is False:    # memcache: only to an existing value
            if st is None:
                return None, False
            return (st + v if op == 'app' else v + st), True
        n = v if st is None else st + v if op == 'app' else v + st
        return n, len(n)
    raise AssertionError(op)


READS = ('get', 'mgets', 'exists', 'exp', 'touch')


def linear(ops, init, final, ismc, budget=60000):
    """Search for an order of the operations on one key that explains all replies.
    True, False, or None when the search was given up."""
    by = {}
    for o in sorted(ops, key=lambda o: o.seq):
        by.setdefault(o.c, []).append(o)
    cs = sorted(by)
    lists = [by[c] for c in cs]
    n = len(lists)

    def fits(st, o):
        op, v = o.op, o.v
        if op == 'incr':
            if o.r == 'nf':
                return st is None, st
            if st is None:
                return (o.c not in ismc and o.r == int(v)), v
            if not st.isdigit():
                return isinstance(o.r, tuple), st
            m = int(st) + int(v)
            if len(st) > 18 and isinstance(o.r, tuple):
                return True, st     # too large for a counter
            return o.r == m, b'%d' % m
        if op == 'mgets':
            return (st is None) == (o.r is None) and (st is None or o.r[0] == st), st
        ns, r = spec(st, o)
        return r == o.r and type(r) is type(o.r), ns

    seen = set()
    stack = [(tuple([0] * n), init)]
    while stack:
        fr, st = stack.pop()
        # reads that fit can go first
        moved = True
        fr = list(fr)
        while moved:
            moved = False
            heads = [(i, lists[i][fr[i]]) for i in range(n) if fr[i] < len(lists[i])]
            if not heads:
                break
            bound = min(o.res for i, o in heads)
            for i, o in heads:
                if o.inv <= bound:
                    # only an operation whose reply shows that it changed nothing
                    if o.op in READS or o.r is False or o.r == 'nf' or isinstance(o.r, tuple):
                        ok, ns = fits(st, o)
                        if not ok:
                            continue
                        fr[i] += 1
                        moved = True
                        break
        fr = tuple(fr)
        if all(fr[i] == len(lists[i]) for i in range(n)):
            if final is Ellipsis or st == final:
                return True
            continue
        if (fr, st) in seen:
            continue
        seen.add((fr, st))
        if len(seen) > budget:
            return None
        heads = [(i, lists[i][fr[i]]) for i in range(n) if fr[i] < len(lists[i])]
        bound = min(o.res for i, o in heads)
        for i, o in heads:
            if o.inv <= bound:
                ok, ns = fits(st, o)
                if ok:
                    stack.append((fr[:i] + (fr[i] + 1,) + fr[i + 1:], ns))
    return False


# disturbance -----------------------------------------------------------------------
class Chaos:
    """Clients that come, go, stall, monitor and start background work meanwhile."""

    def __init__(self, srv, rng, kinds, level):
        self.srv, self.rng, self.kinds, self.level = srv, rng, kinds, level
        self.cs, self.mon, self.n = [], {}, 0
        self.done = set()

    def fds(self):
        return list(self.mon)

    def drain(self, f):
        c = self.mon[f]
        c.recv_some()
        c.buf = bytearray()
        if c.eof:
            del self.mon[f]     # it was too slow
            c.close()

    def step(self):
        rng = self.rng
        if rng.random() > self.level:
            return
        self.n += 1
        if self.n > 60:
            return
        r = rng.choice(['bg', 'bg', 'bgclose', 'half', 'stall', 'monitor', 'monstall', 'abort', 'flood', 'http', 'unmon', 'pgcut', 'stats', 'cut'])
        self.done.add(r)
        c = self.srv.conn(rng.choice(self.kinds))
        if r in ('bg', 'bgclose'):
            q = rng.choice([b'KEYS *\r\n', b'SWEEP\r\n', b'PURGE\r\n', b'SAVE TO side%d\r\n' % rng.randrange(3), b'SWEEP FAST\r\n', b'DEBUG DETACH 1\r\n' if rng.random() < 0.3 else b'KEYS z*\r\n'])
            c.send(q * rng.choice([1, 1, 3]) + (b'PING\r\n' if rng.random() < 0.5 else b''))
            if r == 'bgclose':
                (c.abort if rng.random() < 0.5 else c.close)()
                return
        elif r == 'half':
            c.send(rng.choice([b'*3\r\n$3\r\nSET\r\n$1\r\nx\r\n$100\r\nab', b'set x 0 0 100\r\nab', b'SET x "', b'PUT /x HTTP/1.1\r\nContent-Length: 50\r\n\r\nabc', pg_startup()[:9]]))
        elif r in ('stall', 'flood'):
            try:
                c.s.send(b'GET bigval\r\n' * (40 if r == 'stall' else 200))
            except OSError:
                pass
            if r == 'flood' and rng.random() < 0.5:
                c.abort()
                return
        elif r == 'monstall':
            c.send(b'MONITOR\r\n')      # and never read
        elif r == 'monitor':
            if len(self.mon) < 2:
                c.send(b'MONITOR\r\n')
                self.mon[c.fileno()] = c
                return
        elif r == 'unmon':
            if self.mon:
                f = rng.choice(list(self.mon))
                m = self.mon.pop(f)
                (m.abort if rng.random() < 0.5 else m.close)()
        elif r == 'pgcut':
            c.send(pg_startup() + pg_msg(b'Q', b'KEYS *\0') + pg_msg(b'Q', b'GET bigval\0')[:rng.randrange(1, 12)])
            c.close()
            return
        elif r == 'http':
            c.send(b'GET /bigval HTTP/1.1\r\n\r\n')
            if rng.random() < 0.5:
                c.abort()
                return
        elif r == 'stats':
            c.send(b'STATS\r\nSCAN 0 COUNT 50\r\nDBSIZE\r\n')
        elif r == 'cut':
            c.send(b'GET bigval\r\n' * 3)
            c.s.shutdown(socket.SHUT_WR)
        else:
            c.abort()
            return
        self.cs.append(c)
        if len(self.cs) > 12:
            x = self.cs.pop(rng.randrange(len(self.cs)))
            (x.abort if rng.random() < 0.5 else x.close)()

    def close(self):
        for c in self.cs + list(self.mon.values()):
            (c.abort if self.rng.random() < 0.3 else c.close)()
        self.cs, self.mon = [], {}


PHASES = ('count', 'append', 'nx', 'cas', 'del', 'xchg', 'reg', 'lin', 'lin', 'lin', 'casloop', 'own')


class PROP(Prop):
    ID = 'C27'
    RULE = ('one case runs 2 to 5 phases over 3 to 12 clients of RESP, memcache, Postgres and HTTP on 1-4 server threads, each client with 1 to 400 requests in flight on one to three contended keys: counters, appends, exchanges, elections by NX, by compare-and-store and by delete, whole large values, sessions on private keys, with errors of their own, that must be answered byte for byte as when run alone, '
            'and mixed histories checked for linearizability per key; most phases run beside clients that disconnect, stall, monitor and start background commands; half of the workers run the server under TSan; non-trivial when at least two clients wrote one key with overlapping requests')
    ASSUME = ('schedules are those the machine produces under load, not enumerated',
              'a request takes effect between the moment its batch is sent and the moment its reply is read; mixed histories whose search exceeds 60000 states are counted as undecided')
    SAN = 'address'
    SANS = ('address', 'thread')
    QUICK = (600, 34)
    THOROUGH = (8000, 900)
    PER = 8
    LISTS = ('phases',)
    RARE = True

    def config(self, rng):
        o = {'threads': rng.choice([1, 2, 3, 4, 4]), 'shards': rng.choice([1, 1, 2, 16, 4096]), 'cas': 'yes'}
        if rng.random() < 0.3:
            o['sixpack'] = 'no'
        if rng.random() < 0.4:
            o['autosweep'] = 'no'
        return {'opts': o, 'tcp': rng.random() < 0.5}

    def gen(self, rng, cfg):
        nc = rng.randint(3, 12)
        prs = [rng.choice(['resp', 'resp', 'resp', 'mc', 'mc', 'pg', 'pg', 'http']) for _ in range(nc)]
        for i in range(2):
            prs[i] = rng.choice(['resp', 'pg'])
        return {'prs': prs, 'chaos': rng.choice([0, 0, 0.3, 0.8]), 'seed': rng.randrange(1 << 30),
                'phases': [{'t': rng.choice(PHASES), 's': rng.randrange(1 << 30), 'win': rng.choice([1, 2, 5, 20, 100, 400]), 'keys': rng.choice([1, 1, 2, 3])} for _ in range(rng.randint(2, 5))]}

    def run(self, env, srv, cfg, case):
        rng = random.Random(case['seed'])
        kinds = ['unix', 'tcp'] if srv.tcp else ['unix']
        clients, side = [], srv.conn()
        chaos = None
        feats, st = set(), {'n': 0, 'over': False, 'und': 0}
        try:
            if resp_call(side, b'FLUSHALL') != OK or resp_call(side, b'SET', b'bigval', b'0123456789abcdef' * 1024) != OK:
                raise Fail('FLUSHALL or SET failed')
            # something for the background commands to walk over, half of it expired
            side.send(b''.join(resp_multi([b'SET', b'fill%d' % i, b'x' * (i % 90)] + ([b'PX', b'1'] if i % 2 else [])) for i in range(400)))
            for i in range(400):
                if side.read(resp_parse) != OK:
                    raise Fail('SET failed')
            srv.adv(5 * 10**6)
            for i, pr in enumerate(case['prs']):
                clients.append(Client(srv, i, pr, rng.choice(kinds)))
            if case['chaos']:
                chaos = Chaos(srv, rng, kinds, case['chaos'])
                feats.add('disturbed')
            for i, ph in enumerate(case['phases']):
                getattr(self, 'p_' + ph['t'])(srv, side, clients, chaos, ph, random.Random(ph['s']), b'p%d' % i, st)
                feats.add(ph['t'])
            if chaos:
                feats |= {'chaos ' + x for x in chaos.done}
                chaos.close()
            if resp_call(side, b'PING') != ('+', b'PONG'):
                raise Fail('PING failed at the end')
        finally:
            for c in clients:
                if c.c:
                    c.c.close()
            if chaos:
                chaos.close()
            side.close()
        if st['und']:
            feats.add('undecided history')
        return {'nt': st['over'], 'feats': feats, 'checks': st['n']}

    def go(self, srv, clients, chaos, ph, st, win=None):
        h = drive(srv, clients, win or ph['win'], chaos)
        st['n'] += len(h)
        return h

    def split(self, h, st):
        by = {}
        for o in h:
            if o.op == 'echo':
                if o.r != o.v:
                    raise Fail('client %d received %s for its own %s' % (o.c, short(o.r), o))
                continue
            by.setdefault(o.k, []).append(o)
        for k, ops in by.items():
            w = {}
            for o in ops:
                if o.op != 'get':
                    x = w.setdefault(o.c, [o.inv, o.res])
                    x[0], x[1] = min(x[0], o.inv), max(x[1], o.res)
            l = sorted(w.values())
            if any(a[1] > b[0] for a, b in zip(l, l[1:])):
                st['over'] = True
        return by

    def get(self, side, k):
        r = resp_call(side, b'GET', k)
        if r[0] != '$':
            raise Fail('GET answered %s' % short(r))
        return r[1]

    def total(self, ph, clients):
        return max(4, min(ph['win'] * 2, 400)) if ph['win'] > 1 else 25

    def fill(self, clients, rng, ph, keys, make):
        for cl in clients:
            n = self.total(ph, clients)
            if cl.pr == 'http':
                n = min(n, 10)
            for j in range(n):
                k = rng.choice(keys)
                o = make(cl, k, j)
                if o is None or o.op not in CAN[cl.pr]:
                    o = Op(cl.i, 'get', k)
                cl.todo.append(o)
                if rng.random() < 0.05 and 'echo' in CAN[cl.pr]:
                    cl.todo.append(Op(cl.i, 'echo', None, b'e%d-%d-%d' % (cl.i, j, rng.randrange(1 << 30))))

    def p_count(self, srv, side, clients, chaos, ph, rng, tag, st):
        keys = [tag + b'n%d' % i for i in range(ph['keys'])]
        for k in keys:
            if resp_call(side, b'SET', k, b'0') != OK:
                raise Fail('SET failed')
        self.fill(clients, rng, ph, keys, lambda cl, k, j: Op(cl.i, 'incr', k, b'%d' % rng.choice([1, 1, 2, 7, 1000])) if rng.random() < 0.8 else Op(cl.i, rng.choice(['get', 'exp', 'touch']), k))
        by = self.split(self.go(srv, clients, chaos, ph, st), st)
        for k in keys:
            check_count(by.get(k, []), k, self.get(side, k))

    def p_append(self, srv, side, clients, chaos, ph, rng, tag, st):
        keys = [tag + b'a%d' % i for i in range(ph['keys'])]
        start = rng.choice([b'', b'startval'])
        if start:
            for k in keys:
                if resp_call(side, b'SET', k, start) != OK:
                    raise Fail('SET failed')
        self.fill(clients, rng, ph, keys, lambda cl, k, j: Op(cl.i, 'app', k, b'%02x%06x' % (cl.i, j)) if rng.random() < 0.85 else Op(cl.i, 'get', k))
        by = self.split(self.go(srv, clients, chaos, ph, st), st)
        for k in keys:
            check_append(by.get(k, []), k, self.get(side, k), 8, start)

    def p_xchg(self, srv, side, clients, chaos, ph, rng, tag, st):
        keys = [tag + b'x%d' % i for i in range(ph['keys'])]
        self.fill(clients, rng, ph, keys, lambda cl, k, j: Op(cl.i, 'xchg', k, b'%d.%d' % (cl.i, j)) if rng.random() < 0.85 else Op(cl.i, 'get', k))
        by = self.split(self.go(srv, clients, chaos, ph, st), st)
        for k in keys:
            check_xchg(by.get(k, []), k, self.get(side, k))

    def elect(self, srv, side, clients, chaos, ph, rng, tag, st, op, what):
        n = rng.choice([5, 50, 200])
        keys = [tag + b'e%d' % i for i in range(n)]
        cas = {}
        if op != 'nx' or rng.random() < 0.3:
            px = op == 'nx'     # an expired entry instead of none
            side.send(b''.join(resp_multi([b'SET', k, b'old'] + ([b'PX', b'1'] if px else [])) for k in keys))
            for k in keys:
                if side.read(resp_parse) != OK:
                    raise Fail('SET failed')
            if px:
                srv.adv(5 * 10**6)
        if op == 'cas':
            side.send(b''.join(resp_multi([b'MGETS', k]) for k in keys))
            for k in keys:
                cas[k] = d_resp('mgets', side.read(resp_parse))[1]
        for cl in clients:
            ks = keys if cl.pr != 'http' else keys[:8]
            for k in ks:
                v = b'%d:%s' % (cl.i, k)
                for _ in range(2 if op == 'cas' and rng.random() < 0.3 else 1):
                    cl.todo.append(Op(cl.i, op, k, (v, cas[k]) if op == 'cas' else v))
        by = self.split(self.go(srv, clients, chaos, ph, st), st)
        for k in keys:
            one_winner(by[k], k, what, None if op == 'del' else self.get(side, k))
            if op == 'del' and self.get(side, k) is not None:
                raise Fail('%s is present after every client deleted it' % short(k))

    def p_own(self, srv, side, clients, chaos, ph, rng, tag, st):
        """Clients that use keys of their own are answered as if they were alone."""
        n = rng.choice([2, 4, 6, 8])
        ss = private.sessions(rng.randrange(1 << 30), n, rng.choice([30, 150, 500]))
        private.clean(srv, side, n)
        a = private.alone(srv, ss)
        for _ in range(rng.choice([1, 2, 3])):
            private.clean(srv, side, n)
            b = private.together(srv, ss)
            private.compare(ss, a, b)
            st['n'] += sum(map(len, ss))
        private.clean(srv, side, n)

    def p_nx(self, *a):
        self.elect(*a, 'nx', 'store if absent')

    def p_cas(self, *a):
        self.elect(*a, 'cas', 'compare and store')

    def p_del(self, *a):
        self.elect(*a, 'del', 'delete')

    def p_casloop(self, srv, side, clients, chaos, ph, rng, tag, st):
        k = tag + b'c'
        if resp_call(side, b'SET', k, b'first') != OK:
            raise Fail('SET failed')
        used = {}
        vals = {}
        won = 0
        for rnd in range(rng.choice([3, 10])):
            for cl in clients:
                cl.todo.append(Op(cl.i, 'mgets' if 'mgets' in CAN[cl.pr] else 'get', k))
            h = self.go(srv, clients, chaos, ph, st, 1)
            known = []
            for o in h:
                if o.op == 'mgets':
                    if o.r is None:
                        raise Fail('%s is gone' % short(k))
                    if vals.setdefault(o.r[1], o.r[0]) != o.r[0]:
                        raise Fail('cas number %d of %s stood for %s and %s' % (o.r[1], short(k), short(vals[o.r[1]]), short(o.r[0])))
                    known.append(o.r)
            for cl in clients:
                x = rng.choice(known)
                cl.todo.append(Op(cl.i, 'cas', k, (b'r%dc%d' % (rnd, cl.i), x[1], x[0])))
            h = self.go(srv, clients, chaos, ph, st, 1)
            for o in h:
                if o.r is True:
                    won += 1
                    if o.v[1] in used:
                        raise Fail('compare and store on %s: %s and %s both succeeded with cas %d' % (short(k), used[o.v[1]], o, o.v[1]))
                    used[o.v[1]] = o
            wins = [o for o in h if o.r is True]
            if len(wins) != 1:
                raise Fail('compare and store on %s: %d of %d clients succeeded with the current cas number' % (short(k), len(wins), len(h)))
            if self.get(side, k) != wins[0].v[0]:
                raise Fail('compare and store on %s: the winner is %s but the value is %s' % (short(k), wins[0], short(self.get(side, k))))
            st['over'] = True

    def p_reg(self, srv, side, clients, chaos, ph, rng, tag, st):
        keys = [tag + b'r%d' % i for i in range(ph['keys'])]
        sizes = rng.choice([[1, 30, 200], [5000, 20000, 100], [70000, 3, 140000]])
        cap = [1 << 21]

        def make(cl, k, j):
            r = rng.random()
            if r < 0.45 and cap[0] > 0:
                v = big(b'<%d.%d>' % (cl.i, j), rng.choice(sizes))
                cap[0] -= len(v)
                return Op(cl.i, 'set' if r < 0.35 else 'nx', k, v)
            if r < 0.55:
                return Op(cl.i, 'del', k)
            return Op(cl.i, 'get', k)
        self.fill(clients, rng, dict(ph, win=min(ph['win'], 40)), keys, make)
        by = self.split(self.go(srv, clients, chaos, ph, st), st)
        for k in keys:
            check_reg(by.get(k, []), k)

    def p_lin(self, srv, side, clients, chaos, ph, rng, tag, st):
        keys = [tag + b'l%d' % i for i in range(ph['keys'])]
        init, cas = {}, {}
        for k in keys:
            r = rng.random()
            init[k] = None
            if r < 0.4:
                v = rng.choice([b'5', b'text', b''])
                if resp_call(side, b'SET', k, v) != OK:
                    raise Fail('SET failed')
                init[k] = v
                cas[k] = (v, d_resp('mgets', resp_call(side, b'MGETS', k))[1])
            elif r < 0.7:
                if resp_call(side, b'SET', k, b'9', b'PX', b'1') != OK:
                    raise Fail('SET failed')
                srv.adv(5 * 10**6)
        use = clients[:rng.choice([3, 4, 6])]
        per = rng.choice([6, 10, 20])
        num_ = rng.random() < 0.4
        flush = rng.random() < 0.25
        ops_ = ['set', 'nx', 'xx', 'xchg', 'del', 'incr', 'app', 'pre', 'exp', 'touch', 'get', 'get', 'mgets', 'exists', 'xchg', 'cas', 'mget']
        for cl in use:
            for j in range(min(per, 8) if cl.pr == 'http' else per):
                k = rng.choice(keys)
                op = rng.choice(ops_)
                if op == 'cas' and k not in cas or op not in CAN[cl.pr]:
                    op = 'get'
                if flush and rng.random() < 0.05 and 'flush' in CAN[cl.pr]:
                    op = 'flush'
                u = b'%d' % (rng.randrange(1, 50) * 100 + cl.i) if num_ else b'v%d.%d' % (cl.i, j)
                if op == 'incr':
                    u = b'%d' % rng.choice([1, 3, 10])
                elif op in ('app', 'pre'):
                    u = b'%d' % (cl.i % 9 + 1) if num_ else b'+%d.%d' % (cl.i, j)
                elif op == 'cas':
                    u = (u, cas[k][1], cas[k][0])
                elif op == 'mget':
                    k = [rng.choice(keys) for _ in range(rng.randint(1, 3))]
                    if cl.pr != 'resp':     # a reply that names only the keys found does not tell which of two reads missed
                        k = list(dict.fromkeys(k))
                cl.todo.append(Op(cl.i, op, k, u if op not in ('get', 'mgets', 'del', 'exp', 'touch', 'exists', 'mget', 'flush') else None))
        h = self.go(srv, clients, chaos, ph, st, min(ph['win'], 20))
        ismc = {cl.i for cl in clients if cl.pr == 'mc'}
        by = {k: [] for k in keys}
        for o in h:
            if o.op == 'flush':
                for k in keys:
                    by[k].append(o)
            elif o.op == 'mget':
                for i, k in enumerate(o.k):
                    x = Op(o.c, 'get', k)
                    x.inv, x.res, x.r, x.seq = o.inv, o.res, o.r[i], o.seq + i * 0.01
                    by[k].append(x)
            else:
                by[o.k].append(o)
        for k in keys:
            w = {o.c for o in by[k] if o.op not in READS}
            if len(w) > 1:
                st['over'] = True
            f = self.get(side, k)
            r = linear(by[k], init[k], f, ismc)
            if r is None:
                st['und'] += 1
            elif not r:
                t0 = min(o.inv for o in by[k])
                raise Fail('no order of the commands on %s explains the replies (from %s to %s): %s' % (short(k), short(init[k]), short(f), ' | '.join(
                    '%d-%d %s' % ((o.inv - t0) // 1000, (o.res - t0) // 1000, o) for o in sorted(by[k], key=lambda o: (o.inv, o.c, o.seq)))[:6000]))
