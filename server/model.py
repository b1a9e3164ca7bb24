"""The reference model: argument vectors executed against a plain dictionary.

Expected replies are RESP typed tuples ('+',b) ('-',None) (':',n) ('$',b|None)
('*',[..]) plus the matchers below. They never copy the server's code: each
follows the documented meaning of its command.
"""
SEC = 10**9
I64MIN, I64MAX, U64MAX = -2**63, 2**63 - 1, 2**64 - 1


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'an integer in %d..%d' % (self.lo, self.hi)


class OneOf:
    def __init__(self, *a):
        self.a = a

    def __repr__(self):
        return 'one of %r' % (self.a,)


class Unordered:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'in any order %r' % (self.items,)


class CasOf:
    """The cas number of an entry: learned when unknown."""
    def __init__(self, model, key, ent):
        self.m, self.key, self.e = model, key, ent

    def __repr__(self):
        return 'cas %s' % (self.e.cas,)

    def check(self, n):
        e, m = self.e, self.m
        if not m.usecas:
            return n == 0
        if e.cas is None:
            if not e.casfree and n in m.casseen.get(self.key, ()):
                return False
            e.cas = n
            m.casseen.setdefault(self.key, set()).add(n)
            return True
        return e.cas == n


ERR = ('-', None)
OK = ('+', b'OK')
NIL = ('$', None)


def same(exp, got):
    if isinstance(exp, OneOf):
        return any(same(x, got) for x in exp.a)
    if isinstance(exp, Range):
        return got[0] == ':' and exp.lo <= got[1] <= exp.hi
    if isinstance(exp, Unordered):
        return got[0] == '*' and sorted(got[1]) == sorted(exp.items)
    if isinstance(exp, CasOf):
        return got[0] in '+:' and str(got[1] if got[0] == ':' else got[1].decode()).isdigit() and exp.check(int(got[1]))
    if exp == ERR:
        return got[0] == '-' and len(got[1]) > 0
    if exp[0] == '*' and got[0] == '*':
        return len(exp[1]) == len(got[1]) and all(same(a, b) for a, b in zip(exp[1], got[1]))
    return exp == got


class Ent:
    __slots__ = ('val', 'flags', 'exp', 'cas', 'casfree')

    def __init__(self, val, flags=0, exp=0):
        self.val, self.flags, self.exp = val, flags, exp
        self.cas, self.casfree = None, False


def num(b, lo, hi):
    """Canonical decimal or None. Ambiguous spellings must not be generated."""
    try:
        s = b.decode('ascii')
    except UnicodeDecodeError:
        return None
    t = s[1:] if s[:1] in ('-', '+') else s
    if not t or not all('0' <= c <= '9' for c in t) or len(s) > 21:
        return None
    n = int(s)
    if n < lo or n > hi or (lo == 0 and s[0] == '-'):
        return None
    return n


def glob(p, s):
    """* ? and \\ escapes, by dynamic programming."""
    toks = []
    i = 0
    while i < len(p):
        c = p[i]
        if c == 42:
            toks.append('*')
        elif c == 63:
            toks.append('?')
        elif c == 92:
            i += 1
            if i == len(p):
                return False
            toks.append(p[i])
        else:
            toks.append(c)
        i += 1
    row = [True] + [False] * len(s)
    for t in toks:
        if t == '*':
            r, seen = [], False
            for j in range(len(s) + 1):
                seen = seen or row[j]
                r.append(seen)
            row = r
        else:
            row = [False] + [row[j] and (t == '?' or t == s[j]) for j in range(len(s))]
    return row[len(s)]


class NoMem(Exception):
    """A store the server must refuse for want of memory."""


class Model:
    def __init__(self, boot, real, usecas=True, version=None):
        self.refuse = False     # stores are refused for want of memory
        self.inserted = []      # keys added by stores
        self.d = {}
        self.boot, self.real = boot, real
        self.usecas = usecas
        self.casseen = {}
        self.dead = {}      # keys whose expired entry may still be stored
        self.st = {}
        self.total = 0
        self.lastexp = None

    # time
    def adv(self, ns, real=None):
        self.boot += ns
        self.real += ns if real is None else real

    def live(self, k):
        e = self.d.get(k)
        if e is None:
            return None
        if e.exp and e.exp <= self.boot:
            self.dead[k] = e
            del self.d[k]
            return None
        return e

    def purge(self):
        for k in list(self.d):
            self.live(k)

    def stat(self, n, c=1):
        self.st[n] = self.st.get(n, 0) + c

    def nomem(self):
        if self.refuse:
            self.stat('store_no_memory')
            raise NoMem()

    def put(self, k, val, flags=0, exp=0, new=None):
        self.nomem()
        old = self.live(k)
        if old is None:
            self.inserted.append((k, k in self.dead))
        e = Ent(val, flags, exp)
        if old is not None and old.cas is not None:
            self.casseen.setdefault(k, set()).add(old.cas)
        if old is None:
            self.total += 1
        self.dead.pop(k, None)
        self.d[k] = e
        return e

    def rem(self, k):
        e = self.live(k)
        self.dead.pop(k, None)
        if e is None:
            return False
        del self.d[k]
        return True

    def clear(self):
        self.d, self.dead, self.casseen = {}, {}, {}

    def clamp(self, n):
        return max(I64MIN, min(I64MAX, n))

    def after(self, ns):
        """Deadline of a relative lifetime."""
        t = self.clamp(self.boot + ns)
        return t if t > 0 else 1

    def at(self, unix_ns):
        """Deadline of an absolute Unix time."""
        t = self.clamp(self.boot + self.clamp(unix_ns - self.real))
        return t if t > 0 else 1

    # store with all options; returns 'stored' 'exists' 'missing' and the old entry
    def store(self, k, v, exp=0, nx=False, xx=False, keepttl=False, flags=0, cas=None):
        self.stat('cmd_set')
        self.nomem()
        old = self.live(k)
        if cas is not None:
            if old is None:
                return 'missing', None
            if not self.usecas or old.cas != cas:
                return 'exists', old
        elif nx and old is not None:
            return 'exists', old
        elif xx and old is None:
            return 'missing', None
        if keepttl and old is not None:
            exp = old.exp
        self.put(k, v, flags, exp)
        return 'stored', old

    # generic commands (RESP and Postgres)
    def execute(self, a, proto='resp'):
        if not a:
            return None
        name = a[0].lower().decode('latin1')
        f = getattr(self, 'c_' + name, None)
        if f is None:
            return ERR
        try:
            return f(a, proto)
        except NoMem:
            return ERR

    def c_set(self, a, proto):
        if len(a) < 3:
            return ERR
        exp, nx, xx, get, keep, flags, cas, hasex = 0, False, False, False, False, 0, None, False
        i = 3
        while i < len(a):
            o = a[i].lower()
            if o in (b'ex', b'px', b'exat', b'pxat'):
                i += 1
                if i == len(a):
                    return ERR
                n = num(a[i], I64MIN, I64MAX)
                if n is None or n <= 0:
                    return ERR
                ns = self.clamp(n * (SEC if o in (b'ex', b'exat') else 10**6))
                exp = self.after(ns) if o in (b'ex', b'px') else self.at(ns)
                hasex = True
            elif o == b'nx':
                nx = True
            elif o == b'xx':
                xx = True
            elif o == b'get':
                get = True
            elif o == b'keepttl':
                keep = True
            elif o in (b'flags', b'cas'):
                i += 1
                if i == len(a):
                    return ERR
                n = num(a[i], 0, U64MAX)
                if n is None:
                    return ERR
                if o == b'flags':
                    flags = n & 0xffffffff
                else:
                    cas = n
            else:
                return ERR
            i += 1
        if keep and hasex or nx and xx:
            return ERR
        r, old = self.store(a[1], a[2], exp, nx, xx, keep, flags, cas)
        if get:
            if old is None:
                return NIL
            v = ('$', old.val)
            return v if r == 'stored' else OneOf(NIL, v)
        return OK if r == 'stored' else NIL

    def c_setex(self, a, proto):
        if len(a) != 4:
            return ERR
        n = num(a[2], I64MIN, I64MAX)
        if n is None or n <= 0:
            return ERR
        self.store(a[1], a[3], self.after(self.clamp(n * SEC)))
        return OK

    def hit(self, e):
        self.stat('get_hits' if e is not None else 'get_misses')

    def c_get(self, a, proto):
        self.stat('cmd_get')
        if len(a) != 2:
            return ERR
        e = self.live(a[1])
        self.hit(e)
        return ('$', e.val) if e else NIL

    def c_mget(self, a, proto, cas=False):
        if len(a) < 2:
            return ERR
        out = []
        for k in a[1:]:
            self.stat('cmd_get')
            e = self.live(k)
            self.hit(e)
            if e is None:
                out.append(NIL)
            elif cas:
                out.append(('*', [('+', b'%d' % e.flags), CasOf(self, k, e), ('$', e.val)]))
            else:
                out.append(('$', e.val))
        return ('*', out)

    def c_mgets(self, a, proto):
        return self.c_mget(a, proto, True)

    def c_del(self, a, proto):
        if len(a) < 2:
            return ERR
        n = 0
        for k in a[1:]:
            if self.rem(k):
                n += 1
                self.stat('delete_hits')
            else:
                self.stat('delete_misses')
        return (':', n)

    def c_exists(self, a, proto):
        if len(a) < 2:
            return ERR
        return (':', sum(self.live(k) is not None for k in a[1:]))

    def c_dbsize(self, a, proto):
        if len(a) != 1:
            return ERR
        self.purge()
        return Range(len(self.d), len(self.d) + len(self.dead))

    def c_ttl(self, a, proto, unit=SEC):
        if len(a) != 2:
            return ERR
        e = self.live(a[1])
        self.hit(e)
        if e is None:
            return (':', -2)
        if not e.exp:
            return (':', -1)
        return (':', (e.exp - self.boot) // unit)

    def c_pttl(self, a, proto):
        return self.c_ttl(a, proto, 10**6)

    def c_expire(self, a, proto):
        if len(a) < 3:
            return ERR
        n = num(a[2], I64MIN, I64MAX)
        if n is None:
            return ERR
        e = self.live(a[1])
        if e is None:
            return (':', 0)
        self.setexp(a[1], e, self.after(self.clamp(n * SEC)))
        return (':', 1)

    def setexp(self, k, e, exp):
        if e.cas is not None:
            self.casseen.setdefault(k, set()).add(e.cas)
        n = Ent(e.val, e.flags, exp)
        n.casfree = True
        self.d[k] = n
        self.live(k)

    def c_touch(self, a, proto):
        if len(a) < 2:
            return ERR
        n = 0
        for k in a[1:]:
            self.stat('cmd_touch')
            if self.live(k) is not None:
                n += 1
                self.stat('touch_hits')
            else:
                self.stat('touch_misses')
        return (':', n)

    def arith(self, k, delta, decr, uns):
        """-> new number, 'nan', or 'over'"""
        e = self.live(k)
        lo, hi = (0, U64MAX) if uns else (I64MIN, I64MAX)
        cur = num(e.val, lo, hi) if e else 0
        if cur is None:
            return 'nan'
        n = cur - delta if decr else cur + delta
        if n < lo or n > hi:
            return 'over'
        self.put(k, b'%d' % n, e.flags if e else 0, e.exp if e else 0)
        self.stat('decr_hits' if decr else 'incr_hits')
        return n

    def incrdecr(self, a, delta_arg, decr, uns):
        if len(a) != (3 if delta_arg else 2):
            return ERR
        n = 1
        if delta_arg:
            n = num(a[2], 0 if uns else I64MIN, U64MAX if uns else I64MAX)
            if n is None:
                return ERR
        r = self.arith(a[1], n, decr, uns)
        if isinstance(r, str):
            return ERR
        return ('+', b'%d' % r) if uns else (':', r)

    def c_incr(self, a, proto):
        return self.incrdecr(a, False, False, False)

    def c_decr(self, a, proto):
        return self.incrdecr(a, False, True, False)

    def c_incrby(self, a, proto):
        return self.incrdecr(a, True, False, False)

    def c_decrby(self, a, proto):
        return self.incrdecr(a, True, True, False)

    def c_uincr(self, a, proto):
        return self.incrdecr(a, False, False, True)

    def c_udecr(self, a, proto):
        return self.incrdecr(a, False, True, True)

    def c_uincrby(self, a, proto):
        return self.incrdecr(a, True, False, True)

    def c_udecrby(self, a, proto):
        return self.incrdecr(a, True, True, True)

    def c_append(self, a, proto, pre=False):
        if len(a) != 3:
            return ERR
        e = self.live(a[1])
        v = a[2] if e is None else a[2] + e.val if pre else e.val + a[2]
        self.put(a[1], v, e.flags if e else 0, e.exp if e else 0)
        return (':', len(v))

    def c_prepend(self, a, proto):
        return self.c_append(a, proto, True)

    def c_keys(self, a, proto):
        if len(a) != 2:
            return ERR
        self.purge()
        return Unordered([('$', k) for k in self.d if glob(a[1], k)])

    def c_flushall(self, a, proto):
        i = 1
        while i < len(a):
            o = a[i].lower()
            if o == b'delay':
                i += 1
                if i == len(a) or num(a[i], 0, 31536000) is None:
                    return ERR
            elif o not in (b'sync', b'async', b'fast'):
                return ERR
            i += 1
        self.stat('cmd_flush')
        self.clear()
        return OK

    c_flushdb = c_flush = c_flushall

    def c_sweep(self, a, proto):
        if len(a) > 3 or any(x.lower() not in (b'async', b'fast') for x in a[1:]):
            return ERR
        self.purge()
        if not any(x.lower() == b'async' for x in a[1:]):
            self.dead = {}
        return OK

    def c_purge(self, a, proto):
        if len(a) > 2 or len(a) == 2 and a[1].lower() != b'async':
            return ERR
        return OK

    def c_debug(self, a, proto):
        if len(a) < 2 or a[1].lower() != b'populate' or len(a) not in (5, 6):
            return ERR
        count, n = num(a[2], 0, I64MAX), num(a[4], 0, 536870912)
        if count is None or n is None:
            return ERR
        if len(a) == 6 and b'-' in a[5]:
            return ERR      # only malformed ranges are generated
        for i in range(count):
            self.put(a[3] + b':%d' % i, b'\0' * n)
        return OK

    def c_ping(self, a, proto):
        if len(a) > 2:
            return ERR
        return ('+', b'PONG') if len(a) == 1 else ('$', a[1])

    def c_echo(self, a, proto):
        return ('$', a[1]) if len(a) == 2 else ERR

    def c_select(self, a, proto):
        if proto != 'resp' or len(a) != 2:
            return ERR
        n = num(a[1], I64MIN, I64MAX)
        return OK if n is not None and n <= 0 else ERR


def pg_expect(a, r):
    """What Postgres sends for command a with the RESP style reply r:
    (rows or None when there is no row description, tag) or ERR."""
    n = a[0].lower().decode('latin1')
    if r == ERR:
        return ERR
    cmd = n.upper()
    val = lambda x: x[1] if x[0] != ':' else b'%d' % x[1]
    if n in ('set', 'setex'):
        if r == OK:
            return (None, '%s 1' % cmd)
        if isinstance(r, OneOf):
            return OneOf(*[pg_expect(a, x) for x in r.a])
        if r[0] == '$' and r[1] is not None:
            return ([[r[1]]], '%s 1' % cmd)
        if n == 'set' and any(x.lower() == b'get' for x in a[3:]):
            return ([], 'SET 0')
        return (None, '%s 0' % cmd)
    if n == 'get':
        return ([], 'GET 0') if r == NIL else ([[r[1]]], 'GET 1')
    if n == 'mget':
        rows = [[k, x[1]] for k, x in zip(a[1:], r[1]) if x != NIL]
        return (rows, 'MGET %d' % len(rows))
    if n == 'mgets':
        rows = [[k, x[1][0][1], x[1][1], x[1][2][1]] for k, x in zip(a[1:], r[1]) if x != NIL]
        return (rows, 'MGET %d' % len(rows))
    if n in ('del', 'expire', 'touch', 'append', 'prepend'):
        return (None, '%s %d' % (cmd, r[1]))
    if n in ('ttl', 'pttl'):
        return ([], cmd + ' 0') if r[1] == -2 else ([[val(r)]], cmd + ' 1')
    if n in ('exists',):
        return ([[val(r)]], cmd)
    if n == 'dbsize':
        return ([[r]], cmd)
    if n in ('incr', 'decr', 'incrby', 'decrby', 'uincr', 'udecr', 'uincrby', 'udecrby'):
        return ([[val(r)]], cmd.lstrip('U'))
    if n == 'keys':
        return (Unordered([[x[1]] for x in r.items]), 'KEYS %d' % len(r.items))
    if n in ('flushall', 'flushdb', 'flush', 'sweep', 'purge'):
        return (None, cmd + (' ASYNC' if ([x.lower() for x in a[1:] if x.lower() in (b'async', b'sync')] or [b'sync'])[-1] == b'async' else ' SYNC'))
    if n == 'debug':
        return (None, 'DEBUG POPULATE %d' % num(a[2], 0, I64MAX))
    if n in ('ping', 'echo'):
        return ([[r[1]]], cmd)
    if n in ('begin', 'commit', 'rollback'):
        return (None, cmd)
    if n in ('save', 'load'):
        return (None, cmd + ' OK')
    raise AssertionError(n)


def pg_same(exp, rows, tag, err):
    """Compare an answered statement: rows None without a description, tag None on error."""
    if isinstance(exp, OneOf):
        return any(pg_same(x, rows, tag, err) for x in exp.a)
    if exp == ERR:
        return err is not None and not rows
    if err is not None:
        return False
    erows, etag = exp
    if tag != etag.encode():
        return False
    if erows is None:
        return rows is None
    if rows is None:
        return False
    if isinstance(erows, Unordered):
        return sorted(rows) == sorted(erows.items)
    if len(rows) != len(erows):
        return False
    for x, y in zip(erows, rows):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if isinstance(p, CasOf):
                if not q.isdigit() or not p.check(int(q)):
                    return False
            elif isinstance(p, Range):
                if not q.isdigit() or not p.lo <= int(q) <= p.hi:
                    return False
            elif p != q:
                return False
    return True
