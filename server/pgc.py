"""Postgres protocol: rendering of commands as query text, sessions and their model."""
from gen import *

SPACE = b' \t\n\r\v\f'


def pg_bare_ok(a):
    return len(a) > 0 and not any(c in b" \t\n\r\v\f;'\"$\0" for c in a)


def pg_simple(a):
    return b"'" + a.replace(b"'", b"''") + b"'"


def pg_escaped(a, rng):
    """a as an E'' string with a random choice among the equivalent escapes."""
    out = bytearray(b'E\'' if rng.random() < 0.7 else b"e'")
    i = 0
    while i < len(a):
        c = a[i]
        if c >= 0x80 or rng.random() < 0.1:
            # a code point written as \u escapes, when the bytes are UTF-8
            done = False
            for n in (1, 2, 3, 4):
                try:
                    u = a[i:i + n].decode('utf8')
                except UnicodeDecodeError:
                    continue
                if len(u) == 1 and len(a[i:i + n]) == n:
                    cp = ord(u)
                    if rng.random() < 0.6:
                        f = '\\u%04x' if rng.random() < 0.5 else '\\u%04X'
                        if cp >= 0x10000:
                            out += (f % (0xd800 + ((cp - 0x10000) >> 10)) + f % (0xdc00 + ((cp - 0x10000) & 0x3ff))).encode()
                        else:
                            out += (f % cp).encode()
                        i += n
                        done = True
                    break
            if done:
                continue
        if c == 92:
            out += b'\\\\'
        elif c == 39:
            out += rng.choice([b"''", b"\\'"])
        elif chr(c) in '\n\r\t\b\f/"' and rng.random() < 0.6:
            out += b'\\' + {10: b'n', 13: b'r', 9: b't', 8: b'b', 12: b'f', 47: b'/', 34: b'"'}[c]
        else:
            out.append(c)
        i += 1
    return bytes(out + b"'")


def pg_token(a, rng, bare=True):
    r = rng.random()
    if bare and r < 0.5 and pg_bare_ok(a) and not a.startswith(b'::'):
        return a
    if r < 0.8 or len(a) > 3000:
        return pg_simple(a)
    return pg_escaped(a, rng)


def pg_query(toks, rng):
    sp = lambda: rng.choice([b' ', b' ', b' ', b'  ', b'\n', b'\t', b' \r\n'])
    out = rng.choice([b'', b'', b' ', b'\n'])
    out += toks[0] if toks else b''
    for t in toks[1:]:
        out += sp() + t
    return out + rng.choice([b'', b'', b';', b';', b';;', b' ', b' ;'])


def pg_utf8(rng):
    return ''.join(rng.choice(['a', 'é', '漢', '😀', '𐍈', '\n', "'", '\\', '/', '"', '\x7f', '߿', 'ࠀ', '\uffff', '\U0010ffff']) for _ in range(rng.randint(1, 8))).encode('utf8', 'ignore').decode('latin1')


class PgConn:
    """A session: sends messages and holds the expected state of the connection."""

    def __init__(self, srv, kind='unix', ssl=False, params=None, timeout=30, auth=None):
        self.c = srv.conn(kind, timeout)
        self.st, self.po, self.skip, self.oid = {}, {}, False, 25
        if ssl:
            self.c.send(PG_SSL)
            while not len(self.c.buf):
                if not self.c.more():
                    raise Fail('no answer to the SSL request')
            if self.c.buf[:1] != b'N':
                raise Fail('the SSL request was answered %r' % bytes(self.c.buf[:20]))
            self.c.pos = 1
        self.c.send(pg_startup(params) if params else pg_startup())
        ok = False
        while True:
            t, d = self.msg()
            if t == 'R':
                if auth is not None and d == b'\0\0\0\3' and not ok:
                    self.c.send(pg_msg(b'p', auth + b'\0'))
                    continue
                if d != b'\0\0\0\0':
                    raise Fail('unexpected authentication request %r' % d)
                ok = True
            elif t == 'Z':
                if not ok:
                    raise Fail('ready before authentication ok')
                break
            elif t != 'S':
                raise Fail('unexpected startup message %s %r' % (t, d))

    def msg(self):
        return self.c.read(pg_parse)

    def close(self):
        self.c.close()

    def answer(self):
        """One statement's answer: (rows or None, tag, err, empty)"""
        rows = cols = None
        while True:
            t, d = self.msg()
            if t == 'T':
                if rows is not None:
                    raise Fail('two row descriptions')
                rows, cols = [], d
                for n, oid, fmt in d:
                    if fmt not in (0, 1) or oid not in (25, 17):
                        raise Fail('row description %r' % (d,))
            elif t == 'D':
                if rows is None:
                    raise Fail('data row without a row description: %s' % short(d))
                if len(d) != len(cols):
                    raise Fail('a row of %d columns for a description of %d' % (len(d), len(cols)))
                rows.append(d)
            elif t == 'C':
                return rows, d, None, False, cols
            elif t == 'E':
                return rows, None, d, False, cols
            elif t == 'I':
                return rows, None, None, True, cols
            else:
                raise Fail('unexpected message %s %s in an answer' % (t, short(d)))

    def ready(self):
        t, d = self.msg()
        if t != 'Z':
            raise Fail('message %s %s where the ready message belongs' % (t, short(d)))

    def query(self, text):
        self.c.send(pg_msg(b'Q', text + b'\0'))
        a = self.answer()
        self.ready()
        return a


def pg_P(name, text):
    return pg_msg(b'P', name + b'\0' + text + b'\0\0\0')


def pg_B(portal, name, params, rng):
    f = rng.choice([[], [0], [1], None])
    if f is None:
        f = [rng.choice([0, 1]) for _ in params]
    b = portal + b'\0' + name + b'\0' + struct.pack('>H', len(f)) + b''.join(struct.pack('>H', x) for x in f) + struct.pack('>H', len(params))
    for p in params:
        if p == b'' and rng.random() < 0.3:
            b += struct.pack('>i', -1)
        else:
            b += struct.pack('>i', len(p)) + p
    r = rng.choice([[], [0], [1]])
    return pg_msg(b'B', b + struct.pack('>H', len(r)) + b''.join(struct.pack('>H', x) for x in r))


def pg_E(portal):
    return pg_msg(b'E', portal + b'\0\0\0\0\0')


def pg_D(kind, name):
    return pg_msg(b'D', kind + name + b'\0')


PG_S = pg_msg(b'S')


def pg_case_cmd(rng, pool, debug=True):
    """A command as a list of arguments that Postgres clients would use."""
    import p_resp
    while True:
        a = p_resp.command(rng, pool, debug)
        n = a[0].upper()
        if n in ('SELECT', '') or any(isinstance(x, dict) and 'cas' in x for x in a) or len(n) > 20:
            continue
        return a


def pg_check(pc, a, exp, ans, oid):
    rows, tag, err, empty, cols = ans
    if not a:
        if not empty:
            raise Fail('an empty statement was answered %s' % short(ans))
        return
    if empty:
        raise Fail('%s was answered as an empty statement' % short(a))
    n = a[0].lower()
    if exp != ERR and n in (b'begin', b'commit', b'rollback'):
        want = (None, n.decode().upper())
    elif exp is ERR or exp == ERR:
        want = ERR
    else:
        want = pg_expect(a, exp)
    if not pg_same(want, rows, tag, err):
        raise Fail('%s answered rows %s tag %s error %s, expected %s' % (short(a), short(rows), tag, short(err), short(want)))
    if cols:
        for c in cols:
            if c[1] != oid:
                raise Fail('%s: column type %d where %d is in force' % (short(a), c[1], oid))
