"""Server processes, connections and wire codecs of the server harness."""
import ctypes, errno, mmap, os, random, re, select, shutil, signal, socket, struct, subprocess, time

UID = 65534
SLOTS = ('magic vclock boot real rss ticks alloced f_mode f_at f_errno f_count f_fired f_arm th_fail th_skip '
         'th_fired sleepers maxrd rss_reads').split()
IDX = {n: i for i, n in enumerate(SLOTS)}
SEC = 10**9
ASAN = ('detect_leaks=0:quarantine_size_mb=8:handle_abort=1:exitcode=99:detect_stack_use_after_return=0:'
        'allocator_may_return_null=0:print_legend=0:malloc_context_size=12')


class Fail(Exception):
    """The property does not hold for this case."""


class Crash(Fail):
    pass


class Infra(Exception):
    """The harness itself could not do its work (not a violation)."""


class Ctl:
    def __init__(self, path):
        with open(path, 'wb') as f:
            f.write(b'\0' * 4096)
        os.chmod(path, 0o666)
        fd = os.open(path, os.O_RDWR)
        self.m = mmap.mmap(fd, 4096)
        os.close(fd)

    def get(self, n):
        return struct.unpack_from('<q', self.m, IDX[n] * 8)[0]

    def set(self, n, v):
        struct.pack_into('<q', self.m, IDX[n] * 8, v)

    def path(self, s):
        b = s.encode()[:500]
        self.m[768:768 + 512] = b + b'\0' * (512 - len(b))

    def kinds(self):
        n = min(self.get('f_count'), 511)
        return bytes(self.m[256:256 + n]).decode('latin1')


_libc = ctypes.CDLL(None)


def _pre():
    _libc.prctl(1, signal.SIGKILL)  # die with the driver
    os.umask(0o077)


T_BOOT = 5_000_000 * SEC
T_REAL = 1_760_000_000 * SEC + 123_456_789


class Server:
    """One server process in a scratch directory of its own."""
    seq = 0

    def __init__(self, exe, base, opts=None, tcp=False, vclock=True, env=None, boot=T_BOOT, real=T_REAL, wait=True, rss=0, ctl=None, prep=None):
        Server.seq += 1
        self.dir = os.path.join(base, 's%d' % Server.seq)
        os.mkdir(self.dir)
        os.chown(self.dir, UID, UID)
        os.chmod(self.dir, 0o755)
        self.exe, self.opts, self.tcp, self.vclock, self.env = exe, dict(opts or {}), tcp, vclock, env or {}
        self.ctl = Ctl(os.path.join(self.dir, 'ctl'))
        if vclock:
            self.ctl.set('boot', boot)
            self.ctl.set('real', real)
            self.ctl.set('vclock', 1)
        self.ctl.set('rss', rss)
        for k, v in (ctl or {}).items():
            if k == 'path':
                self.ctl.path(v)
            else:
                self.ctl.set(k, v)
        if prep:
            prep(self)
        self.proc = None
        self.err = b''
        self.start(wait)

    def start(self, wait=True):
        self.port = 0
        for attempt in range(5):
            o = dict(self.opts)
            if self.tcp:
                s = socket.socket()
                s.bind(('127.0.0.1', 0))
                self.port = s.getsockname()[1]
                s.close()
            self.sock = os.path.join(self.dir, 'sock')
            if os.path.exists(self.sock):
                os.unlink(self.sock)
            args = [self.exe, '-s', 'sock', '-p', str(self.port), '--warmup=no']
            for k, v in o.items():
                args.append('--%s=%s' % (k, v))
            env = {'PATH': '/usr/bin:/bin', 'POGO_CTL': os.path.join(self.dir, 'ctl'), 'ASAN_OPTIONS': ASAN,
                   'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0'}
            sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
            if sym:
                env['ASAN_SYMBOLIZER_PATH'] = sym
            env.update(self.env)
            self.outp = os.path.join(self.dir, 'out')
            out = open(self.outp, 'ab')
            self.mark = out.tell()
            self.proc = subprocess.Popen(args, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out,
                                         user=UID, group=UID, extra_groups=[], preexec_fn=_pre)
            out.close()
            if not wait:
                return
            if self.wait_ready():
                return
            if self.proc.poll() is not None and self.tcp and b'address already in use' in self.log().lower():
                continue
            return

    def log(self, n=200000):
        try:
            with open(self.outp, 'rb') as f:
                f.seek(0, 2)
                size = f.tell()
                f.seek(max(self.mark, size - n))
                return f.read()
        except OSError:
            return b''

    def wait_ready(self, secs=60):
        t = time.time()
        while time.time() - t < secs:
            if self.proc.poll() is not None:
                return False
            if b'* Ready to accept' in self.log():
                return True
            time.sleep(0.005)
        return False

    def alive(self):
        return self.proc.poll() is None

    def report(self):
        """The sanitizer report or assertion text, when there is one."""
        l = self.log().decode('utf8', 'replace')
        for mark in ('ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer', 'Assertion', 'assert', 'MemorySanitizer'):
            i = l.find(mark)
            if i >= 0:
                j = l.rfind('\n', 0, i) + 1
                return l[j:j + 3000]
        return l[-600:]

    def check(self):
        if not self.alive():
            raise Crash('the server died (status %s): %s' % (self.proc.returncode, self.report()))

    def term(self, secs=60):
        """SIGTERM and wait; returns the exit status."""
        self.proc.send_signal(signal.SIGTERM)
        try:
            return self.proc.wait(secs)
        except subprocess.TimeoutExpired:
            raise Fail('the server did not stop within %d s of SIGTERM' % secs)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()

    def close(self):
        self.kill()
        self.ctl.m.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def adv(self, ns, real=None):
        c = self.ctl
        c.set('boot', c.get('boot') + ns)
        c.set('real', c.get('real') + (ns if real is None else real))

    def conn(self, kind='unix', timeout=30):
        return Conn(self, kind, timeout)


class Conn:
    def __init__(self, srv, kind='unix', timeout=30):
        self.srv, self.kind, self.timeout = srv, kind, timeout
        self.buf, self.pos, self.eof = bytearray(), 0, False
        try:
            if kind == 'tcp' and srv.port:
                self.s = socket.socket()
                self.s.connect(('127.0.0.1', srv.port))
                self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            else:
                self.s = socket.socket(socket.AF_UNIX)
                for i in range(2000):
                    try:
                        # the path may be too long for sockaddr_un: go through the directory
                        self.s.connect(srv.sock)
                        break
                    except (BlockingIOError, InterruptedError):
                        time.sleep(0.005)
                    except OSError as e:
                        if e.errno != errno.EAGAIN:
                            raise
                        time.sleep(0.005)
        except OSError as e:
            srv.check()
            raise Fail('cannot connect: %s' % e)
        self.s.setblocking(False)
        self.out = b''
        self.oeof = False

    def fileno(self):
        return self.s.fileno()

    def close(self):
        self.s.close()

    def abort(self):
        """Close with a reset (TCP)."""
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        except OSError:
            pass
        self.s.close()

    def send(self, data):
        """Queue data and push it out, reading replies meanwhile."""
        self.out += data
        self.push()

    def push(self):
        t = time.time()
        while self.out:
            try:
                n = self.s.send(self.out[:1 << 20])
                self.out = self.out[n:]
                t = time.time()
                continue
            except (BlockingIOError, InterruptedError):
                pass
            except OSError:
                self.out = b''
                self.oeof = True
                return
            r, w, _ = select.select([self.s], [self.s], [], 1.0)
            if r:
                if not self.recv_some():
                    if self.eof and not w:
                        self.out = b''
                        return
            if time.time() - t > self.timeout:
                self.srv.check()
                raise Fail('the server stopped reading for %d s' % self.timeout)

    def recv_some(self):
        try:
            d = self.s.recv(1 << 18)
        except (BlockingIOError, InterruptedError):
            return False
        except OSError:
            d = b''
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def more(self, deadline=None):
        """Wait for more input; False at the end of the stream."""
        if self.eof:
            return False
        dl = deadline or time.time() + self.timeout
        while True:
            left = dl - time.time()
            if left <= 0:
                self.srv.check()
                raise Fail('no reply within %d s; received so far: %r' % (self.timeout, bytes(self.buf[self.pos:self.pos + 200])))
            r, _, _ = select.select([self.s], [], [], min(left, 1.0))
            if r:
                self.recv_some()
                return not self.eof
            if not self.srv.alive():
                # read what is left
                self.recv_some()
                self.srv.check()

    def read(self, parser):
        """Parse one item with parser(buf, pos) -> (item, newpos) or None."""
        while True:
            r = parser(self.buf, self.pos)
            if r is not None:
                self.pos = r[1]
                if self.pos > 1 << 20 and self.pos * 2 > len(self.buf):
                    del self.buf[:self.pos]
                    self.pos = 0
                return r[0]
            if not self.more():
                self.srv.check_soon()
                raise Fail('the connection was closed in place of a reply; unparsed: %r' % bytes(self.buf[self.pos:self.pos + 200]))

    def read_eof(self, secs=None):
        while self.more():
            pass
        d = bytes(self.buf[self.pos:])
        self.pos = len(self.buf)
        return d

    def pending(self, secs=0.0):
        """Bytes received but not parsed, after waiting up to secs for some."""
        end = time.time() + secs
        while not self.eof:
            r, _, _ = select.select([self.s], [], [], max(0.0, end - time.time()))
            if not r:
                break
            if not self.recv_some():
                break
        return bytes(self.buf[self.pos:])


def _check_soon(self):
    for _ in range(100):
        if not self.alive():
            break
        if self.report().find('Sanitizer') >= 0 or b'runtime error' in self.log():
            time.sleep(0.05)
            continue
        break
    self.check()


Server.check_soon = _check_soon


# RESP -----------------------------------------------------------------------
def resp_parse(b, p):
    """One RESP reply: ('+',b) ('-',b) (':',n) ('$',b or None) ('*',[...])"""
    e = b.find(b'\n', p)
    if e < 0:
        return None
    if e == p or b[e - 1] != 13:
        raise Fail('malformed RESP line: %r' % bytes(b[p:e + 1]))
    k = chr(b[p])
    line = bytes(b[p + 1:e - 1])
    for c in line:
        if c < 32:
            raise Fail('control character in a RESP reply line: %r' % bytes(b[p:e + 1]))
    e += 1
    if k in '+-':
        return (k, line), e
    if k in ':$*':
        try:
            n = int(line)
        except ValueError:
            raise Fail('malformed RESP number: %r' % bytes(b[p:e]))
        if str(n).encode() != line:
            raise Fail('non canonical RESP number: %r' % bytes(b[p:e]))
    if k == ':':
        return (':', n), e
    if k == '$':
        if n == -1:
            return ('$', None), e
        if len(b) < e + n + 2:
            return None
        if b[e + n:e + n + 2] != b'\r\n':
            raise Fail('RESP bulk of %d bytes does not end in CRLF' % n)
        return ('$', bytes(b[e:e + n])), e + n + 2
    if k == '*':
        out = []
        for _ in range(n):
            r = resp_parse(b, e)
            if r is None:
                return None
            out.append(r[0])
            e = r[1]
        return ('*', out), e
    raise Fail('unknown RESP reply type: %r' % bytes(b[p:e]))


def resp_multi(args):
    return b'*%d\r\n' % len(args) + b''.join(b'$%d\r\n%s\r\n' % (len(a), a) for a in args)


PLAIN = re.compile(rb'[ \t\r\n\v\f"\']').search


def resp_inline(args, rng, eol=None):
    """The telnet form; quotes arguments that need it and others at random."""
    out = []
    for i, a in enumerate(args):
        plain = len(a) > 0 and not PLAIN(a)
        if i == 0 and (not plain or not (65 <= a[0] <= 90)):
            return None
        if plain and (i == 0 or rng.random() < 0.8):
            out.append(a)
            continue
        q = rng.choice(b'"\'')
        o = bytearray([q])
        for c in a:
            if c == 10:
                o += b'\\n'
            elif c == q or c == 92:
                o += bytes([92, c])
            elif c == 13 and rng.random() < 0.5:
                o += b'\\r'
            elif c == 9 and rng.random() < 0.5:
                o += b'\\t'
            else:
                o.append(c)
        o.append(q)
        out.append(bytes(o))
    sp = b' ' if rng.random() < 0.8 else b' ' * rng.randint(2, 4)
    line = (b' ' * rng.randint(0, 2) if rng.random() < 0.1 else b'') + sp.join(out) + (eol or rng.choice([b'\r\n', b'\n', b' \r\n', b'\r\n']))
    return None if b' HTTP/' in line else line


# Memcache ---------------------------------------------------------------------
def mc_parse(b, p):
    """One memcache reply: ('line', b) | ('values', [(key, flags, cas or None, val)]) | ('stats', {..})"""
    vals, stats, first = [], [], True
    while True:
        e = b.find(b'\n', p)
        if e < 0:
            return None
        if e == p or b[e - 1] != 13:
            raise Fail('malformed memcache line: %r' % bytes(b[p:e + 1]))
        line = bytes(b[p:e - 1])
        for c in line:
            if c < 32:
                raise Fail('control character in a memcache reply line: %r' % line)
        p = e + 1
        if line.startswith(b'VALUE '):
            w = line.split(b' ')
            if len(w) not in (4, 5) or not all(x.isdigit() for x in w[2:]):
                raise Fail('malformed memcache VALUE line: %r' % line)
            n = int(w[3])
            if len(b) < p + n + 2:
                return None
            if b[p + n:p + n + 2] != b'\r\n':
                raise Fail('memcache value of %d bytes does not end in CRLF' % n)
            vals.append((w[1], int(w[2]), int(w[4]) if len(w) == 5 else None, bytes(b[p:p + n])))
            p += n + 2
        elif line.startswith(b'STAT '):
            w = line.split(b' ', 2)
            stats.append((w[1], w[2] if len(w) > 2 else b''))
        elif line == b'END':
            return (('stats', stats) if stats else ('values', vals)), p
        else:
            if not first:
                raise Fail('memcache reply line %r inside a list' % line)
            return ('line', line), p
        first = False


# HTTP -------------------------------------------------------------------------
def http_parse(d):
    """A whole response (the connection closes after it)."""
    i = d.find(b'\r\n\r\n')
    if i < 0:
        raise Fail('incomplete HTTP response: %r' % d[:300])
    lines = d[:i].split(b'\r\n')
    w = lines[0].split(b' ', 2)
    if len(w) != 3 or not w[0].startswith(b'HTTP/1.') or not w[1].isdigit():
        raise Fail('malformed HTTP status line: %r' % lines[0])
    hd = {}
    for l in lines[1:]:
        if b':' not in l:
            raise Fail('malformed HTTP header: %r' % l)
        k, v = l.split(b':', 1)
        if k.lower() in hd:
            raise Fail('HTTP header %r repeated' % k)
        hd[k.lower()] = v.strip()
    body = d[i + 4:]
    if b'content-length' not in hd or not hd[b'content-length'].isdigit():
        raise Fail('HTTP response without a Content-Length: %r' % d[:300])
    if int(hd[b'content-length']) != len(body):
        raise Fail('HTTP Content-Length %s but the body has %d bytes: %r' % (hd[b'content-length'].decode(), len(body), d[:300]))
    return int(w[1]), hd, body


# Postgres -----------------------------------------------------------------------
def pg_startup(params=((b'user', b'u'), (b'database', b'd'))):
    b = struct.pack('>I', 0x00030000)
    for k, v in params:
        b += k + b'\0' + v + b'\0'
    b += b'\0'
    return struct.pack('>I', len(b) + 4) + b


PG_SSL = struct.pack('>II', 8, 0x04D2162F)


def pg_msg(t, body=b''):
    return t + struct.pack('>I', len(body) + 4) + body


def pg_parse(b, p):
    """One backend message -> (type, content)"""
    if len(b) < p + 5:
        return None
    t = chr(b[p])
    n = struct.unpack_from('>i', b, p + 1)[0]
    if n < 4 or t not in 'RSKZTDCEIN123tn':
        raise Fail('malformed Postgres message: %r' % bytes(b[p:p + 60]))
    if len(b) < p + 1 + n:
        return None
    d = bytes(b[p + 5:p + 1 + n])
    p += 1 + n
    if t == 'Z':
        if d != b'I':
            raise Fail('Postgres ready message with state %r' % d)
        return (t, d), p
    if t == 'T':
        k = struct.unpack_from('>H', d)[0]
        q, names = 2, []
        for _ in range(k):
            z = d.find(b'\0', q)
            if z < 0 or z + 19 > len(d):
                raise Fail('malformed Postgres row description %r' % d)
            oid, size, mod, fmt = struct.unpack_from('>ihih', d, z + 7)
            names.append((d[q:z], oid, fmt))
            q = z + 19
        if q != len(d):
            raise Fail('malformed Postgres row description %r' % d)
        return (t, names), p
    if t == 'D':
        k = struct.unpack_from('>H', d)[0]
        q, cols = 2, []
        for _ in range(k):
            l = struct.unpack_from('>i', d, q)[0]
            q += 4
            if l < 0 or q + l > len(d):
                raise Fail('malformed Postgres data row %r' % d[:100])
            cols.append(d[q:q + l])
            q += l
        if q != len(d):
            raise Fail('malformed Postgres data row %r' % d[:100])
        return (t, cols), p
    if t == 'C':
        if not d.endswith(b'\0') or b'\0' in d[:-1]:
            raise Fail('malformed Postgres completion %r' % d)
        return (t, d[:-1]), p
    if t == 'E':
        f, q = {}, 0
        while q < len(d) and d[q]:
            z = d.find(b'\0', q)
            if z < 0:
                raise Fail('malformed Postgres error %r' % d)
            f[chr(d[q])] = d[q + 1:z]
            q = z + 1
        if q != len(d) - 1 or 'M' not in f or 'S' not in f:
            raise Fail('malformed Postgres error %r' % d)
        return (t, f['M']), p
    if t in '123In' and d:
        raise Fail('malformed Postgres message %s %r' % (t, d))
    if t == 't':
        k = struct.unpack_from('>H', d)[0]
        if len(d) != 2 + 4 * k:
            raise Fail('malformed Postgres parameter description %r' % d)
        return (t, k), p
    return (t, d), p


def resp_call(conn, *args):
    conn.send(resp_multi([a if isinstance(a, bytes) else str(a).encode() for a in args]))
    return conn.read(resp_parse)
