"""C33: start-up options."""
from harness import Prop
import re, sys
from multi import *
import p_maxmem

YN = ('evict', 'reuseport', 'tcpnodelay', 'keepalive', 'quickack', 'cas', 'autosweep', 'sixpack', 'uring', 'trackallocs')
DEF = {'evict': 'yes', 'reuseport': 'no', 'tcpnodelay': 'yes', 'keepalive': 'yes', 'quickack': 'no', 'cas': 'no', 'autosweep': 'yes', 'sixpack': 'yes', 'uring': 'no', 'trackallocs': 'no',
       'maxmemory': '80%', 'maxconns': 1024, 'threads': 0, 'shards': 4096, 'loadfactor': 75, 'queuesize': 128, 'backlog': 1024, 'auth': '', 'persist': '', 'allocator': 'stock', 'seed': '1', 'warmup': 'yes'}
INTS = ('maxconns', 'threads', 'shards', 'loadfactor', 'queuesize', 'backlog')
LONG = YN + INTS + ('maxmemory', 'auth', 'persist', 'allocator', 'seed', 'warmup', 'port')
SHORT = {'-p': 'port', '-h': 'host', '-s': 'sock', '-t': 'threads', '-m': 'mb'}
UNITS = {'': 1, 'k': 1 << 10, 'm': 1 << 20, 'g': 1 << 30, 't': 1 << 40}


def memory(s):
    """-> bytes, ['%', p], None for unlimited, or 'bad'"""
    if s == 'unlimited':
        return None
    m = re.fullmatch(r'\s*\+?([0-9]+\.?[0-9]*|\.[0-9]+)\s*(%|[kmgt]?b?)', s, re.I)
    if not m or m.group(2).lower() == 'b' or float(m.group(1)) <= 0:
        return 'bad'
    if m.group(2) == '%':
        return ['%', float(m.group(1))]
    n = int(float(m.group(1)) * UNITS[m.group(2).lower().rstrip('b')])
    return None if n >= 1 << 64 else n


def understand(argv):
    """-> ('exit', status) or ('run', settings)"""
    o = dict(DEF, port='9401', host='127.0.0.1', sock='')
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ('--help', '--version'):
            return 'exit', 0
        if a in ('-v', '-vv', '-vvv'):
            pass
        elif a == '-M':
            o['evict'] = 'no'
        elif a in SHORT or a[:2] == '--' and a[2:] in LONG:
            if i + 1 == len(argv):
                return 'exit', 1
            i += 1
            o[SHORT.get(a) or a[2:]] = argv[i]
        elif a[:2] == '--' and a[2:].split('=')[0] in LONG and '=' in a:
            k, _, v = a[2:].partition('=')
            o[k] = v
        else:
            return 'exit', 1
        i += 1
    for k in YN:
        if o[k] not in ('yes', 'no'):
            return 'exit', 1
    if o['allocator'] != 'stock':
        return 'exit', 1
    for k in INTS:
        o[k] = int(o[k])
    if o['threads'] <= 0:
        o['threads'] = len(os.sched_getaffinity(0))
    o['threads'] = min(4096, o['threads'])
    o['shards'] = 4096 if o['shards'] <= 0 else min(o['shards'], 65536)
    if o['maxconns'] <= 0:
        o['maxconns'] = 1024
    o['loadfactor'] = max(55, min(95, o['loadfactor']))
    o['queuesize'] = max(1, min(4096, o['queuesize']))
    if 'mb' in o:
        o['maxmemory'] = o['mb'] + 'M'
    o['limit'] = memory(o['maxmemory'])
    if o['limit'] == 'bad':
        return 'exit', 1
    if o['limit'] is None:
        o['evict'] = 'no'
    if o['port'] in ('', '0'):
        o['port'] = ''
    elif not re.fullmatch('[0-9]+', o['port']) or int(o['port']) > 65535:
        return 'exit', 1
    if not o['port'] and not o['sock']:
        return 'exit', 1
    if o['port'] and o['host'] in BADHOSTS or len(o['sock']) > 107 or o['sock'].startswith('nodir/'):
        return 'exit', 1
    if os.path.normpath(o['persist'] or '.') in BADFILES and o['persist']:
        return 'exit', 1
    return 'run', o


BADFILES = ('nodir/data', 'sub', 'junk', 'junk/data')


BADHOSTS = ('999.1.1.1', '::1', '::', '192.0.2.1')


class OptServer(Server):
    def start(self, wait=True):
        self.port = 0
        self.sock = os.path.join(self.dir, 'nosock')
        env = {'PATH': '/usr/bin:/bin', 'POGO_CTL': os.path.join(self.dir, 'ctl'), 'ASAN_OPTIONS': ASAN.replace('handle_abort=1', 'handle_abort=0'), 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}
        self.outp = os.path.join(self.dir, 'out')
        out = open(self.outp, 'ab')
        self.mark = out.tell()
        self.proc = subprocess.Popen([self.exe] + self.opts['argv'], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out, user=UID, group=UID, extra_groups=[], preexec_fn=pogo_pre)
        out.close()

    def over(self, secs=30):
        try:
            return self.proc.wait(secs)
        except subprocess.TimeoutExpired:
            raise Fail('%s: still running' % self.opts['argv'])


import pogo
pogo_pre = pogo._pre


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def listens(port):
    s = socket.socket()
    try:
        s.connect(('127.0.0.1', port))
        return True
    except OSError:
        return False
    finally:
        s.close()


class PROP(Prop):
    ID = 'C33'
    RULE = ('one case is a command line of up to 12 options in every form (--name value, --name=value, short, repeated, in any order), with good values, values at and beyond their bounds, bad values, unknown options and missing values; what must follow from it is worked out by a second option parser and tried on the '
            'started server: sockets, password, thread, connection and memory limits, eviction, cas, keepalive, shared ports, saving on SIGTERM and loading at the next start; non-trivial when the server ran with at least three options given, or refused to start because of one of them')
    ASSUME = ('numbers are given as plain decimal numbers (what happens to other text is not documented)', 'options without an effect that is visible from outside (tcpnodelay, quickack, backlog, seed, sixpack, loadfactor, queuesize, shards) are compared with what the server prints at its start and must not disturb a small workload',
              'TLS and io_uring are not compiled in')
    QUICK = (300, 32)
    THOROUGH = (8000, 780)
    PER = 1000
    OWN = True
    LISTS = ('args',)

    def value(self, rng, k):
        r = rng.random()
        if k in YN:
            return rng.choice(['yes', 'no']) if r < 0.95 else rng.choice(['', 'Yes', 'true', '1', 'yess', 'n', 'NO', 'yes '])
        if k == 'warmup':
            return rng.choice(['yes', 'no'])
        if k == 'allocator':
            return 'stock' if r < 0.9 else rng.choice(['mimalloc', 'jemalloc', '', 'Stock', 'stockx'])
        if k == 'threads':
            return rng.choice(['1', '2', '3', '4', '5', '8', '0', '-1', '17'])
        if k == 'shards':
            return rng.choice(['1', '2', '3', '16', '100', '1000', '4096', '0', '-4', '5000', '65536'] + ['65537', '99999'] * (r < 0.1))
        if k == 'maxconns':
            return rng.choice(['2', '3', '5', '9', '30', '100', '1024', '0', '-1', '5000', '100000'])
        if k == 'loadfactor':
            return rng.choice(['55', '54', '0', '-3', '75', '95', '96', '1000', '60', '56', '94'])
        if k == 'queuesize':
            return rng.choice(['1', '2', '3', '0', '-9', '128', '4096', '4097', '100000', '7'])
        if k == 'backlog':
            return rng.choice(['1', '2', '10', '100', '1024', '5000'])
        if k == 'maxmemory':
            if r < 0.2:
                return rng.choice(['', 'abc', '0', '-1', '-5%', '10x', '1kk', '%', 'Unlimited', '0k', '1 2', '5mib', '1%%', 'nan', 'inf', '-inf', 'k', '1bk', '12b', '0%', '.', '10mbit', '5kbx', '1gbb', '2tbps', '3mm', '50%b', '1k2', '1e', '7 k b'])
            if r < 0.3:
                return rng.choice(['99999999t', '100000000000000000000', '999999999999999999999999G'])
            n = rng.choice(['1', '3', '1.5', '0.25', '100', '64', '07', ' 2', '.5', '5.'])
            return n + rng.choice(['', ' ', '']) + rng.choice(['k', 'K', 'kb', 'KB', 'm', 'M', 'mb', 'Mb', 'g', 'G', 'GB', 't', 'tB']) if r < 0.75 else rng.choice(['1', '50', '0.5', '99', '100', '12.5']) + rng.choice(['%', ' %']) if r < 0.9 else rng.choice(['1000000', '4096', '123456789', '70000000000', 'unlimited', 'unlimited'])
        if k == 'mb':
            return rng.choice(['1', '2', '100', '1000', '0.5'] + (['0', 'x', '', '1M'] if r < 0.1 else []))
        if k == 'auth':
            return rng.choice(['', 'pw', 'a b', 'x=y', '--auth', '=', 'p' * 300, 'yes', 'Pässword'])
        if k == 'persist':
            if r < 0.06:
                return rng.choice(['nodir/data', 'sub', 'junk', './junk', 'junk/data', './nodir/data'])
            return rng.choice(['', 'data', 'empty', 'data', 'c=d', './d.pogo', 'x' * 200, 'sub/data', '-s'])
        if k == 'seed':
            return rng.choice(['0', '1', '18446744073709551615', '12345'])
        if k == 'host':
            return rng.choice(['127.0.0.1', 'localhost', '0.0.0.0', '127.0.0.2']) if r < 0.93 else rng.choice(BADHOSTS)
        if k == 'sock':
            return rng.choice(['sock', 'sock', 's2', './x.sock', 'sub/s', 'a=b', '-p']) if r < 0.9 else rng.choice(['s' * 107, 's' * 108, 's' * 200, 'nodir/s'])
        if k == 'port':
            return rng.choice(['PORT', 'PORT', 'PORT', '0', '']) if r < 0.9 else rng.choice(['65536', '65537', '131071', '131072', '70000', '4295000000', '-1', 'x', '99999999999999999999', '80 ', ' 80', '0x50', '1.5', '80b'])
        raise KeyError(k)

    def opt(self, rng, k):
        while True:
            v = self.value(rng, k)
            if k != 'maxmemory' or not isinstance(memory(v), int) or memory(v) >= 3 * p_maxmem.PAGE:
                break
        for f, n in SHORT.items():
            if n == k and (k in ('host', 'sock', 'mb') or rng.random() < 0.4):
                return [f, v]
        if k == 'evict' and rng.random() < 0.15:
            return ['-M']
        return ['--%s=%s' % (k, v)] if rng.random() < 0.5 else ['--' + k, v]

    def gen(self, rng, cfg):
        args = []
        ks = [k for k in LONG if k != 'port']
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8, 12])):
            r = rng.random()
            args.append(self.opt(rng, rng.choice(ks + ['maxmemory', 'auth', 'persist', 'persist', 'maxconns', 'evict', 'mb', 'host', 'threads', 'reuseport', 'keepalive', 'cas'])))
            if r < 0.05:
                args.append([rng.choice(['-v', '-vv', '-vvv'])])
        if rng.random() < 0.75:
            args.append(self.opt(rng, 'sock'))
        if rng.random() < 0.04:
            args.append(self.opt(rng, rng.choice(['sock', 'host'])))
        args.append(self.opt(rng, 'port'))
        if rng.random() < 0.1:
            args.append(self.opt(rng, 'port'))
        rng.shuffle(args)
        r = rng.random()
        if r < 0.03:
            args.insert(rng.randint(0, len(args)), [rng.choice(['--bogus', '--bogus=1', '-x', 'x', '', '-', '--', '--Auth=x', '--authx=1', '--no', '-P', '-vvvv', '--=1', '--threads2'])])
        elif r < 0.06:
            args.append([rng.choice(['--' + rng.choice(LONG), '-p', '-s', '-h', '-t', '-m'])])
        elif r < 0.075:
            args.insert(rng.randint(0, len(args)), [rng.choice(['--help', '--version'])])
        return {'args': args, 's': rng.randrange(1 << 30), 'again': int(rng.random() < 0.5)}

    def prep(self, s):
        for n, d in (('junk', b'this is no snapshot'), ('empty', b'')):
            with open(os.path.join(s.dir, n), 'wb') as f:
                f.write(d)
            os.chown(os.path.join(s.dir, n), UID, UID)
        os.mkdir(os.path.join(s.dir, 'sub'))
        os.chown(os.path.join(s.dir, 'sub'), UID, UID)

    def server(self, env, argv, **kw):
        s = OptServer(env.exe, env.base, {'argv': argv}, prep=self.prep, rss=1, **kw)
        env.open.append(s)
        return s

    def run(self, env, srv, cfg, case):
        rng = random.Random(case['s'])
        info = {'nt': False, 'feats': set(), 'checks': 0}
        for attempt in range(4):
            port = free_port()
            argv = [str(port) if x == 'PORT' else x.replace('=PORT', '=%d' % port) for l in case['args'] for x in l]
            what, o = understand(argv)
            if what == 'run' and o['port'] == '9401' and '9401' not in argv:
                # the default port is left alone: other programs may use it
                argv += ['-p', str(port)]
                what, o = understand(argv)
            s = self.server(env, argv)
            if what == 'exit':
                return self.refused(s, argv, o, info)
            if s.wait_ready():
                break
            if attempt < 3 and b'bind(tcp)' in s.log():
                # somebody else was given the port
                env.done(s)
                continue
            s.proc.poll()
            raise Fail('%s: the server did not start (status %s): %s' % (argv, s.proc.returncode, s.log(2000).decode('utf8', 'replace')[:600]))
        if o['port'] and o['host'] == '127.0.0.2':
            o['addr'] = '127.0.0.2'
        s.auth = B(o['auth']) if not o['auth'].startswith('P\xe4') else o['auth'].encode()
        try:
            n = self.works(env, s, argv, o, rng, info)
            n += self.ends(env, s, argv, o, rng, info, case)
        except Crash:
            raise
        except Fail as e:
            s.check()
            raise Fail('%s: %s' % (' '.join(argv), e))
        info['checks'] = n
        info['nt'] = len(case['args']) >= 3
        return info

    def refused(self, s, argv, want, info):
        rc = s.over()
        out = s.log()
        if (rc == 0) != (want == 0):
            raise Fail('%s: ended with status %d, expected %s' % (argv, rc, want or 'a failure'))
        if rc not in (0, 1):
            raise Fail('%s: died of signal or abort (status %d) instead of reporting: %s' % (argv, rc, out[-300:]))
        if not out.strip():
            raise Fail('%s: ended without a word' % argv)
        if b'Ready to accept' in out:
            raise Fail('%s: became ready' % argv)
        if want == 0 and not (b'Usage' in out and b'--maxconns' in out or out.startswith(b'pogocache ')):
            raise Fail('%s printed %r' % (argv, out[:200]))
        info['nt'] = True
        info['checks'] = 3
        info['feats'].add('help or version' if want == 0 else 'refused')
        return info

    def conn(self, s, o, kind):
        if kind == 'unix':
            s.sock = os.path.join(s.dir, o['sock'])
            if len(s.sock) < 100:
                return Conn(s, 'unix')
            # sockaddr_un is short: go through the working directory
            was = os.getcwd()
            os.chdir(s.dir)
            try:
                s.sock = o['sock']
                return Conn(s, 'unix')
            finally:
                os.chdir(was)
        s.port = int(o['port'])
        c = Conn.__new__(Conn)
        c.srv, c.kind, c.timeout = s, 'tcp', 30
        c.buf, c.pos, c.eof, c.out, c.oeof = bytearray(), 0, False, b'', False
        c.s = socket.socket()
        try:
            c.s.connect((o.get('addr', '127.0.0.1'), s.port))
        except OSError as e:
            raise Fail('cannot connect to port %d: %s' % (s.port, e))
        c.s.setblocking(False)
        return c

    def hello(self, s, o, kind):
        """A connection that may do anything; None when it is turned away."""
        c = self.conn(s, o, kind)
        if s.auth:
            c.send(resp_multi([b'AUTH', s.auth]))
        else:
            c.send(resp_multi([b'ECHO', b'OK']))
        while not len(c.buf):
            if not c.more():
                c.close()
                return None
        g = c.read(resp_parse)
        if g not in (OK, ('$', b'OK')):
            raise Fail('greeting over %s is answered %s' % (kind, short(g)))
        return c

    def banner(self, s, o):
        out = s.log().decode('utf8', 'replace')
        b = dict(re.findall(r'(threads|queuesize|shards|loadfactor|autosweep|backlog|reuseport|maxconns|tcpnodelay|keepalive|quickack|evict|sixpack|cas|auth): ([^,)\n%]*)', out.split('Ready to accept')[0]))
        for k in ('threads', 'queuesize', 'shards', 'loadfactor', 'autosweep', 'backlog', 'reuseport', 'maxconns', 'tcpnodelay', 'keepalive', 'quickack', 'evict', 'sixpack', 'cas'):
            if b.get(k) != str(o[k]):
                raise Fail('the server announces %s: %s, expected %s' % (k, b.get(k), o[k]))
        if b.get('auth') != ('enabled' if o['auth'] else 'disabled'):
            raise Fail('the server announces auth: %s' % b.get('auth'))
        return 15

    def works(self, env, s, argv, o, rng, info):
        kinds = [k for k, x in (('unix', 'sock'), ('tcp', 'port')) if o[x]]
        n = self.banner(s, o)
        feats = info['feats']
        if o['sock']:
            feats.add('unix socket')
        elif any(f in os.listdir(s.dir) for f in ('sock', 's2', 'x.sock')):
            raise Fail('a socket was made without being asked for')
        # connections the server made to itself come and go first
        warm = o['threads'] * 2 * len(kinds) if o['warmup'] != 'no' else 0
        mine = 0
        end = time.time() + 20
        while True:
            c = self.hello(s, o, kinds[0])
            mine += 1
            if c is not None:
                d = self.stats(c)
                if int(d['curr_connections']) == 1 and (int(d['total_connections']) + int(d['rejected_connections']) >= warm + mine or time.time() > end - 12):
                    break
                c.close()
            if time.time() > end:
                raise Fail('connections stay open or are refused after the start')
            time.sleep(0.01)
        for k, v in (('threads', o['threads']), ('max_connections', o['maxconns']), ('pid', s.proc.pid), ('curr_items', 0)):
            if d[k] != str(v):
                raise Fail('STATS says %s %s, expected %s' % (k, d[k], v))
        for kind in kinds:
            self.wait1(c)
            if s.auth:
                x = self.conn(s, o, kind)
                for bad in (b'', s.auth + b'x', s.auth[:-1], b'none'):
                    g = resp_call(x, b'AUTH', bad)
                    if g[0] != '-':
                        raise Fail('AUTH %s is answered %s' % (short(bad), short(g)))
                if resp_call(x, b'SET', b'k', b'v')[0] != '-' or resp_call(x, b'GET', b'k')[0] != '-':
                    raise Fail('commands are answered without the password')
                if resp_call(x, b'AUTH', s.auth) != OK or resp_call(x, b'GET', b'k') != NIL:
                    raise Fail('the password does not work')
                x.close()
                feats.add('password')
            else:
                x = self.hello(s, o, kind)
                if resp_call(x, b'GET', b'k') != NIL:
                    raise Fail('GET of an absent key')
                x.close()
            n += 2
        # contents
        keys = [b'k%d' % i for i in range(rng.choice([3, 30, 300]))]
        for i, k in enumerate(keys):
            c.send(resp_multi([b'SET', k, b'val%d' % i, b'FLAGS', b'%d' % i]))
        for k in keys:
            if c.read(resp_parse) != OK:
                raise Fail('SET failed')
        cas = []
        for i, k in enumerate(keys):
            g = resp_call(c, b'MGETS', k)
            e = g[1][0][1]
            if g[0] != '*' or len(e) != 3 or e[2] != ('$', b'val%d' % i) or int(e[0][1]) != i:
                raise Fail('MGETS is answered %s' % short(g))
            cas.append(int(e[1][1]))
        for i, k in enumerate(keys[:5]):
            g = resp_call(c, b'SET', k, b'val%d' % i, b'FLAGS', b'%d' % i)
            x = int(resp_call(c, b'MGETS', k)[1][0][1][1][1])
            if g != OK or o['cas'] == 'yes' and (x == cas[i] or not x or not cas[i]) or o['cas'] == 'no' and (x or cas[i]):
                raise Fail('with cas=%s the cas number goes from %d to %d' % (o['cas'], cas[i], x))
        n += len(keys)
        # connection limit
        self.wait1(c)
        if o['maxconns'] <= 30:
            l = []
            for i in range(o['maxconns'] - 1):
                x = self.hello(s, o, kinds[i % len(kinds)])
                if x is None:
                    raise Fail('connection %d of %d is refused' % (i + 2, o['maxconns']))
                l.append(x)
            for i in range(2):
                x = self.hello(s, o, kinds[i % len(kinds)])
                if x is not None:
                    raise Fail('connection %d is accepted, the limit is %d' % (o['maxconns'] + 1, o['maxconns']))
            for x in l:
                x.close()
            feats.add('connection limit')
            self.wait1(c)
        n += 2
        # memory limit and eviction
        under, on, over = p_maxmem.PROP.bounds(None, {'limit': o['limit']})
        for pages, low in ((over, True), (under, False)):
            self.mem(s, pages)
            g = resp_call(c, b'SET', b'new%d' % pages, b'x')
            if low and o['limit'] is not None and o['evict'] == 'no':
                if g[0] != '-':
                    raise Fail('a store over maxmemory=%s with evict=no is answered %s' % (o['maxmemory'], short(g)))
                feats.add('refused over the limit')
            elif g != OK:
                raise Fail('a store %s maxmemory=%s is answered %s' % ('over' if low else 'under', o['maxmemory'], short(g)))
            if low and o['limit'] is not None and o['evict'] == 'yes' and o['shards'] == 1:
                g = resp_call(c, b'DBSIZE')
                if g != (':', len(keys)):
                    raise Fail('over the limit with evict=yes there are %s entries, %d and one more were stored' % (g, len(keys)))
                feats.add('evicted over the limit')
            n += 1
        if o['limit'] is None:
            feats.add('unlimited')
        # sockets
        if o['port']:
            self.wait1(c)
            x = self.hello(s, o, 'tcp')
            ka = self.keepalive(int(o['port']), x.s.getsockname()[1])
            if ka is not None and ka != (o['keepalive'] == 'yes'):
                raise Fail('with keepalive=%s the keepalive timer is %s' % (o['keepalive'], 'on' if ka else 'off'))
            feats.add('keepalive ' + str(ka))
            x.close()
            if rng.random() < 0.3 and o['host'] != 'localhost':
                a2 = ['-h', o['host'], '-p', o['port'], '--reuseport', 'yes', '--threads=1', '--shards=1']
                s2 = self.server(env, a2)
                up = s2.wait_ready()
                if up != (o['reuseport'] == 'yes'):
                    raise Fail('a second server (reuseport=yes) %s the port of one with reuseport=%s: %s' % ('shares' if up else 'cannot share', o['reuseport'], s2.log(500)))
                env.done(s2)
                feats.add('shared port' if up else 'port not shared')
                n += 1
        else:
            feats.add('no port')
        c.close()
        return n

    def wait1(self, c):
        end = time.time() + 20
        while int(self.stats(c)['curr_connections']) != 1:
            if time.time() > end:
                raise Fail('closed connections are still counted')
            time.sleep(0.005)

    def stats(self, c):
        return {x[1][0][1].decode(): x[1][1][1].decode() for x in resp_call(c, b'STATS')[1]}

    def mem(self, s, pages):
        s.ctl.set('rss', pages)
        n = s.ctl.get('rss_reads')
        end = time.time() + 20
        while s.ctl.get('rss_reads') < n + 2:
            time.sleep(0.0005)
            if time.time() > end:
                s.check()
                raise Fail('the server no longer looks at its memory use')

    def keepalive(self, lport, rport):
        """The timer of the server's end of a connection, from /proc/net/tcp."""
        end = time.time() + 5
        while time.time() < end:
            for l in open('/proc/net/tcp').read().splitlines()[1:]:
                f = l.split()
                if int(f[1].split(':')[1], 16) == lport and int(f[2].split(':')[1], 16) == rport and f[3] == '01':
                    t = f[5].split(':')[0]
                    if t in ('00', '02'):
                        return t == '02'
            time.sleep(0.01)
        return None

    def ends(self, env, s, argv, o, rng, info, case):
        """SIGTERM or SIGINT saves what there is, and the next start loads it."""
        kinds = [k for k, x in (('unix', 'sock'), ('tcp', 'port')) if o[x]]
        c = self.hello(s, o, kinds[-1])
        while c is None:
            time.sleep(0.01)
            c = self.hello(s, o, kinds[-1])
        r = resp_call(c, b'KEYS', b'*')
        want = sorted(x[1] for x in r[1])
        s.proc.send_signal(rng.choice([signal.SIGTERM, signal.SIGINT]))
        rc = s.over(60)
        out = s.log()
        if rc != 0 or b'Sanitizer' in out or b'runtime error' in out:
            raise Crash('the server did not shut down cleanly (status %s): %s' % (rc, s.report()))
        c.close()
        left = {os.path.join(d, f)[len(s.dir) + 1:] for d, _, fs in os.walk(s.dir) for f in fs}
        left -= {'ctl', 'out', os.path.normpath(o['sock']) if o['sock'] else ''}
        p = {os.path.normpath(o['persist'])} if o['persist'] else set()
        left -= {'junk', 'empty'} - p
        if left != p:
            raise Fail('files after the end: %s, expected %s' % (sorted(left), sorted(p)))
        if not case['again']:
            return 2
        s.start()
        if not s.wait_ready():
            if b'bind(tcp)' in s.log():
                return 2
            raise Fail('the server did not start a second time: %s' % s.log(500))
        end = time.time() + 20
        c = None
        while c is None:
            c = self.hello(s, o, kinds[-1])
            if c is None:
                time.sleep(0.01)
            if time.time() > end:
                raise Fail('connections are refused after the second start')
        r = resp_call(c, b'KEYS', b'*')
        got = sorted(x[1] for x in r[1])
        if got != (want if o['persist'] else []):
            raise Fail('after a restart with persist=%r there are %s, expected %s' % (o['persist'], short(got), short(want if o['persist'] else [])))
        for k in want[:5] if o['persist'] else []:
            if k.startswith(b'k') and resp_call(c, b'GET', k) != ('$', b'val' + k[1:]):
                raise Fail('%s has another value after a restart' % short(k))
        info['feats'].add('restart with a file' if o['persist'] else 'restart')
        c.close()
        s.kill()
        return 3
