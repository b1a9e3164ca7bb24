"""C25: a save that fails or is killed leaves the previous file or the new one."""
import errno, shutil
from harness import Prop
from p_save import *

ERR_NO = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EMFILE]
# EINTR and EAGAIN are not among them: trying again would be right
MORE_NO = [errno.EBUSY, errno.EISDIR, errno.EXDEV, errno.EROFS, errno.ENOENT, errno.ENOTDIR, errno.EPERM, errno.EFBIG, errno.ENFILE, errno.ENOMEM,
           errno.EBADF, errno.EINVAL, errno.EEXIST, errno.ENOTEMPTY, errno.ELOOP, errno.ENAMETOOLONG, errno.EMLINK, errno.ESTALE, errno.ENXIO]
TARGETS = ['dir', 'full', 'dir/', 'nodir/x', 'file/x', 'dir/../nodir/x', 'x' * 300, 'dir/' + 'y' * 256, '.', '..', '/']
NAME = 'data.pogo'


class PROP(Prop):
    ID = 'C25'
    LEVEL = 'fault_enumeration'
    RULE = ('one case saves generated contents, changes them, and then saves again (SAVE, SAVE FAST or SIGTERM with --persist) once per call the save makes on its files, with that call failing, writing short, failing from there on, or the process being killed before, '
            'half way through or after it; other cases save to a directory or an impossible path, fail thread creation, kill at random moments, or run several saves at once (with writers, or with SIGTERM arriving); after each the file is loaded and must equal the previous or the new contents; '
            'non-trivial when a fault was injected at two or more positions, or saves ran at once')
    ASSUME = ('a crash is the death of the process, not of the machine: written pages survive', 'calls are interposed at open, write, fsync, ftruncate, rename, unlink, close and pthread_create', 'a failed allocation ends the process, which is then a kill')
    QUICK = (200, 38)
    THOROUGH = (6000, 780)
    OWN = True
    LISTS = ('a', 'b')

    def gen(self, rng, cfg):
        o = config1(rng)
        o['shards'] = rng.choice([1, 2, 3, 8, 16])
        r = rng.random()
        case = {'opts': o, 'a': self.small(rng), 'b': self.small(rng), 'fast': int(rng.random() < 0.5), 'via': rng.choice(['cmd', 'cmd', 'term'])}
        if r < 0.4:
            case['kind'] = 'error'
            case['mode'] = rng.choice([1, 1, 2, 6])
            case['errno'] = rng.choice(ERR_NO)
            if rng.random() < 0.5:
                case['errnos'] = [rng.choice(ERR_NO + MORE_NO) for _ in range(rng.randint(1, 6))]
        elif r < 0.46:
            case['kind'] = 'target'
            case['to'] = [rng.choice(TARGETS) for _ in range(rng.randint(1, 6))]
        elif r < 0.7:
            case['kind'] = 'kill'
            case['mode'] = rng.choice([3, 4, 5])
        elif r < 0.76:
            case['kind'] = 'threads'
            case['opts']['shards'] = rng.choice([3, 8, 16])
            case['fast'] = 1
        elif r < 0.81:
            case['kind'] = 'early'
            case['us'] = [rng.choice([0, 20000, 60000, rng.randint(0, 150000)]) for _ in range(3)]
            case['b'].append({'k': 'big', 'v': {'rnd': rng.randrange(1 << 30), 'n': rng.choice([10, 3000000])}})
        elif r < 0.87:
            case['kind'] = 'timed'
            case['us'] = [rng.choice([0, 100, 500, 1000, 3000, 8000, 20000, rng.randint(0, 30000)]) for _ in range(3)]
            case['b'].append({'k': 'big', 'v': {'rnd': rng.randrange(1 << 30), 'n': rng.choice([100000, 3000000])}})
        else:
            case['kind'] = 'par'
            case['saves'] = [[rng.choice(['data.pogo', 'data.pogo', 'two', 'three']), int(rng.random() < 0.5)] for _ in range(rng.randint(2, 5))]
            case['writes'] = rng.choice([0, 0, 100])
            case['term'] = int(rng.random() < 0.25)
            if rng.random() < 0.4:
                case['b'].append({'k': 'big', 'v': {'rnd': rng.randrange(1 << 30), 'n': 2000000}})
        return case

    def small(self, rng):
        pool = ['k%d' % i for i in range(12)] + keypool(rng, 3, hi=200)
        out = []
        for _ in range(rng.randint(1, 20)):
            o = content_op(rng, pool)
            if 'x' in o and o['x'][0] != 'EX':
                del o['x']
            out.append(o)
        return out

    def up(self, env, case, old=None):
        """A server with --persist, in the directory of an earlier one if given."""
        if old is not None:
            old.start()
            if not old.alive():
                raise Crash('the server no longer starts (status %s): %s' % (old.proc.returncode, old.report()))
            return old
        return env.server(dict(case['opts'], persist=NAME))

    def model(self, s, case, snap=None):
        m = Model(s.ctl.get('boot'), s.ctl.get('real'), usecas=case['opts'].get('cas') == 'yes')
        if snap:
            load_model(m, snap)
        return m

    def check_file(self, ver, path, snaps, case, what):
        """The file loads and holds exactly one of the snapshots; returns its index."""
        c = ver.conn()
        try:
            if resp_call(c, b'FLUSHALL') != OK:
                raise Fail('FLUSHALL failed')
            if not os.path.exists(path):
                raise Fail('%s the file is gone' % what)
            give(ver, path, 'in')
            r = resp_call(c, b'LOAD', b'FROM', b'in')
            if r != OK:
                raise Fail('%s the file no longer loads: %s' % (what, short(r)))
            err = None
            for i, sn in enumerate(snaps):
                try:
                    self.cmp1(ver, self.model(ver, case, sn), what)
                    return i
                except Fail as e:
                    err = Fail('%s; %s' % (err, e)) if err else e
            raise Fail('%s (the file holds neither contents)' % err)
        finally:
            c.close()

    def holds(self, s, snaps, case, what):
        err = None
        for i, sn in enumerate(snaps):
            m = self.model(s, case, sn)
            try:
                self.cmp1(s, m, what)
                return i, m
            except Fail as e:
                err = Fail('%s; %s' % (err, e)) if err else e
        raise Fail('%s' % err)

    def cmp1(self, s, m, what):
        c = s.conn()
        try:
            compare(m, c, what)
        finally:
            c.close()

    def save(self, c, case, name=None):
        a = [b'SAVE'] + ([b'TO', name.encode()] if name else []) + ([b'FAST'] if case['fast'] else [])
        c.send(resp_multi(a))

    def arm(self, s, mode, at, eno=errno.EIO):
        c = s.ctl
        c.set('f_arm', 0)
        c.path(NAME)
        for n, v in (('f_count', 0), ('f_fired', 0), ('f_mode', mode), ('f_at', at), ('f_errno', eno)):
            c.set(n, v)
        c.set('f_arm', 1)

    def disarm(self, s):
        s.ctl.set('f_arm', 0)
        s.ctl.set('f_mode', 0)
        return s.ctl.get('f_fired')

    def run(self, env, srv, cfg, case):
        info = {'nt': False, 'feats': {case['kind']}, 'checks': 0}
        ver = env.server({'shards': 4})
        s = self.up(env, case)
        m = self.model(s, case)
        c = s.conn()
        apply(m, c, case['a'])
        A = snapshot(m)
        self.arm(s, 0, 0)
        self.save(c, case)
        if c.read(resp_parse) != OK:
            raise Fail('a plain SAVE failed')
        n = s.ctl.get('f_count')
        kinds = s.ctl.kinds()[:n]
        self.disarm(s)
        path = os.path.join(s.dir, NAME)
        self.check_file(ver, path, [A], case, 'after SAVE')
        apply(m, c, case['b'])
        Bs = snapshot(m)
        f = getattr(self, 'k_' + case['kind'])
        f(env, s, ver, m, c, case, A, Bs, n, path, info)
        return info

    # a call fails, or writes less than asked for
    def k_error(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        cur = A
        fired = 0
        for at in range(1, min(n + 2, 24)):
            eno = case['errnos'][at % len(case['errnos'])] if case.get('errnos') else case['errno']
            self.arm(s, case['mode'], at, eno)
            if case['via'] == 'cmd':
                self.save(c, case)
                r = c.read(resp_parse)
                ok = r == OK
                if not ok and r[0] != '-':
                    raise Fail('SAVE answered %s' % short(r))
            else:
                c.close()
                ok = s.term() == 0
            hit = self.disarm(s)
            k = s.ctl.kinds()[at - 1:at] if hit else ''
            what = 'with the %s call (number %d) of a save %s' % (k or 'no', at, {1: 'failing with ' + errno.errorcode[eno], 2: 'cut short', 6: 'and all later ones failing'}[case['mode']])
            fired += bool(hit)
            info['feats'].add('%s at %s' % ({1: 'error', 2: 'short', 6: 'errors'}[case['mode']], k))
            if not hit and not ok:
                raise Fail('a save without any fault failed')
            if hit and ok and (k in ('o', 'n') or case['mode'] == 1 and k in 'ws') and case['mode'] != 2:
                raise Fail('%s the save reported success' % what)
            if hit and not ok and case['mode'] == 2:
                raise Fail('%s the save failed' % what)
            got = self.check_file(ver, path, [Bs] if ok else [cur, Bs], case, what)
            if ok or got == 1:
                cur = Bs
            info['checks'] += 1
            if case['via'] == 'cmd':
                compare(m, c, what + ', in memory:')
            else:
                s = self.up(env, case, s)
                _, mm = self.holds(s, [cur], case, what + ', after a restart:')
                c = s.conn()
                # bring the new contents back
                if cur is A:
                    self.to(c, s, case, mm, Bs)
                m = mm
        info['nt'] = fired >= 2
        if case['via'] == 'cmd':
            self.save(c, case)
            if c.read(resp_parse) != OK:
                raise Fail('SAVE fails after the fault is gone')
            self.check_file(ver, path, [Bs], case, 'after a good save')
        self.end(s, c, ver, path, Bs, case)

    def to(self, c, s, case, m, snap):
        """Make the server hold a snapshot again."""
        if resp_call(c, b'FLUSHALL') != OK:
            raise Fail('FLUSHALL failed')
        m.clear()
        load_model(m, snap)
        for k, (v, fl, x) in snap.items():
            a = [b'SET', k, v, b'FLAGS', b'%d' % fl]
            if x:
                a += [b'PX', b'%d' % ((x - m.real) // 10**6)]
            if resp_call(c, *a) != OK:
                raise Fail('SET failed')

    # the process dies
    def k_kill(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        cur = A
        fired = 0
        other = os.path.join(s.dir, 'other.txt')
        with open(other, 'w') as f:
            f.write('x')
        for at in range(1, min(n + 2, 14)):
            self.arm(s, case['mode'], at)
            if case['via'] == 'cmd':
                self.save(c, case)
                while not s.ctl.get('f_fired'):
                    try:
                        r = c.read(resp_parse)
                        break
                    except Fail:
                        if not s.ctl.get('f_fired'):
                            raise
                        break
                else:
                    r = None
                if s.ctl.get('f_fired'):
                    s.proc.wait(30)
                    r = None
                if r is not None and r != OK:
                    raise Fail('a save without any fault failed: %s' % short(r))
            else:
                s.proc.send_signal(signal.SIGTERM)
                rc = s.proc.wait(60)
                r = OK if rc == 0 else None
                if not s.ctl.get('f_fired') and rc != 0:
                    raise Fail('a shutdown save without any fault ended with status %d' % rc)
            hit = self.disarm(s)
            k = s.ctl.kinds()[at - 1:at] if hit else ''
            what = 'after a kill %s the %s call (number %d) of a save' % ({3: 'before', 4: 'half way through', 5: 'after'}[case['mode']], k, at)
            if hit:
                fired += 1
                info['feats'].add('kill at ' + k)
            c.close()
            if r is not None and case['via'] == 'cmd':
                s.kill()
            got = self.check_file(ver, path, [Bs] if r == OK else [cur, Bs], case, what)
            if r == OK or got == 1:
                cur = Bs
            info['checks'] += 1
            s = self.up(env, case, s)
            _, m = self.holds(s, [cur], case, what + ', after a restart:')
            left = [x for x in os.listdir(s.dir) if x.endswith('.pogocache.work')]
            if left:
                raise Fail('%s the next start leaves work files behind: %s' % (what, left))
            if not os.path.exists(other):
                raise Fail('%s the next start removed an unrelated file' % what)
            c = s.conn()
            if cur is A:
                self.to(c, s, case, m, Bs)
            if not hit:
                break
        info['nt'] = fired >= 2
        self.end(s, c, ver, path, Bs, case)

    def k_timed(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        cur = A
        for us in case['us']:
            if case['via'] == 'cmd':
                self.save(c, case)
            else:
                s.proc.send_signal(signal.SIGTERM)
                time.sleep(0.002)
            time.sleep(us / 1e6)
            s.kill()
            c.close()
            what = 'after a kill %d us into a save' % us
            if self.check_file(ver, path, [cur, Bs], case, what) == 1:
                cur = Bs
            info['checks'] += 1
            s = self.up(env, case, s)
            _, m = self.holds(s, [cur], case, what + ', after a restart:')
            c = s.conn()
            if cur is A:
                self.to(c, s, case, m, Bs)
        info['nt'] = True
        self.end(s, c, ver, path, Bs, case)

    def k_early(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        """SIGTERM or SIGKILL while the server starts and loads the file."""
        self.save(c, case)
        if c.read(resp_parse) != OK:
            raise Fail('a plain SAVE failed')
        c.close()
        s.kill()
        for i, us in enumerate(case['us']):
            s.start(wait=False)
            time.sleep(us / 1e6)
            s.proc.send_signal(signal.SIGTERM if i % 3 < 2 else signal.SIGKILL)
            s.proc.wait(60)
            if 'Sanitizer' in s.report():
                raise Crash('a signal %d us after the start: %s' % (us, s.report()))
            self.check_file(ver, path, [Bs], case, 'after a signal %d us into the start' % us)
            info['checks'] += 1
        s = self.up(env, case, s)
        self.holds(s, [Bs], case, 'after signals during earlier starts:')
        info['nt'] = True
        self.end(s, s.conn(), ver, path, Bs, case)

    def k_target(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        """Saves to paths that cannot be written: a directory, a missing or impossible parent, an over-long name."""
        d = s.dir
        for x in ('dir', 'full'):
            os.mkdir(os.path.join(d, x))
            shutil.chown(os.path.join(d, x), os.stat(d).st_uid)
        for x in ('file', 'full/in'):
            with open(os.path.join(d, x), 'w') as f:
                f.write('precious')

        def tree():
            out = {}
            for r, ds, fs in os.walk(d):
                for x in ds:
                    out[os.path.relpath(os.path.join(r, x), d)] = None
                for x in fs:
                    q = os.path.join(r, x)
                    if x == NAME or not os.path.isfile(q) or os.path.getsize(q) > 1000 and not x.endswith('.work'):
                        continue
                    out[os.path.relpath(q, d)] = os.path.getsize(q) if x not in ('file', 'in') else open(q, 'rb').read()
            return {k: v for k, v in out.items() if k.startswith(('dir', 'full', 'file', 'nodir')) or k.endswith('.work')}
        before = tree()
        for t in case['to']:
            self.save(c, case, t)
            r = c.read(resp_parse)
            what = 'after a SAVE TO %s' % t[:40]
            if r[0] != '-':
                raise Fail('%s the answer is %s' % (what, short(r)))
            if tree() != before:
                raise Fail('%s the files are %s, were %s' % (what, tree(), before))
            self.check_file(ver, path, [A], case, what)
            compare(m, c, what + ', in memory:')
            info['checks'] += 1
        if case['via'] == 'term':
            # the snapshot's own name has become a directory
            c.close()
            os.rename(path, path + '.kept')
            os.mkdir(path)
            rc = s.term()
            what = 'after a shutdown with a directory in the place of the snapshot'
            if rc == 0:
                raise Fail('%s the status is 0' % what)
            if not os.path.isdir(path) or os.listdir(path) or tree() != before:
                raise Fail('%s the files are %s' % (what, tree()))
            os.rmdir(path)
            os.rename(path + '.kept', path)
            s = self.up(env, case, s)
            _, m = self.holds(s, [A], case, what + ' and a restart:')
            c = s.conn()
            self.to(c, s, case, m, Bs)
        self.save(c, case)
        if c.read(resp_parse) != OK:
            raise Fail('SAVE fails after a failure')
        self.check_file(ver, path, [Bs], case, 'after a good save')
        info['nt'] = len(case['to']) >= 2
        self.end(s, c, ver, path, Bs, case)

    def k_threads(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        """Thread creation fails at one or all points of a SAVE FAST."""
        cur = A
        for skip, cnt in [(0, 1), (1, 1), (2, 1), (1, 2), (1, 99), (3, 99), (0, 99)]:
            s.ctl.set('th_skip', skip)
            s.ctl.set('th_fired', 0)
            s.ctl.set('th_fail', cnt)
            self.save(c, case)
            r = c.read(resp_parse)
            s.ctl.set('th_fail', 0)
            fired = s.ctl.get('th_fired')
            what = 'with thread creation failing (%d after %d)' % (cnt, skip)
            if r != OK and r[0] != '-' or r != OK and not fired:
                raise Fail('%s SAVE FAST answered %s' % (what, short(r)))
            if fired:
                info['feats'].add('thread creation failed, save ' + ('done' if r == OK else 'refused'))
            if self.check_file(ver, path, [Bs] if r == OK else [cur, Bs], case, what) == 1 or r == OK:
                cur = Bs
            compare(m, c, what + ', in memory:')
            info['checks'] += 1
        for skip, cnt in [(0, 1), (1, 1), (2, 99), (1, 99)]:
            s.ctl.set('th_skip', skip)
            s.ctl.set('th_fired', 0)
            s.ctl.set('th_fail', cnt)
            r = resp_call(c, b'LOAD', b'FAST')
            s.ctl.set('th_fail', 0)
            fired = s.ctl.get('th_fired')
            if r != OK and not fired or r != OK and r[0] != '-':
                raise Fail('LOAD FAST answered %s' % short(r))
            if cur is Bs:
                compare(m, c, 'after a LOAD with thread creation failing')
        info['nt'] = True
        self.to(c, s, case, m, Bs)
        self.end(s, c, ver, path, Bs, case)

    def k_par(self, env, s, ver, m, c, case, A, Bs, n, path, info):
        """Several saves at once."""
        cs = [s.conn() for _ in case['saves']]
        w = s.conn() if case['writes'] else None
        if w:
            if resp_call(w, b'SET', b'ctr', b'0') != OK:
                raise Fail('SET failed')
        for x, (name, fast) in zip(cs, case['saves']):
            self.save(x, {'fast': fast}, name)
        done = 0
        first = 0
        if case['term']:
            s.proc.send_signal(signal.SIGTERM)
            rc = s.proc.wait(60)
            if rc != 0:
                raise Crash('SIGTERM during a save: status %d: %s' % (rc, s.report()))
            info['feats'].add('SIGTERM during saves')
            for x in cs:
                x.close()
            c.close()
            if w:
                w.close()
            sn = dict(Bs)
            if case['writes']:
                sn[b'ctr'] = (b'0', 0, 0)
            self.check_file(ver, path, [sn], case, 'after a shutdown during a save')
            s = self.up(env, case, s)
            self.holds(s, [sn], case, 'after a shutdown during a save and a restart:')
            left = [x for x in os.listdir(s.dir) if x.endswith('.pogocache.work')]
            if left:
                raise Fail('a start leaves work files behind: %s' % left)
            info['nt'] = True
            self.end(s, s.conn(), ver, path, sn, case)
            return
        if w:
            for i in range(1, case['writes'] + 1):
                if resp_call(w, b'SET', b'ctr', b'%d' % i) != OK:
                    raise Fail('SET during saves failed')
                done = i
        for x, (name, fast) in zip(cs, case['saves']):
            r = x.read(resp_parse)
            if r != OK:
                raise Fail('one of several saves at once answered %s' % short(r))
        info['checks'] += len(cs)
        for name in sorted(set(n for n, _ in case['saves'])):
            what = 'after %d saves at once' % len(cs)
            snaps = [Bs]
            if w:
                v = ver.conn()
                if resp_call(v, b'FLUSHALL') != OK:
                    raise Fail('FLUSHALL failed')
                give(ver, os.path.join(s.dir, name), 'in')
                if resp_call(v, b'LOAD', b'FROM', b'in') != OK:
                    raise Fail('%s %s does not load' % (what, name))
                r = resp_call(v, b'GET', b'ctr')
                v.close()
                if r[0] != '$' or r[1] is None or not r[1].isdigit() or not 0 <= int(r[1]) <= done:
                    raise Fail('%s the file has %s for a key that went from 0 to %d' % (what, short(r), done))
                snaps = [dict(Bs, **{})]
                snaps[0][b'ctr'] = (r[1], 0, 0)
            self.check_file(ver, os.path.join(s.dir, name), snaps, case, what)
        left = [x for x in os.listdir(s.dir) if x.endswith('.pogocache.work')]
        if left:
            raise Fail('saves leave work files behind: %s' % left)
        for x in cs:
            x.close()
        if w:
            w.close()
            if resp_call(c, b'DEL', b'ctr') != (':', 1):
                raise Fail('DEL failed')
        compare(m, c, 'after %d saves at once, in memory:' % len(cs))
        info['nt'] = True
        self.end(s, c, ver, path, Bs, case)

    def end(self, s, c, ver, path, Bs, case):
        c.close()
        rc = s.term()
        if rc != 0:
            raise Crash('the last shutdown save ended with status %s: %s' % (rc, s.report()))
        self.check_file(ver, path, [Bs], case, 'after the last shutdown')
        ver.check()
