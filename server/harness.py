"""Runs the cases of a server property over worker processes, shrinks and replays failures."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
import vlib
from pogo import Server, Fail, Crash, Infra, UID


class Prop:
    ID = ''
    RULE = ''
    ASSUME = ()
    LEVEL = 'exploration'
    SAN = 'address'
    SANS = None             # builds to spread over the workers
    QUICK = (200, 40)        # cases per worker, seconds
    THOROUGH = (4000, 1500)
    PER = 40                 # cases per server
    OWN = False              # the run method starts its own servers
    LISTS = ('ops',)         # lists of a case to shrink
    RARE = False             # schedules differ between runs of one case
    WORKERS = None

    def config(self, rng):
        return {}

    def gen(self, rng, cfg):
        raise NotImplementedError

    def fixed(self, w):
        """Cases that worker w runs before the generated ones."""
        return []

    def start(self, env, cfg):
        return env.server(cfg.get('opts'), tcp=cfg.get('tcp', False), **cfg.get('srv', {}))

    def run(self, env, srv, cfg, case):
        raise NotImplementedError

    def nontrivial(self, case, info):
        return info.get('nt', True)


class Env:
    def __init__(self, base, exe):
        self.base, self.exe = base, exe
        self.open = []

    def server(self, opts=None, **kw):
        s = Server(self.exe, self.base, opts, **kw)
        self.open.append(s)
        if kw.get('wait', True) and not s.alive() and not kw.get('maydie'):
            raise Crash('the server did not start (status %s): %s' % (s.proc.returncode, s.report()))
        return s

    def done(self, s):
        if s in self.open:
            self.open.remove(s)
        s.close()

    def close_all(self):
        for s in list(self.open):
            self.done(s)


def scratch(exe):
    base = tempfile.mkdtemp(prefix='vp-', dir='/tmp')
    os.chmod(base, 0o755)
    out = []
    for i, e in enumerate(exe.split(',')):
        dst = os.path.join(base, 'pogocache%d' % i if i else 'pogocache')
        shutil.copyfile(e, dst)
        os.chmod(dst, 0o755)
        out.append(dst)
    return base, ','.join(out)


def pick(exe, w):
    l = exe.split(',')
    return l[w % len(l)]


def rng_for(prop, w, i):
    return random.Random('%d-%s-%d-%d' % (vlib.SEED, prop.ID, w, i))


def case_for(prop, w, i, cfg):
    l = prop.fixed(w)
    return json.loads(json.dumps(l[i] if i < len(l) else prop.gen(rng_for(prop, w, i), cfg)))


def cfg_for(prop, w, k):
    return prop.config(random.Random('%d-%s-%d-cfg%d' % (vlib.SEED, prop.ID, w, k)))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:14]


def run_one(prop, env, srv, cfg, case):
    """-> (info, None) or (None, (message, crashed))"""
    try:
        info = prop.run(env, srv, cfg, case) or {}
        if srv:
            srv.check()
        return info, None
    except Crash as e:
        return None, (str(e), True)
    except Fail as e:
        msg, crashed = str(e), False
        s = srv or (env.open[-1] if env.open else None)
        if s is not None:
            try:
                time.sleep(0.05)
                s.check()
            except Crash as c:
                msg, crashed = '%s; %s' % (msg, c), True
        return None, (msg, crashed)
    except Infra:
        raise
    except Exception:
        return None, ('unexpected answer: ' + traceback.format_exc()[-1500:], False)


def worker(prop, w, nw, outp, base, exe):
    env = Env(os.path.join(base, 'w%d' % w), pick(exe, w))
    os.mkdir(env.base)
    os.chmod(env.base, 0o755)
    n, cap = prop.QUICK if vlib.TIER == 'quick' else prop.THOROUGH
    t0 = time.time()
    res = {'n': 0, 'hash': [], 'feats': {}, 'samples': [], 'fail': None, 'capped': False, 'checks': 0}
    srv = None
    cfg = None
    since = 0
    try:
        for i in range(n):
            if time.time() - t0 > cap:
                res['capped'] = True
                break
            if cfg is None or i % prop.PER == 0:
                if srv:
                    finish(prop, env, srv)
                    srv = None
                cfg = cfg_for(prop, w, i // prop.PER)
                since = i
                if not prop.OWN:
                    srv = prop.start(env, cfg)
            case = case_for(prop, w, i, cfg)
            info, bad = run_one(prop, env, srv, cfg, case)
            if prop.OWN:
                env.close_all()
            res['n'] += 1
            if bad:
                res['fail'] = {'worker': w, 'index': i, 'since': since, 'cfg': cfg, 'case': case, 'message': bad[0], 'crash': bad[1]}
                break
            res['checks'] += info.get('checks', 1)
            for f in info.get('feats', ()):
                res['feats'][f] = res['feats'].get(f, 0) + 1
            if prop.nontrivial(case, info):
                res['hash'].append(digest([cfg, case]))
                js = json.dumps(case)
                if len(res['samples']) < 3 and len(js) < 1500:
                    res['samples'].append(js)
        if srv and not res['fail']:
            finish(prop, env, srv)
            srv = None
    except Crash as e:
        res['fail'] = {'worker': w, 'index': max(0, res['n'] - 1), 'since': since, 'cfg': cfg, 'case': None, 'message': str(e), 'crash': True}
    except Fail as e:
        res['fail'] = {'worker': w, 'index': max(0, res['n'] - 1), 'since': since, 'cfg': cfg, 'case': None, 'message': str(e), 'crash': False}
    except Exception:
        res['error'] = traceback.format_exc()
    finally:
        env.close_all()
    with open(outp, 'w') as f:
        json.dump(res, f)


def finish(prop, env, srv):
    srv.check()
    rc = srv.term()
    r = srv.log()
    if rc != 0 or b'Sanitizer' in r or b'runtime error' in r:
        raise Crash('the server did not shut down cleanly (status %s): %s' % (rc, srv.report()))
    env.done(srv)


def replay_once(prop, base, exe, fail, pre=False):
    """Run one recorded failure on fresh servers; -> (message, crashed) or None."""
    d = tempfile.mkdtemp(prefix='r', dir=base)
    os.chmod(d, 0o755)
    env = Env(d, pick(exe, fail['worker']))
    try:
        cfg = fail['cfg']
        srv = None if prop.OWN else prop.start(env, cfg)
        if pre:
            for i in range(fail['since'], fail['index'] + (1 if fail['case'] is None else 0)):
                info, bad = run_one(prop, env, srv, cfg, case_for(prop, fail['worker'], i, cfg))
                if prop.OWN:
                    env.close_all()
                if bad:
                    return bad
        if fail['case'] is not None:
            info, bad = run_one(prop, env, srv, cfg, fail['case'])
            if bad:
                return bad
        if srv:
            try:
                finish(prop, env, srv)
            except Crash as e:
                return str(e), True
            except Fail as e:
                return str(e), False
        return None
    except Crash as e:
        return str(e), True
    except Fail as e:
        return str(e), False
    finally:
        env.close_all()
        shutil.rmtree(d, ignore_errors=True)


def ddmin(items, test, until):
    n = 2
    while len(items) >= 1 and time.time() < until:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if time.time() > until:
                return items
            if test(cand):
                items = cand
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def shrink(prop, base, exe, fail, secs):
    until = time.time() + secs
    best = fail
    for name in prop.LISTS:
        if not isinstance(best['case'].get(name), list):
            continue

        def test(cand):
            c = dict(best['case'])
            c[name] = cand
            try:
                bad = replay_once(prop, base, exe, dict(best, case=c))
            except Exception:
                return False
            return bad is not None
        small = ddmin(best['case'][name], test, until)
        c = dict(best['case'])
        c[name] = small
        best = dict(best, case=c)
    return best


def main(prop, argv):
    if os.environ.get('EXE'):
        exe0 = os.environ['EXE']
    else:
        exe0 = ','.join(os.path.join(vlib.build('server_' + san, [os.path.join(HERE, 'build.sh'), '@OUT@', san], os.path.join(HERE, 'build.sh'), os.path.join(HERE, 'shim.c')), 'pogocache')
                        for san in prop.SANS or (prop.SAN,))
    if argv and argv[0] == '--worker':
        w, nw, outp, base, exe = int(argv[1]), int(argv[2]), argv[3], argv[4], argv[5]
        return worker(prop, w, nw, outp, base, exe)
    base, exe = scratch(exe0)
    try:
        if argv and argv[0] == '--replay':
            fail = json.load(open(argv[1]))
            bad = replay_once(prop, base, exe, fail, fail.get('pre', False))
            print(bad[0] if bad else 'held')
            return sys.exit(1 if bad else 0)
        code = explore(prop, base, exe)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(code)


def explore(prop, base, exe):
    nw = prop.WORKERS or vlib.NCPU
    ps = []
    for w in range(nw):
        outp = os.path.join(base, 'res%d' % w)
        er = open(os.path.join(base, 'err%d' % w), 'wb')
        ps.append((subprocess.Popen([sys.executable, os.path.join(os.path.dirname(HERE), 'checks', 'server.py'), prop.ID, '--worker',
                                     str(w), str(nw), outp, base, exe], stderr=er, env=dict(os.environ, EXE=exe, PYTHONHASHSEED='0')), outp, er))
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': prop.RULE, 'samples': [], 'comparisons': 0, 'cases_with_feature': {}, 'time_capped': False}
    hashes, fails, errors = set(), [], []
    # after a failure the other workers get 40 seconds to end on their own
    dead, cut = None, set()
    while any(p.poll() is None for p, _, _ in ps):
        time.sleep(0.05)
        if dead is None:
            for p, outp, _ in ps:
                if p.poll() is not None and os.path.exists(outp) and json.load(open(outp))['fail']:
                    dead = time.time() + 40
        elif time.time() > dead:
            for p, _, _ in ps:
                if p.poll() is None:
                    cut.add(p)
                    p.kill()
                    p.wait()
    for p, outp, er in ps:
        if p in cut and not os.path.exists(outp):
            cov['time_capped'] = True
            continue
        if not os.path.exists(outp):
            errors.append(open(er.name, errors='replace').read()[-2000:])
            continue
        r = json.load(open(outp))
        if r.get('error'):
            errors.append(r['error'])
        cov['evaluations'] += r['n']
        cov['comparisons'] += r['checks']
        cov['time_capped'] |= r['capped']
        hashes |= set(r['hash'])
        for k, v in r['feats'].items():
            cov['cases_with_feature'][k] = cov['cases_with_feature'].get(k, 0) + v
        cov['samples'] += r['samples'][:1]
        if r['fail']:
            fails.append(r['fail'])
    cov['distinct_nontrivial'] = len(hashes)
    cov['samples'] = cov['samples'][:3] or ['(no sample was small enough to print)']
    for e in errors:
        vlib.log('harness error:\n' + e)
    bad = None
    fails.sort(key=lambda f: (f['case'] is None, not f['crash'], len(json.dumps(f['case']))))
    for f in fails[:3]:
        vlib.log('case %d of worker %d: %s' % (f['index'], f['worker'], f['message'][:700]))
    budget = 60 if vlib.TIER == 'quick' else 300
    for f in fails[:3]:
        bad = confirm(prop, base, exe, f, budget)
        if bad:
            break
    known = vlib.known_findings(prop.ID)
    for k in known:
        vlib.log('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))
    vlib.evidence(prop.ID, prop.LEVEL, cov, prop.ASSUME, 1 if bad else 0)
    if bad:
        vlib.violation(prop.ID, bad[0], bad[1])
        return 1
    vlib.log('%s: %d cases, %d distinct non-trivial, %d comparisons, held' % (prop.ID, cov['evaluations'], len(hashes), cov['comparisons']))
    if errors:
        return 3
    return 0


def confirm(prop, base, exe, f, budget):
    rp = vlib.replay_path(prop.ID, 'case.json')

    def save(fail):
        with open(rp, 'w') as o:
            json.dump(fail, o, indent=1)
    need, tries = (1, 5) if prop.RARE else (2, 3)
    pre = False
    hit = 0
    t0 = time.time()
    if f['case'] is not None:
        for _ in range(tries):
            hit += replay_once(prop, base, exe, f) is not None
            if hit and time.time() - t0 > 200:
                # a replay that hangs: seeing it again once is enough
                need = 1
            if hit >= need:
                break
    if hit < need:
        # the failure may depend on the cases before it
        f = dict(f, pre=True)
        pre = True
        hit = 0
        for _ in range(tries):
            hit += replay_once(prop, base, exe, f, True) is not None
            if hit >= need:
                break
    if hit < need:
        if f['crash'] and ('Sanitizer' in f['message'] or 'runtime error' in f['message'] or 'ssert' in f['message']):
            save(f)
            return rp, f['message'][:1500]
        vlib.log('a case failed once but its replay did not fail again: %s' % f['message'][:300])
        return None
    if not pre:
        f = shrink(prop, base, exe, f, budget)
    msg = None
    for _ in range(tries + 2):
        if time.time() - t0 > 300 + budget:
            break
        bad = replay_once(prop, base, exe, f, pre)
        if bad:
            msg = bad[0]
            break
    f = dict(f, message=msg or f['message'])
    save(f)
    return rp, f['message'][:1500]
