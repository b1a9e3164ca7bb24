"""Shared plumbing of the checks: seeds, tiers, builds, evidence, violations."""
import fcntl, hashlib, json, os, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
BUILD = os.path.join(VERIF, '.build')
OUT = os.path.join(VERIF, '.out')
NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            with open(d, 'rb') as f:
                h.update(f.read())
            continue
        for p in sorted(glob.glob(os.path.join(d, '**', '*'), recursive=True)):
            if os.path.isfile(p) and p.endswith(('.c', '.h', '.cpp', '.sh', '.py', 'Makefile')):
                h.update(p.encode())
                with open(p, 'rb') as f:
                    h.update(f.read())
    return h.hexdigest()[:16]


def build(name, cmd, *dirs):
    """Run cmd with an output directory keyed by the sources; return it."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(os.path.join(REPO, 'src'), *dirs)
    out = os.path.join(BUILD, name + '-' + key)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, '.done')):
            return out
        for old in glob.glob(os.path.join(BUILD, name + '-*')):
            subprocess.call(['rm', '-rf', '--', os.path.abspath(old)])
        os.makedirs(out, exist_ok=True)
        t = time.time()
        r = subprocess.run([c.replace('@OUT@', out) for c in cmd],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stdout.buffer.write(r.stdout)
            log('build of', name, 'failed')
            sys.exit(2)
        with open(os.path.join(out, '.done'), 'w') as f:
            f.write('%.1f\n' % (time.time() - t))
    return out


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def evidence(prop, level, coverage, assumptions=(), violations=0, extra=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
         'coverage': coverage, 'assumptions': list(assumptions),
         'wall_s': round(time.time() - T0, 2), 'violations': violations}
    if extra:
        d['coverage'].update(extra)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


def replay_path(prop, suffix):
    os.makedirs(OUT, exist_ok=True)
    return os.path.join(OUT, '%s-%d-%s' % (prop, SEED, suffix))


def violation(prop, path, msg):
    log(msg)
    log('VIOLATION property=%s replay=%s' % (prop, path))
