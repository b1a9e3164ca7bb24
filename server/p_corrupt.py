"""C26: damaged snapshots are detected and never loaded as wrong data."""
import zlib
from p_save import *

NEVER = 'never'


def lz4_literals(d):
    """A valid LZ4 block made of literals only."""
    n = len(d)
    if n < 15:
        return bytes([n << 4]) + d
    out = bytearray([0xf0])
    n -= 15
    while n >= 255:
        out.append(255)
        n -= 255
    out.append(n)
    return bytes(out) + d


def uvarint(n):
    out = bytearray()
    while n >= 128:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


def read_uvarint(d, p):
    x, i = 0, 0
    while i < 10:
        if p + i >= len(d):
            return None
        b = d[p + i]
        x |= (b & 127) << (7 * i)
        i += 1
        if b < 128:
            return (x & U64MAX, p + i)
    return None


def block(d, comp=None, crc=None, dlen=None, clen=None, tag=b'POGO'):
    c = lz4_literals(d) if comp is None else comp
    return tag + struct.pack('<III', zlib.crc32(c) if crc is None else crc, len(d) if dlen is None else dlen, len(c) if clen is None else clen) + c


def parse_blocks(f):
    out, p = [], 0
    while p < len(f):
        if f[p:p + 4] != b'POGO':
            raise Fail('a saved file does not consist of blocks')
        n = struct.unpack_from('<I', f, p + 12)[0]
        out.append(f[p:p + 16 + n])
        p += 16 + n
    if p != len(f):
        raise Fail('a saved file ends within a block')
    return out


def entries(d):
    """The entries a decompressed block says it has -> (list, whole)."""
    out = []
    r = read_uvarint(d, 0)
    if r is None or r[0] > I64MAX:
        return out, False
    ut, p = r
    while p < len(d):
        if d[p] != 0:
            return out, False
        p += 1
        kv = []
        for _ in range(2):
            r = read_uvarint(d, p)
            if r is None or len(d) - r[1] < r[0]:
                return out, False
            kv.append(d[r[1]:r[1] + r[0]])
            p = r[1] + r[0]
        nums = []
        for _ in range(3):
            r = read_uvarint(d, p)
            if r is None:
                return out, False
            nums.append(r[0])
            p = r[1]
        if nums[0] > I64MAX or nums[1] > 2**32 - 1:
            return out, False
        out.append((kv[0], kv[1], nums[1], min(I64MAX, ut + nums[0]) if nums[0] else 0))
    return out, True


def entry_bytes(k, v, ttl, flags, cas=1, kind=0):
    return bytes([kind]) + uvarint(len(k)) + k + uvarint(len(v)) + v + uvarint(ttl) + uvarint(flags) + uvarint(cas)


class PROP(Prop):
    ID = 'C26'
    RULE = ('one case saves generated contents and then loads 6 to 30 damaged variants of the file (bits, bytes and ranges changed, cut, spliced, extended, header fields replaced, blocks swapped, dropped or doubled), files made up from scratch with right checksums around wrong contents, and random files, '
            'by LOAD or LOAD FAST over existing data or with --persist at start; a damaged file must be refused or load nothing but saved entries, no existing entry may change, and no allocation may exceed 900 MB for files of at most 3 MB; non-trivial when a variant with intact checksums or a single damaged bit was tried')
    ASSUME = ('damage that leaves whole intact blocks (a cut between blocks, blocks dropped or doubled) need not be noticed', 'the 32-bit checksum does not collide by chance')
    QUICK = (1500, 34)
    THOROUGH = (60000, 780)
    PER = 30
    LISTS = ('muts', 'init', 'pre')

    def config(self, rng):
        o = config1(rng)
        o['shards'] = rng.choice([1, 1, 2, 4, 16])
        return {'opts': o, 'srv': {'env': {'ASAN_OPTIONS': ASAN + ':max_allocation_size_mb=900'}}}

    def gen(self, rng, cfg):
        init = [content_op(rng, ['k%d' % i for i in range(8)] + ['both']) for _ in range(rng.randint(1, 12))]
        for o in init:
            if isinstance(o.get('v'), dict) and o['v']['n'] > 300000:
                o['v'] = 'small'
            if 'x' in o and o['x'][1][0] == '9':
                del o['x']
        if rng.random() < 0.05:
            init.append({'k': 'big', 'v': {'rnd': 1, 'n': 2000000}})
        pre = [{'k': k, 'v': 'old' + k, **({'f': 9} if rng.random() < 0.5 else {}), **({'x': ['EX', '77']} if rng.random() < 0.3 else {})} for k in ('both', 'p1', 'k1') if rng.random() < 0.7]
        muts = []
        for _ in range(rng.randint(6, 30)):
            r = rng.random()
            pos = rng.random()
            fld = rng.choice(['tag', 'crc', 'dlen', 'clen'])
            if r < 0.25:
                m = ['bit', pos, rng.randrange(8)]
            elif r < 0.35:
                m = ['hbit', rng.randrange(64), rng.choice([4, 8, 9, 10, 11, 12, 13, 14, 15, 0]), rng.randrange(8)]
            elif r < 0.42:
                m = ['byte', pos, rng.randrange(256)]
            elif r < 0.47:
                m = ['range', pos, rng.randint(1, 300), rng.randrange(1 << 30)]
            elif r < 0.57:
                m = ['cut', pos if rng.random() < 0.7 else rng.choice([0.0, 1.0]), rng.choice([0, 0, 1, 4, 8, 15, 16, 17])]
            elif r < 0.61:
                m = ['del', pos, rng.choice([1, 1, 4, 16, rng.randint(1, 200)])]
            elif r < 0.65:
                m = ['ins', pos, rbytes(rng, rng.choice([1, 4, 16, 30]))]
            elif r < 0.69:
                m = ['tail', rng.choice([rbytes(rng, rng.randint(1, 40)), 'P', 'POGO', 'POGO' + '\0' * 12, 'POGO' + '\xff' * 12, '\n', '\0' * 16, 'POGO\0\0\0\0\1\0\0\0\0\0\0\0'])]
            elif r < 0.75:
                m = ['blk', rng.choice(['swap', 'drop', 'dup', 'rev', 'none']), rng.randrange(64), rng.randrange(64)]
            elif r < 0.8:
                m = ['field', fld, rng.randrange(64), rng.choice([0, 1, 2, 15, 16, 255, 65535, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 1 << 20])]
            elif r < 0.86:
                m = ['recrc', rng.randrange(64), pos, rng.randrange(256)]
            elif r < 0.9:
                m = ['random', rng.choice([0, 1, 15, 16, 17, 100, 5000]), rng.randrange(1 << 30), rng.randrange(4)]
            else:
                m = ['craft', self.craft(rng)]
            muts.append(m)
        via = 'persist' if rng.random() < 0.06 else 'cmd'
        if via == 'persist':
            muts = muts[:4]
        return {'init': init, 'pre': pre, 'muts': muts, 'fast': int(rng.random() < 0.5), 'via': via}

    def craft(self, rng):
        """Contents of a made-up block, latin-1, plus what surrounds it."""
        ut = rng.choice([T_REAL, T_REAL, 0, 1, T_REAL - 10 * SEC, I64MAX, I64MAX - 5, I64MAX + 1, U64MAX])
        d = uvarint(ut) if rng.random() < 0.95 else b'\x80' * rng.randint(1, 12)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice([b'k1', b'both', b'c1', b'', b'\0', b'x' * 300])
            v = rng.choice([b'', b'v', b'1' * 200, b'POGO'])
            e = entry_bytes(k, v, rng.choice([0, 0, 1, 5 * SEC, 10 * SEC, 10 * SEC + 1, I64MAX, I64MAX + 1, U64MAX]), rng.choice([0, 1, 2**32 - 1, 2**32, U64MAX]) if rng.random() < 0.4 else 3, rng.choice([0, 1, U64MAX]), rng.choice([0] * 12 + [1, 255]))
            r = rng.random()
            if r < 0.12:
                e = e[:rng.randrange(len(e))]
            elif r < 0.2:
                i = rng.randrange(len(e))
                e = e[:i] + bytes([rng.randrange(256)]) + e[i + 1:]
            elif r < 0.26:
                # a length beyond the end
                big = rng.choice([U64MAX, 2**63, 2**63 - 1, 2**32, 2**31, 100000, len(v) + 7])
                e = b'\0' + uvarint(len(k)) + k + uvarint(big) + v
            elif r < 0.3:
                e = b'\0' + b'\xff' * rng.randint(1, 12)
            d += e
        if rng.random() < 0.1:
            d += b'\0' * rng.randint(1, 3)
        if rng.random() < 0.05:
            d = b''
        return {'d': d.decode('latin1'), 'dl': rng.choice([0] * 8 + [1, -1, 5]), 'pre': int(rng.random() < 0.3)}

    def mutate(self, f, m):
        """-> (bytes, kind): 'same', 'bad' (must be refused), 'sub' (may load saved entries), or ('craft', ...)"""
        b = bytearray(f)
        w = m[0]
        bl = None
        at = lambda x: min(len(f) - 1, int(x * len(f)))
        if w in ('hbit', 'blk', 'field', 'recrc'):
            bl = parse_blocks(f)
            if not bl:
                return f, 'same'
        elif not f and w not in ('tail', 'random', 'craft'):
            return f, 'same'
        if w == 'bit':
            b[at(m[1])] ^= 1 << m[2]
            return bytes(b), 'bad'
        if w == 'hbit':
            i = m[1] % len(bl)
            o = sum(len(x) for x in bl[:i])
            b[o + m[2]] ^= 1 << m[3]
            return bytes(b), 'bad'
        if w == 'byte':
            b[at(m[1])] = m[2]
            return bytes(b), 'same' if bytes(b) == f else 'bad'
        if w == 'range':
            i = at(m[1])
            n = min(m[2], len(f) - i)
            b[i:i + n] = random.Random(m[3]).randbytes(n)
            return bytes(b), 'same' if bytes(b) == f else 'bad'
        if w == 'cut':
            n = max(0, int(m[1] * len(f)) - m[2])
            o = 0
            for x in parse_blocks(f):
                if n == o:
                    break
                o += len(x)
            return f[:n], 'same' if n == len(f) else 'sub' if n == o else 'bad'
        if w == 'del':
            i = at(m[1])
            del b[i:i + m[2]]
            return bytes(b), 'sub'
        if w == 'ins':
            i = at(m[1])
            b[i:i] = B(m[2])
            return bytes(b), 'sub'
        if w == 'tail':
            return f + B(m[1]), 'sub'
        if w == 'blk':
            i, j = m[2] % len(bl), m[3] % len(bl)
            if m[1] == 'swap':
                bl[i], bl[j] = bl[j], bl[i]
            elif m[1] == 'drop':
                del bl[i]
                return b''.join(bl), 'sub'
            elif m[1] == 'dup':
                bl.insert(j, bl[i])
            elif m[1] == 'rev':
                bl.reverse()
            return b''.join(bl), 'same'
        if w == 'field':
            i = m[2] % len(bl)
            x = bytearray(bl[i])
            o = {'tag': 0, 'crc': 4, 'dlen': 8, 'clen': 12}[m[1]]
            x[o:o + 4] = struct.pack('<I', m[3])
            same_ = bytes(x) == bl[i]
            bl[i] = bytes(x)
            return b''.join(bl), 'same' if same_ else 'bad'
        if w == 'recrc':
            i = m[1] % len(bl)
            x = bytearray(bl[i])
            if len(x) == 16:
                return f, 'same'
            o = 16 + min(len(x) - 17, int(m[2] * (len(x) - 16)))
            x[o] = m[3]
            x[4:8] = struct.pack('<I', zlib.crc32(bytes(x[16:])))
            bl[i] = bytes(x)
            return b''.join(bl), 'any'
        if w == 'random':
            d = random.Random(m[2]).randbytes(m[1])
            if m[3] == 1:
                d = b'POGO' + d
            elif m[3] == 2:
                d = block(b'', comp=d, dlen=max(1, len(d) * 3))
            elif m[3] == 3:
                d = (b'POGO' + d[:12]) * 3
            return d, 'any' if m[3] == 2 else 'same0' if not d else 'sub'
        d = B(m[1]['d'])
        x = block(d, dlen=max(0, len(d) + m[1]['dl']))
        return (f if m[1]['pre'] else b'') + x, ('craft', d, m[1]['dl'], m[1]['pre'])

    def state(self, srv, c):
        """Everything stored: {key: (val, flags, deadline)} and the model of it."""
        r = resp_call(c, b'KEYS', b'*')
        if r[0] != '*':
            raise Fail('KEYS * answered %s' % short(r))
        ks = [x[1] for x in r[1]]
        if len(set(ks)) != len(ks):
            raise Fail('KEYS * lists a key twice')
        if not ks:
            return {}
        c.send(resp_multi([b'MGETS'] + ks) + b''.join(resp_multi([b'PTTL', k]) for k in ks))
        r = c.read(resp_parse)
        out = {}
        for k, g in zip(ks, r[1]):
            if g[0] != '*':
                raise Fail('MGETS of a listed key answered %s' % short(g))
            out[k] = [g[1][2][1], int(g[1][0][1]), None]
        for k in ks:
            out[k][2] = c.read(resp_parse)[1]
        return {k: tuple(v) for k, v in out.items()}

    def ms(self, srv, exp):
        return (exp - srv.ctl.get('boot')) // 10**6 if exp else -1

    def verdict(self, srv, c, ok, kind, saved, pre, what, info):
        """saved and pre: {key: (val, flags, pttl)}"""
        got = self.state(srv, c)
        if kind == 'any':
            # well-formed damage: anything may be in the file, but other keys are safe
            for k in pre:
                if k not in got:
                    raise Fail('%s removed the stored key %s' % (what, short(k)))
            return
        for k in pre:
            if k not in got:
                raise Fail('%s removed the stored key %s' % (what, short(k)))
        for k, v in got.items():
            if v == pre.get(k):
                continue
            if v in saved.get(k, ()):
                continue
            raise Fail('%s made %s %s; it was %s and %s was saved' % (what, short(k), short(v), short(pre.get(k)), short(saved.get(k))))
        if kind == 'bad' and ok:
            raise Fail('%s was not noticed' % what)
        if kind in ('same', 'same0'):
            if not ok:
                raise Fail('%s was refused' % what)
            for k, l in saved.items():
                if kind == 'same' and got.get(k) not in l:
                    raise Fail('%s did not bring back %s' % (what, short(k)))

    def run(self, env, srv, cfg, case):
        info = {'nt': False, 'feats': set(), 'checks': 0}
        m = reset(srv)
        c = srv.conn()
        try:
            apply(m, c, case['init'])
            if resp_call(c, b'SAVE', b'TO', b'good') != OK:
                raise Fail('SAVE failed')
            f = open(os.path.join(srv.dir, 'good'), 'rb').read()
            saved = {k: [v] for k, v in self.state(srv, c).items()}
            first = True
            for mu in case['muts']:
                d, kind = self.mutate(f, mu)
                what = 'LOAD of a file with %s' % short(mu[:4])
                info['checks'] += 1
                info['feats'].add(mu[0] + ('' if case['via'] == 'cmd' else ' at start'))
                if mu[0] in ('bit', 'hbit', 'craft', 'recrc'):
                    info['nt'] = True
                sv = saved
                whole = True
                if isinstance(kind, tuple):
                    es, whole = entries(kind[1])
                    whole = whole and kind[2] == 0
                    sv = {k: list(v) for k, v in saved.items()} if kind[3] else {}
                    last = {}
                    for k, v, fl, x in es:
                        real = srv.ctl.get('real')
                        if x and x <= real:
                            continue
                        e = srv.ctl.get('boot') + (x - real) if x else 0
                        last.setdefault(k, []).append((v, fl, self.ms(srv, min(I64MAX, e))))
                    if kind[2] == 0:
                        for k, v in last.items():
                            sv.setdefault(k, []).extend(v)
                    kind = 'sub' if not whole else 'craft'
                if case['via'] == 'persist':
                    self.persist(env, cfg, case, d, kind, sv, what, info)
                    continue
                if resp_call(c, b'FLUSHALL') != OK:
                    raise Fail('FLUSHALL failed')
                m.clear()
                apply(m, c, case['pre'])
                pre = self.state(srv, c)
                p = os.path.join(srv.dir, 'bad')
                with open(p, 'wb') as o:
                    o.write(d)
                os.chown(p, UID, UID)
                r = resp_call(c, *([b'LOAD', b'FROM', b'bad'] + ([b'FAST'] if case['fast'] else [])))
                if r != OK and r[0] != '-':
                    raise Fail('%s answered %s' % (what, short(r)))
                if kind == 'craft':
                    if r != OK:
                        raise Fail('%s, whose contents are in order, was refused' % what)
                    got = self.state(srv, c)
                    for k in last:
                        # blocks may be loaded in any order
                        if got.get(k) != last[k][-1] and not (mu[1]['pre'] and got.get(k) in saved.get(k, ())):
                            raise Fail('%s gave %s for %s, expected %s' % (what, short(got.get(k)), short(k), short(last[k][-1])))
                    kind = 'sub'
                elif not whole and r == OK:
                    raise Fail('%s, whose contents are broken, was accepted' % what)
                self.verdict(srv, c, r == OK, kind, sv, pre, what, info)
            if case['via'] == 'cmd':
                for n in (b'missing', b'/', b'/dev/null/x', b'nodir/x', b'.'):
                    r = resp_call(c, b'LOAD', b'FROM', n)
                    if r[0] != '-':
                        raise Fail('LOAD FROM %s answered %s' % (n, short(r)))
        finally:
            c.close()
        return info

    def persist(self, env, cfg, case, d, kind, saved, what, info):
        what = what.replace('LOAD of', 'a start with')

        def prep(s):
            p = os.path.join(s.dir, 'p')
            with open(p, 'wb') as o:
                o.write(d)
            os.chown(p, UID, UID)
        s = env.server(dict(cfg['opts'], persist='p'), prep=prep, maydie=True, env=cfg['srv']['env']) if False else Server(env.exe, env.base, dict(cfg['opts'], persist='p'), prep=prep, env=cfg['srv']['env'])
        env.open.append(s)
        try:
            if not s.alive():
                rep = s.report()
                if 'Sanitizer' in rep or 'runtime error' in rep or s.proc.returncode < 0:
                    raise Crash('%s crashed: %s' % (what, rep))
                if kind in ('same', 'same0', 'craft'):
                    raise Fail('%s, which is in order, was refused' % what)
                if s.proc.returncode == 0:
                    raise Fail('%s ended with status 0' % what)
                if open(os.path.join(s.dir, 'p'), 'rb').read() != d:
                    raise Fail('%s changed the file it refused' % what)
                info['feats'].add('start refused')
                return
            c = s.conn()
            self.verdict(s, c, True, 'sub' if kind == 'craft' else kind, saved, {}, what, info)
            c.close()
        finally:
            env.done(s)
