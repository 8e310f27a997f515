"""Shared machinery: builds the driver from /repo, runs TLC, replays behaviours, reports."""
import concurrent.futures, hashlib, json, os, queue, random, re, select, shutil, struct, subprocess
import sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
NCPU = min(8, os.cpu_count() or 4)
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The machinery, not the code under test, failed."""


# --------------------------------------------------------------------------- build

def go_env():
    env = dict(os.environ)
    env.update(HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
               GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GO111MODULE='on',
               GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0')
    env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.pop('GOROOT', None)
    return env


def build_driver(outdir):
    """Builds the driver against the current working tree of the repository."""
    src = os.path.join(outdir, 'src')
    shutil.copytree(os.path.join(VERIF, 'driver'), src)
    if REPO != '/repo':
        p = os.path.join(src, 'go.mod')
        s = open(p).read().replace('=> /repo', '=> ' + REPO)
        open(p, 'w').write(s)
    exe = os.path.join(outdir, 'vdriver')
    r = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('the driver does not build:\n' + r.stdout + r.stderr)
    return exe


# --------------------------------------------------------------------------- TLC

class SetOfSeqs(set):
    """A set of sequences (tuples)."""


def tla(v):
    """A Python value as a TLA+ expression for a configuration file."""
    if isinstance(v, SetOfSeqs):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise ToolError('no TLA+ form for %r' % (v,))


class TlcResult:
    def __init__(self):
        self.traces, self.states, self.distinct, self.out = [], 0, 0, ''


def run_tlc(module, constants, work, mode='bfs', num=0, depth=100, seed=1, spec='Spec', invariants=(),
            properties=(), workers=1, timeout=800, heap='3g', extra_defs='', limit_traces=None, overrides=None, env=None):
    """Model checks (bfs) or simulates a module of spec/, and collects the behaviours it emits.
    Constants with structured values are defined in a generated module."""
    d = tempfile.mkdtemp(dir=work, prefix='tlc')
    name = 'MC'
    lines, cfg = [], []
    for k, v in constants.items():
        if isinstance(v, (bool, int, str)) or isinstance(v, (set, frozenset)) and all(isinstance(x, (str, int)) for x in v):
            cfg.append(' %s = %s' % (k, tla(v)))
        else:
            lines.append('const_%s == %s' % (k, tla(v)))
            cfg.append(' %s <- const_%s' % (k, k))
    for k, v in (overrides or {}).items():
        cfg.append(' %s <- %s' % (k, v))
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n' % (name, module, '\n'.join(lines), extra_defs))
    with open(os.path.join(d, name + '.cfg'), 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        if cfg:
            f.write('CONSTANTS\n' + '\n'.join(cfg) + '\n')
        for i in invariants:
            f.write('INVARIANT %s\n' % i)
        for i in properties:
            f.write('PROPERTY %s\n' % i)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC,
           '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE',
           '-config', name + '.cfg', '-metadir', os.path.join(d, 'states'), '-deadlock', '-workers', str(workers)]
    if mode == 'sim':
        cmd += ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
    cmd.append(name + '.tla')
    outp = os.path.join(d, 'out')
    with open(outp, 'w') as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {}))).returncode
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
    r = TlcResult()
    other = []
    with open(outp) as f:
        for line in f:
            if line.startswith('<<"TRACE", '):
                if limit_traces is None or len(r.traces) < limit_traces:
                    r.traces.append(json.loads(json.loads(line.rstrip()[len('<<"TRACE", '):-2])))
            else:
                other.append(line)
    r.out = ''.join(other)
    m = re.search(r'(\d+) states generated, (\d+) distinct', r.out)
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r'The number of states generated: (\d+)', r.out)
        if m:
            r.states = r.distinct = int(m.group(1))
    if rc != 0 or 'Error:' in r.out or not r.states:
        i = max(0, r.out.find('Error:'))
        if 'Parsing or semantic' in r.out:
            i = max(0, r.out.find('Parse Error'), r.out.find('Semantic errors'), r.out.find('***'))
        e = ToolError('TLC failed on %s (rc %d):\n%s' % (module, rc, r.out[i:i + 1200]))
        e.result = r
        raise e
    shutil.rmtree(d)
    return r


def tlc_many(jobs):
    """Runs several TLC jobs at the same time: a list of dicts of run_tlc arguments."""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(run_tlc, **j) for j in jobs]
        return [f.result() for f in fs]


# --------------------------------------------------------------------------- driver

class Driver:
    def __init__(self, exe, timeout=60, gib=8):
        self.exe, self.timeout, self.gib, self.p = exe, timeout, gib, None

    def start(self):
        env = dict(os.environ, GOMAXPROCS='2', GOMEMLIMIT='%dMiB' % (192 * self.gib), GOTRACEBACK='single')
        self.errf = tempfile.TemporaryFile()
        # a tiny file must not make the library ask for gigabytes
        self.p = subprocess.Popen(['prlimit', '--as=%d' % (self.gib << 30), self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=env)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            self.p = None

    def _line(self, deadline):
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                return line
            left = deadline - time.time()
            if left <= 0:
                return 'hang'
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    return 'crash'
                self.buf += b

    def run(self, script):
        """One result per operation.  If the process dies or hangs, the last result says so."""
        if self.p is None:
            self.start()
        data = (json.dumps(script) + '\n').encode()
        out = []
        t = threading.Thread(target=self._send, args=(data,))
        t.start()
        while True:
            line = self._line(time.time() + self.timeout)
            if line in ('crash', 'hang'):
                if line == 'hang':
                    self.p.send_signal(3)   # SIGQUIT: a stack trace
                    time.sleep(0.5)
                    self.p.kill()
                rc = self.p.wait()
                t.join()
                self.errf.seek(0)
                msg = self.errf.read()[-6000:].decode('utf8', 'replace')
                self.stop()
                if rc == 97:
                    raise ToolError('driver: ' + msg)
                out.append({line: True, 'stderr': msg[:3000], 'r': None, 'err': None})
                return out
            if line == b'END':
                t.join()
                return out
            o = json.loads(line)
            if isinstance(o.get('panic'), str) and 'verifdriver:' in o['panic']:
                raise ToolError(o['panic'])
            out.append(o)

    def _send(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (OSError, ValueError):
            pass


def died(o):
    return o.get('crash') or o.get('hang')


class Pool:
    def __init__(self, exe, n=NCPU, timeout=60, gib=8):
        self.exe, self.n, self.timeout, self.gib = exe, n, timeout, gib
        self.local = threading.local()
        self.all = []
        self.ex = concurrent.futures.ThreadPoolExecutor(n)

    def _drv(self):
        if not hasattr(self.local, 'd'):
            self.local.d = Driver(self.exe, self.timeout, self.gib)
            self.all.append(self.local.d)
        return self.local.d

    def _one(self, script):
        d = self._drv()
        out = d.run(script)
        if out and died(out[-1]):
            # only a failure that happens again, in a process of its own, counts
            d2 = Driver(self.exe, self.timeout * 2, self.gib)
            out2 = d2.run(script)
            d2.stop()
            if not (out2 and died(out2[-1])):
                return out2
            return out2
        return out

    def run(self, scripts):
        return list(self.ex.map(self._one, scripts))

    def map(self, fn, items):
        """fn(run, item): run executes one script."""
        return list(self.ex.map(lambda it: fn(self._one, it), items))

    def close(self):
        self.ex.shutdown()
        for d in self.all:
            d.stop()


# --------------------------------------------------------------------------- values

WIDTH = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8,
         'float32': 4, 'float64': 8}
CDL = {'int8': 'byte', 'uint8': 'ubyte', 'int16': 'short', 'uint16': 'ushort', 'int32': 'int', 'uint32': 'uint',
       'int64': 'int64', 'uint64': 'uint64', 'float32': 'float', 'float64': 'double', 'string': 'string', 'char': 'char'}

SPECIAL = {
    'float32': ['00000000', '80000000', '3f800000', 'bf800000', '7f800000', 'ff800000', '7fc00000', '7fc12345',
                '7f800001', 'ffffffff', '00000001', '807fffff', '7f7fffff', '7cf00000', '40490fdb'],
    'float64': ['0000000000000000', '8000000000000000', '3ff0000000000000', 'bff0000000000000', '7ff0000000000000',
                'fff0000000000000', '7ff8000000000000', '7ff8000000012345', '7ff0000000000001', 'ffffffffffffffff',
                '0000000000000001', '800fffffffffffff', '7fefffffffffffff', '479e000000000000', '400921fb54442d18'],
}
for _t, _w in WIDTH.items():
    if _t[0] != 'f':
        n = _w * 8
        SPECIAL[_t] = ['%0*x' % (_w * 2, x & ((1 << n) - 1)) for x in
                       (0, 1, -1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << n) - 2, -127, 0x0102030405060708, 0xa5a5a5a5a5a5a5a5, 37)]


def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


def elem(ty, tok, k):
    """The bits (as big-endian hex) of element k of the value with this token."""
    h = _h(ty, tok, k)
    if h % 3 == 0:
        return SPECIAL[ty][(h >> 8) % len(SPECIAL[ty])]
    w = WIDTH[ty] * 2
    return ('%016x' % _h('v', ty, tok, k))[:w]


CHARS = ['a', 'b', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\x7f', 'é', 'ß', '中', '😀', '/', '{', '%']


def text(tok, k, n, nul=False):
    """A string of exactly n bytes."""
    out, i = b'', 0
    while len(out) < n:
        c = CHARS[_h('c', tok, k, i) % len(CHARS)].encode()
        i += 1
        if nul and _h('n', tok, k, i) % 9 == 0 and 0 < len(out) < n - 1:
            c = b'\0'
        if len(out) + len(c) <= n:
            out += c
        elif n - len(out) < 4:
            out += b'x'
    return out


def gotype(ty, depth):
    return '[]' * depth + ty


def mkval(v, nul=False):
    """The concrete value of an abstract one (Writer.tla): {'T','V'}."""
    ty, gs, rag, ml, tok = v['ty'], v['gs'], v['rag'], v['ml'], v['tok']
    cnt = [0]

    def leaf_row(n):
        if ty == 'string':
            r = []
            for _ in range(n):
                k = cnt[0]
                cnt[0] += 1
                n1 = ml if k == 0 else _h('l', tok, k) % (ml + 1)
                r.append('s:' + text(tok, k, n1, nul).hex())
            return r
        if ty not in WIDTH:
            r = [None] * n
            return r
        s = ''
        for _ in range(n):
            s += elem(ty, tok, cnt[0])
            cnt[0] += 1
        return s

    def build(lv, path):
        n = gs[lv]
        last = lv == len(gs) - 1
        if lv > 0 and (rag == 'last' and last or rag == 'mid' and lv == len(gs) - 2):
            # the first row is as long as the value shows, others are shorter or longer
            j = path[-1]
            if j > 0:
                n = (n - 1 if j % 2 else n + j)
        if last:
            return leaf_row(n)
        return [build(lv + 1, path + [i]) for i in range(n)]

    if ty == 'nil':
        return {'T': 'nil', 'V': None}
    if not gs:
        if ty == 'string':
            return {'T': ty, 'V': 's:' + text(tok, 0, ml, nul).hex()}
        if ty not in WIDTH:
            return {'T': ty, 'V': None}
        return {'T': ty, 'V': elem(ty, tok, 0)}
    return {'T': gotype(ty, len(gs)), 'V': build(0, [])}


def pad_strings(v, n):
    if isinstance(v, list):
        return [pad_strings(x, n) for x in v]
    b = bytes.fromhex(v[2:])
    return 's:' + (b + b'\0' * (n - len(b))).hex()


# --------------------------------------------------------------------------- checks

def load_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        os.chmod(self.work, 0o755)
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.findings = load_findings(pid)
        self.known_hit, self.violations = {}, []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'parts': {}}
        self.assumptions = []
        self._exe = self._pool = None
        self._vlock = threading.Lock()
        self.nfile = 0

    # tiers: q in quick, t in thorough
    def n(self, q, t):
        return t if self.thorough else q

    @property
    def exe(self):
        if self._exe is None:
            d = os.path.join(self.work, 'build')
            os.mkdir(d)
            self._exe = build_driver(d)
        return self._exe

    @property
    def pool(self):
        if self._pool is None:
            self._pool = Pool(self.exe)
        return self._pool

    def path(self, suffix='.nc'):
        with self._vlock:
            self.nfile += 1
            return os.path.join(self.work, 'f%d%s' % (self.nfile, suffix))

    def tlc(self, module, constants, **kw):
        r = run_tlc(module, constants, self.work, **kw)
        self.count_tlc(module, r)
        return r

    def tlc_many(self, jobs):
        rs = tlc_many([dict(j, work=self.work) for j in jobs])
        for j, r in zip(jobs, rs):
            self.count_tlc(j['module'], r)
        return rs

    def sim(self, module, constants, num, depth, jobs=NCPU, **kw):
        """Simulates with several seeds at the same time; returns all behaviours."""
        per = max(1, num // jobs)
        rs = self.tlc_many([dict(module=module, constants=constants, mode='sim', num=per, depth=depth,
                                 seed=self.seed * 1000 + i, **kw) for i in range(jobs)])
        return [t for r in rs for t in r.traces]

    def count_tlc(self, module, r):
        with self._vlock:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.states
            p = self.cov['parts'].setdefault(module, {'states': 0, 'behaviours': 0})
            p['states'] += r.distinct
            p['behaviours'] += len(r.traces)

    def validated(self, n=1):
        with self._vlock:
            self.cov['traces_validated_against_impl'] += n

    def part(self, name, n=1):
        with self._vlock:
            self.cov['parts'][name] = self.cov['parts'].get(name, 0) + n

    def sample(self, x, limit=3):
        with self._vlock:
            if len(self.cov['samples']) < limit:
                s = json.dumps(x)
                self.cov['samples'].append(x if len(s) < 4000 else s[:4000] + '...')

    def violation(self, key, what, **detail):
        """Records a violation; one that the known-findings file lists by its key is only noted."""
        with self._vlock:
            if key in self.findings:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
                return
            self.violations.append((key, what, detail))

    def finish(self):
        if self._pool:
            self._pool.close()
        rc = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for k, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.findings[k]))
        if self.violations:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rc = 1
            seen = {}
            for v in self.violations:       # one of each kind first
                seen.setdefault((v[0], re.sub(r'[^A-Za-z ]+', '', v[1])[:60]), v)
            first = list(seen.values())[:8]
            for i, (key, what, detail) in enumerate(first):
                p = os.path.join(rd, '%s-%d.json' % (self.pid, i))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'key': key, 'what': what, 'detail': detail}, f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  ' + what[:600])
            if len(self.violations) > len(first):
                print('  and %d more' % (len(self.violations) - len(first)))
        if not self.cov['samples']:
            self.cov['samples'] = ['(none)']
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s seed=%d: %d states, %d behaviours replayed, %d violations, %.1fs' % (
            self.pid, self.tier, self.seed, self.cov['states'], self.cov['traces_validated_against_impl'],
            len(self.violations), time.time() - self.t0))
        return rc

    def cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            print('kept', self.work)
            return
        shutil.rmtree(self.work, ignore_errors=True)


def main(pid, fn, level='model_checking'):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        traceback.print_exc()
        print('ERROR: the check itself failed: %s' % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        print('ERROR: the check itself failed')
        rc = 3
    finally:
        c.cleanup()
    sys.exit(rc)
