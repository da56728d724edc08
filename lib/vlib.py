"""Shared plumbing: build, run TLC, run the conformance driver, parse / print S-expressions,
known findings, evidence and outcome. No semantic judgement is made here: that is in /verif/spec."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
V = '/verif'
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.environ.get('VERIF_TARGET', V + '/target')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vchk_')

    def path(self, *a):
        return os.path.join(self.d, *a)

    def sub(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ build
def _cargo(args, cwd):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError('cargo %s failed:\n%s' % (' '.join(args), p.stderr[-4000:]))


def build_harness():
    _cargo(['build', '--offline', '--target-dir', TARGET], V + '/harness')
    return TARGET + '/debug/vharness'


def build_clis():
    """the command line tools, from the working tree of /repo"""
    lock = REPO + '/Cargo.lock'
    before = open(lock, 'rb').read() if os.path.exists(lock) else None
    _cargo(['build', '--offline', '--workspace', '--features', 'amzn-smt-eager-arithmetic/varisat',
            '--manifest-path', REPO + '/Cargo.toml', '--target-dir', TARGET + '/cli'], V)
    if before is not None and open(lock, 'rb').read() != before:
        open(lock, 'wb').write(before)
    return TARGET + '/cli/debug/'


# ------------------------------------------------------------------ TLC
class TlcRun:
    def __init__(self):
        self.recs, self.states, self.distinct, self.out, self.ok = [], 0, 0, '', False


def tlc(module, cfg, sc, env=None, workers=NCPU, timeout=600, args=(), heap='6g', allow_violation=False):
    d = tempfile.mkdtemp(prefix='tlc.', dir=sc.d)
    for f in os.listdir(V + '/spec'):
        if f.endswith('.tla'):
            shutil.copy(V + '/spec/' + f, d)
    open(d + '/run.cfg', 'w').write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + d, '-cp',
           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', d + '/meta', '-config', 'run.cfg', '-noGenerateSpecTE', '-fp', '7', '-seed', '1'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC %s timed out after %ss' % (module, timeout))
    r = TlcRun()
    r.out = p.stdout
    for l in p.stdout.split('\n'):
        if l.startswith('"{') and l.endswith('}"'):
            try:
                r.recs.append(json.loads(json.loads(l)))
            except ValueError:
                raise ToolError('unreadable TLC record: ' + l[:300])
        m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct states found', l)
        if m:
            r.states, r.distinct = (int(x.replace(',', '')) for x in m.groups())
    r.ok = p.returncode == 0 and 'No error has been found' in p.stdout
    if not r.ok and not allow_violation:
        i = p.stdout.find('Error:')
        raise ToolError('TLC %s rc=%d\n%s' % (module, p.returncode, p.stdout[i if i >= 0 else -3000:][:3500]))
    shutil.rmtree(d, ignore_errors=True)
    return r


def write_ndjson(path, recs):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')


SPECCFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


# ------------------------------------------------------------------ driver of the real code
def drive(cmds, sc, per=15.0, shards=NCPU, binary=None, cwd=None):
    """run commands in the conformance driver; a hang of more than `per` seconds for one command is
    recorded as {"r":"hang"}, an abort of the process as {"r":"abort"}."""
    from concurrent.futures import ThreadPoolExecutor
    binary = binary or TARGET + '/debug/vharness'
    n = len(cmds)
    shards = max(1, min(shards, n))
    res = [None] * n

    def shard(k):
        idx = list(range(k, n, shards))
        pos = 0
        while pos < len(idx):
            d = tempfile.mkdtemp(prefix='drv.', dir=sc.d)
            inp, out, err = d + '/in', d + '/out', d + '/err'
            write_ndjson(inp, [dict(cmds[i], id=i) for i in idx[pos:]])
            open(out, 'w').close()
            with open(err, 'w') as ef:
                p = subprocess.Popen([binary, inp, out], cwd=cwd or d, stdout=ef, stderr=ef)
                last, t0 = 0, time.time()
                hung = False
                while p.poll() is None:
                    try:
                        p.wait(timeout=0.05 if time.time() - t0 < 1 else 0.3)
                    except subprocess.TimeoutExpired:
                        pass
                    sz = os.path.getsize(out)
                    if sz != last:
                        last, t0 = sz, time.time()
                    elif time.time() - t0 > per:
                        p.kill()
                        p.wait()
                        hung = True
                        break
            lines = [l for l in open(out, errors='surrogateescape').read().split('\n')]
            done = [json.loads(l) for l in lines[:-1] if l]
            for r in done:
                res[r['id']] = r
            pos += len(done)
            if pos < len(idx) and (hung or p.returncode != 0):
                e = open(err, errors='replace').read()
                if not hung and not done and 'vharness' in e and 'No such file' in e:
                    raise ToolError(e)
                res[idx[pos]] = {'r': 'hang' if hung else 'abort', 'msg': e[-300:], 'id': idx[pos]}
                pos += 1
            elif pos < len(idx):
                raise ToolError('driver stopped early without an error')
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(shard, range(shards)))
    return res


# ------------------------------------------------------------------ S-expressions
# atoms: {"t":symbol/keyword/other token}, {"i":int}, {"s":[code points]}; lists {"a":[...]}
_tok = re.compile(r'''\s+|;[^\n]*|"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()";|]+''')


def sx_parse(text, big=False):
    """list of S-expressions of a script text; raises ValueError on malformed text"""
    stack, cur, pos = [], [], 0
    while pos < len(text):
        m = _tok.match(text, pos)
        if not m:
            raise ValueError('bad token at %d: %r' % (pos, text[pos:pos + 20]))
        pos = m.end()
        t = m.group()
        if t[0] in ' \t\r\n;' or t.isspace():
            continue
        if t == '(':
            stack.append(cur)
            cur = []
        elif t == ')':
            if not stack:
                raise ValueError('unbalanced )')
            l = {'a': cur}
            cur = stack.pop()
            cur.append(l)
        elif t[0] == '"':
            cur.append({'s': [ord(c) for c in t[1:-1].replace('""', '"')]})
        elif t.isdigit() and t.isascii():
            v = int(t)
            cur.append({'i': v} if v < 2 ** 31 - 1 or big else {'I': str(v)})
        else:
            cur.append({'t': t[1:-1] if t[0] == '|' and t[-1] == '|' and len(t) > 1 else t})
    if stack:
        raise ValueError('unbalanced (')
    return cur


def big_val(l):
    return sum(d * 10000 ** k for k, d in enumerate(l))


def big_limbs(v):
    c = v // 10000 ** 20
    v -= c * 10000 ** 20
    return [v // 10000 ** k % 10000 for k in range(20)] + [c]


_simple = re.compile(r'^[A-Za-z0-9~!@$%^&*_\-+=<>.?/:#]+$')


def sx_print(x):
    if 'a' in x:
        return '(' + ' '.join(sx_print(y) for y in x['a']) + ')'
    if 's' in x:
        return '"' + ''.join(map(chr, x['s'])).replace('"', '""') + '"'
    if 'i' in x:
        return str(x['i'])
    if 'I' in x:
        return x['I']
    if 'h' in x:
        return '#x' + '%0*x' % (len(x['b']) // 4, int(''.join(map(str, x['b'])), 2))
    if 'b' in x:
        return '#b' + ''.join(map(str, x['b']))
    if 'L' in x:
        v = big_val(x['L'])
        return str(v) if v >= 0 else '(- %d)' % -v
    return x['t'] if _simple.match(x['t']) else '|' + x['t'] + '|'


def script(cmds):
    return '\n'.join(sx_print(c) for c in cmds) + '\n'


# ------------------------------------------------------------------ known findings
def known(prop):
    """entries of /verif/known_findings.jsonl for this property that are not fixed"""
    p = V + '/known_findings.jsonl'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d['property'] == prop and 'input' in d:
                    out.append(d)
    return out


# ------------------------------------------------------------------ outcome
class Check:
    """collects what one check run did; finish() writes the evidence and decides the exit status"""

    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.extra, self.assume = [], [], {}, []
        self.sc = Scratch()

    def add(self, run):
        self.states += run.distinct
        self.transitions += max(0, run.states - run.distinct) if run.states else 0

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, replay):
        self.viol.append((what, replay))

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def finish(self):
        os.makedirs(V + '/evidence', exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        json.dump(ev, open(V + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        self.sc.close()
        if self.viol:
            rp = V + '/evidence/replay'
            os.makedirs(rp, exist_ok=True)
            f = rp + '/%s.json' % self.prop
            json.dump([dict(what=w, replay=r) for w, r in self.viol[:50]], open(f, 'w'), indent=1)
            for w, _ in self.viol[:5]:
                print('  ' + str(w)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
            return 1
        if self.traces == 0:
            print('no trace was validated', file=sys.stderr)
            return 2
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0
