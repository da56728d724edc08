"""A01-A05: the eager arithmetic solver against EagerSem.tla / EagerTrace.tla"""
import random
from vlib import *
from updater import validate
from pipeline import put
from concurrent.futures import ThreadPoolExecutor

# cases per family: (quick, thorough)
MIX = {
    'A01': dict(uf=(400, 4000), small=(500, 6000), plant=(700, 8000), bv=(250, 2500), part=(120, 1200), chain=(120, 1200), big=(60, 600), wide=(70, 500), twin=(80, 800), coef=(16, 160)),
    'A02': dict(uf=(300, 4000), small=(400, 5000), plant=(600, 8000), chain=(500, 6000), sep=(500, 6000), part=(300, 4000), big=(150, 1500), wide=(90, 600), bv=(200, 2000), pairs=(31, 2), twin=(100, 1000), steep=(100, 1000), coef=(16, 160)),
    'A03': dict(uf=(600, 6000), small=(400, 4000), plant=(800, 8000), bv=(400, 3000), part=(150, 1500), wide=(40, 300), big=(40, 300)),
    'A04': dict(uf=(200, 2000), hist=(700, 8000), odd=(500, 5000), small=(400, 5000), plant=(400, 5000), bv=(200, 2000), wide=(60, 400), chain=(100, 1000), sep=(100, 1000), twin=(60, 600)),
    'A05': dict(uf=(40, 400), small=(150, 1500), plant=(150, 1500), bv=(60, 600), part=(40, 400), sep=(60, 600), chain=(40, 400), wide=(15, 150)),
}


def bits(x):
    """#b and #x tokens of printed terms become bit tuples"""
    if 'a' in x:
        return {'a': [bits(y) for y in x['a']]}
    if 't' in x and x['t'].startswith('#b') and len(x['t']) > 2:
        return {'b': [int(c) for c in x['t'][2:]]}
    if 't' in x and re.fullmatch('#x[0-9a-fA-F]+', x['t']):
        return {'b': [int(c) for h in x['t'][2:] for c in format(int(h, 16), '04b')]}
    if 'I' in x:
        return {'L': big_limbs(int(x['I']))}
    return x


def nums(x):
    if 'a' in x:
        return max((nums(y) for y in x['a']), default=0)
    if 'i' in x:
        return x['i']
    if 'L' in x:
        return 2 ** 62
    return 0


def big_i(x):
    if 'a' in x:
        return {'a': [big_i(y) for y in x['a']]}
    if 'i' in x and x['i'] >= 2 ** 31 - 1:
        return {'L': big_limbs(x['i'])}
    return x


BADTERM = {'a': []}


def one(text):
    try:
        q = [big_i(bits(x)) for x in sx_parse(text, big=True)]
        if len(q) == 1 and len(json.dumps(q[0])) < 200000:
            return q[0]
    except ValueError:
        pass
    return BADTERM


def model_ev(m):
    out = []
    for d in m:
        n = d['name']
        if n.startswith('|') and n.endswith('|') and len(n) > 1:
            n = n[1:-1]
        out.append(dict(n=n, at=n.startswith('@'), args=[dict(n=a[0], s=one(a[1])) for a in d['args']],
                        sort=one(d['sort']), body=one(d['body'])))
    return out


def answer(fe, o):
    e = dict(e='answer', fe=fe, r=o['r'], model=model_ev(o['model']) if o['r'] == 'sat' else [])
    return e


def generate(prop, tier, ck):
    cases = []
    jobs = list(MIX[prop].items())

    def g(j):
        fam, (q, t) = j
        return tlc('EagerGen', SPECCFG, ck.sc, env=dict(FAM=fam, N=q if tier == 'quick' else t, SEED=SEED), workers=2, timeout=800)
    with ThreadPoolExecutor(4) as ex:
        for (fam, _), r in zip(jobs, ex.map(g, jobs)):
            ck.add(r)
            seen = set()
            for c in sorted(r.recs, key=lambda c: (c['id'], json.dumps(c['cmds']))):
                c['text'] = script(c['cmds'])
                if c['text'] in seen:
                    continue
                seen.add(c['text'])
                c['id'] = len(cases)
                cases.append(c)
            ck.extra['family_' + fam] = len(seen)
    return cases


def finalize(c, evs):
    n = max([nums(x) for x in c['cmds']] + [nums(w['body']) for w in c['wit']] +
            [nums(d['body']) for e in evs for d in e.get('model', [])] + [0])
    # machine integers of TLC are enough when no literal is large and no witness is a chain
    big = n > 10000 or c['fam'] in ('big', 'wide')
    return dict(id=c['id'], fam=c['fam'], cmds=c['cmds'], wit=c['wit'], dom=0 if big else c['dom'], big=big, ev=evs)


def run(prop, tier):
    ck = Check(prop, tier)
    build_harness()
    ck.log('built')
    cases = generate(prop, tier, ck)
    ck.log('generated', len(cases))
    obs = drive([dict(op='solve', smt=c['text'], solver='varisat') for c in cases], ck.sc, per=25 if tier == 'quick' else 60)
    # the built-in SAT search is sometimes unlucky (its run time depends on the hash order): another solver then decides
    slow = [k for k, o in enumerate(obs) if o['r'] == 'hang']
    for k, o in zip(slow, drive([dict(op='solve', smt=cases[k]['text'], solver=KISSAT) for k in slow], ck.sc, per=60)):
        obs[k] = o
    ck.extra['slow_searches'] = len(slow)
    ck.log('solved')
    evs = [[answer('varisat', o)] for o in obs]
    if prop == 'A05':
        frontends(ck, cases, obs, evs)
        ck.log('front ends')
        protocol(ck, tier, cases, obs, evs)
        ck.log('solver protocol')
    from collections import Counter
    ck.extra['answers'] = dict(Counter('%s:%s' % (c['fam'], o['r']) for c, o in zip(cases, obs)))
    val = [finalize(c, e) for c, e in zip(cases, evs)]
    validate(ck, 'EagerTrace', val, lambda k: dict(script=cases[k]['text'], wit=[w['n'] + '=' + sx_print(w['body']) for w in cases[k]['wit']],
                                                  events=[{k2: v for k2, v in e.items() if k2 not in ('cls', 'asg')} for e in evs[k]], obs=obs[k]))
    h = [v for v in ck.viol if 'HARNESS' in v[0]]
    if h:
        raise ToolError(h[0][0])
    ck.log('validated')
    for k in range(0, len(cases), max(1, len(cases) // 3)):
        ck.sample(dict(script=cases[k]['text'][:400], answer=obs[k]['r']))
    ck.assume = ['unsat is refuted by a planted witness or by search of a finite domain, not proved', 'symbols that a model omits are completed with three uniform values']
    return ck.finish()


KISSAT, MINISAT = '/usr/local/bin/kissat', '/usr/bin/minisat'


def dimacs(text):
    nv = ncl = -1
    cls, cur = [], []
    for l in text.split('\n'):
        if l.startswith('c') or not l.strip():
            continue
        if l.startswith('p'):
            _, k, a, b = l.split()
            assert k == 'cnf'
            nv, ncl = int(a), int(b)
            continue
        for t in l.split():
            if t == '0':
                cls.append(cur)
                cur = []
            else:
                cur.append(int(t))
    if cur:
        cls.append(cur + [10 ** 9])
    return nv, ncl, cls


def sat_solve(path):
    p = subprocess.run([KISSAT, '-q', path], capture_output=True, text=True, timeout=120)
    if p.returncode == 10:
        return True, [int(t) for l in p.stdout.split('\n') if l.startswith('v') for t in l[1:].split() if t != '0']
    if p.returncode == 20:
        return False, []
    return None, []


def cnf_event(text, path, fe, full=True):
    try:
        nv, ncl, cls = dimacs(text)
        if nv < 0:
            raise ValueError
    except (ValueError, AssertionError):
        return dict(e='cnf', fe=fe, r='malformed DIMACS', nv=0, ncl=0, cls=[], sat=False, asg=[])
    sat, lits = sat_solve(path)
    if sat is None:
        return dict(e='cnf', fe=fe, r='kissat rejects the file', nv=0, ncl=0, cls=[], sat=False, asg=[])
    asg = [False] * nv
    for x in lits:
        if 0 < x <= nv:
            asg[x - 1] = True
    if len(cls) > 6000:
        if len(cls) != ncl or any(abs(x) > nv for c in cls for x in c):
            return dict(e='cnf', fe=fe, r='malformed DIMACS', nv=0, ncl=0, cls=[], sat=False, asg=[])
        cls, ncl = [], 0
    return dict(e='cnf', fe=fe, r='ok', nv=nv, ncl=ncl, cls=cls, sat=sat, asg=asg)


def frontends(ck, cases, obs, evs):
    cli = build_clis() + 'amzn-smt-eager-arithmetic'
    ki = drive([dict(op='solve', smt=c['text'], solver=KISSAT) for c in cases], ck.sc, per=60)
    en = drive([dict(op='encode', smt=c['text']) for c in cases], ck.sc, per=60)

    def one_case(k):
        d = ck.sc.sub('fe%d' % k)
        out = [answer('kissat', ki[k])]
        if ki[k]['r'] != obs[k]['r']:
            out.append(dict(e='verdict', fe='kissat', r=obs[k]['r'] + ' and then ' + ki[k]['r']))
        if en[k]['r'] == 'ok':
            open(d + '/e.cnf', 'w').write(en[k]['dimacs'])
            out.append(cnf_event(en[k]['dimacs'], d + '/e.cnf', 'encode'))
        else:
            out.append(dict(e='cnf', fe='encode', r=en[k]['r'], nv=0, ncl=0, cls=[], sat=False, asg=[]))
        open(d + '/q.smt2', 'w').write(cases[k]['text'])
        p = cli_run([cli, 'solve', '--instance', d + '/q.smt2'] + (['--solver', KISSAT] if k % 2 else []), d)
        ls = p.stdout.split('\n')
        if p.returncode == 0 and 'unsat' in ls:
            out.append(dict(e='verdict', fe='command line solve', r='unsat'))
        elif p.returncode == 0 and 'sat' in ls:
            out.append(dict(e='verdict', fe='command line solve', r='sat'))
            out.append(dict(e='answer', fe='command line solve', r='sat', model=cli_model(ls[ls.index('sat') + 1:])))
        else:
            out.append(dict(e='verdict', fe='command line solve', r='exit status %s' % p.returncode))
        if k % 3 == 0:
            p = cli_run([cli, 'encode', '--instance', d + '/q.smt2', '--cnf-outfile', d + '/o.cnf'], d)
            if os.path.exists(d + '/o.cnf'):
                out.append(cnf_event(open(d + '/o.cnf').read(), d + '/o.cnf', 'command line encode'))
            else:
                out.append(dict(e='verdict', fe='command line encode', r='no CNF, exit status %s' % p.returncode))
        shutil.rmtree(d)
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        for k, o in enumerate(ex.map(one_case, range(len(cases)))):
            evs[k] += o


def cli_model(ls):
    m = one('\n'.join(ls))
    defs = []
    for x in m.get('a', []):
        a = x.get('a', [])
        if len(a) == 5 and a[0].get('t') == 'define-fun' and 't' in a[1]:
            defs.append(dict(n=a[1]['t'], at=a[1]['t'].startswith('@'), sort=a[3], body=a[4],
                             args=[dict(n=b['a'][0]['t'], s=b['a'][1]) for b in a[2]['a']]))
        else:
            defs.append(dict(n='?', at=False, sort=BADTERM, body=BADTERM, args=[]))
    return defs


def protocol(ck, tier, cases, obs, evs):
    """behaviours of SolverProtocol, replayed by a fake solver process"""
    r = tlc('SolverProtocol', SPECCFG + 'INVARIANT NoGuess\nINVARIANT Answers\nPROPERTY Monotone\n', ck.sc,
            env=dict(N=4 if tier == 'quick' else 5), timeout=800)
    ck.add(r)
    rng = random.Random(SEED)
    beh = sorted(r.recs, key=lambda x: json.dumps(x))
    plain = [x for x in beh if len(x['out']) <= 1 or 'verdict' in (x['sat'], x['unsat']) and len(x['out']) <= 3]
    rest = [x for x in beh if len(x['out']) > 1]
    beh = plain + rng.sample(rest, min(len(rest), 350 if tier == 'quick' else 6000))
    pool = {v: [k for k, c in enumerate(cases) if obs[k]['r'] == v and c['fam'] in ('small', 'plant', 'uf', 'sep')
                and c['cmds'] and len(c['text']) < 600][:40] for v in ('sat', 'unsat')}
    d = ck.sc.sub('proto')
    os.chmod(d, 0o755)
    jobs = []
    for k, b in enumerate(beh):
        for v in ('sat', 'unsat'):
            if not pool[v]:
                continue
            f = d + '/s%d%s' % (k, v)
            if b['start'] != 'absent':
                with open(f, 'w') as h:
                    h.write('#!/usr/bin/python3 -IS\nimport sys\nsys.path.insert(0, %r)\nsys.dont_write_bytecode = True\nimport fake_solver\nfake_solver.main(%r, %r)\n'
                            % (V + '/lib', dict(b, script=v), KISSAT))
                os.chmod(f, 0o644 if b['start'] == 'not executable' else 0o755)
            jobs.append(dict(f=f, must=b[v], script=v, k=pool[v][k % len(pool[v])], b=b))
    lib = drive([dict(op='solve', smt=cases[j['k']]['text'], solver=j['f']) for j in jobs], ck.sc, per=60)
    for j, o in zip(jobs, lib):
        evs[j['k']].append(dict(e='protocol', fe='solve with an external solver doing ' + json.dumps(j['b']), must=j['must'],
                                r=o['r'], model=answer('', o)['model']))
    cli = build_clis() + 'amzn-smt-eager-arithmetic'
    some = [j for i, j in enumerate(jobs) if i % (4 if tier == 'quick' else 3) == 0]

    def one_cli(j):
        q = j['f'] + '.smt2'
        open(q, 'w').write(cases[j['k']]['text'])
        p = cli_run([cli, 'solve', '--instance', q, '--solver', j['f']], d)
        ls = p.stdout.split('\n')
        r, m = 'exit status %s' % p.returncode, []
        if 'unsat' in ls:
            r = 'unsat'
        elif 'sat' in ls:
            r, m = 'sat', cli_model(ls[ls.index('sat') + 1:])
        elif p.returncode == 0:
            r = 'success without a verdict'
        return dict(e='protocol', fe='command line solve with an external solver doing ' + json.dumps(j['b']), must=j['must'], r=r, model=m)
    with ThreadPoolExecutor(NCPU) as ex:
        for j, e in zip(some, ex.map(one_cli, some)):
            evs[j['k']].append(e)
    simplifier(ck, cases, pool, evs, cli, d)
    ck.extra['solver_behaviours'] = len(beh)
    ck.extra['protocol_runs'] = len(jobs) + len(some)


class Dead:
    returncode, stdout = 'none (hang)', ''


def cli_run(args, d, **kw):
    try:
        return subprocess.run(args, cwd=d, capture_output=True, text=True, timeout=120, **kw)
    except subprocess.TimeoutExpired:
        return Dead()


MINI = """#!/usr/bin/python3 -IS
import os, signal, subprocess, sys
wrote, exit = %r, %r
dest = [a[8:] for a in sys.argv if a.startswith('-dimacs=')][0]
data = sys.stdin.buffer.read()
if wrote != 'nothing':
    t = %r + '.%%d' %% os.getpid()
    p = subprocess.run([%r, '-verb=0', '-dimacs=' + t], input=data, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    text = open(t).read() if os.path.exists(t) else 'p cnf 1 2\\n1 0\\n-1 0\\n'
    open(dest, 'w').write(text if wrote == 'all' else text[:len(text) // 2])
if exit == 'killed':
    os.kill(os.getpid(), signal.SIGKILL)
os._exit(int(exit))
"""


def simplifier(ck, cases, pool, evs, cli, d):
    r = tlc('SimplifierProtocol', SPECCFG + 'INVARIANT NoFalseSuccess\n', ck.sc)
    ck.add(r)
    jobs = [(k, b, v, pool[v][(k + j) % len(pool[v])]) for k, b in enumerate(sorted(r.recs, key=lambda b: json.dumps(b)))
            for v in ('sat', 'unsat') for j in (0, 7) if pool[v]]

    def go(j):
        n, (k, b, v, c) = j
        t = d + '/m%d' % n
        os.makedirs(t + '/bin')
        if b['start'] != 'absent':
            put(t + '/bin/minisat', MINI % (b['wrote'], b['exit'], t + '/tmp', MINISAT), 0o644 if b['start'] == 'not executable' else 0o755)
        open(t + '/q.smt2', 'w').write(cases[c]['text'])
        if b['stale']:
            open(t + '/o.cnf', 'w').write('p cnf 1 1\n1 0\n' if v == 'unsat' else 'p cnf 1 2\n1 0\n-1 0\n')
        p = cli_run([cli, 'encode', '--instance', t + '/q.smt2', '--cnf-outfile', t + '/o.cnf'], t, env=dict(os.environ, PATH=t + '/bin'))
        fe = 'command line encode with a simplifier doing ' + json.dumps(b)
        if b[v] == 'none':
            return dict(e='protocol', fe=fe, must='none', r='success without a verdict' if p.returncode == 0 else 'error', model=[])
        if b[v] == 'verdict':
            if p.returncode != 0 or not os.path.exists(t + '/o.cnf'):
                return dict(e='protocol', fe=fe, must='verdict', r='exit status %s' % p.returncode, model=[])
            return cnf_event(open(t + '/o.cnf').read(), t + '/o.cnf', fe)
    with ThreadPoolExecutor(NCPU) as ex:
        for j, e in zip(jobs, ex.map(go, enumerate(jobs))):
            if e:
                evs[j[3]].append(e)
    ck.extra['simplifier_runs'] = len(jobs)
