"""P03-P05: the scripts of amzn-smt-prediction, run in scratch directories with stand-ins for the
solvers and for the remote endpoints, against Online.tla, EagerLazy.tla and Selection.tla"""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from updater import validate

PY = 'python3-vt'
STUB = V + '/lib/stubs'          # sagemaker, and a clock that only the stand-ins advance


def put(path, text, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if mode:
        # a child writes it: were the file open in this process, another thread could start a program meanwhile,
        # which keeps it open for a moment, and executing it would fail ("text file busy")
        subprocess.run(['/bin/sh', '-c', 'cat > "$0" && chmod "$1" "$0"', path, '%o' % mode], input=text, text=True, check=True)
        return
    with open(path, 'w') as f:
        f.write(text)


class Site:
    """a copy of the scripts with the layout they expect around them"""

    def __init__(self, sc, name):
        self.d = sc.sub(name)
        self.p = self.d + '/amzn-smt-prediction'
        self.s = self.p + '/scripts'
        os.makedirs(self.p)
        shutil.copytree(REPO + '/amzn-smt-prediction/scripts', self.s, ignore=shutil.ignore_patterns('examples', '__pycache__'))
        os.makedirs(self.p + '/solvers')

    def tool(self, crate, target):
        d = self.d + '/%s/release' % crate
        os.makedirs(d, exist_ok=True)
        os.symlink(target, d + '/' + crate)

    def run(self, args, timeout=120, **env):
        e = dict(os.environ, PYTHONPATH=STUB, PYTHONDONTWRITEBYTECODE='1', **env)
        try:
            p = subprocess.run([PY] + args, cwd=self.s, env=e, capture_output=True, text=True, timeout=timeout)
            how = '' if p.returncode == 0 else '%s ends with status %d: %s' % (args[0], p.returncode, ' | '.join((p.stdout + p.stderr).strip().split('\n')[-2:]))
            return p.returncode, how, p.stdout
        except subprocess.TimeoutExpired:
            return 124, args[0] + ' does not end', ''

    def close(self):
        shutil.rmtree(self.d)


def csv(path):
    """header, rows of integers"""
    t = open(path).read().split('\n')
    if t.pop() != '':
        return t[:1] or [''], [[-1]]
    try:
        return t[0].split(','), [[int(v) for v in l.split(',')] for l in t[1:]]
    except ValueError:
        return t[0].split(','), [[-1]]


def stale(k, *files):
    """every other run finds files of an earlier one"""
    if k % 2:
        for f in files:
            put(f, 'old\n7,7\n7\n')


# the lemma traces are what the features are about: without -t the real solver prints only its verdict
CVC4 = '''#!/bin/sh
m=nofmf; t=
for a; do case "$a" in --strings-fmf) m=fmf;; strings-lemma|strings-conflict) t=$t.;; esac; b=$a; done
if [ "$t" != .. ]; then echo unsat; exit; fi
cat "$b.$m" || exit 1
if [ -e "$b.hang" ]; then exec sleep 14; fi
'''
Z3 = '''#!/bin/sh
cat "$1.fmf" || exit 1
if [ -e "$1.hang" ]; then exec sleep 14; fi
'''
NAMES = [['/QF_SLIA/a/best.smt2', '/QF_SLIA/a/be.smt2', '/QF_SLIA/a/b.smt2'],
         ['/QF_SLIA/m.smt2', '/QF_SLIA/mm.smt2', '/QF_SLIA/t2.smt2'],
         ['/smt/x.smt2', '/t/x.smt2', '/x.smt2'],
         ['/QF_SLIA/a.1.smt2', '/QF_SLIA/a.2.smt2', '/QF_SLIA/a.smt2'],
         ['/2018/q.smt2', '/2019/q.smt2', '/2020/q.smt2'],
         ['/QF_SLIA/p1.smt2', '/QF_SLIA/p10.smt2', '/QF_SLIA/p12.smt2'],
         ['/QF_SLIA/a.smt2.d/b.smt2', '/QF_SLIA/a.smt2.d/c.smt2', '/QF_SLIA/x.smt2x.smt2'],
         ['/non-incremental/QF_SLIA/slog_1.smt2', '/non-incremental/QF_SLIA/slog_s.smt2', '/non-incremental/QF_SLIA/slog_.smt2']]
CLASH = ['/QF_SLIA/a/b.smt2', '/QF_SLIA/a_b.smt2', '/QF_SLIA/c.smt2']        # known finding


def text(words, rng):
    """lines with the given numbers of words"""
    out = []
    for n in words:
        t = ''
        for j in range(n):
            t += (rng.choice([' ', ' ', ' ', '  ', '\t']) if j else '') + rng.choice(['a', '(str.++', 'x)', '"q"', '()', 'lemma:', '0', '--', '(=>'])
        out.append(t + ('  ' if rng.random() < .1 and n else ''))
    return '\n'.join(out) + ('\n' if out else '')


def online(ck, tier):
    thorough = tier == 'thorough'
    rng = random.Random(int(SEED))
    r = tlc('OnlineGen', SPECCFG + 'INVARIANT Provenance\n', ck.sc, env=dict(MODE='pipe', N=7 if thorough else 6, SEED=SEED), timeout=800)
    ck.add(r)
    recs = sorted(r.recs, key=lambda x: json.dumps(x['log']))
    n = 1500 if thorough else 110
    recs = rng.sample(recs, min(n, len(recs)))
    p = tlc('OnlineGen', SPECCFG, ck.sc, env=dict(MODE='predict', N=600 if thorough else 60, SEED=SEED), timeout=800)
    ck.add(p)
    preds = sorted(p.recs, key=lambda x: x['id'])
    cli = build_clis() + 'amzn-smt-prediction'
    ck.log('generated', len(recs), len(preds))
    ids = {}
    cases = []
    for k, x in enumerate(recs):
        c = dict(id=k, kind='pipe', log=x['log'], out=x['out'], names=NAMES[k % len(NAMES)], solver='z3' if k % 5 == 4 else 'cvc4', hang=k % 37 == 3, obs=[])
        if c['solver'] == 'z3':
            for b in c['out']:
                for v in b:
                    v['nofmf'] = v['fmf']
        cases.append(c)
    e = [e for e in known('P03') if e['input'] == ' '.join(CLASH)]
    if e:      # two benchmarks that differ only in / and _
        l = [1, 2]
        o = [[dict(fmf=[10 * b], nofmf=[10 * b])] * 2 for b in range(3)]
        cases.append(dict(id=len(cases), kind='pipe', log=[dict(op='raw', l=l, m='fmf'), dict(op='count', l=l), dict(op='feat', l=l)], out=o, names=CLASH, solver='cvc4', hang=False, obs=[]))
        ids[cases[-1]['id']] = dict(e[0])
    for c in cases:
        for o in c['log']:
            o.setdefault('b', 0), o.setdefault('l', []), o.setdefault('m', '')

    def pipe(c):
        rng = random.Random(int(SEED) * 100003 + c['id'])
        s = Site(ck.sc, 'on%d' % c['id'])
        put(s.p + '/solvers/cvc4', CVC4, 0o755)
        put(s.p + '/solvers/z3', Z3, 0o755)
        txt = [[{m: text(v[m], rng) for m in v} for v in b] for b in c['out']]
        ver = [0, 0, 0]

        def show(b):
            for m in ('fmf', 'nofmf'):
                put(s.p + '/bench' + c['names'][b] + '.' + m, txt[b][ver[b]][m])
        for b in range(3):
            show(b)
        if c['hang']:
            # a solver that does not end, also one that has printed nothing
            put(s.p + '/bench' + c['names'][1] + '.hang', '')
        for j, o in enumerate(c['log']):
            e = dict(rc=0, how='', header=[], rows=[])
            if o['op'] == 'edit':
                b = o['b'] - 1
                ver[b] = 1 - ver[b]
                show(b)
            else:
                put(s.s + '/list.csv', '\n'.join(c['names'][b - 1] for b in o['l']) + ('\n' if (c['id'] + j) % 3 else ''))
                a = {'raw': ['get_solver_output.py', c['solver'], 'list.csv', '../bench'] + (['--no-strings-fmf'] if o['m'] == 'nofmf' else []),
                     'count': ['get_word_counts.py', c['solver'], 'list.csv'],
                     'feat': ['get_word_count_features.py', c['solver'], 'qf_slia', 'list.csv']}[o['op']]
                e['rc'], e['how'], _ = s.run(a)
                if o['op'] == 'feat' and e['rc'] == 0:
                    try:
                        e['header'], e['rows'] = csv(s.p + '/%s_output/features/on_features_qf_slia_%s.csv' % (c['solver'], c['solver']))
                    except OSError:
                        e['rc'], e['how'] = 1, 'no table is written'
            c['obs'].append(e)
            if e['rc']:
                break
        s.close()
        return c

    def predict(x):
        rng = random.Random(int(SEED) * 99991 + x['id'])
        s = Site(ck.sc, 'pr%d' % x['id'])
        put(s.p + '/solvers/cvc4', CVC4, 0o755)
        d = s.p + '/release'
        os.makedirs(d)
        os.symlink(cli, d + '/amzn-smt-prediction')
        smt = rng.choice(SCRIPTS)
        f = ('prob.smt2', 'sub/prob.smt2', s.p + '/sub/prob.x.smt2')[x['id'] % 3]
        put(os.path.join(s.s, f), smt)
        put(os.path.join(s.s, f) + '.fmf', text(x['words'], rng))
        put(os.path.join(s.s, f) + '.nofmf', text(x['words2'], rng))
        if x['id'] % 29 == 5:
            put(os.path.join(s.s, f) + '.hang', '')
        cfg = '[REQUIRED]\nTheory = QF_SLIA\nEndpointRuntime = ep-runtime\nEndpointFmf = ep-fmf\n[OPTIONAL]\nSolver = CVC4\nFMF = %s\nVerbosity = %s\n' % (x['fmf'], x['verb'])
        if x['bs']:
            cfg += 'Buckets = %s\n' % json.dumps(x['bs'])
        if x['norm']['mean']:
            cfg += 'M1FeatureMeans = %s\nM1FeatureStds = %s\n' % (json.dumps([m / 2 for m in x['norm']['mean']]), json.dumps(x['norm']['std']))
        put(s.s + '/c.ini', cfg)
        # what the extraction tool says about the script (P01 is about that)
        w = s.d + '/own'
        put(w + '/prob.smt2', smt)
        put(w + '/l.txt', 'prob.smt2\n')
        q = subprocess.run([cli, 'script', 'l.txt', 'o'], cwd=w, capture_output=True, text=True, timeout=60)
        if q.returncode:
            raise ToolError('feature extraction fails: ' + q.stderr[-300:])
        lab, row = csv(w + '/off_features_o.csv')
        rc, how, out = s.run(['generate_predictions.py', f, 'c.ini'], STUB_LOG=s.d + '/calls',
                             STUB_REPLY=json.dumps({'ep-runtime': [v / 100 for v in x['probs']], 'ep-fmf': x['conf'] / 100}))
        e = dict(rc=rc, how=how, calls=[], vec=[], vec2=[], labels=[], label=0, conf=-1, fmf=False, fmfconf=-1, probs=[])
        try:
            calls = [json.loads(l) for l in open(s.d + '/calls')]
        except OSError:
            calls = []
        rat = [[list(float(v).as_integer_ratio()) for v in y['features']] for y in calls]
        e.update(calls=[y['endpoint'] for y in calls], vec=rat[0] if rat else [], vec2=rat[1] if len(rat) > 1 else [])
        read_advice(out, x['verb'], e)
        left = [n for n in os.listdir(s.s) if n.startswith('off_features')]
        if left and rc == 0:
            e['rc'], e['how'] = 1, 'a temporary file is left behind'
        s.close()
        return dict(id=0, kind='predict', words=x['words'], words2=x['words2'], bs=x['bs'], norm=x['norm'], fmf=x['fmf'], conf=x['conf'], probs=x['probs'], verb=x['verb'],
                    off=row[0], offlabels=lab, obs=e)
    with ThreadPoolExecutor(NCPU) as ex:
        cases = list(ex.map(pipe, sorted(cases, key=lambda c: not c['hang'])))
        ck.log('pipelines ran')
        more = list(ex.map(predict, preds))
    ck.log('predictions ran')
    for k, c in enumerate(more):
        c['id'] = len(cases) + k
    cases += more
    cases.sort(key=lambda c: c['id'])
    validate(ck, 'OnlineTrace', cases, lambda k: {a: b for a, b in cases[k].items() if a not in ('id',)}, known_ids=ids)
    for e in ids.values():
        if '_hit' in e:
            print('KNOWN-FINDING: property=P03 ' + e['what'])
    ck.extra.update(pipeline_histories=len(recs), predictions=len(preds), tables=sum(o['op'] == 'feat' for c in cases if c['kind'] == 'pipe' for o in c['log']))
    ck.sample(dict(ops=[(o['op'], o['l'], o['m']) for o in cases[0]['log']], rows=cases[0]['obs'][-1]['rows']))
    ck.sample({a: b for a, b in more[0].items() if a in ('bs', 'words', 'obs')})
    ck.assume = ['solvers and endpoints are stand-ins', 'benchmark paths without characters special to a shell']


# ------------------------------------------------------------------ P04
FAKE = """#!/bin/sh
for a; do b=$a; done
[ -e "$b" ] || exit 1
s=`cat "$b.%s"`; n=`cat "$STUB_CLOCK"`; echo $((n + s)) > "$STUB_CLOCK"; echo unknown
"""
REAL = """#!/bin/sh
for a; do b=$a; done
%s "$@" | tee -a "$STUB_OUT"
[ -z "$STUB_CLOCK" ] || { s=`cat "$b.sat"`; n=`cat "$STUB_CLOCK"`; echo $((n + s)) > "$STUB_CLOCK"; }
"""
STAT = re.compile(r'(\w+): (\d+)')


def partitions(out):
    """what the encoder prints about its partitions"""
    q = []
    for l in out.split('\n'):
        if l.startswith('Partition'):
            d = {k: int(v) for k, v in STAT.findall(l[l.index('stats: '):])}
            q.append({k: d[k] for k in ('vars', 'constraints', 'a_max', 'b_max', 'k', 'w', 'bound')})
    return q


def eager_lazy(ck, tier):
    thorough = tier == 'thorough'
    r = tlc('EagerLazyGen', SPECCFG, ck.sc, env=dict(N=1200 if thorough else 160, SEED=SEED), timeout=800)
    ck.add(r)
    recs = sorted(r.recs, key=lambda x: x['id'])
    probs = []
    for fam, n in dict(small=30, sep=40, chain=30, part=60, plant=40, twin=50).items():
        g = tlc('EagerGen', SPECCFG, ck.sc, env=dict(FAM=fam, N=n * (8 if thorough else 1), SEED=SEED), timeout=800)
        ck.add(g)
        probs += sorted(script(x['cmds']) for x in g.recs)
    cli = build_clis() + 'amzn-smt-eager-arithmetic'
    ck.log('generated', len(recs), len(probs))

    # problems that the encoder answers at once, with their partitions
    def ask(k):
        f = ck.sc.path('p%d.smt2' % k)
        put(f, probs[k])
        try:
            p = subprocess.run([cli, 'solve', '--instance', f], capture_output=True, text=True, timeout=1.5)
            q = partitions(p.stdout)
            return q if p.returncode == 0 and q and all(v < 2 ** 31 - 1 for s in q for v in s.values()) and sum(s['k'] for s in q) <= 12 else None
        except subprocess.TimeoutExpired:
            return None
    with ThreadPoolExecutor(NCPU) as ex:
        qs = list(ex.map(ask, range(len(probs))))
    ok = [k for k, q in enumerate(qs) if q]
    many = [k for k in ok if len(qs[k]) > 1]
    one = [k for k in ok if len(qs[k]) == 1]
    rng = random.Random(int(SEED))
    rng.shuffle(many), rng.shuffle(one)
    n = 400 if thorough else 50
    same = [k for k in many if any(p == q for j, p in enumerate(qs[k]) for q in qs[k][:j])]      # partitions with equal statistics
    pick = same[:n // 4] + [k for k in many if k not in same[:n // 4]][:n // 4] + one[:n // 2]
    ck.extra.update(problems=len(ok), several_partitions=len(many), equal_partitions=len(same))
    if len(pick) < n // 3:
        raise ToolError('too few problems are answered')
    ck.log('problems', len(ok), len(many))

    def clean(x):
        s = Site(ck.sc, 'cl%d' % x['id'])
        d = s.p + '/Eager_Lazy'
        put('%s/%s_results.csv' % (d, x['theory']), ('\ufeff' if x['bom'] else '') + 'bench,' + ','.join(x['solvers']) + '\n' +
            ''.join('%s,%s\n' % (b['name'], ','.join('%g' % (t / 1000) if t < 10 ** 6 else '%.3f' % (t / 1000) for t in b['times'])) for b in x['bench']))
        put('%s/%s_params.out' % (d, x['theory']), ''.join('Encoding /home/u/QF_%s/f/%s\n' % (x['theory'].upper(), x['bench'][j - 1]['name']) + ''.join(
            'vars: %(vars)d, constraints: %(constraints)d, a_max: %(a_max)d, b_max: %(b_max)d, k: %(k)d, w: %(w)d, bound: %(bound)d bits\n' % p
            for p in x['bench'][j - 1]['sets']) for j in x['order']))
        stale(x['id'], *('%s/%s_%s.csv' % (d, f, x['theory']) for f in ('features', 'benchmarks', 'best_solver')))
        rc, how, _ = s.run(['clean_eager_lazy_data.py', x['theory']])
        e = dict(rc=rc, how=how, header=[], rows=[], names=[], best=[])
        try:
            e['header'], e['rows'] = csv('%s/features_%s.csv' % (d, x['theory']))
            a, b = (open('%s/%s_%s.csv' % (d, f, x['theory'])).read().split('\n') for f in ('benchmarks', 'best_solver'))
            if a[0] == 'benchmarks' and b[0] == 'solver':
                e['names'], e['best'] = a[1:-1], b[1:-1]
        except OSError as y:
            if rc == 0:
                e.update(rc=1, how='a file is not written')
        s.close()
        return dict(kind='clean', bench=x['bench'], solvers=x['solvers'], obs=e)

    def predict(k):
        x = recs[k % len(recs)]
        s = Site(ck.sc, 'ea%d' % k)
        put(s.d + '/amzn-smt-eager-arithmetic/release/amzn-smt-eager-arithmetic', REAL % cli, 0o755)
        f = ('prob.smt2', s.p + '/q.x/prob.smt2')[k % 2]
        put(os.path.join(s.s, f), probs[pick[k]])
        put(s.s + '/c.ini', '[REQUIRED]\nTheory = %s\nEndpointEagerVLazy = ep-eager\n[OPTIONAL]\nVerbosity = %s\n' % ('QF_LIA' if k % 3 else 'QF_IDL', x['verb']))
        # what is printed before the time is up counts
        put(s.d + '/clock', '1000')
        put(os.path.join(s.s, f) + '.sat', '%d' % x['secs'][0]['sat'])
        rc, how, out = s.run(['generate_predictions.py', f, 'c.ini'], STUB_CLOCK=s.d + '/clock', STUB_LOG=s.d + '/calls', STUB_OUT=s.d + '/out', STUB_REPLY=json.dumps({'ep-eager': [v / 100 for v in x['probs']]}))
        e = dict(rc=rc, how=how, calls=[], vec=[], label=0, conf=-1, probs=[])
        sets = qs[pick[k]]
        try:
            calls = [json.loads(l) for l in open(s.d + '/calls')]
            e.update(calls=[y['endpoint'] for y in calls], vec=calls[0]['features'])
            sets = partitions(open(s.d + '/out').read())
        except (OSError, IndexError):
            pass
        read_advice(out, x['verb'], e)
        s.close()
        return dict(kind='predict', sets=sets, verb=x['verb'], probs=x['probs'], script=probs[pick[k]], obs=e)

    def race(k):
        x = recs[k]
        s = Site(ck.sc, 'ra%d' % k)
        put(s.p + '/solvers/z3', FAKE % 'z3', 0o755)
        put(s.p + '/solvers/cvc4', FAKE % 'cvc4', 0o755)
        put(s.p + '/solvers/amzn-smt-eager-arithmetic', REAL % cli, 0o755)
        rs, names = [], []
        for j, t in enumerate(x['secs']):
            p = pick[(k * 5 + j) % len(pick)]
            names.append('/QF_LIA/d.%d/b%d.smt2' % (j, j))
            f = s.p + '/bench' + names[-1]
            put(f, probs[p])
            for n in ('z3', 'cvc4', 'sat'):
                put(f + '.' + n, '%d' % t[n])
            rs.append(dict(t, sets=qs[p]))
        put(s.s + '/list.csv', '\n'.join(names) + ('\n' if k % 2 else ''))
        put(s.d + '/clock', '1000')
        stale(k, s.s + '/features.csv', s.s + '/fastest_solver.csv')
        rc, how, _ = s.run(['run_eager_v_lazy.py', 'list.csv', '../bench'], STUB_CLOCK=s.d + '/clock', STUB_OUT=s.d + '/out')
        e = dict(rc=rc, how=how, rows=[], best=[])
        try:
            e['rows'] = [[int(v) for v in l.split(',')] for l in open(s.s + '/features.csv').read().split('\n')[:-1]]
            e['best'] = open(s.s + '/fastest_solver.csv').read().split('\n')[:-1]
        except (OSError, ValueError):
            pass
        s.close()
        return dict(kind='race', race=rs, obs=e)
    with ThreadPoolExecutor(NCPU) as ex:
        cases = list(ex.map(clean, recs)) + list(ex.map(predict, range(len(pick)))) + list(ex.map(race, range(len(recs) // 8)))
    for k, c in enumerate(cases):
        c['id'] = k
    ck.log('ran', len(cases))
    validate(ck, 'EagerLazyTrace', cases, lambda k: {a: b for a, b in cases[k].items() if a != 'id'})
    for c in (cases[0], cases[len(recs)], cases[-1]):
        ck.sample(c['obs'])
    ck.assume = ['the other solvers, their run times and the endpoint are stand-ins', 'problems with at least one integer constraint']


# ------------------------------------------------------------------ P05
MODERN = ['(declare-const x String)\n(assert (str.in.re x (str.to.re "a")))\n(check-sat)\n', '(set-logic QF_S)\n(declare-const y String)\n(assert (= (str.to.int y) 3))\n',
          '(declare-const x String)\n(assert (= x (int.to.str 4)))\n(check-sat)\n']


def selection(ck, tier):
    r = tlc('SelectionGen', SPECCFG, ck.sc, env=dict(N=3000 if tier == 'thorough' else 250, SEED=SEED), timeout=800)
    ck.add(r)
    recs = sorted(r.recs, key=lambda x: x['id'])
    upd = build_clis() + 'amzn-smt-string-fct-updater'
    want = drive([dict(op='modernize', smt=t) for t in MODERN], ck.sc)
    want = [sx_parse('\n'.join(o['out'])) for o in want]
    ck.log('generated', len(recs))

    def select(x):
        s = Site(ck.sc, 'se%d' % x['id'])
        d = s.p + '/SMT_Comp_2020'
        put(d + '/excluded_benchmarks/disagreements_SLIA', ''.join('/'.join(p) + '\n' for p in x['ex1']))
        put(d + '/excluded_benchmarks/excluded_SLIA', '\n'.join('/'.join(p) for p in x['ex2']))
        os.makedirs(d + '/experiments_QF_SLIA')
        put(d + '/Job_info_orig.csv', 'pair id,benchmark,benchmark id,solver,solver id,configuration,configuration id,status,cpu time,wallclock time,memory usage,result,expected\n' + ''.join(
            '%d,Benchmarks/%s,7,%s,8,Main,9,%s,%.2f,%.2f,100,starexec-unknown,--\n' % (k, '/'.join(q['path']), q['solver'], q['status'], q['wall'] / 50, q['wall'] / 100) for k, q in enumerate(x['results'])))
        stale(x['id'], *(d + '/experiments_QF_SLIA/%s_QF_SLIA_%s.csv' % (w, f) for w in ('benchmarks', 'times') for f in ('30-to-300', '300-to-1200')))
        rc, how, _ = s.run(['clean_smt_comp_results.py'])
        e = dict(rc=rc, how=how, head=[], names1=[], times1=[], names2=[], times2=[])
        try:
            for n, f in ((1, '30-to-300'), (2, '300-to-1200')):
                a, b = (open(d + '/experiments_QF_SLIA/%s_QF_SLIA_%s.csv' % (w, f)).read().split('\n') for w in ('benchmarks', 'times'))
                e['names%d' % n] = [l[len('/non-incremental/'):].split('/') if l.startswith('/non-incremental/') else [l] for l in a[:-1]]
                e['head'].append(b[0])
                e['times%d' % n] = [round(float(l) * 100) for l in b[1:-1]]
        except (OSError, ValueError):
            if not rc:
                e.update(rc=1, how='a file is missing or has a row that is no time')
        s.close()
        return dict(kind='select', results=x['results'], ex1=x['ex1'], ex2=x['ex2'], obs=e)

    def race(x):
        s = Site(ck.sc, 'fm%d' % x['id'])
        put(s.p + '/solvers/cvc4', '#!/bin/sh\nm=no\nfor a; do case "$a" in --strings-fmf) m=fmf;; esac; b=$a; done\n'
            's=`cat "$b.$m"` || exit 1; n=`cat "$STUB_CLOCK"`; echo $((n + s)) > "$STUB_CLOCK"; echo sat\n', 0o755)
        names = ['/non-incremental/QF_SLIA/m.%d/smt%s.smt2' % (k, 't' * (k % 3)) for k in range(len(x['secs']))]
        for n, t in zip(names, x['secs']):
            for m in t:
                put(s.p + '/bench' + n + '.' + m, str(t[m]))
        put(s.s + '/list.csv', '\n'.join(names) + ('\n' if x['id'] % 2 else ''))
        put(s.d + '/clock', '5000')
        stale(x['id'] // 4, *(s.s + '/' + f for f in ('faster_fmf.csv', 'slower_fmf.csv', 'runtimes_fmf_exp.csv')))
        rc, how, _ = s.run(['find_faster_fmf.py', 'list.csv', '../bench'], STUB_CLOCK=s.d + '/clock')
        e = dict(rc=rc, how=how, faster=[], slower=[], times=[])
        try:
            for f in ('faster', 'slower'):
                e[f] = [names.index(l) + 1 if l in names else -1 for l in open(s.s + '/%s_fmf.csv' % f).read().split('\n')[:-1]]
            e['times'] = [[int(float(v)) for v in l.split(',')] for l in open(s.s + '/runtimes_fmf_exp.csv').read().split('\n')[:-1]]
        except (OSError, ValueError):
            if not rc:
                e.update(rc=1, how='a file is missing or has a row that is no time')
        s.close()
        return dict(kind='race', secs=x['secs'], obs=e)

    def modern(x):
        s = Site(ck.sc, 'mo%d' % x['id'])
        s.tool('amzn-smt-string-fct-updater', upd)
        d = s.p + '/bench/'
        lst, made = [], []
        for m in x['mod']:
            put(d + m['dir'] + m['stem'] + '.' + m['ext'], MODERN[m['text']])
            n = m['dir'] + m['stem'] + '_upt.' + m['ext']
            lst.append(n)
            stale(x['id'] // 4, d + n)
        put(d + 'other.smt2', MODERN[0])
        put(s.s + '/list.csv', '\n'.join(lst) + ('\n' if x['id'] % 2 else ''))
        look = lambda: {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f)).read() for a, _, fs in os.walk(d) for f in fs}
        before = {f: t for f, t in look().items() if f not in lst}
        rc, how, _ = s.run(['modernize_benchmarks.py', 'list.csv', '../bench/'])
        after = look()
        for n, m in zip(lst, x['mod']):
            try:
                made.append('updated' if n in after and sx_parse(after[n]) == want[m['text']] else 'missing' if n not in after else 'different')
            except ValueError:
                made.append('unreadable')
        others = sum(after.get(f) != t for f, t in before.items()) + len(set(after) - set(before) - set(lst))
        s.close()
        return dict(kind='modern', mod=x['mod'], obs=dict(rc=rc, how=how, made=made, others=others))
    with ThreadPoolExecutor(NCPU) as ex:
        cases = list(ex.map(select, recs)) + list(ex.map(race, recs[::4])) + list(ex.map(modern, recs[::4]))
    for k, c in enumerate(cases):
        c['id'] = k
    ck.log('ran', len(cases))
    validate(ck, 'SelectionTrace', cases, lambda k: {a: b for a, b in cases[k].items() if a != 'id'})
    ck.extra.update(selected=sum(len(c['obs']['names1']) + len(c['obs']['names2']) for c in cases if c['kind'] == 'select'))
    for c in (cases[0], cases[len(recs)], cases[-1]):
        ck.sample(c['obs'])
    ck.assume = ['the solver and its run times are stand-ins']


SCRIPTS = ['(set-logic QF_SLIA)\n(declare-fun a () String)\n(assert (= (str.len a) 3))\n(check-sat)\n',
           '(declare-const x String)\n(assert (str.in_re x (re.+ (re.union (str.to_re "a") (re.range "a" "z")))))\n(assert (str.prefixof "a" (str.++ x x)))\n(check-sat)\n',
           '(declare-const x String)\n(declare-const i Int)\n(assert (= i (str.indexof x "b" (str.len x))))\n(assert (str.contains x (str.substr x 0 i)))\n(assert (= (str.to_int x) (str.len (str.from_int i))))\n(check-sat)\n']


def read_advice(out, verb, e):
    """what the predictor prints"""
    classes = ['solve quickly', 'solve slowly', 'timeout']
    approaches = ['Lazy Approach via CVC4', 'Lazy Approach via Z3', 'Eager Approach via SAT']
    num = lambda t: pct(re.search(r'with (\d+\.?\d*)% confidence', t))
    for l in out.split('\n'):
        if l.startswith('Feature Labels: '):
            e['labels'] = l[16:].strip().split(',')
        if 'Runtime Model predicted' in l:
            hit = [k for k, t in enumerate(classes) if ': ' + t in l or 'will ' + t in l]
            e['label'] = hit[0] + 1 if len(hit) == 1 else 0
            e['conf'] = num(l)
        if 'Eager v. Lazy Model predicted' in l:
            hit = [k for k, t in enumerate(approaches) if t in l]
            e['label'] = hit[0] + 1 if len(hit) == 1 else 0
            e['conf'] = num(l)
        if 'Solver Configuration Model predicted' in l:
            e['fmf'] = 'ENABLED' in l
            e['fmfconf'] = num(l)
        if verb == 'Vector' and l.startswith('[') and not e['probs']:
            try:
                e['probs'] = [round(v * 100) for v in json.loads(l)]
            except ValueError:
                pass


def pct(m):
    v = float(m.group(1)) if m else -1
    return int(v) if v == int(v) else -1


def run(prop, tier):
    ck = Check(prop, tier)
    {'P03': online, 'P04': eager_lazy, 'P05': selection}[prop](ck, tier)
    ck.log('validated')
    return ck.finish()
