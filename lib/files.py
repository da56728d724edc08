"""T14: the transformer's command line and its experiment scripts over a directory, against TransformFiles.tla"""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from updater import validate
from pipeline import put

COPIED = ['test_and_transform.sh', 'parallel_test_transform_list.sh', 'pairwise_diff_count.sh']
TOOL = 'amzn-smt-string-transformer'
FUN = {1: 'str.prefixof', 2: 'str.suffixof', 3: 'str.contains'}
OPTS = ['-T:600', '--lang=x', 'y']
# prints what it is given, provided the options are the ones asked for
SOLVER = '''#!/bin/sh
if [ $# -ne 4 ] || [ "$1 $2 $3" != "%s" ]; then echo other options; exit 1; fi
echo answer
cat "$4"
''' % ' '.join(OPTS)
# the experiment script uses arguments the tool no longer has (a known finding): they are translated, others are passed on
SHIM = '''#!/bin/sh
if [ $# = 8 ] && [ "$1 $3 $4 $5 $6 $7" = "--input-file --mode convert --mapping no-reconstruct --use-global-map" ]; then
    g=; if [ "$8" = true ]; then g=--use-global-map; fi
    exec %s convert --mapping no-reconstruct $g --input-file "$2"
fi
exec %s "$@"
'''
# one job after the other, or, when the jobs share no file, all at once
PARALLEL = '''#!/usr/bin/env python3
import os, subprocess, sys
a, l = sys.argv[1:], None
while a and a[0].startswith('-'):
    if a[0] == '-a': l = a[1]
    a = a[2:]
ps = []
for x in open(l).read().split('\\n'):
    if x:
        p = subprocess.Popen(' '.join(y.replace('{}', x) for y in a), shell=True)
        if 'AT_ONCE' not in os.environ: p.wait()
        ps.append(p)
for p in ps: p.wait()
'''
ANSWER = {500: 'unsat\n', 501: 'timeout\n', 502: 'unknown\n', 503: 'sat\n', 504: 'sat\n(\n(define-fun a0 () String "hello")\n)\n', 505: '(error "line 1")\n'}


def text(n):
    """script n: n variables of its own, n assertions about them"""
    if n == 9:
        return '(declare-const x String\n(assert'
    return ('(set-logic QF_S)\n' + ''.join('(declare-const v%d_%d String)\n' % (n, j) for j in range(n))
            + ''.join('(assert (%s "lit%d" v%d_%d))\n' % (FUN[n], j, n, j) for j in range(n)) + '(check-sat)\n')


def code(t):
    """the number of a content, -1 if it is none of the known ones"""
    if t.startswith('answer\n'):
        c = code(t[7:])
        return 1000 + c if c > 0 else -1
    for n in (1, 2, 3, 9):
        if t == text(n):
            return n
    for n, a in ANSWER.items():
        if t == a:
            return n
    if t.startswith('{') or t.startswith('['):
        try:
            d = json.loads(t)
        except ValueError:
            return -1
        if 'alpha_renaming_map' in d:
            for n in FUN:
                if sorted(d['alpha_renaming_map']) == [['v%d_%d' % (n, j), 'a%d' % j] for j in range(n)]:
                    return 200 + n
            return -1
        fs = [n for n in FUN if FUN[n] in t]
        return 300 + fs[0] if len(fs) == 1 else -1
    if 'real\t' in t:
        return 400                                         # looked at by times()
    try:
        x = sx_parse(t)
    except ValueError:
        return -1
    x = [sx_print(y) for y in x]
    for n in FUN:
        own = [sx_print(y) for y in sx_parse(text(n))]
        if len(x) == len(own) + 1 and x[:-2] + x[-1:] == own:
            for m in FUN:
                if x[-2].startswith('(assert (= v%d_0 "' % m):
                    return 600 + 10 * n + m
        if len(x) == len(own) and x[0] == own[0] and x[-1] == own[-1] and x[1:n + 1] == [sx_print({'a': [{'t': 'declare-const'}, {'t': 'a%d' % j}, {'t': 'String'}]}) for j in range(n)] \
                and all(re.fullmatch(r'\(assert \(%s "[^"]*" a%d\)\)' % (re.escape(FUN[n]), j), x[n + 1 + j]) for j in range(n)):
            return 100 + n
    return -1


def times(t, b, e):
    """three entries of five lines, for the script, its conversion and the transformed script"""
    l = t.split('\n')
    if len(l) != 16 or l[-1] != '':
        return -1
    last = [b + '.' + e, b, b + '_transformed.' + e]
    for k in range(3):
        c, blank, r, u, s = l[5 * k:5 * k + 5]
        w = c.split()
        if not w or re.sub('^here/', '', os.path.normpath(w[-1])) != last[k] or blank or (k != 1 and w[1:-1] != OPTS):
            return -1
        if any(not re.fullmatch(y + r'\t\d+m\d+[.,]\d+s', z) for y, z in zip(('real', 'user', 'sys'), (r, u, s))):
            return -1
    return 400


def pairs(out):
    """what is listed under each file; a wrong number makes an entry that fits nothing"""
    r, cur = [], []
    for l in out.strip().split('\n'):
        w = l.split()
        if len(w) == 2 and w[0] == '---':
            cur.append(os.path.normpath(w[1]))
        elif len(w) == 3 and w[1] == ':':
            f = os.path.normpath(w[0])
            if f.startswith(('*', 'v1.2/*')) and w[2] in ('0', '1') and len(cur) == int(w[2]):
                cur = []                                   # no such file: the pattern itself
                continue
            r += [[f, g] for g in cur] if int(w[2]) == len(cur) else [[f, 'not ' + w[2]]]
            cur = []
        elif w:
            r.append(['?', l])
    return r


def site(d, binary, shim=True):
    """the experiment scripts in directory d, with the tool where they look for it"""
    for f in COPIED:
        put(d + '/' + f, open(REPO + '/%s/%s' % (TOOL, f)).read(), 0o755)
    put(d + '/bin/solver', SOLVER, 0o755)
    put(d + '/bin/parallel', PARALLEL, 0o755)
    os.makedirs(d + '/release/release')
    if shim:
        put(d + '/release/release/' + TOOL, SHIM % (binary, binary), 0o755)
    else:
        os.symlink(binary, d + '/release/release/' + TOOL)
    os.symlink('.', d + '/here')
    return dict(os.environ, PATH=d + '/bin:' + os.environ['PATH'], LC_ALL='C', LANG='C')


def findings(ck, binary):
    """replays the known findings: what is listed and still there is reported as such, anything else as a violation"""
    for k, e in enumerate(known('T14')):
        d = ck.sc.sub('known%d' % k)
        env = site(d, binary, shim=e['input'] != 'arguments')
        f = 'p.smt2' if e['input'] == 'arguments' else 'v1.2/p.q.smt2'
        put(d + '/' + f, text(1))
        p = subprocess.run(['./test_and_transform.sh', 'solver', f, 'false'] + OPTS, cwd=d, env=env, capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
        b = f[:-5]
        got = sorted(os.path.relpath(dp + '/' + x, d) for dp, dn, fn in os.walk(d) for x in fn if not dp.startswith((d + '/bin', d + '/release')) and x not in COPIED)
        if b + '_transformed.smt2' in got and b + '_times.out' in got:
            continue
        if got == (['p.out', 'p.smt2', 'p_times.out', 'p_transformed.out'] if e['input'] == 'arguments' else ['v1.2/p.q.smt2', 'v1.out', 'v1_times.out', 'v1_transformed.out']):
            print('KNOWN-FINDING: property=T14 ' + e['what'])
        else:
            ck.violation('experiment on %s leaves %s: %s' % (f, got, p.stderr[-300:]), dict(file=f, files=got))


def one(ck, k, c, ref, binary):
    d = ck.sc.sub('f%d' % k)
    env = site(d, binary)
    w = lambda f, t: put(d + '/' + f, t)
    own = set(COPIED) | {'list'}
    for f, n in c['init'].items():
        if n:
            w(f, text(n) if n < 10 else ref[n] if n < 300 else ANSWER[n])
    os.makedirs(d + '/v1.2', exist_ok=True)
    os.makedirs(d + '/d', exist_ok=True)
    about = {}                                              # whose times a file holds
    obs = []
    for o in c['ops']:
        f = '%s.%s' % (o['b'], o['e'])
        rc, out, args = 0, '', None
        e = dict(env)
        gm = 'true' if o['g'] else 'false'
        if o['op'] == 'put':
            w(f, text(o['n']))
        elif o['op'] == 'answer':
            w(o['b'] + '_transformed.out', ANSWER[o['n']])
        elif o['op'] == 'convert':
            args = [binary, 'convert', '--mapping', o['m'], '--input-file', f] + (['--use-global-map'] if o['g'] else [])
        elif o['op'] == 'sub':
            args = [binary, 'sub-formula', '--input-file', f]
        elif o['op'] == 'recon':
            args = [binary, 'reconstruct', '--input-file', f]
        elif o['op'] == 'pairs':
            args = ['./pairwise_diff_count.sh', o['b']]
        elif o['op'] == 'experiment':
            args = ['./test_and_transform.sh', 'solver', f, gm] + OPTS
            about[o['b']] = o['e']
        elif o['op'] == 'batch':
            w('list', ''.join('%s.%s\n' % tuple(x) for x in o['l']))
            args = ['./parallel_test_transform_list.sh', 'list', 'solver', 'here', gm] + OPTS
            for b, x in o['l']:
                about[b] = x
            if not o['g'] and len({b for b, _ in o['l']}) == len(o['l']):
                e['AT_ONCE'] = '1'
        if args:
            try:
                p = subprocess.run(args, cwd=d, env=e, capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc = 124
        fs, txt = {}, {}
        for dp, dn, fn in os.walk(d):
            if dp == d:
                dn[:] = [x for x in dn if x not in ('bin', 'release')]
            for x in fn:
                q = os.path.relpath(dp + '/' + x, d)
                if q in own:
                    continue
                t = open(dp + '/' + x, errors='replace').read()
                txt[q] = t
                n = code(t)
                if n == 400:
                    b = q[:-len('_times.out')]
                    n = times(t, b, about.get(b, '?'))
                fs[q] = n
        say = out.strip().split('\n')[-1] if o['op'] == 'recon' and rc == 0 else ''
        obs.append(dict(rc=rc, say=say, fs=fs, pairs=pairs(out) if o['op'] == 'pairs' else [], text={q: sorted(set(txt.values())).index(t) for q, t in txt.items()} if o['op'] == 'pairs' else {}))
    shutil.rmtree(d)
    return obs


def run(prop, tier):
    ck = Check(prop, tier)
    thorough = tier == 'thorough'
    binary = build_clis() + TOOL
    ck.log('built')
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Shown Kinds\nPROPERTIES InputsUntouched FailureLeavesNothing Separate\n'
    hs = []
    for mode, n, depth in [('all', 10 if thorough else 80, 2), ('rnd', 3000 if thorough else 350, 8 if thorough else 6)]:
        r = tlc('TransformFilesGen', cfg, ck.sc, env=dict(MODE=mode, N=n, DEPTH=depth, SEED=SEED))
        ck.add(r)
        rs = sorted(r.recs, key=lambda x: json.dumps(x, sort_keys=True))
        random.Random(SEED).shuffle(rs)
        hs += rs[:4000 if thorough else 350]
        ck.log(mode, len(r.recs))
    # the mappings that are there from the start are ones the tool made
    ref = {}
    for n in FUN:
        d = ck.sc.sub('ref%d' % n)
        put(d + '/p.smt2', text(n))
        subprocess.run([binary, 'convert', '--input-file', 'p.smt2'], cwd=d, capture_output=True, timeout=60)
        ref[200 + n] = open(d + '/p_mapping.json').read() if os.path.exists(d + '/p_mapping.json') else ''
    with ThreadPoolExecutor(NCPU) as ex:
        obs = list(ex.map(lambda k: one(ck, k, hs[k], ref, binary), range(len(hs))))
    ck.log('ran', len(obs))
    findings(ck, binary)
    cases = [dict(id=k, init=h['init'], ops=h['ops'], obs=o) for k, (h, o) in enumerate(zip(hs, obs))]
    validate(ck, 'TransformFilesTrace', cases, lambda k: dict(start={f: n for f, n in cases[k]['init'].items() if n}, ops=cases[k]['ops'], observed=cases[k]['obs']), chunk=1000)
    ck.log('validated')
    for k in (0, len(hs) // 2, len(hs) - 1):
        ck.sample(dict(start={f: n for f, n in hs[k]['init'].items() if n}, ops=[[o['op'], o['b'], o['e'], o['n']] for o in hs[k]['ops']], after=obs[k][-1]))
    ck.extra['histories'] = len(hs)
    ck.extra['operations'] = sum(len(h['ops']) for h in hs)
    ck.assume = ['GNU parallel and the solver of an experiment are stand-ins']
    return ck.finish()
