"""T15: what data_processing.py reads back from the files of an experiment, against Analysis.tla"""
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from updater import validate
from pipeline import put, PY
from files import SHIM, TOOL, text

# prints the answer that lies next to the script it is given
SOLVER = '#!/bin/sh\nfor a; do b=$a; done\ncat "$b.answer" 2>/dev/null || echo unknown\n'


def run(prop, tier):
    ck = Check(prop, tier)
    thorough = tier == 'thorough'
    binary = build_clis() + TOOL
    r = tlc('AnalysisGen', SPECCFG, ck.sc, env=dict(N=6000 if thorough else 800, SEED=SEED))
    ck.add(r)
    recs = sorted(r.recs, key=lambda x: x['id'])
    ck.log('generated', len(recs))
    nrun = 240 if thorough else 40

    def one(x):
        d, q = ck.sc.sub('a%d' % x['id']), x['q']
        w = lambda f, t: put(d + '/' + q + f, t)
        lines = lambda f: '' if f['lines'] == [''] else '\n'.join(f['lines']) + '\n'
        x['run'] = x['id'] <= nrun and '.' not in q and '.' not in ck.sc.d
        if x['recon']['there']:
            w('_recon_check.out', lines(x['recon']))
        if x['run']:
            # the files are the ones the experiment script writes
            x['out']['there'] = x['trans']['there'] = True
            w('.smtlib', text(1 + x['id'] % 3))
            w('.smtlib.answer', lines(x['out']))
            w('_transformed.smtlib.answer', lines(x['trans']))
            put(d + '/x/test_and_transform.sh', open(REPO + '/%s/test_and_transform.sh' % TOOL).read(), 0o755)
            put(d + '/x/bin/solver', SOLVER, 0o755)
            put(d + '/x/release/release/' + TOOL, SHIM % (binary, binary), 0o755)
            subprocess.run(['./test_and_transform.sh', 'solver', '%s/%s.smtlib' % (d, q), 'false', '--an-option'], cwd=d + '/x', capture_output=True, timeout=60,
                           env=dict(os.environ, PATH=d + '/x/bin:' + os.environ['PATH'], LC_ALL='C'))
            x['times']['there'] = True
            fs = [d + '/' + q + f for f in ('.smtlib', '_transformed.smtlib', '_mapping.json')]
            x['sizes'] = [os.path.getsize(f) if os.path.exists(f) else 0 for f in fs]
            try:
                x['map'] = dict(kind='map', lits=len(json.load(open(fs[2]))['char_to_char_string_lits']))
            except (OSError, ValueError, KeyError):
                x['map'] = dict(kind='map', lits=-2)
            return dict(dir=d, q=q)
        for f, n in (('out', '.out'), ('trans', '_transformed.out')):
            if x[f]['there']:
                w(n, lines(x[f]))
        for k, n in enumerate(('.smtlib', '_transformed.smtlib')):
            if x['sizes'][k] >= 0:
                w(n, 'x' * x['sizes'][k])
        t = x['times']
        if t['there']:
            cmd = ['z3 -T:9 /a.b/other.smtlib', 'z3 -T:600 /data/s.1/%s.smtlib' % q, './release/release/%s convert /data/s.1/%s' % (TOOL, q), 'z3 -T:600 /data/s.1/%s_transformed.smtlib' % q]
            ls = []
            for e in t['entries']:
                ls += [cmd[e['cmd']], '', 'real\t%dm%.3fs' % (e['min'] + 3, 1.5), 'user\t%dm%d.%03ds' % (e['min'], e['ms'] // 1000, e['ms'] % 1000), 'sys\t0m0.250s']
            w('_times.out', ''.join(l + '\n' for l in ls[:t['cut']]))
        m, kind = None, x['map']['kind']
        if kind == 'map':
            m = json.dumps(dict(char_map=[], char_to_char_string_lits=['l%d' % k for k in range(x['map']['lits'])], string_map=[['a', 'b']]), indent=1)
        elif kind == 'old':
            m = '{"char_map": []}'
        elif kind == 'broken':
            m = '{"char_map": ['
        if m is not None:
            w('_mapping.json', m)
        x['sizes'] = x['sizes'] + [-1 if m is None else len(m)]
        return dict(dir=d, q=q)
    with ThreadPoolExecutor(NCPU) as ex:
        qs = list(ex.map(one, recs))
    ck.log('files', len(qs))
    p = subprocess.run([PY, V + '/lib/plotstubs/analyze.py', REPO + '/%s/data_processing.py' % TOOL], input=''.join(json.dumps(q) + '\n' for q in qs), cwd=ck.sc.d,
                       env=dict(os.environ, PYTHONPATH=V + '/lib/plotstubs', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, timeout=300)
    obs = [json.loads(l) for l in p.stdout.split('\n') if l]
    if len(obs) != len(recs):
        raise ToolError('data_processing.py cannot be loaded: ' + p.stderr[-800:])
    for x, o in zip(recs, obs):
        x['obs'] = o
    validate(ck, 'AnalysisTrace', recs, lambda k: recs[k - 1])
    ck.extra.update(queries=len(recs), run_by_the_experiment_script=nrun)
    for k in (0, nrun, len(recs) - 1):
        ck.sample(dict(q=recs[k]['q'], obs=obs[k]))
    ck.assume = ['pandas and matplotlib are absent: the table and the plots made from these values are not looked at', 'the solver of an experiment is a stand-in']
    return ck.finish()
