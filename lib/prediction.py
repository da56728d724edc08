"""P01, P02: the feature extraction tool against Features.tla"""
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from updater import validate


def run(prop, tier):
    ck = Check(prop, tier)
    binp = build_clis() + 'amzn-smt-prediction'
    ck.log('built')
    thorough = tier == 'thorough'
    r = tlc('FeaturesGen', 'SPECIFICATION FSpec\nCHECK_DEADLOCK FALSE\n', ck.sc, env=dict(MODE='feat', N=12000 if thorough else 1500, SEED=SEED, LEN=2), heap='8g', timeout=800)
    ck.add(r)
    recs = r.recs
    ck.log('generated', len(recs))

    def one(k):
        x = recs[k]
        d = ck.sc.sub('feat%d' % k)
        pre = 'SMT_Comp_2020' if x['ds'] in ('smtcomp', 'kepler') else '.'
        names = []
        for j, e in enumerate(x['list']):
            # the same file may be listed again
            n = '/' + ('non-incremental/' if (k + j) % 3 == 0 else '') + 'b%d.smt2' % j
            f = d + '/' + pre + n
            os.makedirs(os.path.dirname(f), exist_ok=True)
            text = script(e['in'])
            if e['kind'] == 'directory':
                os.makedirs(f)
            elif e['kind'] == 'junk':
                open(f, 'w').write(text + '\n(assert (str.len x)\n)) (assert')
            elif e['kind'] == 'cut':
                open(f, 'w').write(text + '\n(assert (= x (str.++ y "a')
            elif e['kind'] == 'empty name':
                n = ''
            elif e['kind'] == 'ok':
                open(f, 'w').write(text)
            names.append(n if pre != '.' or k % 2 else n.lstrip('/'))
        if x['again'] and len(names) > 1:        # one benchmark twice
            names.append(names[0])
            x['list'].append(x['list'][0])
        open(d + '/list.txt', 'w').write('\n'.join(names) + ('\n' if names and (k % 3 or names[-1] == '') else ''))
        out = d + '/off_features_o.x.csv'
        if k % 4 == 0:       # left from an earlier run
            open(out, 'w').write('old,header\n' + '9,9,9\n' * 200)
        before = sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs)
        c = dict(id=k, ds=x['ds'], list=x['list'], exit=-1, how='', header=[], rows=[], shape='')
        try:
            p = subprocess.run([binp, x['ds'], 'list.txt', 'o.x'], cwd=d, capture_output=True, text=True, timeout=60)
            c['exit'] = p.returncode
            c['how'] = 'exit status %d' % p.returncode
            t = open(out).read()
            lines = t.split('\n')
            if t and lines.pop() != '':
                c['shape'] = 'the last row is not complete'
            if t:
                c['header'] = lines[0].split(',')
                c['rows'] = [[int(v) for v in l.split(',')] for l in lines[1:]]
        except subprocess.TimeoutExpired:
            c['how'] = 'no end'
        except OSError as y:
            c['shape'] = 'no output file'
        except ValueError:
            c['shape'] = 'a row does not consist of numbers'
        after = sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs)
        if set(after) - {out} != set(before) - {out}:
            c['shape'] = 'other files are written or removed'
        shutil.rmtree(d)
        return c
    with ThreadPoolExecutor(NCPU) as ex:
        cases = list(ex.map(one, range(len(recs))))
    ck.log('ran', len(cases))
    got = []
    validate(ck, 'Features', cases, lambda k: dict(dataset=cases[k]['ds'], list=[dict(kind=e['kind'], script=script(e['in'])) for e in cases[k]['list']],
                                                  exit=cases[k]['exit'], header=cases[k]['header'], rows=cases[k]['rows']), timeout=1500, chunk=4000, keep=got)
    ck.extra['rows'] = sum(x['rows'] for x in got)
    ck.extra['occurrences_counted'] = sum(x['total'] for x in got)
    ck.log('validated')
    for c in cases[::max(1, len(cases) // 3)]:
        ck.sample(dict(dataset=c['ds'], exit=c['exit'], rows=c['rows'][:3], scripts=[script(e['in'])[:200] for e in c['list'][:2]]))
    ck.assume = ['the SMT-LIB parser of the aws-smt-ir dependency decides what is a script']
    return ck.finish()
