"""U01-U04: the string-function updater against Updater.tla"""
import random
from vlib import *


def s(t):
    return {'t': t}


def ap(f, *a):
    return {'a': [s(f)] + list(a)}


DECL = [ap('declare-const', s('x'), s('String')), ap('declare-const', s('n'), s('Int'))]


def lit_scripts(lits, per=120):
    """put literals at different positions of scripts"""
    for i in range(0, len(lits), per):
        ch = lits[i:i + per]
        cmds = list(DECL)
        for k, l in enumerate(ch):
            L = {'s': l}
            p = k % 5
            if p == 0:
                cmds.append(ap('assert', ap('=', s('x'), L)))
            elif p == 1:
                cmds.append(ap('assert', ap('str.in.re', s('x'), ap('re.++', ap('str.to.re', L), s('re.nostr')))))
            elif p == 2:
                cmds.append(ap('assert', {'a': [s('let'), {'a': [{'a': [s('z'), L]}]}, ap('=', s('z'), L)]}))
            elif p == 3:
                cmds.append(ap('define-fun', s('d%d' % k), {'a': []}, s('String'), L))
            else:
                cmds.append(ap('assert', ap('not', ap('=', ap('str.to.int', ap('str.++', L, s('x'))), s('n')))))
        yield cmds


def corpus(prop, tier, ck):
    cases = []
    thorough = tier == 'thorough'

    def gen(mode, n, alpha=''):
        r = tlc('UpdaterGen', SPECCFG, ck.sc, env=dict(MODE=mode, N=n, SEED=SEED, ALPHA=alpha), heap='8g', timeout=800)
        ck.add(r)
        return r.recs

    if prop in ('U01', 'U04'):
        lits = [[]] + [r['l'] for r in gen('lits', (6 if thorough else 4) if prop == 'U01' else 3, 'esc')]
        lits += [r['l'] for r in gen('lits', (4 if thorough else 3) if prop == 'U01' else 2, 'ctl')]
        if prop == 'U01':
            lits += [r['l'] for r in gen('lits', 8 if thorough else 6, 'hex')]
        cases += list(lit_scripts(lits))
        ck.extra['exhaustive_literals'] = len(lits)
    if prop in ('U03', 'U02', 'U04'):
        k = [r['in'] for r in gen('kinds', (5 if thorough else 4) if prop == 'U03' else 2)]
        if prop == 'U03':
            k.append([])
        ck.extra['exhaustive_command_sequences'] = len(k)
        cases += k
    n = {'U01': 1500, 'U02': 3000, 'U03': 1500, 'U04': 1000}[prop] * (8 if thorough else 1)
    cases += [r['in'] for r in gen('rnd', n)]
    ck.extra['seeded_scripts'] = n
    return cases


def parse_out(r):
    """observation of one library run"""
    if r['r'] != 'ok':
        return dict(r=r['r'], out=[])
    try:
        return dict(r='ok', out=sx_parse('\n'.join(r['out'])))
    except ValueError as e:
        return dict(r='unreadable output', out=[])


def run(prop, tier):
    ck = Check(prop, tier)
    build_harness()
    ck.log('built')
    scripts = corpus(prop, tier, ck)
    ck.log('generated', len(scripts))
    obs = drive([dict(op='modernize', smt=script(c)) for c in scripts], ck.sc)
    cases = []
    second = [k for k, o in enumerate(obs) if o['r'] == 'ok'] if prop == 'U04' else []
    obs2 = dict(zip(second, drive([dict(op='modernize', smt='\n'.join(obs[k]['out'])) for k in second], ck.sc)))
    for k, (c, o) in enumerate(zip(scripts, obs)):
        ev = [dict(e='update', **parse_out(o))]
        if k in obs2:
            ev.append(dict(e='again', **parse_out(obs2[k])))
        cases.append(dict(id=k, **{'in': c}, ev=ev))
    validate(ck, 'UpdaterTrace', cases, lambda k: dict(script=script(scripts[k]), out=obs[k], again=obs2.get(k)))
    ck.log('validated')
    for k in range(0, len(scripts), max(1, len(scripts) // 3)):
        ck.sample(dict(script=script(scripts[k])[:400], out=obs[k].get('out', obs[k].get('msg'))))
    if prop == 'U04':
        files(ck, tier)
    ck.assume = ['the SMT-LIB parser and printer of the aws-smt-ir dependency (annotations, match and get-option are not generated)']
    return ck.finish()


def validate(ck, module, cases, describe, env=None, timeout=800, chunk=4000, known_ids=None, keep=None):
    known_ids = known_ids or {}
    for i in range(0, len(cases), chunk):
        f = ck.sc.path('cases.ndjson')
        write_ndjson(f, cases[i:i + chunk])
        r = tlc(module, SPECCFG, ck.sc, env=dict(CASES=f, PROP=ck.prop, **(env or {})), timeout=timeout, heap='12g')
        ck.add(r)
        done = {x['id']: x for x in r.recs if 'bad' in x}
        if keep is not None:
            keep += done.values()
        for c in cases[i:i + chunk]:
            if c['id'] not in done:
                raise ToolError('%s: case %s has no outcome' % (module, c['id']))
            ck.traces += 1
            x = done[c['id']]
            if x['bad']:
                if c['id'] in known_ids:
                    known_ids[c['id']]['_hit'] = x
                else:
                    ck.violation('%s: %s' % (x['bad'], json.dumps(describe(c['id']))[:1500]), dict(why=x, case=describe(c['id'])))


CONTENT = {1: '(set-option :produce-models true)\n(declare-const x String)\n(assert (str.in.re x (str.to.re "a\\n")))\n',
           2: '(declare-const y String)\n(assert (= (str.to.int y) (+ 1 2)))\n(check-sat)\n',
           3: '(set-logic ALL)\n(assert (= "\\x41" (int.to.str 5)))\n', 7: '(assert (= y (str.replace.all y "\\x00" "")))\n', 8: '(check-sat)\n', 9: '(assert true)\n', 5: '(declare-const x String)\n(assert (= x "a")\n'}


def files(ck, tier):
    """behaviours of UpdaterFiles replayed through the binary in scratch directories"""
    from concurrent.futures import ThreadPoolExecutor
    binp = build_clis() + 'amzn-smt-string-fct-updater'
    r = tlc('UpdaterFiles', SPECCFG + 'PROPERTY InputsUntouched\nPROPERTY OneOutput\n', ck.sc, env=dict(N=3 if tier == 'quick' else 4))
    ck.add(r)
    logs = [x['log'] for x in r.recs]
    if tier == 'quick':
        rng = random.Random(int(SEED))
        logs = rng.sample(logs, min(len(logs), 600))
    base = (1, 2, 3, 7, 8)
    for d in (100, 200, 300, 400):
        done = drive([dict(op='modernize', smt=CONTENT[n + d - 100]) for n in base], ck.sc)
        CONTENT.update({n + d: '\n'.join(o['out']) for n, o in zip(base, done)})

    def same(n, text):
        if n < 100:
            return text == CONTENT[n]
        try:
            return sx_parse(text) == sx_parse(CONTENT[n])
        except ValueError:
            return False

    def one(a):
        k, log = a
        d = ck.sc.sub('fs%d' % k)
        for f, n in log[0]['fs'].items():
            if n:
                open(d + '/' + f, 'w').write(CONTENT[n])
        for j, st in enumerate(log[1:]):
            if st['op'] == 'put':
                open(d + '/' + st['f'], 'w').write(CONTENT[st['n']])
            elif st['op'] == 'del':
                os.remove(d + '/' + st['f'])
            else:
                p = subprocess.run([binp, (d + '/' if k % 2 else '') + st['b']], cwd=d, capture_output=True, text=True, timeout=60)
                got = {f: open(d + '/' + f).read() for f in os.listdir(d)}
                want = {f: n for f, n in st['fs'].items() if n}
                if (p.returncode == 0) != st['ok']:
                    return 'exit status %d but the specification says %s' % (p.returncode, 'success' if st['ok'] else 'failure')
                if set(got) != set(want):
                    return 'files %s, specification %s' % (sorted(got), sorted(want))
                b = [f for f in want if not same(want[f], got[f])]
                if b:
                    return 'content of %s: %r' % (b[0], got[b[0]])
        shutil.rmtree(d)
        return ''

    with ThreadPoolExecutor(NCPU) as ex:
        for (k, log), why in zip(enumerate(logs), ex.map(one, enumerate(logs))):
            ck.traces += 1
            if why:
                ck.violation('file contract: %s after %s' % (why, json.dumps(log)), dict(log=log, why=why))
    ck.extra['file_histories'] = len(logs)
