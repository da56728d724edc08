"""T01-T11: the string transformer against Transform.tla and its companions"""
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from updater import validate


def cps(s):
    return [ord(c) for c in s]


def sym(s):
    return s[1:-1] if len(s) > 1 and s[0] == '|' and s[-1] == '|' else s


NOMAP = dict(char=[], str=[], alpha=[], vars=[], failed=[], re=[], c2cl=[])


def conv_map(m, re=()):
    """the mapping JSON with characters and strings as code points"""
    return dict(char=[[ord(a), ord(b)] for a, b in m['char_map']], str=[[cps(a), cps(b)] for a, b in m['string_map']],
                alpha=[[sym(a), sym(b)] for a, b in m['alpha_renaming_map']], vars=[sym(v) for v in m['affected_constraint_vars']],
                failed=[sym(v) for v in m['failed_transformed_constraint_vars']], re=[[ord(a), ord(b)] for a, b in re],
                c2cl=[cps(s) for s in m['char_to_char_string_lits']])


def event(r, mode, bail=None, key='out'):
    e = dict(e='transform', mode=mode, r=r['r'], out=[], map=NOMAP, bail=False)
    if r['r'] == 'ok':
        try:
            e.update(out=sx_parse('\n'.join(r[key])), map=conv_map(r['map'], r['re']))
            e['bail'] = bool(e['map']['failed']) if bail is None else bail
        except ValueError as x:
            e['r'] = 'unreadable output: %s' % x
    return e


BAIL = 'Encountered unsupported string function: BAILING OUT'


def cli_runs(scripts, modes, ck, binp):
    """the convert sub-command in scratch directories"""
    def one(a):
        k, (smt, mode) = a
        d = ck.sc.sub('cli%d' % k)
        open(d + '/q.smt2', 'w').write(smt)
        try:
            p = subprocess.run([binp, 'convert', '--mapping', 'char-to-char' if mode == 'c2c' else 'no-reconstruct', '--input-file', d + '/q.smt2'],
                               cwd=d, capture_output=True, text=True, timeout=60)
            if p.returncode:
                return dict(r='exit status %d' % p.returncode, msg=p.stderr[-300:])
            t = open(d + '/q_transformed.smt2').read()
            m = json.load(open(d + '/q_mapping.json'))
            return dict(r='ok', out=[] if t.strip() == BAIL else [t], bail=t.strip() == BAIL, map=m, re=[])
        except (subprocess.TimeoutExpired, OSError, ValueError) as x:
            return dict(r='no result: %s' % type(x).__name__, msg=str(x)[-200:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, enumerate(zip(scripts, modes))))


#        mode: (generator mode, transformer modes, quick, thorough)
PLAN = {
    'T01': [('full', ('norec', 'c2c'), 1200, 12000)],
    'T02': [('full', ('norec', 'c2c'), 1200, 12000)],
    'T03': [('lits', ('norec', 'c2c'), 1000, 10000), ('rel', ('norec', 'c2c'), 500, 5000)],
    'T04': [('chars', ('c2c',), 2000, 20000), ('lits', ('c2c',), 500, 5000)],
    'T05': [('rel', ('norec',), 2500, 25000)],
    'T06': [('sat', ('norec', 'c2c'), 1500, 15000)],
    'T08': [('lex', ('norec', 'c2c'), 1500, 12000)],
}
EXA = {'T03': (2, 2, 2, 3), 'T05': (2, 3, 3, 3), 'T06': (2, 2, 2, 3)}
ASSUME = ['the SMT-LIB parser and printer of the aws-smt-ir dependency',
          'literals occur as direct arguments of string functions, ranges of one script are disjoint (other inputs: known findings)']


def run(prop, tier):
    ck = Check(prop, tier)
    build_harness()
    ck.log('built')
    thorough = tier == 'thorough'
    if prop in SPECIAL:
        return SPECIAL[prop](ck, thorough)
    scripts, modes = [], []
    for mode, tms, q, t in PLAN[prop]:
        r = tlc('TransformGen', SPECCFG, ck.sc, env=dict(MODE=mode, N=t if thorough else q, SEED=SEED, LEN=2), heap='8g', timeout=800)
        ck.add(r)
        for x in r.recs:
            scripts.append(x['in'])
            modes.append(tms)
        ck.extra['seeded_' + mode] = len(r.recs)
    if prop in EXA:
        kq, lq, kt, lt = EXA[prop]
        r = tlc('TransformGen', SPECCFG, ck.sc, env=dict(MODE='exa', N=kt if thorough else kq, SEED=SEED, LEN=lt if thorough else lq), heap='8g', timeout=800)
        ck.add(r)
        ex = [x['in'] for x in r.recs]
        if prop == 'T06':
            ex = [x for x in ex if not any(o in json.dumps(x) for o in ('"str.++"', '"str.replace"', '"str.in_re"', '"str.indexof"'))]
        scripts += ex
        modes += [PLAN[prop][0][1]] * len(ex)
        ck.extra['exhaustive'] = len(ex)
    kn = known(prop)
    n0 = len(scripts)
    for x in kn:
        scripts.append(sx_parse(x['input']))
        modes.append(tuple(x.get('modes', PLAN[prop][0][1])))
    ck.log('generated', len(scripts))
    text = [script(c) for c in scripts]
    jobs = [(k, m) for k in range(len(scripts)) for m in modes[k]]
    obs = drive([dict(op='transform', smt=text[k], c2c=m == 'c2c') for k, m in jobs], ck.sc)
    evs = [[] for _ in scripts]
    for (k, m), o in zip(jobs, obs):
        evs[k].append(event(o, m))
    # a sample through the command line tool
    binp = build_clis() + 'amzn-smt-string-transformer'
    pick = jobs[::max(1, len(jobs) // (1500 if thorough else 150))]
    for (k, m), o in zip(pick, cli_runs([text[k] for k, m in pick], [m for k, m in pick], ck, binp)):
        if o['r'] == 'ok' and o['bail']:
            if prop != 'T08':
                continue
            lib = [e for e in evs[k] if e['mode'] == m][0]
            evs[k].append(dict(lib, mode='command line ' + m, bail=True, map=conv_map(o['map'])))
            continue
        e = event(o, m, bail=False)
        if e['r'] == 'ok':
            e['map']['re'] = [[b, a] for a, b in e['map']['char']] if prop == 'T04' else []
        evs[k].append(dict(e, mode=m if prop == 'T03' else 'command line ' + m))
    ck.extra['command_line_runs'] = len(pick)
    ck.log('ran')
    cases = [dict(id=k, **{'in': scripts[k]}, ev=evs[k]) for k in range(len(scripts))]
    ids = {n0 + j: x for j, x in enumerate(kn)}
    validate(ck, 'TransformTrace', cases, lambda k: dict(script=text[k], outputs=[dict(mode=e['mode'], out=script(e['out']) if e['r'] == 'ok' else e['r']) for e in evs[k]]),
             timeout=1500, known_ids=ids, chunk=3000)
    for x in kn:
        if '_hit' in x:
            print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    ck.log('validated')
    for k in range(0, len(scripts), max(1, len(scripts) // 3)):
        ck.sample(dict(script=text[k][:400], outputs=[script(e['out'])[:400] for e in evs[k]]))
    ck.assume = ASSUME
    return ck.finish()




def gen(ck, mode, n, **env):
    r = tlc(env.pop('module', 'TransformGen'), SPECCFG, ck.sc, env=dict(dict(MODE=mode, N=n, SEED=SEED, LEN=2), **env), heap='8g', timeout=800)
    ck.add(r)
    ck.extra['generated_' + mode] = len(r.recs)
    return r.recs


def listing(ck, thorough):
    """T11: the sub-formula listing"""
    scripts = [x['in'] for x in gen(ck, 'sub', 12000 if thorough else 1500)] + [x['in'] for x in gen(ck, 'full', 4000 if thorough else 500)]
    text = [script(c) for c in scripts]
    runs = [[] for _ in text]

    def ev(mode, o):
        e = dict(e='list', mode=mode, r=o['r'], out=[])
        if o['r'] == 'ok':
            try:
                e['out'] = [one(x) for x in o['list']]
            except ValueError as x:
                e['r'] = 'unreadable entry: %s' % x
        return e

    def one(x):
        l = sx_parse(x)
        if len(l) != 1:
            raise ValueError(x)
        return l[0]
    for k, o in enumerate(drive([dict(op='subformula', smt=t) for t in text], ck.sc)):
        runs[k].append(ev('library', o))
    binp = build_clis() + 'amzn-smt-string-transformer'
    pick = list(range(0, len(text), max(1, len(text) // (800 if thorough else 120))))

    def cli(k):
        d = ck.sc.sub('sf%d' % k)
        open(d + '/in.q.smt2', 'w').write(text[k])
        r = []
        try:
            for rep in range(2):
                p = subprocess.run([binp, 'sub-formula', '--input-file', 'in.q.smt2'], cwd=d, capture_output=True, text=True, timeout=60)
                if p.returncode:
                    r.append(dict(r='exit status %d' % p.returncode))
                    continue
                r.append(dict(r='ok', list=json.load(open(d + '/in.q_recon.json'))['sub_formula_list']))
            if sorted(os.listdir(d)) != ['in.q.smt2', 'in.q_recon.json'] or open(d + '/in.q.smt2').read() != text[k]:
                r.append(dict(r='files %s' % sorted(os.listdir(d))))
        except (subprocess.TimeoutExpired, OSError, ValueError, KeyError) as x:
            r.append(dict(r='no result: %s' % type(x).__name__))
        shutil.rmtree(d, ignore_errors=True)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        for k, rs in zip(pick, ex.map(cli, pick)):
            runs[k] += [ev('command line', o) for o in rs]
    ck.extra['command_line_runs'] = 2 * len(pick)
    ck.log('ran')
    validate(ck, 'SubFormulaTrace', [dict(id=k, **{'in': scripts[k]}, ev=runs[k]) for k in range(len(text))],
             lambda k: dict(script=text[k], listings=[dict(mode=e['mode'], r=e['r'], out=[sx_print(x) for x in e['out']]) for e in runs[k]]), timeout=1500, chunk=3000)
    ck.log('validated')
    for k in range(0, len(text), max(1, len(text) // 3)):
        ck.sample(dict(script=text[k][:400], list=[sx_print(x) for x in runs[k][0]['out']][:12]))
    ck.assume = ['the SMT-LIB parser and printer of the aws-smt-ir dependency']
    return ck.finish()


def smtval(v):
    if 's' in v:      # the way solvers write them
        return '"' + ''.join('""' if c == 34 else chr(c) if 32 <= c < 127 else '\\u{%x}' % c for c in v['s']) + '"'
    return sx_print(v) if 'b' not in v else ('true' if v['b'] else 'false')


def answer_text(a, sorts, style):
    if a['answer'] != 'model':
        return {'nomodel': 'sat\n'}.get(a['answer'], a['answer'] + '\n')
    head = '(' if style % 3 else '(model'
    ds = ['(define-fun %s () %s%s%s)' % (m['n'], 'String' if 's' in m['v'] else 'Int' if 'i' in m['v'] else 'Bool', '\n    ' if style % 2 else ' ', smtval(m['v'])) for m in a['model']]
    return 'sat\n%s\n%s\n)\n' % (head, '\n'.join('  ' + d for d in ds))


KIND = {'SatModelBuilt': 'built', 'Unsat': 'unsat', 'Timeout': 'timeout', 'Unknown': 'unknown', 'SatNoModel': 'nomodel'}
SAID = {'SAT: model reconstructed': 'built', 'UNSAT': 'unsat', 'timeout': 'timeout', 'unknown': 'unknown', 'SAT: no model': 'nomodel'}


def convert_wit(ck, n):
    """scripts with a planted model, converted char-to-char, and the answers given to them"""
    recs = gen(ck, 'wit', n)
    cases = []
    for x, o in zip(recs, drive([dict(op='transform', smt=script(x['in']), c2c=True) for x in recs], ck.sc)):
        e = event(o, 'c2c')
        if e['r'] != 'ok':
            ck.violation('conversion failed: %s' % e['r'], dict(script=script(x['in'])))
        elif not e['bail']:
            cases.append(dict(id=x['id'], **{'in': x['in']}, wit=x['wit'], tr=e['out'], map=e['map'], re=e['map']['re'], rawmap=o['map']))
    ck.log('converted', len(cases))
    ans = {}
    for i in range(0, len(cases), 4000):
        f = ck.sc.path('m.ndjson')
        write_ndjson(f, [{k: v for k, v in c.items() if k != 'rawmap'} for c in cases[i:i + 4000]])
        r = tlc('ReconModels', SPECCFG, ck.sc, env=dict(CASES=f, SEED=SEED), heap='8g', timeout=800)
        ck.add(r)
        ans.update({x['id']: x['ans'] for x in r.recs})
    ck.log('answers', sum(map(len, ans.values())))
    return [c for c in cases if c['id'] in ans], ans


def reconstruction(ck, thorough):
    """T10: reconstruct on every answer"""
    cases, ans = convert_wit(ck, 8000 if thorough else 900)
    for c in cases[::9]:      # scripts with several check-sat, or with none of the usual layout
        c['in'] = c['in'][:-2] + [{'a': [{'t': 'check-sat'}]}] + c['in'][-2:] + [{'a': [{'t': 'echo'}, {'s': cps('done')}]}]
    jobs, where = [], []
    root = ck.sc.sub('recon')
    for c in cases:
        for j, a in enumerate(ans[c['id']]):
            d = root + '/%d.%d' % (c['id'], j)
            os.makedirs(d)
            ext = ('smt2', 'smtlib')[c['id'] % 2]
            open(d + '/q.' + ext, 'w').write(script(c['in']))
            json.dump(c['rawmap'], open(d + '/q_mapping.json', 'w'))
            open(d + '/q_transformed.out', 'w').write(answer_text(a, None, c['id']))
            where.append((c, j, d, ext))
            jobs.append(dict(op='reconstruct', path=d + '/q', ext=ext))
    obs = drive(jobs, ck.sc)
    evs = {c['id']: [] for c in cases}

    def ev(c, j, d, ext, r, mode):
        f = d + '/q_recon_check.' + ext
        wrote = os.path.exists(f)
        e = dict(ans[c['id']][j], r=r, wrote=wrote, mode=mode, file=[])
        if wrote:
            try:
                e['file'] = sx_parse(open(f).read())
            except ValueError as x:
                e['r'] = 'unreadable check script: %s' % x
        if open(d + '/q.' + ext).read() != script(c['in']):
            e['r'] = 'the input file changed'
        evs[c['id']].append(e)
    for (c, j, d, ext), o in zip(where, obs):
        ev(c, j, d, ext, KIND.get(o['r'], o['r'] + ' ' + str(o.get('msg', ''))[:80]), 'library')
    binp = build_clis() + 'amzn-smt-string-transformer'
    pick = where[::max(1, len(where) // (1500 if thorough else 250))]

    def cli(w):
        c, j, d, ext = w
        if os.path.exists(d + '/q_recon_check.' + ext):
            os.remove(d + '/q_recon_check.' + ext)
        try:
            p = subprocess.run([binp, 'reconstruct', '--input-file', d + '/q.' + ext], cwd=d, capture_output=True, text=True, timeout=60)
            return SAID.get(p.stdout.strip(), p.stdout.strip() + ' ' + p.stderr[-80:])
        except subprocess.TimeoutExpired:
            return 'hang'
    with ThreadPoolExecutor(NCPU) as ex:
        for w, r in zip(pick, ex.map(cli, pick)):
            ev(*w, r, 'command line')
    ck.extra['command_line_runs'] = len(pick)
    shutil.rmtree(root)
    ck.log('ran', len(where))
    judge(ck, cases, evs)
    ck.assume = ['the script has no escape sequences in its literals; values of the model contain no backslash',
                 'numerals in models and literals have at most nine digits']
    return ck.finish()


def judge(ck, cases, evs):
    nv = 0
    for i in range(0, len(cases), 2500):
        f = ck.sc.path('r.ndjson')
        part = cases[i:i + 2500]
        write_ndjson(f, [dict({k: v for k, v in c.items() if k != 'rawmap'}, ev=evs[c['id']]) for c in part])
        r = tlc('ReconTrace', SPECCFG, ck.sc, env=dict(CASES=f, PROP=ck.prop), heap='12g', timeout=1500)
        ck.add(r)
        done = {x['id']: x for x in r.recs}
        for c in part:
            x = done[c['id']]
            ck.traces += 1
            nv += x['nv']
            if x['bad']:
                e = evs[c['id']][x['at'] - 1]
                rep = dict(script=script(c['in']), transformed=script(c['tr']), char_map=c['map']['char'], answer=answer_text(e, None, 0),
                           result=e.get('r'), check_script=script(e.get('file', [])), mode=e.get('mode'))
                ck.violation('%s: %s' % (x['bad'], json.dumps(rep)[:1200]), rep)
    ck.extra['models_of_the_transformed_script'] = nv
    ck.log('validated')
    for c in cases[::max(1, len(cases) // 3)]:
        ck.sample(dict(script=script(c['in'])[:400], transformed=script(c['tr'])[:400], events=[dict(a=e['answer'], r=e.get('r'), check=script(e.get('file', []))[:400]) for e in evs[c['id']][:2]]))


def models(ck, thorough):
    """T13: models carry over in both directions"""
    cases, ans = convert_wit(ck, 20000 if thorough else 2500)
    judge(ck, cases, {c['id']: [dict(a, r='', wrote=False, file=[], mode='') for a in ans[c['id']] if a['full']] for c in cases})
    ck.assume = ASSUME + ['str.to_code, str.from_code and lexicographic order are not preserved by a character mapping and are not generated',
                          'numerals have at most nine digits']
    return ck.finish()


def persist(m):
    return [dict(k=cps(k), len=v['req_props']['len'], ranges=sorted([ord(a), ord(b)] for a, b in v['req_props']['ranges']),
                 ints=v['req_props']['keep_ints'].strip('"'), sub=v['req_props']['keep_substrings'],
                 prefix=cps(v['prefix']), suffix=cps(v['suffix']), mids=[cps(x) for x in v['mid_strings']], to=cps(v['mapped_to']))
            for k, v in m['persistent_string_map']]


def histories(ck, thorough):
    """T07: conversions that share the global map"""
    recs = gen(ck, 'glob', 12000 if thorough else 1500)
    root = ck.sc.sub('glob')
    jobs, modes = [], []
    for x in recs:
        d = root + '/%d' % x['id']
        os.makedirs(d)
        # char-to-char conversions in between now and then
        ms = ['c2c' if (x['id'] + 3 * j) % 10 == 0 else 'norec' for j in range(len(x['in']))]
        modes.append(ms)
        jobs.append(dict(op='transformseq', dir=d, list=[dict(smt=script(c), c2c=m == 'c2c') for c, m in zip(x['in'], ms)]))
    obs = drive(jobs, ck.sc, per=30)

    def ev(o, mode, at, re=()):
        e = dict(mode=mode, r=o['r'], at=at, out=[], map=0, file=0)
        if o['r'] == 'ok':
            try:
                e['out'] = sx_parse('\n'.join(o['out']))
                for k in ('map', 'file'):
                    e[k] = dict(conv_map(o[k], o['re']), persist=persist(o[k]))
                    for q in e[k]:
                        e[k][q].sort(key=json.dumps)
            except (ValueError, TypeError, KeyError) as x:
                e['r'] = 'unreadable output: %s' % x
        return e
    cases = []
    for x, ms, o in zip(recs, modes, obs):
        evs = o.get('evs', [dict(r=o['r'])])
        cases.append(dict(id=len(cases), **{'in': x['in']}, ev=[ev(y, m, j + 1) for j, (y, m) in enumerate(zip(evs, ms))], by='library'))
    shutil.rmtree(root)
    binp = build_clis() + 'amzn-smt-string-transformer'
    pick = list(range(0, len(recs), max(1, len(recs) // (400 if thorough else 60))))

    def cli(k):
        d = ck.sc.sub('gl%d' % k)
        r = []
        for j, (c, m) in enumerate(zip(recs[k]['in'], modes[k])):
            open(d + '/f%d.smt2' % j, 'w').write(script(c))
            try:
                p = subprocess.run([binp, 'convert', '--use-global-map', '--mapping', 'char-to-char' if m == 'c2c' else 'no-reconstruct', '--input-file', 'f%d.smt2' % j],
                                   cwd=d, capture_output=True, text=True, timeout=60)
                o = dict(r='ok' if p.returncode == 0 else 'exit status %d' % p.returncode)
                want = sorted(['global_mapping.json'] + ['f%d%s.smt2' % (i, e) for i in range(j + 1) for e in ('', '_transformed')])
                if p.returncode == 0:
                    t = open(d + '/f%d_transformed.smt2' % j).read()
                    mp = json.load(open(d + '/global_mapping.json'))
                    if t.strip() == BAIL:
                        break
                    o.update(out=[t], map=mp, file=mp, re=[[b, a] for a, b in mp['char_map']])
                    if sorted(os.listdir(d)) != want:
                        o = dict(r='files %s' % sorted(os.listdir(d)))
            except (subprocess.TimeoutExpired, OSError, ValueError) as x:
                o = dict(r='no result: %s' % type(x).__name__)
            r.append(ev(o, m, j + 1))
        shutil.rmtree(d, ignore_errors=True)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        for k, r in zip(pick, ex.map(cli, pick)):
            if r:
                cases.append(dict(id=len(cases), **{'in': recs[k]['in']}, ev=r, by='command line'))
    ck.extra['command_line_histories'] = len(pick)
    ck.log('ran', len(cases))
    recs2 = []
    validate(ck, 'GlobalMap', cases, lambda k: dict(by=cases[k]['by'], history=[dict(script=script(cases[k]['in'][e['at'] - 1]), mode=e['mode'], out=script(e['out']) if e['r'] == 'ok' else e['r'])
                                                                    for e in cases[k]['ev']]), timeout=1500, chunk=3000, keep=recs2)
    ck.extra['conversions'] = sum(len(c['ev']) for c in cases)
    ck.extra['mappings_reused'] = sum(x['reused'] for x in recs2)
    ck.log('validated')
    for c in cases[::max(1, len(cases) // 3)]:
        ck.sample(dict(history=[dict(script=script(c['in'][e['at'] - 1])[:300], out=script(e['out'])[:300]) for e in c['ev']]))
    ck.assume = ASSUME
    return ck.finish()


def chars(q):
    return ''.join(map(chr, q))


def map_json(m):
    """a mapping of the specification as the tool writes it"""
    two = lambda l: [[chars(a), chars(b)] for a, b in l]
    return dict(char_map=[[chr(a), chr(b)] for a, b in m['char']], string_map=two(m['str']), alpha_renaming_map=two(m['alpha']),
                affected_constraint_vars=[chars(v) for v in m['vars']], failed_transformed_constraint_vars=[chars(v) for v in m['failed']],
                char_to_char_string_lits=[chars(v) for v in m['c2cl']],
                persistent_string_map=[[chars(x['k']), dict(req_props=dict(len=x['len'], ranges=[[chr(a), chr(b)] for a, b in x['ranges']], keep_ints='"%s"' % x['ints'],
                                                                           keep_substrings=x['sub'], keep_prefix_suffix=x['psub']),
                                                            prefix=chars(x['prefix']), suffix=chars(x['suffix']), mid_strings=[chars(y) for y in x['mids']],
                                                            mapped_to=chars(x['to']))] for x in m['persist']])


def json_persist(l):
    return [dict(k=cps(k), len=v['req_props']['len'], ranges=[[ord(a), ord(b)] for a, b in v['req_props']['ranges']], ints=v['req_props']['keep_ints'].strip('"'),
                 sub=v['req_props']['keep_substrings'], psub=v['req_props']['keep_prefix_suffix'], prefix=cps(v['prefix']), suffix=cps(v['suffix']),
                 mids=[cps(x) for x in v['mid_strings']], to=cps(v['mapped_to'])) for k, v in l]


def json_map(j):
    two = lambda l: [[cps(a), cps(b)] for a, b in l]
    return dict(char=[[ord(a), ord(b)] for a, b in j['char_map']], str=two(j['string_map']), alpha=two(j['alpha_renaming_map']),
                vars=[cps(v) for v in j['affected_constraint_vars']], failed=[cps(v) for v in j['failed_transformed_constraint_vars']],
                c2cl=[cps(v) for v in j['char_to_char_string_lits']], persist=json_persist(j['persistent_string_map']))


def mapfile(ck, thorough):
    """T09: histories of a mapping file"""
    hs = [x['h'] for x in gen(ck, 'all', 0, module='MapFileGen', LEN=5 if thorough else 4)]
    hs += [x['h'] for x in gen(ck, 'rnd', 15000 if thorough else 1500, module='MapFileGen')]
    # what conversions write
    scripts = [script(c) for x in gen(ck, 'glob', 1500 if thorough else 150) for c in x['in']] + [script(x['in']) for x in gen(ck, 'chars', 1500 if thorough else 150)]
    for k, o in enumerate(drive([dict(op='transform', smt=t, c2c=k % 2 == 0) for k, t in enumerate(scripts)], ck.sc)):
        if o['r'] == 'ok':
            hs.append([dict(op='write', raw=o['map'], map=json_map(o['map'])), dict(op='read')])
    root = ck.sc.sub('mapfile')
    jobs = []
    for k, h in enumerate(hs):
        d = root + '/%d' % k
        os.makedirs(d)
        jobs.append(dict(op='mapfile', dir=d, ops=[dict(op=a['op'], map=a.get('raw') or (map_json(a['map']) if a['map'] else 0), n=a['n'] if 'n' in a else 0, smt=a.get('smt', ''))
                                                   if a['op'] == 'write' else dict(op=a['op'], n=a.get('n', 0), smt=a.get('smt', '')) for a in h]))
    obs = drive(jobs, ck.sc, per=30)
    shutil.rmtree(root)
    cases = []
    for k, (h, o) in enumerate(zip(hs, obs)):
        evs = []
        for a, e in zip(h, o.get('evs', [dict(r=o['r'])])):
            x = dict(op=a['op'], r=e['r'], map=0, meta=[], re=[], un=[], lits=a.get('lits', []))
            if a['op'] == 'write':
                x['map'] = a['map']
            elif e['r'] == 'ok' and a['op'] in ('read', 'convert'):
                try:
                    x['map'] = json_map(e['map'])
                    if a['op'] == 'read':
                        x.update(meta=json_persist(e['meta']), re=[[ord(p), ord(q)] for p, q in e['re']], un=[[cps(p), cps(q)] for p, q in e['un']])
                except (KeyError, ValueError, TypeError) as y:
                    x['r'] = 'unreadable: %r' % y
            evs.append(x)
        cases.append(dict(id=k, ev=evs))
    ck.log('ran', len(cases))
    validate(ck, 'MapFile', cases, lambda k: dict(history=[dict(op=e['op'], r=e['r'], map=map_json(e['map']) if e['map'] else None) for e in cases[k]['ev']]), timeout=1500, chunk=5000)
    # reconstruct refuses damaged mapping files too: the command line reads the file of a conversion
    ck.log('validated')
    ck.extra['actions'] = sum(len(c['ev']) for c in cases)
    for c in cases[::max(1, len(cases) // 3)]:
        ck.sample(dict(history=[dict(op=e['op'], r=e['r']) for e in c['ev']]))
    ck.assume = ['serde_json parses and prints JSON']
    return ck.finish()


SPECIAL = {'T09': mapfile, 'T07': histories, 'T10': reconstruction, 'T11': listing, 'T13': models}
