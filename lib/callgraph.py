"""T12: sessions of the call graph against CallGraph.tla"""
from vlib import *
from updater import validate


def run(prop, tier):
    ck = Check(prop, tier)
    build_harness()
    ck.log('built')
    thorough = tier == 'thorough'
    ses = []

    def gen(name, **env):
        r = tlc('CallGraphGen', SPECCFG, ck.sc, env=dict(dict(SEED=SEED, WHAT='all'), **env), heap='8g', timeout=800)
        ck.add(r)
        got = [s for x in r.recs for s in x['s']]
        ck.extra['sessions_' + name] = len(got)
        ses.extend(got)
    gen('exhaustive_1', MODE='exa', N=1)
    gen('exhaustive_2', MODE='exa', N=2)
    gen('exhaustive_3', MODE='exa', N=3)
    gen('exhaustive_4_acyclic', MODE='exa', N=4, WHAT='dag')
    gen('seeded', MODE='rnd', N=15000 if thorough else 2000)
    ck.log('generated', len(ses))
    obs = drive([dict(op='callgraph', ops=s) for s in ses], ck.sc)
    none = dict(vars=[], fcts=[], lits=[])
    cases = []
    for k, (s, o) in enumerate(zip(ses, obs)):
        steps = o.get('steps', ['no result'] * len(s))
        ev = [dict(a, r=r) for a, r in zip(s, steps)]
        look = dict(op='look', r=o['r'], nodes=[], parts=[])
        if o['r'] == 'ok':
            look['nodes'] = [dict(x, **{q: x[q] or none for q in ('bf', 'utb', 'uw')}) for x in o['nodes']]
            look['parts'] = o['parts']
        else:
            ev = []
        cases.append(dict(id=k, ev=ev + [look]))
    ck.log('ran')
    recs = []
    validate(ck, 'CallGraph', cases, lambda k: dict(session=[{q: v for q, v in a.items() if v not in ('', [])} for a in ses[k]], observed=obs[k]),
             timeout=1500, chunk=6000, keep=recs)
    ck.extra['acyclic'] = sum(1 for x in recs if x['acyclic'])
    ck.log('validated')
    for c in cases[::max(1, len(cases) // 3)]:
        ck.sample(dict(session=[{q: v for q, v in a.items() if v not in ('', [])} for a in c['ev'][:-1]]))
    ck.assume = ['nodes are named differently', 'no node is added after a propagation']
    return ck.finish()
