"""analyze.py SCRIPT: reads lines {"dir": , "q": } and prints what the functions of the script say about each"""
import contextlib, io, json, os, sys
import numpy as np
src = sys.argv[1]
sys.argv = [src]
env = {'__name__': '__main__'}
with contextlib.redirect_stdout(io.StringIO()):
    exec(compile(open(src).read(), src, 'exec'), env)


def num(x, k):
    return -1 if x is None or np.isnan(x) else round(float(x) * k)


for l in sys.stdin:
    c = json.loads(l)
    os.chdir(c['dir'])
    o = dict(how='', res=[], times=[], sizes=[], lits=-1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            o.update(res=list(env['get_SAT_results'](c['q'])), times=[num(t, 1000) for t in env['get_timings'](c['q'])],
                     sizes=[num(t, 1) for t in env['get_filesizes'](c['q'])], lits=num(list(env['get_map_info'](c['q']))[0], 1))
    except Exception as e:
        o['how'] = '%s: %s' % (type(e).__name__, e)
    print(json.dumps(o), flush=True)
