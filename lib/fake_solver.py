"""an external SAT solver that follows one behaviour of SolverProtocol.tla; DO is set by the wrapper script"""
import os, signal, subprocess, sys


def main(do, kissat):
    real, lits = ('SATISFIABLE' if do['script'] == 'sat' else 'UNSATISFIABLE'), []
    if do['start'] != 'deaf':
        data = sys.stdin.buffer.read()
        if 'V1' in do['out'] or 'V2' in do['out']:
            f = '%s.%d.cnf' % (sys.argv[0], os.getpid())
            open(f, 'wb').write(data)
            p = subprocess.run([kissat, '-q', f], capture_output=True, text=True)
            lits = [t for l in p.stdout.split('\n') if l.startswith('v') for t in l[1:].split() if t != '0']
    h = len(lits) // 2

    def v(ls, end):
        ls = ls + (['0'] if end else [])
        return ''.join('v ' + ' '.join(ls[i:i + 7]) + '\n' for i in range(0, len(ls), 7))
    text = dict(C='c status s SATISFIABLE\n', E='\n', G='Segmentation fault in v 1\n', S='s ' + real + '\n', U='s UNKNOWN\n',
                T=('s ' + real)[:len(real) - 2], V1=v(lits[:h], False), V2=v(lits[h:], True))
    sys.stdout.write(''.join(text[t] for t in do['out']))
    sys.stdout.flush()
    e = do['exit']
    if e == 'killed':
        os.kill(os.getpid(), signal.SIGKILL)
    os._exit({'normal': 10 if real == 'SATISFIABLE' else 20, 'zero': 0, 'one': 1}[e])
