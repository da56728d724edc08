# a clock that only the stand-ins of the solvers advance; timeouts of subprocesses are measured with it
import os
if os.environ.get('STUB_CLOCK'):
    import subprocess
    import time

    def now():
        with open(os.environ['STUB_CLOCK']) as f:
            return float(f.read() or 0)
    time.time = time.perf_counter = time.monotonic = now
    talk = subprocess.Popen.communicate
    born = subprocess.Popen.__init__

    def init(self, *args, **kw):
        self.stub_start = now()          # before the stand-in can advance the clock
        born(self, *args, **kw)
    subprocess.Popen.__init__ = init

    def communicate(self, input=None, timeout=None):
        start = self.stub_start
        out, err = talk(self, input)
        if timeout is not None and now() - start > timeout:
            with open(os.environ['STUB_CLOCK'], 'w') as f:
                f.write('%g\n' % (start + timeout))
            data = [d.encode() if isinstance(d, str) else d for d in (out, err)]
            raise subprocess.TimeoutExpired(self.args, timeout, output=data[0] or None, stderr=data[1] or None)
        return out, err
    subprocess.Popen.communicate = communicate
    sit = subprocess.Popen.wait

    def wait(self, timeout=None):
        r = sit(self)
        if timeout is not None and now() - self.stub_start > timeout:
            with open(os.environ['STUB_CLOCK'], 'w') as f:
                f.write('%g\n' % (self.stub_start + timeout))
            raise subprocess.TimeoutExpired(self.args, timeout)
        return r
    subprocess.Popen.wait = wait
