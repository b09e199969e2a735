"""Driver side of the worker that runs the code under test."""
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TIMEOUT = 150


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the property"""


class WorkerDied(Exception):
    """The code under test killed or hung the interpreter"""


class Worker(object):

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ='UTC')
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            [PY, '-u', os.path.join(HERE, 'worker.py')], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if env.get('VERIF_DEBUG') else subprocess.DEVNULL,
            cwd='/')
        self.buf = b''

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def _readline(self, timeout):
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                self.stop()
                raise WorkerDied('no answer within %d s' % timeout)
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                rc = self.p.wait()
                self.stop()
                raise WorkerDied('interpreter ended with status %s' % rc)
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def ping(self):
        """A worker that cannot even start is a harness problem"""
        try:
            self.ask(op='call', fn='fn.k_to_c', calls=[[273.16]])
        except WorkerDied as e:
            raise HarnessError('worker does not start: %s' % e)

    def ask(self, **q):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(q) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            rc = self.p.wait()
            self.stop()
            raise WorkerDied('interpreter ended with status %s' % rc)
        r = json.loads(self._readline(TIMEOUT))
        if 'harness' in r:
            # an exception outside of the guarded calls
            raise UnexpectedError(r['exc'], r['harness'])
        return r['ok']


class UnexpectedError(Exception):

    def __init__(self, exc, text):
        self.exc = exc
        Exception.__init__(self, text)


WORKER = Worker()


def ask(**q):
    return WORKER.ask(**q)
