"""The PyPy worker, seen from the driver."""
import io
import os
import pickle
import select
import struct
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv-pypy/bin/python'
CASE_S = 60


class Dead(Exception):
    """The worker ended, or gave no answer in time"""


class ImportBroken(Exception):
    pass


class Harness(Exception):
    """A mistake of the machinery, not a verdict"""


def plain(obj):
    """A pickle in which no two parts are the same object"""
    buf = io.BytesIO()
    pickler = pickle.Pickler(buf, 4)
    pickler.fast = True
    pickler.dump(obj)
    return buf.getvalue()


class Worker:
    def __init__(self, mode, module):
        self.mode, self.module = mode, module
        self.proc = None

    def start(self):
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('PYTHON')}
        env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   LANG='C.UTF-8', TZ='UTC')
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(ROOT, 'worker', 'worker.py'), self.mode,
             self.module],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, cwd='/', env=env, bufsize=0)
        status, _, _, text = self._recv(120)
        if status == 'viol':
            raise ImportBroken(text)
        if status != 'ready':
            raise Harness(text)

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def _read(self, n, until):
        buf = b''
        fd = self.proc.stdout
        while len(buf) < n:
            left = until - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise Dead('no answer in time')
            part = os.read(fd.fileno(), n - len(buf))
            if not part:
                raise Dead('worker ended')
            buf += part
        return buf

    def _recv(self, timeout):
        until = time.monotonic() + timeout
        size, = struct.unpack('>I', self._read(4, until))
        return pickle.loads(self._read(size, until))

    def _call(self, name, case):
        if self.proc is None:
            self.start()
        data = plain((name, case))
        try:
            out = struct.pack('>I', len(data)) + data
            view = memoryview(out)
            while view:
                view = view[os.write(self.proc.stdin.fileno(), view):]
        except BrokenPipeError:
            raise Dead('worker ended')
        return self._recv(CASE_S)

    def call(self, name, case):
        """(status, labels, nontrivial, text); status: ok, viol, err"""
        try:
            return self._call(name, case)
        except Dead:
            self.stop()
        try:  # once more, undisturbed
            return self._call(name, case)
        except Dead as e:
            self.stop()
            if 'time' in str(e):
                return ('viol', [], False,
                        'no result within %d s, twice' % CASE_S)
            return 'err', [], False, 'the worker ended twice: %s' % e
