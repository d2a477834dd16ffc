"""PyPy side: executes cases against /repo and judges them.

argv: mode, module with the oracles.  Frames on stdin/stdout are a 4 byte
length and a pickle.  A request is (check name, case), an answer is
(status, labels, nontrivial, text); status: ok, viol, err.
"""
import os
import pickle
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)

_in = os.fdopen(os.dup(0), 'rb')
_out = os.fdopen(os.dup(1), 'wb')
_null = os.open(os.devnull, os.O_RDWR)
os.dup2(_null, 0)
os.dup2(2, 1)

import boot  # noqa
import lib  # noqa


def send(obj):
    data = pickle.dumps(obj, 4)
    _out.write(struct.pack('>I', len(data)) + data)
    _out.flush()


def recv():
    head = _in.read(4)
    if len(head) < 4:
        sys.exit(0)
    size, = struct.unpack('>I', head)
    return pickle.loads(_in.read(size))


TROUBLE = (OSError, MemoryError, lib.Trouble)


def in_repo(tb):
    root = os.path.realpath(boot.REPO) + '/'
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run(name, case):
    ctx = lib.Ctx()
    lib.reset(name.encode())
    try:
        lib.CHECKS[name](case, ctx)
        return 'ok', ctx.labels, ctx.nontrivial, ''
    except lib.Violation as e:
        return 'viol', ctx.labels, ctx.nontrivial, str(e)
    except Exception as e:
        text = traceback.format_exc(limit=-12)[-3000:]
        if in_repo(e.__traceback__):
            return ('viol', ctx.labels, ctx.nontrivial,
                    'unexpected %s out of the code under test: %s\n%s' %
                    (type(e).__name__, e, text))
        if isinstance(e, TROUBLE):
            return 'err', ctx.labels, ctx.nontrivial, text
        # the oracles take only what the code under test gave them
        return ('viol', ctx.labels, ctx.nontrivial,
                'what the code under test gave makes no sense: %s: %s\n%s' %
                (type(e).__name__, e, text))


def main():
    mode, module = sys.argv[1:3]
    try:
        getattr(boot, mode)()
        __import__(module)
    except BaseException as e:
        text = traceback.format_exc()
        cause = e
        while cause.__cause__ or cause.__context__:
            cause = cause.__cause__ or cause.__context__
        send(('viol' if in_repo(cause.__traceback__) and not isinstance(
            e, ModuleNotFoundError) else 'err', [], False,
            'cannot be imported: ' + text[-3000:]))
        return
    send(('ready', [], False, ''))
    while True:
        name, case = recv()
        send(run(name, case))


if __name__ == '__main__':
    main()
