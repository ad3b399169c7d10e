"""Creates patches in a process of its own, with other hashes of strings, another
working directory, clock and environment than the process that asks."""

import contextlib
import io
import os
import pickle
import random
import struct
import sys
import time
from io import BytesIO

sys.path.insert(0, os.path.join(os.environ['VT_OUT'], 'pkg'))

NOW = time.time
time.time = lambda: NOW() + 1e8

import detools                                                    # noqa: E402


def command(args):
    out = io.StringIO()
    sys.argv = ['detools'] + args
    with contextlib.redirect_stdout(out):
        try:
            detools._main()
        except SystemExit as e:
            return (False, str(e.code))
    return (True, out.getvalue())


def main():
    requests, answers = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    os.chdir('/')
    random.seed(4711)
    while True:
        head = requests.read(8)
        if len(head) != 8:
            return
        old, new, kw = pickle.loads(requests.read(struct.unpack('<Q', head)[0]))
        fpatch = BytesIO()
        try:
            if 'command' in kw:
                answer = command(kw['command'])
            else:
                detools.create_patch(BytesIO(old), BytesIO(new), fpatch, **kw)
                answer = (True, fpatch.getvalue())
        except Exception as e:
            answer = (False, repr(e))
        data = pickle.dumps(answer)
        answers.write(struct.pack('<Q', len(data)) + data)
        answers.flush()


main()
