"""Results of functions in processes in which nothing was computed before: a
process forked off before the first case, of which every call gets its own
fork."""

import hashlib
import json
import os
import resource

_pipes = []


def _serve(function, source, sink):
    while True:
        line = source.readline()
        if not line:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            resource.setrlimit(resource.RLIMIT_CPU, (40, 40))
            try:
                answer = function(json.loads(line))
            except BaseException as e:       # noqa: BLE001
                answer = 'error ' + type(e).__name__
            sink.write(answer.replace('\n', ' ') + '\n')
            sink.flush()
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            sink.write('ended\n')
            sink.flush()


def start(function):
    """function: JSON value -> text. To be called before anything else is."""
    if _pipes:
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        try:
            _serve(function, os.fdopen(r1), os.fdopen(w2, 'w'))
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _pipes.extend([os.fdopen(w1, 'w'), os.fdopen(r2)])


def call(argument):
    _pipes[0].write(json.dumps(argument) + '\n')
    _pipes[0].flush()
    return _pipes[1].readline().rstrip('\n')


def digest(value):
    return hashlib.sha1(repr(value).encode()).hexdigest()
