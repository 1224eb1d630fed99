"""Run a function in a child forked from this process."""

import os
import pickle
import signal

from harness.core import Violation


class Died(Exception):
    pass


def forked(fn, alarm=60):
    """fn() as evaluated in a child process; a Violation it raises is raised
    here, any other failure of the child is Died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(alarm)
            try:
                out = ("value", fn())
            except Violation as v:
                out = ("violation", str(v))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:  # the alarm of this case
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise Died()
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise Violation(value)
    return value
