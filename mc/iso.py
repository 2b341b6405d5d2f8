"""Run a function in a forked child: module state of the code under test is
exactly the one right after import (a pristine history) in every run."""
import os
import pickle
import signal
import struct
import traceback


class ChildFailed(Exception):
    pass


def isolated(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(0)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException as e:  # reported to the parent
                data = pickle.dumps(("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
            off = 0
            data = struct.pack("<Q", len(data)) + data
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    try:
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        raise ChildFailed("the process running the calls died")
    k, v = pickle.loads(buf[8:])
    if k == "err":
        raise ChildFailed(v)
    return v
