"""Fresh processes of a chosen configuration, cheaply.

A zygote is a separate process, started with its own hash seed and its own order of imports,
that has loaded the library but never used it. Every job runs in a process forked from it,
so each job meets a process in exactly that state, and what the job does dies with it.
"""
import atexit
import json
import os
import pickle
import signal
import struct
import subprocess
import sys

import boot

HERE = os.path.dirname(os.path.abspath(__file__))
_live = {}


def _read(f, n):
    b = b""
    while len(b) < n:
        x = f.read(n - len(b))
        if not x:
            return None
        b += x
    return b


def _frame(b):
    return struct.pack("<q", len(b)) + b


class Zygote:
    def __init__(self, cfg):
        self.cfg = cfg
        env = boot.child_env(cfg.get("hash", "0"))
        self.p = subprocess.Popen([boot.PY, "-B", os.path.join(HERE, "zygote.py"), json.dumps(cfg)], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=boot.VERIF)

    def call(self, mod, func, *args):
        """Run `func` of module `mod` in a new process; returns its result."""
        try:
            self.p.stdin.write(_frame(pickle.dumps((mod, func, args))))
            self.p.stdin.flush()
            h = _read(self.p.stdout, 8)
            b = h and _read(self.p.stdout, struct.unpack("<q", h)[0])
        except (BrokenPipeError, OSError):
            b = None
        if b is None:
            _live.pop(_key(self.cfg), None)
            raise boot.HarnessError(f"a zygote died: {self.cfg}")
        kind, x = pickle.loads(b)
        if kind == "stuck":
            # Threads of other libraries do not survive forking: use an ordinary process.
            kind, x = self.plain(mod, func, args)
        if kind == "error":
            raise boot.HarnessError(f"in a process with {self.cfg}: {x}")
        return x


    def plain(self, mod, func, args):
        """The same in a process that is not forked."""
        env = boot.child_env(self.cfg.get("hash", "0"))
        try:
            q = subprocess.run([boot.PY, "-B", os.path.join(HERE, "zygote.py"), json.dumps({**self.cfg, "plain": 1})], env=env,
                               input=pickle.dumps((mod, func, args)), stdout=subprocess.PIPE, cwd=boot.VERIF, timeout=200)
            return pickle.loads(q.stdout)
        except Exception as e:
            return "error", f"{type(e).__name__}: {str(e)[:300]}"


@atexit.register
def close():
    for z in _live.values():
        z.p.stdin.close()
        z.p.stdout.close()
        z.p.kill()
        z.p.wait()
    _live.clear()


def _key(cfg):
    return json.dumps(cfg, sort_keys=True)


def get(cfg):
    k = _key(cfg)
    z = _live.get(k)
    if z is None or z.p.poll() is not None:
        z = _live[k] = Zygote(cfg)
    return z


def work(b):
    """Do a job: (exit code, result)."""
    try:
        mod, func, args = pickle.loads(b)
        m = sys.modules.get(mod) or __import__(mod, fromlist=["x"])
        res = ("ok", getattr(m, func)(*args))
    except BaseException as e:  # noqa: B036
        import traceback

        res = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}")
    try:
        return 0, pickle.dumps(res)
    except BaseException:
        return 7, b""


def serve(cfg):
    import warnings

    inp, out = os.fdopen(os.dup(0), "rb", 0), os.fdopen(os.dup(1), "wb", 0)
    os.dup2(2, 1)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    warnings.simplefilter("ignore")
    for m in cfg.get("first", ()):
        __import__(m)
    sys.path.insert(0, boot.REPO)
    boot.load()
    for m in cfg.get("then", ()):
        __import__(m)
    import engine  # noqa: F401

    for m in cfg.get("modules", ()):
        __import__(m)
    import gc

    if cfg.get("plain"):
        code, p = work(inp.read())
        out.write(p)
        out.flush()
        os._exit(code)
    gc.collect()
    gc.freeze()
    while True:
        h = _read(inp, 8)
        if h is None:
            return
        b = _read(inp, struct.unpack("<q", h)[0])
        for attempt in range(3):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(20)
                code, p = work(b)
                try:
                    with os.fdopen(w, "wb") as f:
                        f.write(p)
                except BaseException:
                    code = 7
                os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st == 0 and data:
                break
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
                data = pickle.dumps(("stuck", None))
                break
        else:
            data = pickle.dumps(("stuck", None))
        out.write(_frame(data))


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    serve(json.loads(sys.argv[1]))
