"""Client of vc/worker.py: calls functions of the real code."""
import atexit
import os
import pickle
import select
import shutil
import struct
import subprocess
import tempfile

import numpy as np

from . import worker as W

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Crash(Exception):
    pass


class Real:
    def __init__(self, boundscheck=True):
        self.tmp = tempfile.mkdtemp(prefix="verif_real_")
        self.p = None
        self.bc = boundscheck
        atexit.register(self.close)

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", NUMBA_CACHE_DIR=os.path.join(self.tmp, "nb"), NUMBA_BOUNDSCHECK="1" if self.bc else "0",
                   PYTHONPATH=os.path.join(REPO, "src"), OMP_NUM_THREADS="2", PYTHONWARNINGS="ignore", NUMBA_DISABLE_PERFORMANCE_WARNINGS="1", HOME=self.tmp)
        self.err = open(os.path.join(self.tmp, "stderr"), "ab")
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "vc", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp)

    def call(self, fn, args, order=None, adapter=None, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = pickle.dumps({"fn": fn, "args": {k: W.enc(v) for k, v in args.items()}, "order": order or list(args), "adapter": adapter})
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            h = self._read(4, timeout)
            n = struct.unpack("<I", h)[0]
            rep = pickle.loads(self._read(n, timeout))
        except TimeoutError:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"exc": "Timeout", "msg": f"no answer within {timeout}s"}
        except (Crash, BrokenPipeError):
            self.p.wait()
            rc = self.p.returncode
            self.p = None
            try:
                tail = open(os.path.join(self.tmp, "stderr")).read()[-600:]
            except OSError:
                tail = ""
            return {"exc": "ProcessDied", "msg": f"the process died (status {rc}) {tail}"}
        if "result" in rep:
            rep["result"] = W.dec(rep["result"])
            rep["args"] = {k: W.dec(v) for k, v in rep["args"].items()}
        return rep

    def _read(self, n, timeout):
        import time
        end = time.time() + timeout
        buf = b""
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            left = end - time.time()
            if left <= 0:
                raise TimeoutError()
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise TimeoutError()
            c = os.read(fd, min(65536, n - len(buf)))
            if not c:
                raise Crash()
            buf += c
        return buf

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None
        if self.tmp and self.tmp.startswith(tempfile.gettempdir()) and os.path.isdir(self.tmp):
            shutil.rmtree(self.tmp, ignore_errors=True)
