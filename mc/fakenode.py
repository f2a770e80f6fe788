"""A controllable stand-in for the engine process, on real pipes.

The code under test sees an object with the Popen surface it uses (stdin,
stdout, stderr, poll, wait, kill, returncode, args, pid).  A peer thread plays
the process: it reads request lines and performs the actions a script lists,
waiting for the reader to drain the pipes between chunks so that every listed
chunk boundary is really observed by the code under test.
"""

import fcntl
import json
import os
import struct
import termios
import threading
import time


def pending(fd):
    try:
        return struct.unpack("I", fcntl.ioctl(fd, termios.FIONREAD, struct.pack("I", 0)))[0]
    except OSError:
        return 0


class FakeProc:
    def __init__(self, respond, kill_polls=0, args=("node",)):
        """respond(request_text, proc) yields actions."""
        self.args = list(args)
        self.pid = -1
        self._rin, win = os.pipe()
        rout, self._wout = os.pipe()
        rerr, self._werr = os.pipe()
        self.stdin = os.fdopen(win, "w")
        self.stdout = os.fdopen(rout, "r")
        self.stderr = os.fdopen(rerr, "r")
        self.respond = respond
        self.kill_polls = kill_polls
        self.returncode = None
        self._dead_code = None      # code once dead, maybe not visible yet
        self._polls_left = 0
        self.killed = False
        self.requests = []
        self.used_after_kill = False
        self.lock = threading.RLock()
        self.stop = threading.Event()
        self.thread = threading.Thread(target=self._peer, daemon=True)
        self.thread.start()

    # ---- the surface used by the code under test
    def poll(self):
        with self.lock:
            if self.returncode is None and self._dead_code is not None:
                if self._polls_left > 0:
                    self._polls_left -= 1
                else:
                    self.returncode = self._dead_code
            return self.returncode

    def wait(self, timeout=None):
        deadline = None if timeout is None else time.monotonic() + timeout
        while self._dead_code is None:
            if deadline is not None and time.monotonic() > deadline:
                import subprocess

                raise subprocess.TimeoutExpired(self.args, timeout)
            time.sleep(0.001)
        self.returncode = self._dead_code
        return self.returncode

    def kill(self):
        if self.returncode is not None:
            return
        self.killed = True
        self._die(-9, self.kill_polls)

    terminate = kill

    def communicate(self, *a, **k):  # pragma: no cover
        raise NotImplementedError

    # ---- the process
    def _die(self, code, polls):
        with self.lock:
            if self._dead_code is not None:
                return
            self._dead_code = code
            self._polls_left = polls
            self.stop.set()
            for fd in (self._wout, self._werr):
                try:
                    os.close(fd)
                except OSError:
                    pass
            # the read end of stdin is closed by the peer thread or here
            try:
                os.close(self._rin)
            except OSError:
                pass

    def _drain(self):
        limit = time.monotonic() + 5
        while not self.stop.is_set() and time.monotonic() < limit:
            try:
                if pending(self.stdout.fileno()) == 0 and pending(self.stderr.fileno()) == 0:
                    return
            except ValueError:
                return
            time.sleep(0.00005)

    def _peer(self):
        buf = b""
        try:
            while not self.stop.is_set():
                while b"\n" not in buf:
                    import select

                    r, _, _ = select.select([self._rin], [], [], 0.02)
                    if self.stop.is_set():
                        return
                    if not r:
                        continue
                    data = os.read(self._rin, 65536)
                    if not data:
                        return
                    buf += data
                line, buf = buf.split(b"\n", 1)
                req = json.loads(line)
                self.requests.append(req)
                for act in self.respond(req, self):
                    if self.stop.is_set():
                        return
                    kind = act[0]
                    if kind == "out":
                        self._drain()
                        self._write(self._wout, act[1])
                    elif kind == "err":
                        self._drain()
                        self._write(self._werr, act[1])
                    elif kind == "hang":
                        self.stop.wait()
                        return
                    elif kind == "gate":
                        while not act[1].wait(0.05):
                            if self.stop.is_set():
                                return
                    elif kind == "exit":
                        self._drain()
                        self._die(act[1], act[2])
                        return
        except (OSError, ValueError):
            pass

    def _write(self, fd, data):
        with self.lock:
            if self._dead_code is None:
                os.write(fd, data)

    def dispose(self):
        self._die(-9, 0)
        self.thread.join(5)
        for f in (self.stdin, self.stdout, self.stderr):
            try:
                f.close()
            except OSError:
                pass
