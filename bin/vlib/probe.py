"""Client of the probe server (harness/): runs the real code from /repo."""
import os, re, select, shutil, subprocess, tempfile, time

ANSI = re.compile(rb"\x1b\[[0-9;]*m")


class Died(Exception):
    pass


class Res:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc = rc
        self.out = out
        self.err = err

    def __repr__(self):
        return "rc=%r\n--- stdout\n%s\n--- stderr\n%s" % (self.rc, self.out, self.err)


class Probe:
    """rc: 0/1 as the program would exit, 101 panic, 'hang', 'abort'."""

    def __init__(self, exe, timeout=20.0):
        self.exe = exe
        self.timeout = timeout
        self.dir = tempfile.mkdtemp(prefix="vprobe-")
        self.p = None
        self.n = 0

    def _start(self):
        env = dict(os.environ)
        env.update(HOME=self.dir, NO_COLOR="1", RUST_BACKTRACE="0", TZ="UTC")
        env.pop("CLICOLOR_FORCE", None)
        self.p = subprocess.Popen([self.exe, os.path.join(self.dir, "io")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir, env=env)
        self.buf = b""

    def _read(self, n=None):
        """n bytes, or up to a newline when n is None"""
        end = time.time() + self.timeout
        while True:
            if n is None:
                i = self.buf.find(b"\n")
                if i >= 0:
                    r, self.buf = self.buf[:i], self.buf[i + 1:]
                    return r
            elif len(self.buf) >= n:
                r, self.buf = self.buf[:n], self.buf[n:]
                return r
            left = end - time.time()
            if left <= 0:
                raise TimeoutError
            if not select.select([self.p.stdout], [], [], left)[0]:
                raise TimeoutError
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                raise Died
            self.buf += d

    def ask(self, *fields):
        if self.p is None or self.p.poll() is not None:
            self._start()
        line = "\x1f".join(f.replace("\n", "\x1e") for f in fields) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
            rc, a, b = self._read().split()
            out = self._read(int(a))
            err = self._read(int(b))
        except TimeoutError:
            self.kill()
            return Res("hang", "", "")
        except (Died, BrokenPipeError):
            self.kill()
            return Res("abort", "", "")
        dec = lambda x: ANSI.sub(b"", x).decode("utf-8", "replace")
        return Res(int(rc), dec(out), dec(err))

    def journal(self, text, name=None):
        p = os.path.join(self.dir, name or "j.ledger")
        with open(p, "wb") as f:
            f.write(text.encode() if isinstance(text, str) else text)
        return p

    def run(self, text, cmd, *args):
        """dinero CMD -f JOURNAL ARGS"""
        p = self.journal(text)
        return self.ask("run", cmd, "-f", p, *args)

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
