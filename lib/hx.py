"""Talks to the harness binaries."""
import os, resource, subprocess, json, select, time, shutil, signal


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


class Dead(Exception):
    pass


class Harness:
    """One harness process. cmd() sends a line and returns the events up to the terminating '.'"""

    def __init__(self, exe, scratch, root=None, env=None):
        self.scratch = scratch
        os.makedirs(scratch + "/log", exist_ok=True)
        self.errpath = scratch + "/stderr"
        self.err = open(self.errpath, "wb")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:hard_rss_limit_mb=4096"
        e["TZ"] = "UTC"
        if env:
            e.update(env)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=scratch, env=e)
        if "/hard/" in exe:
            resource.prlimit(self.p.pid, resource.RLIMIT_AS, (4 << 30, 4 << 30))
        self.buf, self.out = b"", b""
        os.set_blocking(self.p.stdin.fileno(), False)
        self.quiet("scratch " + scratch)
        if root:
            self.quiet("root " + root)

    def quiet(self, line):
        """a command without waiting for what it answers"""
        self.out += line.encode() + b"\n"
        if len(self.out) > 4096 and not self.pump():
            raise Dead()

    def pump(self, timeout=60):
        """write what is to be written, taking answers meanwhile: neither side waits for the other with full pipes"""
        i, o = self.p.stdin.fileno(), self.p.stdout.fileno()
        end = time.time() + timeout
        while self.out:
            r, w, _ = select.select([o], [i], [], max(0, end - time.time()))
            if not r and not w:
                self.kill()
                return False
            if r:
                b = os.read(o, 1 << 20)
                if not b:
                    return False
                self.buf += b
            if w:
                try:
                    self.out = self.out[os.write(i, self.out[:1 << 16]):]
                except BlockingIOError:
                    pass
                except (BrokenPipeError, OSError):
                    return False
        return True

    def cmd(self, line, timeout=30):
        self.out += line.encode() + b"\n"
        self.pump()
        out = []
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i + 1:]
                if l == b".":
                    return out
                if l:
                    out.append(json.loads(l))
                continue
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.kill()
                d = Dead("timeout")
                d.events = out
                raise d
            b = os.read(fd, 1 << 20)
            if not b:
                self.p.wait()
                d = Dead("died")
                d.events = out
                raise d
            self.buf += b

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

    def close(self):
        try:
            self.quiet("quit")
            self.pump()
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.kill()
        self.err.close()

    def stderr(self):
        self.err.flush()
        return open(self.errpath, "rb").read().decode("latin-1")

    def route(self, tmpl, hk, fk=0, status=200, payload=b"{}", hold=0):
        self.quiet("route %s %d %d %d %s %d" % (hx(tmpl), hk, fk, status, hx(payload), hold))
