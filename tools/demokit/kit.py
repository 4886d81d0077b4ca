"""Helpers of the demonstrations: builds the library from the current directory in a scratch folder, runs it there."""
import os, sys, socket, subprocess, tempfile, shutil, time, atexit, glob

D = tempfile.mkdtemp(prefix="wayuu-demo-")
HERE = os.path.dirname(os.path.abspath(__file__))
procs = []


def clean():
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(D, ignore_errors=True)


atexit.register(clean)
SRC = D + "/src"


def prepare():
    if os.path.isdir(SRC):
        return
    os.makedirs(SRC)
    for f in glob.glob("*.c") + glob.glob("*.h"):
        t = open(f, errors="surrogateescape").read().replace('"/tmp/wayuu"', '"%s/up"' % D).replace('"/var/log/', '"%s/' % D)
        open(SRC + "/" + f, "w", errors="surrogateescape").write(t)


def build(drv="srv.c", extra=(), main=False):
    prepare()
    out = D + "/" + (os.path.basename(drv)[:-2] if drv else "prog")
    srcs = [s for s in sorted(glob.glob(SRC + "/*.c")) if main or not s.endswith("/main.c")]
    subprocess.check_call(["gcc", "-g", "-O1", "-std=gnu99", "-w", "-DWAYUU_DIST", "-I" + SRC, "-o", out] + ([HERE + "/" + drv] if drv else []) + srcs + list(extra) + ["-lssl", "-lcrypto", "-lpthread", "-lm"])
    return out


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def put(path, data=b""):
    p = D + "/" + path
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


class Server:
    def __init__(self, exe=None, extra=(), args=()):
        self.exe = exe or build(extra=extra)
        put("root/www/index.html") if not os.path.exists(D + "/root/www/index.html") else None
        self.port = port()
        self.p = subprocess.Popen([self.exe, D, str(self.port)] + list(args), cwd=D, stdout=open(D + "/out", "wb"), stderr=subprocess.STDOUT)
        procs.append(self.p)
        for _ in range(400):
            try:
                self.conn().close()
                break
            except OSError:
                time.sleep(0.025)
        time.sleep(0.2)

    def conn(self, ip="127.0.0.1"):
        s = socket.socket()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.bind((ip, 0))
        s.settimeout(8)
        s.connect(("127.0.0.1", self.port))
        return s

    def ask(self, req, ip="127.0.0.1", half=False, parts=None):
        s = self.conn(ip)
        try:
            for x in (parts or [req]):
                s.sendall(x)
                if parts:
                    time.sleep(0.03)
            if half:
                s.shutdown(socket.SHUT_WR)
            return recv(s)
        except (ConnectionError, socket.timeout):
            return None
        finally:
            s.close()

    def alive(self):
        return self.p.poll() is None


def recv(s):
    out = b""
    while True:
        try:
            b = s.recv(65536)
        except (ConnectionError, socket.timeout):
            return out
        if not b:
            return out
        out += b


def body(r):
    return None if r is None or b"\r\n\r\n" not in r else r.split(b"\r\n\r\n", 1)[1]


def status(r):
    try:
        return int(r.split(b" ", 2)[1])
    except Exception:
        return None


def field(r, k):
    """a field of the echo handler's answer"""
    b = body(r) or b""
    a = b.find(b"\n" + k + b"=[") if not b.startswith(k + b"=[") else -1
    i = b.find(k + b"=[") if a < 0 else a + 1
    if i < 0:
        return None
    i += len(k) + 2
    j = b.find(b"]\n", i)
    return b[i:j]


def wait_file(name, t=5):
    for _ in range(int(t * 100)):
        if os.path.exists(D + "/" + name):
            return True
        time.sleep(0.01)
    return False


def check(ok, what):
    if not ok:
        print("FAIL: " + what)
        sys.exit(1)
    print("ok: " + what)
