"""Starts of the stand-alone program (its own main()) with all sorts of arguments, recorded for spec/TraceCli.tla."""
import json, os, shutil
import core
from core import suite
from hx import Harness, Dead, hx
from rec import Session, World, bl, ids, NOV

VERSION = None


class Root(World):
    """a root folder; `virt` is the name it has for the program"""

    def __init__(self, scratch, phys, mark, cert=True, deny=True):
        self.d, self.root = scratch, phys
        self.tree, self.secrets, self.unread = {}, [], set()
        for p in ("www", "etc", "ssl"):
            os.makedirs(phys + "/" + p, exist_ok=True)
        if cert:
            for n in ("cert.pem", "key.pem"):
                shutil.copy(os.path.join(core.HERE, "harness", "tls", n), phys + "/ssl/" + n)
        self.cert = cert
        self.file("/index.html", b"<html>" + mark + b"</html>")
        self.file("/" + mark.decode() + ".css", b"body{}")
        self.file("/lim.html", b"limited " + mark)
        if deny:
            self.etc("deny", b"10.0.0.66\n")
            self.etc("allow", None)
        else:
            self.etc("deny", None)
            self.etc("allow", b"10.0.0.1\n10.0.0.2\n")
        self.etc("limits", b"/lim.html,0,0,9\n" if deny else b"/%s.css,0,0,9\n" % mark)

    def cfg(self, virt):
        flat = b"/" + os.path.normpath(virt).lstrip(b"/")       # the names of opened files are compared in this form
        return {"k": "cfg", "p": bl(virt), "cert": 1 if self.cert else 0, "routes": [],
                "tree": [{"p": bl(p), "x": bl(c)} for p, c in self.tree.items()],
                "index": bl(b"/index.html"), "favicon": bl(b"/favicon.ico"), "ask": [],
                "limits": self.etc_now("limits"), "allow": self.etc_now("allow"), "deny": self.etc_now("deny"),
                "www": bl(virt + b"/www"), "okdirs": [bl(flat + b"/www")],
                "okopen": [bl(flat + b"/etc/" + n) for n in (b"allow", b"deny", b"limits")], "secrets": []}


class Cli(Session):
    def __init__(self, env):
        self.e = env
        self.exe, self.env = env.exes["free"], None
        self.routes, self.ask, self.raw = [], [], {}
        self.tls = False
        self.module = "TraceCli"
        self.out, self.deaths = [], []
        core.OPEN.append(self)
        d = self.d = env.sub("cli")
        self.roots = {"default": Root(d, d + "/default", b"default"),
                      "A": Root(d, d + "/A", b"aaa", deny=False), "B": Root(d, d + "/B", b"bbb"),
                      "nocert": Root(d, d + "/nocert", b"ccc", cert=False),
                      "nokey": Root(d, d + "/nokey", b"ddd"), "badcert": Root(d, d + "/badcert", b"eee")}
        os.unlink(d + "/nokey/ssl/key.pem")
        with open(d + "/badcert/ssl/cert.pem", "w") as f:
            f.write("-----BEGIN CERTIFICATE-----\nabc\n")
        self.roots["nokey"].cert = self.roots["badcert"].cert = False
        self.w = self.roots["default"]
        with open(d + "/file", "w") as f:
            f.write("not a folder")
        self.h = None

    def long(self, n):
        """a root whose name has n bytes"""
        p = self.d + "/"
        while n - len(p) > 120:
            p += "x" * 100 + "/"
        p += "y" * (n - len(p))
        k = "long%d" % n
        if k not in self.roots:
            self.roots[k] = Root(self.d, p, b"l%d" % n, deny=n % 2 == 0)
        return p

    def start(self):
        pass

    def run(self, args, names, bindfail=0, exchanges=3, wrong=.15):
        """args: the arguments. names: texts in them that name an existing folder -> key of the root"""
        core.tick()
        rng = self.e.rng
        names = dict(names)
        names["/etc/wayuu"] = "default"
        for n in ("out", "log/wayuu.log", "log/wayuu-access.log"):
            if os.path.exists(self.d + "/" + n):
                os.unlink(self.d + "/" + n)
        self.logoff, self.updir = 0, self._ups()
        self.h = h = Harness(self.exe, self.d)
        if bindfail:
            h.quiet("bindfail %d" % bindfail)
        dead = 0
        try:
            ev = h.cmd("main " + " ".join(hx(a) for a in args))
        except Dead as d:
            ev, dead = getattr(d, "events", []), 1
        get = lambda k: next((e for e in ev if e["e"] == k), None)
        ex, la, bi = get("exit"), get("launched"), get("bind")
        rec = {"k": "cli", "id": next(ids), "args": [bl(a) for a in args], "dirs": [bl(n) for n in names],
               "roots": [self.roots[k].cfg(n.encode("latin-1")) for n, k in names.items()],
               "code": ex["code"] if ex else -1, "serving": 1 if la else 0, "dead": 0 if ex or la else 1,
               "ip": bl(bi["ip"]) if bi else [], "port": bi["port"] if bi else 0, "bindfail": 1 if bindfail else 0,
               "version": bl(version()), "out": []}
        self.out.append(rec)
        if rec["dead"]:
            self.deaths.append({"id": rec["id"], "stderr": h.stderr()[-3000:]})
        elif la:
            for _ in range(exchanges):
                via = "tls" if la["ssl"] else "plain"
                if la["ssl"] and rng.random() < wrong:
                    via = "plain"
                elif rng.random() < wrong / 10:
                    via = "tls"
                path = rng.choice((b"/", b"/index.html", b"/lim.html", b"/lim.html", b"/aaa.css", b"/bbb.css", b"/default.css", b"/api/x", b"/../A/www/index.html", b"/none"))
                if not self.one(rec, via, path, rng.choice(("10.0.0.1", "10.0.0.2", "10.0.0.66"))):
                    break
        h.close()
        if ex:
            rec["out"] = self.read("out")
        elif la:
            self.out.append({"k": "end", "id": next(ids), "log": self.read("log/wayuu.log")})

    def read(self, n):
        try:
            return bl(open(self.d + "/" + n, "rb").read())
        except OSError:
            return []

    def one(self, rec, via, path, ip):
        r = self.x(b"GET " + path + b" HTTP/1.1\r\nHost: h\r\n\r\n", ip=ip, tls=via == "tls", to=4000)
        r["k"], r["via"] = "cx", via
        return r["alive"]


def version():
    global VERSION
    if VERSION is None:
        import build, re
        VERSION = re.search(r'define WAYUU_WS_VERSION "(.*)"', open(build.REPO + "/http_utils.h").read()).group(1)
    return VERSION


def where(c, a, names):
    """puts the scratch folder's names in for /A, /B, .."""
    for k in ("/A", "/B", "/missing", "/file", "/nocert", "/nokey", "/badcert"):
        if a.endswith(k):
            p = c.d + k
            if k[1:] in c.roots:
                names[p] = k[1:]
            return a[:-len(k)] + p
    return a


@suite("clicases")
def clicases(env):
    """command lines enumerated by TLC (MC_CmdLine)"""
    c = Cli(env)
    for l in open(os.path.join(env.p["dir"], "cli.txt")).read().splitlines()[env.k::env.p["of"]]:
        names = {}
        c.run([where(c, bytes(a).decode(), names) for a in json.loads(l)], names, exchanges=env.rng.choice((0, 2)))
    env.judge("TraceCli", c.finish())
    env.deaths += c.deaths


@suite("cli")
def cli(env):
    """command lines with values, lengths, forms and failures of many kinds"""
    rng = env.rng
    c = Cli(env)
    for _ in range(env.n):
        names, args = {}, []
        for _ in range(rng.choice((0, 1, 2, 3, 4, 6))):
            x = rng.random()
            if x < .3:
                y = rng.random()
                if y < .35:
                    v = where(c, rng.choice(("/A", "/B", "/A", "/B", "/A", "/B", "/nocert", "/nokey", "/badcert")), names)
                    if rng.random() < .3:
                        w = rng.choice((v + "/", v + "//", c.d + "/./" + v[len(c.d) + 1:], v[len(c.d) + 1:], "./" + v[len(c.d) + 1:]))
                        names[w], v = names[v], w
                elif y < .75:
                    v = c.long(rng.choice((100, 150, 200, 239, 240, 248, 253, 254, 255, 255, 256, 257, 270, 400)))
                    names[v] = "long%d" % len(v)
                else:
                    v = rng.choice((c.d + "/missing", "", c.d + "/file", c.d + "/A/www/index.html", c.d + "/" + "z" * rng.choice((150, 210, 254 - len(c.d), 255 - len(c.d), 300, 3000)), "/etc/wayuu"))
                args += rng.choice((["-r", v], ["-r" + v] if v else ["-r", v]))
            elif x < .45:
                v = rng.choice(("1", "80", "8080", "65535", "4443", str(rng.randrange(1, 65536)), str(rng.randrange(1, 65536)), "0", "70000", "abc", "-5", "12x"))
                args += rng.choice((["-p", v], ["-p" + v]))
            elif x < .6:
                v = rng.choice(("127.0.0.1", "0.0.0.0", "255.255.255.255", "10.20.30.40", ".".join(str(rng.randrange(256)) for _ in range(4)), "111.111.111.111", "1.2.3", "x", "1234567890123456789012345678901234567890"))
                args += rng.choice((["-b", v], ["-b" + v]))
            elif x < .88:
                args.append(rng.choice(("-d", "-f", "-f", "-df", "-fd", "-f", "-d")))
            elif x < .93:
                args.append(rng.choice(("-h", "-v", "-x", "-z", "--help", "-dv", "-fx", "-:", "-?", "-r", "-p", "-b")))
            else:
                args.append(rng.choice(("word", "-", "--", "", "d", "x" * 5000)))
        c.run(args, names, bindfail=rng.choice((98, 13)) if rng.random() < .05 else 0, exchanges=rng.choice((1, 3, 5)))
    env.judge("TraceCli", c.finish())
    env.deaths += c.deaths
