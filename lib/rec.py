"""Drives the server through the harness and records what happened, as the trace format of spec/TraceSeq.tla."""
import os, json, shutil, itertools, ssl
import core
from hx import Harness, Dead, hx

NOV = [-1]
UNREAD = [-2]


def by(x):
    """hex text of an event -> list of byte values; '!' stands for a NULL pointer"""
    if x is None or x == "!":
        return NOV
    return list(bytes.fromhex(x))


def bl(b):
    return list(b.encode("latin-1") if isinstance(b, str) else b)


class World:
    """A scratch directory with a root folder for the server and files that must stay private next to it."""

    def __init__(self, scratch):
        self.d = scratch
        self.root = scratch + "/root"
        for p in ("root/www", "root/etc", "root/ssl", "log"):
            os.makedirs(scratch + "/" + p, exist_ok=True)
        self.tree = {}
        self.unread = []
        self.secrets = []
        for n in ("cert.pem", "key.pem"):
            shutil.copy(os.path.join(core.HERE, "harness", "tls", n), self.root + "/ssl/" + n)

    def file(self, path, content):
        """a file of the document root"""
        self.tree[path] = content
        p = self.root + "/www" + path
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content)

    def folder(self, path):
        os.makedirs(self.root + "/www" + path, exist_ok=True)

    def secret(self, path, marker):
        p = self.d + "/" + path
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(marker)
        self.secrets.append(marker)

    def etc(self, name, content):
        p = self.root + "/etc/" + name
        if content is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(content)

    def etc_now(self, name):
        p = self.root + "/etc/" + name
        if "/etc/" + name in self.unread and os.path.exists(p):
            return UNREAD
        return bl(open(p, "rb").read()) if os.path.exists(p) else NOV


ids = itertools.count(1)


def client_hello(rng):
    """what a TLS client sends first"""
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
    v = rng.choice((None, ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3))
    if v:
        c.minimum_version = c.maximum_version = v
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    s = c.wrap_bio(i, o, server_hostname="h%d" % rng.randrange(100))
    try:
        s.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


class Session:
    """One server process with one configuration; restarted when it dies."""

    def __init__(self, exe, world, routes=(), ask=(), index=b"/index.html", favicon=b"/favicon.ico", tls=False, env=None, launch=True, pool=0):
        self.exe, self.w, self.routes, self.ask = exe, world, list(routes), list(ask)
        self.index, self.favicon, self.tls, self.env = index, favicon, tls, env
        self.h = None
        self.launch = launch
        self.pool = pool
        self.module = "TraceSeq"
        core.OPEN.append(self)
        self.out = []
        self.deaths = []
        self.raw = {}
        self.start()
        self.cfg()

    def start(self):
        self.h = Harness(self.exe, self.w.d, self.w.root, self.env)
        h = self.h
        h.quiet("ssl %d" % (1 if self.tls else 0))
        h.quiet("index " + hx(self.index))
        h.quiet("favicon " + hx(self.favicon))
        for a in self.ask:
            h.quiet("ask " + hx(a))
        for r in self.routes:
            h.route(*r)
        if self.w.unread:
            self._unread()
        if self.pool:
            h.quiet("pool %d" % self.pool)
        if self.launch:
            self.launched = h.cmd("launch")
        self.logoff = self._logsize()
        self.updir = self._ups()

    def _unread(self):
        self.h.quiet("unread")
        for p in self.w.unread:
            self.h.quiet("unread " + hx((self.w.root + p).encode("latin-1")))

    def unread(self, paths=()):
        """from now on these files (below the root folder) can't be opened"""
        self.w.unread = [p for p in paths if os.path.exists(self.w.root + p)]
        self._unread()
        self.cfg()

    def cfg(self):
        w = self.w
        self.out.append({"k": "cfg", "id": next(ids),
                         "routes": [self._route(r) for r in self.routes],
                         "tree": [{"p": bl(p), "x": bl(c)} for p, c in w.tree.items() if "/www" + p not in w.unread],
                         "index": bl(self.index), "favicon": bl(self.favicon), "ask": [bl(a) for a in self.ask],
                         "limits": (w.etc_now("limits") if w.etc_now("limits") != NOV else []),
                         "allow": w.etc_now("allow"), "deny": w.etc_now("deny"),
                         "www": bl(w.root + "/www"), "okdirs": [bl(w.root + "/www")],
                         "okopen": [bl(w.root + "/etc/" + n) for n in ("allow", "deny", "limits")],
                         "secrets": [bl(s) for s in w.secrets]})

    def _route(self, r):
        t, hk, fk, st, pl = (list(r) + [0, 200, b"{}"][len(r) - 2:])[:5]
        return {"t": bl(t), "hk": hk, "fk": fk, "st": st, "pl": bl(pl)}

    def _logpath(self):
        return self.w.d + "/log/wayuu-access.log"

    def _logsize(self):
        try:
            return os.path.getsize(self._logpath())
        except OSError:
            return 0

    def newlog(self):
        try:
            with open(self._logpath(), "rb") as f:
                f.seek(self.logoff)
                b = f.read()
        except OSError:
            b = b""
        self.logoff += len(b)
        return [bl(l) for l in b.splitlines(keepends=True)] if b.count(b"\r") == 0 else [bl(l + b"\n") for l in b.split(b"\n")[:-1]]

    def _ups(self):
        d = self.w.d + "/up"
        out = {}
        try:
            for e in os.scandir(d):
                s = e.stat()
                out[e.name] = (s.st_mtime_ns, s.st_size, s.st_ino)
        except OSError:
            pass
        return out

    def newups(self):
        now = self._ups()
        new = [n for n in now if self.updir.get(n) != now[n]]
        self.updir = now
        return [{"n": bl(n), "x": bl(open(self.w.d + "/up/" + n, "rb").read())} for n in sorted(new)]

    def dir(self):
        self.out.append({"k": "dir", "id": next(ids),
                         "files": [{"n": bl(n), "x": bl(open(self.w.d + "/up/" + n, "rb").read())} for n in sorted(self._ups())]})

    def evs(self, events, cid):
        out = []
        for e in events:
            if e["e"] in ("henter", "filter") and e.get("c") == cid:
                r = {"k": "h" if e["e"] == "henter" else "f", "i": e["i"] + 1, "res": e.get("res", 1),
                     "method": by(e["method"]), "path": by(e["path"]), "query": by(e["query"]), "form": by(e["form"]),
                     "session": by(e["session"]), "ip": by(e["ip"]), "url": by(e["url"]), "ctype": by(e["ctype"]),
                     "hdrs": [[by(a), by(b)] for a, b in e.get("hdrs", [])],
                     "asked": [by(e.get("ask%d" % i, "")) for i in range(len(self.ask))] if e["e"] == "henter" else [],
                     "raw": by(e["raw"]) if "raw" in e else NOV, "sent": []}
                out.append(r)
            elif e["e"] == "sent" and e.get("c") == cid:
                for r in reversed(out):
                    if r["k"] == "h":
                        r["sent"] = by(e["x"])
                        break
        return out

    def record(self, cid, ip, segs, mode, events, resp, alive=1, tls=False):
        """assembles the exchange record of one connection out of the harness events"""
        anom = sum(1 for e in events if e["e"] == "anom" or (e["e"] == "close" and e.get("own") == 2))
        return {"k": "x", "id": next(ids), "ip": bl(ip), "req": bl(b"".join(segs)), "mode": mode,
                "tls": 1 if tls else 0, "raw": resp.get("rec", 1) if tls and mode not in ("a", "A") else 1,
                "cn": resp.get("cn", 1) if tls and mode not in ("a", "A") else 1,
                "hs": resp.get("hs", 0), "resp": by(resp.get("x", "")), "alive": alive, "closed": resp.get("closed", 0),
                "settled": resp.get("settled", 0), "evs": self.evs(events, cid), "anom": anom,
                "opens": [by(e["p"]) for e in events if e["e"] == "open" and e.get("c") == cid]}

    def x(self, segs, ip="10.0.0.1", mode="n", to=4000, tls=None, note=None, lazy=False, fails=()):
        """fails: (errno, how often) of accept before the connection"""
        core.tick()
        if isinstance(segs, bytes):
            segs = [segs]
        tls = self.tls if tls is None else tls
        cid = next(ids)
        if note in ("tls2", "tls3"):
            how = note
        else:
            how = "tls"
        line = "exch %d %s %s %d %s%s" % (cid, ip, mode + ("z" if lazy else ""), to, ",".join(hx(s) for s in segs) or "-", " " + how if tls else "")
        try:
            for f in fails:
                self.h.cmd("accfail %d %d" % f)
            ev = self.h.cmd(line, timeout=to / 1000.0 + 20)
            dead = any(e["e"] in ("exit", "returned") for e in ev)
        except Dead as d:
            ev, dead = getattr(d, "events", []), True
        resp = next((e for e in ev if e["e"] == "resp" and e["c"] == cid), {})
        r = self.record(cid, ip, segs, mode, ev, resp, 0 if dead else 1, tls)
        if note:
            r["note"] = note
        if dead:
            r["log"], r["up"] = [], []
            self.deaths.append({"id": r["id"], "stderr": self.h.stderr()[-3000:]})
            self.h.kill()
            self.out.append(r)
            self.start()
        else:
            r["log"], r["up"] = self.newlog(), self.newups()
            self.out.append(r)
        return r

    def settle(self):
        """what the server holds when nothing goes on; None when it is not there any more"""
        try:
            return next(e for e in self.h.cmd("settle 3000") if e["e"] == "settled")
        except Dead:
            return None

    def endure(self, what, n, one, warm=12):
        """the same thing again and again, in three rounds: what the server holds more of after each of them than before"""
        for _ in range(warm):
            one()
        at, deaths = [self.settle()], len(self.deaths)
        for _ in range(3):
            for _ in range(n // 3):
                one()
            at.append(self.settle())
        if all(at) and deaths == len(self.deaths):
            grown = lambda f: min(b[f] - a[f] for a, b in zip(at, at[1:]))
            self.out.append({"k": "endure", "id": next(ids), "what": what, "n": n // 3, "ok": at[-1]["ok"], "fds": grown("fds"), "ssl": grown("ssl"), "mem": grown("mem")})

    def close(self):
        self.h.close()
        if self in core.OPEN:
            core.OPEN.remove(self)
        return self.out

    def finish(self):
        self.h.kill()
        return self.close()
