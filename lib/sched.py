"""Schedules of the real server, recorded event by event, for spec/TraceServer.tla and spec/TraceSeq.tla."""
import json
import core
from core import suite, Broken
from rec import World, Session, bl, by, ids, NOV
from hx import Harness, Dead, hx
import gen

KEEP = {"conn": ("c",), "acc": ("c", "fd"), "touch": ("t", "c"), "henter": ("t", "c"), "hexit": ("t", "c"), "close": ("t", "c", "st", "own"),
        "anom": ("t", "op"), "accfail": (), "still": (), "phase": ()}


class Scn:
    """One scenario: a server configuration and what its clients do."""

    def __init__(self, env, name, routes, files=None, limits=None, allow=None, deny=None, workers=3, custom=False, cap=1024, ask=()):
        self.ask = list(ask)
        self.env, self.routes, self.workers, self.custom, self.cap = env, routes, workers, custom, cap
        w = self.w = World(env.sub(name))
        for p, c in (files or {"/index.html": b"<html>index</html>"}).items():
            w.file(p, c)
        w.etc("limits", limits)
        w.etc("allow", allow)
        w.etc("deny", deny)
        self.conns, self.fails = [], []

    def conn(self, req, ip="10.0.0.1", mode="n", phase=0, hold=0, eager=1, fake=0, segs=None):
        self.conns.append(dict(req=req, ip=ip, mode=mode, phase=phase, hold=hold, eager=eager, fake=fake, segs=segs or [req]))

    def fail(self, errno, phase=0):
        self.fails.append((len(self.conns), errno, phase))

    def run(self, count, seed, strategy=None, exchanges=0):
        """exchanges: how many schedules to run first in which every connection is alone; what each client then gets and
        its handler sees must also be what happens when they run together"""
        env, w = self.env, self.w
        s = Session.__new__(Session)
        s.w, s.routes, s.ask, s.index, s.favicon, s.out = w, list(self.routes), self.ask, b"/index.html", b"/favicon.ico", []
        s.cfg()
        cfgrec = s.out[0]
        solo = self.drive(exchanges, seed + 1, None, True, True) if exchanges else []
        runs = self.drive(count, seed, strategy, False, exchanges)
        env.add("schedules", len(runs))
        scn = {"k": "scn", "id": next(ids), "conns": [{"ip": bl(c["ip"]), "req": bl(c["req"]), "mode": c["mode"], "fake": c["fake"]} for c in self.conns],
               "limits": cfgrec["limits"], "allow": cfgrec["allow"], "deny": cfgrec["deny"], "cap": self.cap, "workers": list(range(2, 2 + self.workers))}
        recs, seen = [scn], set()
        for r in runs:
            ev = compact(r, self.workers)
            env.add("events", len(ev))
            k = json.dumps(ev)
            if k in seen:
                continue
            seen.add(k)
            recs.append({"k": "run", "id": next(ids), "scn": scn["id"], "ev": ev})
        env.add("distinct schedules", len(recs) - 1)
        env.judge("TraceServer", recs)
        if exchanges:
            self.exchanges(s, cfgrec, solo, runs)

    def drive(self, count, seed, strategy, alone, ctx):
        env, w = self.env, self.w
        h = Harness(env.exes["sched"], w.d, w.root)
        h.quiet("ssl 0")
        h.quiet("workers %d" % self.workers)
        h.quiet("ctx %d" % (1 if ctx else 0))
        for a in self.ask:
            h.quiet("ask " + hx(a))
        for r in self.routes:
            h.route(*r)
        if self.custom:
            h.quiet("custom")
        fails = [] if alone else list(self.fails)
        for i, c in enumerate(self.conns):
            while fails and fails[0][0] <= i:
                h.quiet("sfail %d %d" % fails.pop(0)[1:])
            h.quiet("sconn %d %s %s %d %d %d %d %s" % (i + 1, c["ip"], c["mode"], i if alone else c["phase"], 0 if alone else c["hold"], c["eager"], c["fake"], ",".join(hx(x) for x in c["segs"]) or "-"))
        for f in fails:
            h.quiet("sfail %d %d" % f[1:])
        try:
            evs = h.cmd("run %d 0 %d%s" % (seed, count, "" if strategy is None else " %d" % strategy), timeout=60 + count)
        except Dead as d:
            raise Broken("the scheduler died: %s %s" % (d, h.stderr()[-2000:]))
        h.close()
        runs = []
        for e in evs:
            if e["e"] == "begin":
                runs.append([])
            runs[-1].append(e)
        return runs

    def exchanges(self, s, cfgrec, solo, runs):
        """every answer of every schedule; the log of a schedule is judged as a whole"""
        env, out, seen = self.env, [cfgrec], set()
        for alone, r in [(1, r) for r in solo] + [(0, r) for r in runs]:
            log = [by(e["x"]) for e in r if e["e"] == "log"]
            resp = {e["c"]: e for e in r if e["e"] == "resp"}
            if any(e["e"] == "crash" for e in r):
                out.append({"k": "group", "id": next(ids), "alone": alone, "crash": 1, "xs": [], "log": []})
                continue
            xs = []
            for i, c in enumerate(self.conns):
                cid = i + 1
                if c["fake"] or cid not in resp:
                    continue
                x = s.record(cid, c["ip"], c["segs"], c["mode"], r, {"x": resp[cid]["x"], "closed": 1, "settled": 1})
                x["k"], x["c"], x["anom"], x["log"] = "solo" if alone else "with", cid, 0, []
                x["up"] = [{"n": by(e["n"]), "x": by(e["x"])} for e in r if e["e"] == "up" and e["c"] == cid]
                xs.append(x)
                k = json.dumps({a: b for a, b in x.items() if a != "id"})
                if k not in seen:
                    seen.add(k)
                    out.append(x)
            g = {"k": "group", "alone": alone, "crash": 0, "xs": [{"ip": x["ip"], "req": x["req"], "mode": x["mode"], "resp": x["resp"]} for x in xs],
                 "log": [l[:-6] + [48, 46, 48, 48, 48, 10] if l[-1:] == [10] and l[-5:-4] == [46] else l for l in log]}
            k = json.dumps(g)
            if k not in seen:
                seen.add(k)
                out.append(dict(g, id=next(ids)))
        env.add("exchanges in schedules", sum(1 for x in out if x["k"] == "with"))
        env.judge("TraceSeq", out)


def compact(r, workers):
    ev, lost = [], 0
    for e in r:
        k = e["e"]
        if k in KEEP:
            if e.get("c", 0) < 0 and k == "conn":
                continue
            d = {"e": k}
            for f in KEEP[k]:
                d[f] = e.get(f, 0)
            ev.append(d)
        elif k == "thr" and e["role"] == 2 and e["state"] == 7:
            lost += 1
        elif k == "end":
            ev.append({"e": "end", "why": e["why"], "fds": e["fds"], "lost": lost})
        elif k in ("crash", "exit", "returned"):
            ev.append({"e": "crash"})
            break
    return ev


# ---- scenarios ----------------------------------------------------------------------------------------------------
ROUTES = [("GET:/x", 0, 0, 200, b'{"x":1}'), ("GET:/b", 0, 0, 200, b'{"b":1}'), ("POST:/p/{id}", 17), ("GET:/f", 0, 4, 200, b'{"f":1}')]


def get(path, *hs):
    return b"GET " + path + b" HTTP/1.1\r\nHost: h\r\n" + b"".join(h + b"\r\n" for h in hs) + b"\r\n"


def some_request(rng, paths):
    p = rng.choice(paths)
    if p.startswith(b"/api/p/"):
        b = gen.pick(rng, gen.ALNUM, rng.randrange(0, 12))
        return b"POST " + p + b" HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % len(b) + b
    return get(p)


def cuts(rng, r):
    if rng.random() < .6:
        return [r]
    k = rng.randrange(1, len(r))
    return [r[:k], r[k:]]


@suite("sched-dispatch", ("sched",))
def dispatch(env):
    """connections of every kind, few workers, several waves, failed accepts"""
    rng = env.rng
    for g in range(env.p.get("scn", 2)):
        deny = b"10.9.9.9\n" if rng.random() < .4 else None
        s = Scn(env, "d%d" % g, ROUTES, workers=rng.choice((1, 2, 2, 3, 4)), deny=deny)
        phases = rng.choice((1, 2, 2, 3))
        for p in range(phases):
            for _ in range(rng.randrange(2, 6)):
                r = some_request(rng, (b"/api/x", b"/api/b", b"/api/p/7", b"/", b"/api/none", b"/api/f"))
                mode = rng.choice("nnnnsa")
                segs = cuts(rng, r)
                if rng.random() < .15:
                    r = r[:rng.randrange(len(r))]
                    segs = [r] if r else []
                    mode = rng.choice("sa")
                s.conn(r, ip=rng.choice(("10.0.0.1", "10.0.0.2", "10.9.9.9")), mode=mode, phase=p, hold=rng.choice((0, 0, 1, 3, 99, 99)), eager=rng.randrange(2), segs=segs)
                if env.p.get("fails") or rng.random() < .1:
                    if rng.random() < .5:
                        s.fail(rng.choice((103, 4, 24, 23, 12, 105, 71, 11)), p)
        s.run(env.n, rng.randrange(1 << 30), exchanges=env.p.get("exchanges", 0))


@suite("sched-limits", ("sched",))
def limited(env):
    """requests under limits: at, below and above them, together and one after the other"""
    rng = env.rng
    for g in range(env.p.get("scn", 2)):
        rules = rng.choice((b"/api,1,1,10\n", b"/api,2,1,10\n", b"/api,2,2,10\n/api/b,1,1,5\n", b"/api/b,1,9\n/api,3,2\n", b"/api/x,0,0,1\n/api,2,2\n", b"/,2,1,9\n", b"/api/b,5,1\n/api/x,1,5\n",
                            b"/API/X,1,1\n", b"/api/x,3,3\n"))
        ips = rng.choice((("10.0.0.1", "10.0.0.2"), ("10.0.0.1", "10.0.0.11"), ("10.0.0.1", "10.0.0.1", "110.0.0.1")))
        s = Scn(env, "l%d" % g, ROUTES, workers=rng.choice((2, 3, 3, 4)), limits=rules)
        phases = rng.choice((1, 2, 2, 3))
        for p in range(phases):
            for _ in range(rng.randrange(2, 5)):
                r = some_request(rng, (b"/api/x", b"/api/x", b"/api/b", b"/api/p/7", b"/index.html", b"/api/none", b"/api/x?q=1"))
                mode = rng.choice("nnnnnsa")
                segs = cuts(rng, r)
                if rng.random() < .1:
                    r = r[:rng.randrange(len(r))]
                    segs = [r] if r else []
                    mode = rng.choice("sa")
                s.conn(r, ip=rng.choice(ips), mode=mode, phase=p, hold=rng.choice((0, 0, 2, 99, 99, 99)), eager=rng.randrange(2), segs=segs)
        s.run(env.n, rng.randrange(1 << 30), exchanges=env.p.get("exchanges", 0))


@suite("sched-reuse", ("sched",))
def reuse(env):
    """connections that end while others begin on the descriptors they leave"""
    rng = env.rng
    for g in range(env.p.get("scn", 2)):
        s = Scn(env, "r%d" % g, ROUTES, workers=3, limits=rng.choice((b"/api/b,1,1,10\n", b"/api/b,1,1,10\n/api/x,2,2\n")))
        for i in range(rng.choice((2, 2, 3))):
            r = get(rng.choice((b"/api/x", b"/api/x", b"/index.html")))
            s.conn(r, ip="10.0.0.%d" % (i + 1), hold=rng.choice((0, 0, 1, 2)), eager=1)
        for i in range(rng.choice((2, 2, 3))):
            s.conn(get(b"/api/b"), ip="10.0.0.%d" % rng.choice((1, 7, 8, 9)), hold=99, eager=1)
        s.conn(get(b"/api/b"), ip="10.0.0.1", phase=1)
        s.run(env.n, rng.randrange(1 << 30), strategy=rng.choice((None, 3, 3)))


ISO = [("GET:/e", 17), ("POST:/e", 17), ("PUT:/e", 17), ("GET:/p/{id}", 17), ("POST:/p/{id}", 17), ("POST:/f", 17, 5), ("GET:/t", 17, 4), ("GET:/j", 0, 0, 200, b'{"j":1}'),
       ("GET:/n", 4), ("GET:/d", 17, 2), ("POST:/w", 9, 0, 200, b"said no")]
ASK = [b"X-Token", b"Host", b"User-Agent", b"X-Session"]


def tell(rng, i, twins=False):
    """a request of which every part tells to whom it belongs"""
    m = b"%c%d" % (65 + i, rng.randrange(1000))
    mk = lambda n: (m * (n // len(m) + 1))[:n]
    if not twins and rng.random() < .2:
        return gen.request(rng, rng.choice((b"/api/e", b"/api/p/" + mk(5), b"/index.html", b"/api/j")), methods=[b"GET", b"POST"])
    if twins or rng.random() < .08:      # uploads that differ in their content only
        b = b"".join(b'--same\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\n' + mk(k) + b"\r\n" for k in rng.choice(((20,), (20, 30)))) + b"--same--\r\n"
        return b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=same\r\nContent-Length: %d\r\n\r\n" % len(b) + b
    if rng.random() < .25:
        ct, b = gen.multipart(rng, rng.choice((m, b"same")), parts=rng.choice((1, 1, 2)))
        return gen.finish(rng, b"POST", rng.choice((b"/api/e", b"/api/f", b"/api/p/" + mk(6))), with_session=rng.random() < .5, ctype=ct, payload=b)
    path = rng.choice((b"/api/e", b"/api/p/" + mk(rng.randrange(1, 30)), b"/api/f", b"/api/t", b"/api/j", b"/api/n", b"/api/d", b"/api/w", b"/api/none/" + m, b"/f%d.txt" % (i + 1), b"/sub/", b"/"))
    if rng.random() < .5:
        path += b"?" + mk(rng.randrange(1, 40))
    post = path.split(b"?")[0] in (b"/api/f", b"/api/w") or path.startswith(b"/api") and rng.random() < .4
    hs = [(n, mk(rng.randrange(1, 40))) for n in rng.sample((b"X-Session", b"Authorization", b"Referer", b"User-Agent", b"X-Real-IP", b"Host", b"X-" + m, b"Accept"), rng.randrange(0, 5))]
    if rng.random() < .4:
        hs.append((b"Cookie", b"a=%s; WSSESSION=%s; b=c" % (m, mk(20))))
    if rng.random() < .5:
        hs.append((b"X-Token", rng.choice((b"yes", b"no"))))
    b = b""
    if post:
        b = rng.choice((b"ok=", b"")) + mk(rng.randrange(0, 120))
        hs.append((b"Content-Type", b"text/" + m))
        hs.append((b"Content-Length", b"%d" % len(b)))
    rng.shuffle(hs)
    return (b"POST " if post else b"GET ") + path + b" HTTP/1.1\r\n" + b"".join(gen.line(rng, n, v) for n, v in hs) + b"\r\n" + b


@suite("sched-iso", ("sched",))
def iso(env):
    """requests in progress together that have nothing in common"""
    rng = env.rng
    files = {"/index.html": b"<html>index</html>", "/f1.txt": b"one" * 50, "/f2.txt": b"two" * 70, "/f3.txt": b"3", "/f4.css": b"4" * 3000, "/sub/index.html": b"<sub>"}
    for g in range(env.p.get("scn", 3)):
        s = Scn(env, "i%d" % g, ISO, files=files, workers=rng.choice((2, 2, 3, 4)), ask=ASK, limits=rng.choice((None, None, b"/api,50,50,100\n/,90,90\n")))
        twins = rng.random() < .15
        for i in range(rng.choice((2, 2, 3, 4))):
            r = tell(rng, i, twins)
            s.conn(r, ip="10.%d.0.%d" % (i, i + 1), mode=rng.choice("nnnnns"), hold=rng.choice((0, 0, 0, 2, 99)), eager=rng.randrange(2), segs=cuts(rng, r) if rng.random() < .3 else [r])
        s.run(env.n, rng.randrange(1 << 30), exchanges=8)


@suite("sched-queue", ("sched",))
def queue(env):
    """the queue at its capacity: many connections, few workers"""
    rng = env.rng
    w = rng.choice((1, 2, 3))
    s = Scn(env, "q", ROUTES, workers=w, custom=True)
    total = 1024 + w + rng.choice((-2, -1, 0, 1, 2, 5))
    for i in range(total):
        s.conn(b"", fake=1, hold=99 if i < w else rng.choice((0, 0, 1)), segs=[])
    for i in range(rng.randrange(3, 30)):
        s.conn(b"", fake=1, phase=1, segs=[])
    s.run(env.n, rng.randrange(1 << 30))


# ---- free running, with handlers that are held ---------------------------------------------------------------------
class Live:
    """A free running server; what happens becomes runs for TraceServer, with rest points where nothing can move."""

    def __init__(self, env, name, routes, limits=None, pool=200):
        self.env, self.routes = env, routes
        w = self.w = World(env.sub(name))
        w.file("/index.html", b"<html>index</html>")
        w.etc("limits", limits)
        self.h = Harness(env.exes["free"], w.d, w.root)
        self.h.quiet("ssl 0")
        self.h.quiet("ctx 0")
        for r in routes:
            self.h.route(*r)
        self.h.cmd("launch")
        self.pool = pool
        self.limits = bl(limits) if limits else []
        self.recs = []
        self.module = "TraceServer"
        core.OPEN.append(self)
        self.fresh()

    def fresh(self):
        self.ev, self.conns, self.num, self.tids, self.dead = [], [], {}, {}, False

    def tid(self, t):
        return self.tids.setdefault(t, 2 + len(self.tids))

    def cmd(self, line, timeout=30):
        if self.dead:
            return []
        core.tick()
        try:
            out = self.h.cmd(line, timeout)
        except Dead as d:
            out = getattr(d, "events", []) + [{"e": "crash"}]
            self.dead = True
            self.env.deaths.append({"id": 0, "stderr": self.h.stderr()[-3000:]})
        for e in out:
            k = e["e"]
            if k in KEEP and k != "conn":
                d = {"e": k}
                for f in KEEP[k]:
                    d[f] = e.get(f, 0)
                if "c" in d:
                    if d["c"] not in self.num:
                        continue
                    d["c"] = self.num[d["c"]]
                if "t" in d:
                    d["t"] = self.tid(d["t"]) if k in ("touch", "henter", "hexit") else self.tids.get(d["t"], 0)
                self.ev.append(d)
            elif k in ("crash", "exit", "returned"):
                self.ev.append({"e": "crash"})
        return out

    def begin(self, req, ip="10.0.0.1", hold=1):
        cid = next(ids)
        self.conns.append(dict(req=req, ip=ip, cid=cid))
        n = len(self.conns)
        self.num[cid] = n
        self.ev.append({"e": "conn", "c": n})
        self.cmd("open %d %s %d" % (cid, ip, hold))
        self.cmd("send %d %s" % (cid, hx(req)))
        return n

    def held(self, n, ms=3000):
        out = self.cmd("waitheld %d %d" % (n, ms))
        return next((e["n"] for e in out if e["e"] == "held"), 0)

    def entered(self, n, k):
        """whether the request is in its handler, as the k-th that is held; else it has ended"""
        out = self.cmd("waitany %d %d 3000" % (self.conns[n - 1]["cid"], k))
        return next((e["n"] for e in out if e["e"] == "held"), 0) >= k

    def result(self, n, ms=3000):
        """waits for the end of a connection, and notes its status"""
        cid = self.conns[n - 1]["cid"]
        out = self.cmd("wait %d %d nosettle" % (cid, ms))
        r = next((e for e in out if e["e"] == "resp"), None)
        st = 0
        if r and r["x"]:
            x = bytes.fromhex(r["x"])
            st = int(x[9:12]) if x[:5] == b"HTTP/" and x[9:12].isdigit() else 999
        for e in self.ev:
            if e["e"] == "close" and e["c"] == n:
                e["st"] = st
        return st if r and r.get("closed") else None

    def release(self, n):
        self.cmd("unhold %d" % self.conns[n - 1]["cid"])
        return self.result(n)

    def still(self):
        self.ev.append({"e": "still"})

    def end(self):
        """everything has ended"""
        for i in range(len(self.conns)):
            if not any(e["e"] == "close" and e["c"] == i + 1 for e in self.ev):
                self.release(i + 1)
        out = self.cmd("settle 3000")
        st = next((e for e in out if e["e"] == "settled"), {"fds": 0, "ok": 0})
        if not self.dead:
            self.ev.append({"e": "end", "why": "quiescent", "fds": 1 + max(0, st["fds"]), "lost": 0})
        scn = {"k": "scn", "id": next(ids), "conns": [{"ip": bl(c["ip"]), "req": bl(c["req"]), "mode": "n", "fake": 0} for c in self.conns],
               "limits": self.limits, "allow": NOV, "deny": NOV, "cap": 1024, "workers": list(range(2, 2 + max(self.pool, len(self.tids))))}
        self.recs += [scn, {"k": "run", "id": next(ids), "scn": scn["id"], "ev": self.ev}]
        self.env.add("histories")
        dead = self.dead
        self.fresh()
        return not dead

    def close(self):
        self.env.judge("TraceServer", self.finish())

    def finish(self):
        self.h.kill()
        core.OPEN.remove(self)
        return self.recs


@suite("pool")
def pool(env):
    """200 requests in progress at once: all have entered their handlers before any of them ends; then more wait, in order"""
    rng = env.rng
    s = Live(env, "p", ROUTES)
    for _ in range(env.n):
        more = rng.randrange(2, 12)
        order = list(range(1, 201 + more))
        for i in order:
            s.begin(get(b"/api/x"), ip="10.0.%d.%d" % (i % 3, i % 200))
        s.held(200)
        s.still()
        for i in rng.sample(range(1, 201), rng.randrange(1, more + 1)):
            s.release(i)
            s.held(200, 1000)
            s.still()
        if not s.end():
            break
    s.close()


@suite("histories")
def histories(env):
    """histories that TLC enumerated (Histories): which requests run together, which are refused"""
    byrules = {}
    for l in open(env.p["dir"] + "/histories.txt").read().splitlines()[env.k::env.p["of"]]:
        c = json.loads(l)
        byrules.setdefault(c["rules"], []).append(c["h"])
    for g, (rules, hs) in enumerate(sorted(byrules.items())):
        s = Live(env, "h%d" % g, ROUTES + [("GET:/xy", 0, 0, 200, b'{"xy":1}'), ("GET:/p/{id}", 0, 0, 200, b"{}")], limits=rules.replace(";", "\n").encode(), pool=8)
        for h in hs:
            at, running = {}, 0
            for k, st in enumerate(h):
                if st["a"] == "begin":
                    u = st["u"].encode()
                    n = at[k + 1] = s.begin(get(u), ip=st["ip"])
                    if s.entered(n, running + 1):
                        running += 1
                        at[-n] = 1
                    else:
                        s.result(n)
                elif -at[st["k"]] in at:
                    s.release(at[st["k"]])
                    running -= 1
                s.still()
            if not s.end():
                break
        s.close()
