"""Calls of the library's helpers, recorded for spec/TraceLib.tla."""
import os, json, shutil, time
import core
from core import suite
from rec import bl, by, ids, NOV
from hx import Harness, Dead, hx
import gen


def lst(xs):
    return ",".join(hx(x) for x in xs) if xs else "none"


class Lib:
    """One process that makes calls; what it answers becomes records."""

    def __init__(self, env, name="lib", tz=None):
        self.env, self.d, self.tz = env, env.sub(name), tz
        # some jobs use the hardened build
        self.kind = "hard" if "hard" in env.exes and env.k % 4 == 1 else "lib"
        self.module = "TraceLib"
        self.recs, self.todo, self.h = [], [], None
        core.OPEN.append(self)
        self.start()

    def start(self):
        if self.h:
            self.h.kill()
        self.h = Harness(self.env.exes[self.kind], self.d, None, {"TZ": self.tz or "UTC"})
        os.makedirs(self.d + "/fs", exist_ok=True)
        self.h.quiet("scratch " + self.d + "/fs")

    def call(self, f, line, a=(), n=(), conv=None, **more):
        """a call whose answer is read later, with those of others"""
        self.todo.append((f, "call " + f + (" " + line if line else ""), dict(a=[bl(x) for x in a], n=list(n), **more), conv))
        if len(self.todo) >= 200:
            self.flush()

    def record(self, f, extra, conv, out):
        r = {"k": "call", "id": next(ids), "f": f, "alive": 1, "esc": 0, "same": 1}
        r.update(extra)
        if out is None:
            r["alive"], r["r"] = 0, 0
            self.env.deaths.append({"id": r["id"], "stderr": self.h.stderr()[-3000:]})
        else:
            r["esc"] = min(out["esc"], 1000)
            r["r"] = out["r"]
            if isinstance(out["r"], str):
                r["r"] = by(out["r"])
            elif isinstance(out["r"], list):
                r["r"] = [by(x) for x in out["r"]]
            if "in" in out and r["a"]:
                r["same"] = 1 if by(out["in"]) == r["a"][0] else 0
            if "items" in out:
                r["items"] = [{"key": by(i["key"]), "value": by(i["value"]), "multi": [by(m) for m in i["multi"]], "n": i["n"]} for i in out["items"]]
            if conv:
                conv(r, out)
        self.recs.append(r)
        return r

    def flush(self):
        core.tick()
        todo, self.todo = self.todo, []
        while todo:
            n = 0
            try:
                self.h.out += "".join(l + "\n" for _, l, _, _ in todo).encode()
                self.h.pump()
                for f, line, extra, conv in todo:
                    out = self.read()
                    self.record(f, extra, conv, out)
                    n += 1
                return
            except (Dead, OSError):
                f, line, extra, conv = todo[n]
                self.h.p.wait()
                self.record(f, extra, conv, None)
                todo = todo[n + 1:]
                self.start()

    def read(self):
        out = self.h.cmd("", timeout=30)
        return out[0]

    def now(self, f, line, a=(), n=(), conv=None, **more):
        self.call(f, line, a, n, conv, **more)
        self.flush()
        return self.recs[-1]

    def close(self):
        self.env.judge("TraceLib", self.finish())

    def finish(self):
        todo, self.todo = self.todo, []
        self.h.kill()
        if self in core.OPEN:
            core.OPEN.remove(self)
        return self.recs


# ---- texts ----------------------------------------------------------------------------------------------------------
def textcalls(L, rng, s, d=b",", some=None):
    """all text helpers on one text; calls is a list of (f, line, a, n, more)"""
    cs = [("split", "%s %s" % (hx(s), hx(d[:1])), [s, d[:1]], [], {}),
          ("split_once", "%s %s" % (hx(s), hx(d)), [s, d], [], {}),
          ("trim", hx(s), [s], [], {}),
          ("rtrim", "%s %d" % (hx(s), d[0]), [s], [d[0]], {}),
          ("alnum", hx(s), [s], [], {})]
    if all(c < 128 for c in s):
        cs.append(("chop", hx(s), [s], [], {}))
    st = rng.randrange(len(s) + 1)
    cs.append(("find", "%s %s %d %d" % (hx(s), hx(d), st, len(s)), [s, d], [st, len(s)], {}))
    if len(s) > 1 and len(s) < 800:
        toks = [t for t in s.split(d[:1]) if t]
        if toks:
            j = rng.choice((b",", b"", b"--", d))
            cs.append(("join", "%s %s" % (lst(toks), hx(j)), [j], [], {"list": [bl(t) for t in toks]}))
        k = rng.randrange(len(s) + 1)
        p = s[:k] if rng.random() < .5 else bytes(c ^ 32 if 65 <= c <= 90 or 97 <= c <= 122 else c for c in s[:k])
        cs.append(("startswith", "%s %s" % (hx(s), hx(p)), [s, p], [], {}))
    return cs


def sometext(rng):
    m = rng.random()
    if m < .3:
        return gen.pick(rng, b"ab,; \t", rng.randrange(0, 30))
    if m < .6:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 60)))
    if m < .8:
        return b",".join(gen.pick(rng, b"abcxyzABC09 \t\r\n\v\f\xa0\xff-", rng.randrange(0, 8)) for _ in range(rng.randrange(0, 51)))
    if m < .95:
        return gen.pick(rng, gen.ALNUM + b" ", gen.near(rng, 255, 256, 1022, 1023, 500, small=100))
    return gen.pick(rng, b" \t\n\v\f\r", rng.randrange(0, 10)) + gen.pick(rng, gen.ALNUM, rng.randrange(0, 10)) + gen.pick(rng, b" \t\n\v\f\r", rng.randrange(0, 10))


@suite("textcases", ("lib", "hard"))
def textcases(env):
    """every text of the model MC_Text, through every helper"""
    L = Lib(env)
    for l in open(env.p["dir"] + "/texts.txt").read().splitlines()[env.k::env.p["of"]]:
        s = bytes(json.loads(l))
        for f, line, a, n, more in textcalls(L, env.rng, s, env.rng.choice((b",", b",", b"a,", b",,"))):
            L.call(f, line, a, n, **more)
    L.flush()
    L.close()


@suite("text", ("lib", "hard"))
def text(env):
    """random texts, lists, needles; single threaded"""
    rng = env.rng
    L = Lib(env)
    for _ in range(env.n):
        s = sometext(rng)
        d = rng.choice((b",", b";", b" ", b":", b"\n", bytes([rng.randrange(1, 256)]), b", ", b"ab", b"::"))
        if any(len(t) > 1023 for t in s.split(d[:1])) or len([t for t in s.split(d[:1]) if t]) > 50:
            s = s[:50]
        for f, line, a, n, more in textcalls(L, rng, s, d):
            L.call(f, line, a, n, **more)
        # a needle that is nearly there
        p = gen.pick(rng, b"ab", rng.randrange(1, 5))
        h = gen.pick(rng, b"ab", rng.randrange(0, 40)) + (b"\0" if rng.random() < .3 else b"") + gen.pick(rng, b"ab", rng.randrange(0, 10))
        b = rng.randrange(len(h) + 1) if rng.random() < .5 else len(h)
        st = rng.randrange(b + 1)
        L.call("find", "%s %s %d %d" % (hx(h), hx(p), st, b), [h, p], [st, b])
        ps = [gen.pick(rng, b"abAB", rng.randrange(1, 4)) for _ in range(rng.randrange(0, 5))]
        t = gen.pick(rng, b"abAB", rng.randrange(0, 6))
        L.call("startswithany", "%s %s" % (hx(t), lst(ps)), [t], list=[bl(x) for x in ps])
        toks = [gen.pick(rng, gen.ALNUM + b", ", rng.randrange(0, 30)) for _ in range(rng.randrange(0, 60))]
        j = rng.choice((b",", b"", b"\",\"", b"xyz"))
        L.call("join", "%s %s" % (lst(toks), hx(j)), [j], list=[bl(x) for x in toks])
        w = bytes(rng.randrange(1, 128) for _ in range(rng.randrange(0, 12))) if rng.random() < .5 else gen.pick(rng, gen.ALNUM, rng.randrange(0, 12))
        L.call("alnum", hx(w), [w])
    L.flush()
    L.close()


@suite("md5", ("lib", "hard"))
def md5(env):
    rng = env.rng
    L = Lib(env)
    for i in range(env.n):
        n = gen.near(rng, 0, 55, 56, 63, 64, 119, 120, 511, 512, 513, 1023, 1024, 1025, 1536, small=300)
        s = bytes(rng.randrange(256) for _ in range(max(0, n)))
        L.call("md5", hx(s), [s])
    L.flush()
    L.close()


@suite("textpar", ("lib",))
def textpar(env):
    """the same calls by several threads at once"""
    rng = env.rng
    L = Lib(env)
    for _ in range(env.n):
        core.tick()
        cs = []
        for _ in range(rng.randrange(4, 12)):
            s = sometext(rng)[:300]
            cs += rng.sample(textcalls(L, rng, s, b","), 3)
            ps = [gen.pick(rng, b"abAB", rng.randrange(1, 4)) for _ in range(3)]
            if rng.random() < .3:
                cs.append(("md5", hx(s), [s], [], {}))
        rng.shuffle(cs)
        cs = cs[:24]
        L.h.quiet("par %d %d %d" % (rng.choice((2, 4, 8)), env.p.get("rounds", 60), len(cs)))
        try:
            out = L.h.cmd("\n".join("call %s %s" % (c[0], c[1]) for c in cs), timeout=120)
        except Dead as e:
            for f, line, a, n, more in cs[:1]:
                L.record(f, dict(a=[bl(x) for x in a], n=n, par=1, **more), None, None)
            L.start()
            continue
        for o in out:
            f, line, a, n, more = cs[o["i"]]
            L.record(f, dict(a=[bl(x) for x in a], n=n, par=1, **more), None, o["v"])
        env.add("calls by several threads", len(out))
    L.close()


# ---- JSON -----------------------------------------------------------------------------------------------------------
def jtext(rng):
    m = rng.random()
    if m < .2:
        return b""
    if m < .5:
        return gen.pick(rng, b"ab\"\\/\n\t\x01\x1f{}[]:,", rng.randrange(1, 12))
    if m < .7:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 40)))
    if m < .9:
        return gen.pick(rng, gen.ALNUM + b" ", gen.near(rng, 511, 512, 255, 256, 600, small=60))
    return b"\"" * rng.randrange(1, 50)


def someint(rng):
    return rng.choice((0, -1, 1, 9, 10, -10, 99, 2147483647, -2147483648, -2147483647, 1000000000, rng.randrange(-2147483648, 2147483648), rng.randrange(-2147483648, 2147483648), rng.randrange(-1000, 1000)))


def somejson(rng, depth=0):
    m = rng.random()
    if depth > 2 or m < .5:
        return json.dumps(rng.choice((someint(rng), jtext(rng).decode("latin-1").encode("ascii", "ignore").decode(), True, False, None)))
    if m < .75:
        return "[" + ",".join(somejson(rng, depth + 1) for _ in range(rng.randrange(0, 4))) + "]"
    return "{" + ",".join(json.dumps("k%d" % i) + ":" + somejson(rng, depth + 1) for i in range(rng.randrange(0, 4))) + "}"


@suite("jsoncases", ("lib",))
def jsoncases(env):
    L = Lib(env)
    for l in open(env.p["dir"] + "/jsons.txt").read().splitlines()[env.k::env.p["of"]]:
        xs = [bytes(x) for x in json.loads(l)]
        L.call("jstrings", lst(xs), list=[bl(x) for x in xs])
        if len(xs) == 2:
            L.call("jkv", "%s %s" % (hx(xs[0]), hx(xs[1])), xs)
            L.call("jerror", "%s %s" % (hx(xs[0]), hx(xs[1])), xs)
        else:
            L.call("jbool", "%s 1" % hx(xs[0]), xs, [1])
    L.flush()
    L.close()


@suite("json", ("lib", "hard"))
def jsons(env):
    rng = env.rng
    L = Lib(env)
    for _ in range(env.n):
        n = rng.choice((0, 1, 1, 2, 3, 5, 20, 60, 200))
        xs = [jtext(rng)[:40 if n > 5 else 900] for _ in range(n)]
        L.call("jstrings", lst(xs), list=[bl(x) for x in xs])
        n = rng.choice((0, 1, 2, 3, 10, 100, 400))
        vs = [someint(rng) for _ in range(n)]
        if rng.random() < .2:
            vs = [rng.choice((-2147483648, 2147483647))] * n
        L.call("jints", ",".join(map(str, vs)) or "none", list=[bl(str(v)) for v in vs])
        es = [somejson(rng).encode("latin-1") for _ in range(rng.choice((0, 1, 2, 3, 30)))]
        if rng.random() < .2:
            es.append(json.dumps("x" * rng.choice((505, 509, 510, 511, 512, 600))).encode())
        if rng.random() < .1:
            es = [b"%d" % i for i in range(rng.choice((99, 128, 129, 256, 300, 500)))]
        L.call("jentities", lst(es), list=[bl(x) for x in es])
        k, v = jtext(rng), jtext(rng)
        L.call("jkv", "%s %s" % (hx(k), hx(v)), [k, v])
        L.call("jkv", "%s !" % hx(k), [k, b""])
        t, d = rng.choice((jtext(rng), b"", gen.pick(rng, gen.ALNUM + b"\"\\\n", 49)))[:49], rng.choice((jtext(rng), b"", gen.pick(rng, gen.ALNUM + b"\"\\\n", 255)))[:255]
        x = rng.choice([None, b"[]", b"{}", b"1", b'"x"', json.dumps({"a": [1, "b" * rng.choice((0, 5, rng.randrange(200)))]}).encode()] + es[:1])
        st = rng.randrange(-1, 3)
        if rng.random() < .02:
            x = json.dumps("y" * rng.choice((1024, 4096, 8192))).encode()
        L.call("jresult", "%d %s %s %s" % (st, hx(t), hx(d), "!" if x is None else hx(x)), [t, d] + ([] if x is None else [x]), [st])
        i = someint(rng)
        L.call("jint", "%s %d" % (hx(k), i), [k, str(i)])
        i = rng.choice((0, 4294967295, 2147483648, rng.randrange(1 << 32)))
        L.call("juint", "%s %d" % (hx(k), i), [k, str(i)])
        b = rng.randrange(2)
        L.call("jbool", "%s %d" % (hx(k), b), [k], [b])
        L.call("jnull", "%d" % rng.randrange(4), [])
        if rng.random() < .1:
            k, v = gen.pick(rng, gen.ALNUM, 4), gen.pick(rng, gen.ALNUM + b"\"\\\n", rng.choice((1023, 1024, 1025, 4096, 5000)))
            L.call("jkv", "%s %s" % (hx(k), hx(v)), [k, v])
        c, m = jtext(rng)[:19], jtext(rng)[:200]
        L.call("jerror", "%s %s" % (hx(c), hx(m)), [c, m])
    L.flush()
    L.close()


# ---- configuration files --------------------------------------------------------------------------------------------
FLAGS = [(b"k", 0), (b"m", 1), (b"", 0)]


def flagline(fl):
    return ",".join("%s/%d" % (hx(k), m) for k, m in fl) or "none"


def frec(fl):
    return [{"key": bl(k), "multi": m} for k, m in fl]


def cparse(L, x, fl, name=b"c.conf"):
    L.call("cparse", "%s %s %s" % (hx(name), hx(x), flagline(fl)), [x], flags=frec(fl), there=1, items=[])


@suite("confcases", ("lib",))
def confcases(env):
    L = Lib(env)
    for l in open(env.p["dir"] + "/confs.txt").read().splitlines()[env.k::env.p["of"]]:
        x = bytes(json.loads(l))
        cparse(L, x, FLAGS)
        if b"\n" not in x:
            m = env.rng.randrange(2)
            L.call("cline", "%s %d" % (hx(x), m), [x], [m], items=[])
    L.flush()
    L.close()


def ctext(rng, extra=b""):
    return gen.pick(rng, gen.ALNUM + b"_-./:; \t\"'#" + extra, rng.choice((0, 1, 2, 5, 10, 30, 100))).strip(b" \t\v\f\r")


@suite("conf", ("lib", "hard"))
def conf(env):
    """files and items of many shapes, around the bounds"""
    rng = env.rng
    L = Lib(env)
    for _ in range(env.n):
        keys = [gen.pick(rng, gen.ALNUM + b"_. ", rng.randrange(1, 12)).strip() or b"kk" for _ in range(rng.randrange(1, 8))]
        fl = [(k, rng.randrange(2)) for k in rng.sample(keys, rng.randrange(0, len(keys) + 1))]
        if rng.random() < .2 and fl:
            fl.append((fl[0][0], 1 - fl[0][1]))
        # items: written, then read
        items = []
        for _ in range(rng.randrange(0, 20)):
            k = rng.choice(keys)
            if rng.random() < .5:
                n = rng.choice((1, 2, 3, 19, 20))
                mv = [gen.pick(rng, gen.ALNUM + b"=-_", rng.randrange(1, 6)) for _ in range(n)]
                if rng.random() < .3:
                    mv[0] = gen.pick(rng, gen.ALNUM, rng.choice((50, 200, 300)))
                items.append((k, b"" if rng.random() < .5 else b"x", mv))
            else:
                v = ctext(rng, b"=,")
                if rng.random() < .1:
                    v = gen.pick(rng, gen.ALNUM, rng.choice((400, 500, 510 - len(k) - 1, 511 - len(k) - 1)))
                items.append((k, v, []))
        line = ",".join("%s:%s:%s" % (hx(k), hx(v), ";".join(hx(m) for m in mv)) for k, v, mv in items) or "none"
        name = b"w.conf" if rng.random() < .8 else gen.pick(rng, gen.ALNUM, rng.choice((100, 120, 200)))
        got = {}
        L.call("cwrite", "%s %s" % (hx(name), line), conv=lambda r, o: got.update(r1=r["r"]))
        L.flush()
        w = L.recs.pop()
        if w["alive"] == 0:
            L.recs.append(w)
            continue
        L.call("cround", "", conv=None)
        L.todo.pop()
        L.todo.append(("cround", "call cparse %s ! %s" % (hx(name), flagline(fl)),
                       dict(a=[], n=[], flags=frec(fl), items=[], r1=got["r1"], wrote=[{"key": bl(k), "value": bl(v), "multi": [bl(m) for m in mv]} for k, v, mv in items]), None))
        L.flush()
        wrote = [{"key": bl(k), "value": bl(v), "multi": [bl(m) for m in mv]} for k, v, mv in items]
        L.call("cshow", "%s %s" % (hx(name), line), [name], wrote=wrote)
        if rng.random() < .2:
            L.call("cnowrite", "", conv=None)
            L.todo.pop()
            L.todo.append(("cnowrite", "call cwrite %s %s" % (hx(b"none/" + name), line), dict(a=[], n=[]), None))
        # lines of any kind
        ls = []
        for _ in range(rng.randrange(0, 12)):
            k = rng.choice(keys + [b"unknown", b"", b"k k"])
            sp = lambda: gen.pick(rng, b" \t", rng.choice((0, 0, 1, 3)))
            m = rng.random()
            if m < .5:
                n = rng.choice((0, 1, 2, 5, 19, 20, 21, 22, 25, 60))
                v = b",".join(sp() + (gen.pick(rng, gen.ALNUM, rng.randrange(1, 5)) if rng.random() < .95 else b"") + sp() for _ in range(n))
            else:
                v = ctext(rng, b"=,")
            if rng.random() < .05:
                v = gen.pick(rng, gen.ALNUM + b"=,", rng.choice((505, 509, 510, 511, 512, 600, 1100)))
            l = sp() + k + sp() + b"=" + sp() + v + sp()
            if rng.random() < .03:
                l = rng.choice((b"", b" ", b"noequals", b"# comment"))
            if rng.random() < .02:
                l += b"\0" + v
            ls.append(l)
        x = b"\n".join(ls) + (b"\n" if rng.random() < .8 else b"")
        if rng.random() < .2:
            x = x.replace(b"\n", b"\r\n")
        if rng.random() < .05:
            x = bytes(rng.randrange(256) for _ in range(rng.randrange(700)))
        cparse(L, x, fl, rng.choice((b"c.conf", gen.pick(rng, gen.ALNUM, 150))))
        miss = gen.pick(rng, b"xyz", rng.choice((3, 50, 90, 120, 200)))
        L.call("cparse", "%s ! %s" % (hx(b"none/" + miss), flagline(fl)), [b""], flags=frec(fl), there=0, items=[])
        l = rng.choice(ls) if ls else b"a=b"
        if b"\0" not in l:
            m = rng.randrange(2)
            L.call("cline", "%s %d" % (hx(l), m), [l], [m], items=[])
    L.flush()
    L.close()


# ---- files ----------------------------------------------------------------------------------------------------------
def disk(root):
    out = []
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        pre = "" if rel == "." else rel + "/"
        out += [{"p": bl(pre + x), "kind": "dir", "x": []} for x in sorted(ds)]
        out += [{"p": bl(pre + x), "kind": "file", "x": bl(open(d + "/" + x, "rb").read())} for x in sorted(fs)]
    return out


class Files:
    def __init__(self, env):
        self.L, self.env = Lib(env), env
        self.root = self.L.d + "/fs"

    def fresh(self):
        self.L.flush()
        shutil.rmtree(self.root)
        os.makedirs(self.root)
        self.L.recs.append({"k": "fresh", "id": next(ids)})

    def op(self, f, p, x=b"", n=()):
        line = hx(p) + (" " + hx(x) if f in ("write", "infile") else "") + "".join(" %d" % i for i in n)
        a = [p, x] if f in ("write", "infile") else [p]
        r = self.L.now(f, line, a, n)
        r["disk"] = disk(self.root)

    def queries(self, names, maxs, needles):
        for p in names:
            for f in ("isfile", "isdir"):
                self.op(f, p)
            for m in maxs:
                self.op("read", p, n=[m])
            for x in needles:
                self.op("infile", p, x)


@suite("filecases", ("lib",))
def filecases(env):
    """every transition of the model MC_Files, and all questions after it"""
    F = Files(env)
    for l in open(env.p["dir"] + "/files.txt").read().splitlines()[env.k::env.p["of"]]:
        F.fresh()
        for o in json.loads(l):
            F.op(o["f"], bytes(o["p"]), bytes(o["x"]))
        F.queries((b"a", b"d", b"d/a"), (0, 1, 2, 3, 4, 5), (b"x", b"y", b""))
    F.L.close()


@suite("files", ("lib",))
def files(env):
    """longer histories, larger contents"""
    rng = env.rng
    F = Files(env)
    names = [b"a", b"b", b"dir", b"dir/a", b"dir/sub", b"dir/sub/x", b"gone/a", gen.pick(rng, gen.ALNUM, 200)]
    for _ in range(env.n):
        F.fresh()
        for _ in range(rng.randrange(5, 30)):
            p = rng.choice(names)
            m = rng.random()
            if m < .35:
                n = gen.near(rng, 0, 1, 1023, 1024, 4096, 9999, small=50)
                x = bytes(rng.randrange(256) for _ in range(min(40, n))) * (n // 40 + 1)
                if rng.random() < .4:
                    x = b"\n".join(gen.pick(rng, b" ab\t\r", rng.randrange(0, 8)) for _ in range(rng.randrange(0, 10)))
                if rng.random() < .1:
                    x = b"q" * rng.choice((1023, 1024, 1025, 5000)) + b"\nlast"
                F.op("write", p, x[:n] if n > 50 else x)
            elif m < .5:
                F.op("mkdir", p)
            elif m < .8:
                sz = os.path.getsize(F.root + "/" + p.decode()) if os.path.isfile(F.root + "/" + p.decode()) else 5
                F.op("read", p, n=[max(0, rng.choice((0, 0, 1, 2, sz - 1, sz, sz + 1, sz + 2, 100)))])
            elif m < .9:
                F.op(rng.choice(("isfile", "isdir")), p)
            else:
                F.op("infile", p, rng.choice((b"a", b"ab", b"", b"b", b"last", b"q" * 1024, b"qq")))
    F.L.close()


# ---- log ------------------------------------------------------------------------------------------------------------
class Logs:
    def __init__(self, env, tz=None):
        self.L, self.env, self.i = Lib(env, tz=tz), env, 0

    def run(self, ops, mode="f", before=b""):
        core.tick()
        self.i += 1
        name = "log%d" % self.i
        path = self.L.d + "/fs/" + name
        if before:
            open(path, "wb").write(before)
        out = []
        for o in ops:
            if o["o"] == "level":
                out.append("L%d" % o["n"])
            elif o["o"] == "ask":
                out.append("E%d" % o["n"])
            elif o["o"] == "clock":
                out.append("T%d" % o["n"])
            elif o["o"] == "msg":
                out.append("M%d:%d:%s:%d" % (o["lv"], o["fmt"], hx(bytes(o["s"])), o["d"]))
            elif o["o"] == "par":
                out.append("P%d:%d:%d" % (o["threads"], o["count"], o["lv"]))
        e = self.L.h.cmd("log %s %s %s" % (mode, hx(name), " ".join(out)), timeout=60)[0]
        if mode == "e" and before == b"" and os.path.exists(path):
            pass
        self.L.recs.append({"k": "log", "id": next(ids), "mode": mode, "ops": ops, "x": by(e["x"]), "before": bl(before), "rep": e["rep"][:-1],
                            "status": e["status"], "signal": e["signal"], "t0": e["t0"], "t1": e["t1"], "file": bl(e["file"])})
        if os.path.exists(path):
            os.unlink(path)


@suite("logcases", ("lib",))
def logcases(env):
    g = Logs(env)
    for l in open(env.p["dir"] + "/logs.txt").read().splitlines()[env.k::env.p["of"]]:
        g.run(json.loads(l), mode=env.rng.choice("ffe"))
    g.L.close()


@suite("log", ("lib",))
def logs(env):
    """longer histories, other texts, other days, several threads"""
    rng = env.rng
    g = Logs(env, tz=rng.choice(("UTC", "America/New_York", "Asia/Kolkata", "XYZ-13", "ABC+11:30")))
    for i in range(env.n):
        ops = []
        for _ in range(rng.randrange(1, 14)):
            m = rng.random()
            if m < .2:
                ops.append({"o": "level", "n": rng.randrange(6)})
            elif m < .3:
                ops.append({"o": "ask", "n": rng.randrange(6)})
            elif m < .45:
                ops.append({"o": "clock", "n": rng.choice((0, 951782400, 951868799, 1709164800 + rng.randrange(86400 * 3), 946684799, 1735689599, 2147483647, rng.randrange(2147483647)))})
            elif m < .55:
                ops.append({"o": "par", "threads": rng.choice((2, 4, 8)), "count": rng.choice((5, 20, 40)), "lv": rng.choice((-1, 2, 3, 4))})
            else:
                lv = rng.choice((0, 1, 2, 2, 3, 3, 4, 4, 5 if rng.random() < .3 else 1))
                s = gen.pick(rng, gen.ALNUM + b" %s%d%n:<>\t\xe9", rng.choice((0, 1, 5, 20, 100, 600, 1000, 1023, 1024, 1500, 5000)))
                d = someint(rng)
                ops.append({"o": "msg", "lv": lv, "fmt": rng.randrange(5), "s": bl(s), "d": d, "ds": bl(str(d))})
        g.run(ops, mode=rng.choice("ffe"), before=b"old line\n" * rng.choice((0, 0, 1, 3)))
    g.run([], mode="b")
    g.L.close()


@suite("stamp", ("lib",))
def stamp(env):
    rng = env.rng
    L = Lib(env, tz=rng.choice(("UTC", "America/New_York", "Asia/Kolkata")))
    for _ in range(env.n):
        t = rng.choice((0, 951782400, 1709164800 + rng.randrange(86400 * 3), 946684799, 2147483647, rng.randrange(2147483647)))
        L.flush()
        L.h.quiet("time %d" % t)
        L.call("stamp", "", [], [t])
    L.flush()
    L.close()
