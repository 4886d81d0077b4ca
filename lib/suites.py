"""What is driven through the running server, one exchange at a time."""
import itertools, os, json
import core
from core import suite, Env
from rec import World, Session, bl, by, ids, NOV, client_hello
from hx import Dead, hx
import gen, tlc

ECHO = [("GET:/e", 17), ("POST:/e", 17), ("PUT:/e", 17), ("DELETE:/e", 17), ("POST:/p/{id}", 17), ("GET:/p/{id}", 17),
        ("POST:/f", 17, 1), ("GET:/j", 0, 0, 200, b'{"a":1}')]
ASK = [b"X-Token", b"Host", b"User-Agent", b"X-Session", b"content-length", b"Nope"]


def session(env, routes=ECHO, files=None, **kw):
    w = World(env.sub("w"))
    for p, c in (files or {"/index.html": b"<html>index</html>"}).items():
        w.file(p, c)
    w.secret("secret.txt", b"PRIVATE-OUTSIDE-1")
    w.secret("root/hidden.txt", b"PRIVATE-OUTSIDE-2")
    return Session(env.exes["free"], w, routes, **kw)


def done(env, s):
    env.judge("TraceSeq", s.close())
    env.deaths += s.deaths


@suite("request")
def request(env):
    """well formed requests, cut into segments in every way"""
    s = session(env, ask=ASK)
    for i in range(env.n):
        rng = env.rng
        path = rng.choice((b"/api/e", b"/api/e", b"/api/e", b"/api/p/" + gen.urlpath(rng, rng.randrange(1, 12)), b"/api/f", b"/api/j", b"/API/e"))
        if rng.random() < .1:
            path = b"/api/p/" + gen.urlpath(rng, rng.choice((490, 500, 503, 504, 505, 506)))
        r = gen.request(rng, path, big=rng.random() < .1)
        s.x(gen.split(rng, r), mode=rng.choice("nnns"), to=6000)
    done(env, s)


@suite("segments")
def segments(env):
    """one request, cut at every byte; and byte by byte"""
    s = session(env, ask=ASK)
    rng = env.rng
    for _ in range(env.n):
        hs = [(b"Host", b"h"), (b"X-Token", b"yes")][: rng.randrange(3)] + gen.session_headers(rng)
        b = gen.body(rng)[:24]
        ct = b"text/plain"
        if rng.random() < .3:
            ct, b = gen.multipart(rng, b"B%d" % rng.randrange(100), parts=1)
            if len(b) > 220:
                ct, b = b"text/plain", b[:20]
        hs += [(b"Content-Type", ct), (b"Content-Length", b"%d" % len(b))]
        rng.shuffle(hs)
        r = b"POST /api/e?q=%d HTTP/1.1\r\n" % rng.randrange(1000) + b"".join(gen.line(rng, n, v) for n, v in hs) + b"\r\n" + b
        for c in range(1, len(r)):
            s.x([r[:c], r[c:]])
        s.x([r[i:i + 1] for i in range(len(r))], to=6000)
    done(env, s)


@suite("body")
def bodies(env):
    """large bodies"""
    s = session(env, ask=ASK)
    rng = env.rng
    for i in range(env.n):
        n = rng.choice((9999, 10000, 10001, 16384, 20000, 32768, 65535, 65536, 65537, 100000))
        b = bytes(rng.randrange(256) for _ in range(64)) * (n // 64 + 1)
        b = bytearray(b[:n])
        for _ in range(20):
            b[rng.randrange(n)] = rng.randrange(256)
        k = rng.choice((n, 8192, 4096, 1460, 999))
        head = b"POST /api/e HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % n
        cut = rng.randrange(0, 3)
        b = bytes(b)
        segs = [head + b] if cut == 0 else [head] + [b[j:j + k] for j in range(0, n, k)]
        s.x(segs, to=8000)
    done(env, s)


@suite("stop")
def stop(env):
    """requests whose client stops early: at every byte, in every way"""
    s = session(env, ask=[b"X-Token"])
    rng = env.rng
    for i in range(env.n):
        mp = rng.random() < .3
        if mp:
            ct, b = gen.multipart(rng, parts=rng.choice((1, 1, 2)))
            r = gen.finish(rng, b"POST", rng.choice((b"/api/e", b"/api/p/x", b"/api/f")), ctype=ct, payload=b)
        else:
            path = rng.choice((b"/api/e", b"/api/p/1", b"/api/f", b"/", b"/index.html"))
            r = gen.request(rng, path, with_body=rng.random() < .7, methods=[b"POST", b"GET", b"PUT"])
        e = r.find(b"\r\n\r\n")
        m = rng.random()
        if m < .3:
            c = rng.randrange(len(r))
        elif m < .6:
            c = max(0, min(len(r) - 1, e + rng.randrange(-3, 8)))
        elif m < .9:
            c = max(0, len(r) - rng.randrange(1, 6))
        else:
            c = rng.randrange(min(len(r), 40))
        s.x(gen.split(rng, r[:c]) if c else [], mode=rng.choice("ssaaA"))
        if rng.random() < .1:
            s.x(b"GET /api/j HTTP/1.1\r\n\r\n")
    s.dir()
    done(env, s)


@suite("stopall")
def stopall(env):
    """one request stopped after each of its bytes, by half closing and by disconnecting"""
    s = session(env)
    rng = env.rng
    for _ in range(env.n):
        kind = rng.randrange(3)
        if kind == 0:
            ct, b = gen.multipart(rng, b"b%d" % rng.randrange(100), parts=1)
            if len(b) > 250:
                b = b[:250]
        else:
            ct, b = b"text/plain", gen.body(rng)[:20]
        hs = [(b"Content-Type", ct), (b"Content-Length", b"%d" % len(b))]
        rng.shuffle(hs)
        if kind == 2:
            hs = hs[:0]
            b = b""
        r = b"POST /api/%s HTTP/1.1\r\n" % rng.choice((b"e", b"f", b"p/9")) + b"".join(gen.line(rng, n, v) for n, v in hs) + b"\r\n" + b
        for c in range(len(r)):
            s.x([r[:c]] if c else [], mode="s")
            s.x([r[:c]] if c else [], mode="a")
        s.x([r])
    s.dir()
    done(env, s)


def cases(env, name):
    """the cases that TLC emitted, each once, those of this job"""
    ls = sorted(set(open(os.path.join(env.p["dir"], name)).read().splitlines()))
    import random
    random.Random(env.job["seed"]).shuffle(ls)      # another selection with another seed when only some are taken
    return [json.loads(l) for l in ls[env.k::env.p["of"]]]


@suite("conncases")
def conncases(env):
    """every way to send the requests of MC_Conn: cut, and left, at the places of the model"""
    ends = env.p.get("ends", "nsa")
    pair = Pair(env, ECHO, {"/index.html": b"<html>index</html>"}) if env.p.get("tls") else None
    s = pair.plain if pair else session(env, ask=ASK)
    for c in cases(env, "conns.txt"):
        if c["end"] not in ends:
            continue
        b, segs = bytes(c["s"]), []
        for n in c["cuts"]:
            segs.append(b[:n])
            b = b[n:]
        if pair:
            pair.x(env.rng, segs, mode=c["end"])
        else:
            s.x(segs, mode=c["end"])
    s.dir()
    if pair:
        pair.good(env.rng)
        pair.close(env)
    else:
        done(env, s)


@suite("session")
def sessions(env):
    s = session(env, files={"/index.html": b"I", "/a.css": b"body{}", "/d/index.html": b"D"})
    rng = env.rng
    for _ in range(env.n):
        static = rng.random() < .6
        path = rng.choice((b"/", b"/a.css", b"/d/", b"/missing", b"/index.html")) if static else rng.choice((b"/api/e", b"/api/p/7"))
        r = gen.request(rng, path, methods=[b"GET"] if static else [b"GET", b"POST"], with_session=rng.random() < .85, with_body=False if static else None)
        s.x(gen.split(rng, r), mode=rng.choice("nns"))
    done(env, s)


# ---- static files -------------------------------------------------------------------------------------------------
EXTS = [b"html", b"js", b"png", b"jpg", b"jpeg", b"zip", b"css", b"svg", b"ico", b"txt", b"csv", b"yaml", b"bin", b"HTML", b"htm", b"tx", b"txtx", b"gz", b""]


@suite("sessioncases")
def sessioncases(env):
    """headers enumerated by TLC (MC_Session)"""
    s = session(env, files={"/index.html": b"I", "/a.css": b"body{}"})
    for c in cases(env, "sessions.txt"):
        s.x(bytes(c["s"]))
    done(env, s)


@suite("static")
def static(env):
    """files of every type, size and content at random places"""
    rng = env.rng
    for _ in range(max(1, env.n // 40)):
        files = {}
        index = rng.choice((b"/index.html", b"/index.html", b"/app/main.html", b"/home.txt", b"/none.html"))
        favicon = rng.choice((b"/favicon.ico", b"/img/f.png", b"/none.ico"))
        for _ in range(rng.randrange(3, 12)):
            depth = rng.randrange(0, 4)
            nm = gen.pick(rng, gen.ALNUM + b"_-~+,", rng.randrange(1, 10))
            if rng.random() < .1:
                nm = gen.pick(rng, gen.ALNUM, rng.choice((100, 200, 240)))
            if rng.random() < .2:
                nm = b"a." + nm
            ext = rng.choice(EXTS)
            p = b"".join(b"/" + gen.pick(rng, b"abcdef.", rng.randrange(1, 4)).strip(b".") + b"d" for _ in range(depth)) + b"/" + nm + (b"." + ext if ext else b"")
            n = gen.near(rng, 1023, 1024, 1025, 4096, 8192, 16384, 65536 if rng.random() < .2 else 2048, small=200)
            files[p] = bytes(rng.randrange(256) for _ in range(min(n, 64))) * (n // 64 + 1)
            files[p] = files[p][:n]
            if rng.random() < .3:
                files[p.rsplit(b"/", 1)[0] + b"/index.html"] = b"index of " + p
        if rng.random() < .85:
            files[index] = b"the index " + bytes(rng.randrange(256) for _ in range(20))
        if rng.random() < .5:
            files[favicon] = b"the icon"
        if rng.random() < .3:
            files[b"/index.html"] = b"plain index"
        if rng.random() < .3:
            files[b"/favicon.ico"] = b"plain icon"
        names = {k.decode("latin-1"): v for k, v in files.items()}
        clean = {}
        for k, v in names.items():
            if not any(o != k and o.startswith(k + "/") for o in names):
                clean[k] = v
        www = env.d + "/w/root/www"
        import shutil
        shutil.rmtree(www, ignore_errors=True)
        s = session(env, files=clean, index=index, favicon=favicon,
                    routes=[("GET:/df", 19, 0, 200, (www + rng.choice(sorted(clean))).encode("latin-1")), ("GET:/m", 20, 0, 200, rng.choice((b"text/html", b"image/png", b"text/csv", b"text/yaml", b"image/jpeg", b"application/zip", b"text/css", b"text/plain", b"x/y")))])
        for p in clean:
            targets = [p, p.rsplit("/", 1)[0] + "/", p.rsplit("/", 1)[0] or "/"]
            for t in targets:
                if rng.random() < .7:
                    t = t.encode("latin-1")
                    if rng.random() < .2:
                        t += b"?" + gen.query(rng, rng.randrange(10))
                    s.x(gen.split(rng, gen.finish(rng, b"GET", t, with_body=False, logish=rng.random() < .2)), lazy=rng.random() < .25)
        for t in (b"/", b"/index.html", b"/favicon.ico", b"/nope", b"/nope/", b"/a.txt", b"/index.htm", b"/indexxhtml", b"/favicon.icon", b"/api/df", b"/api/m", b"/apple", b"/ap",
                  b"/" + gen.urlpath(rng, rng.choice((1, 5, 200, 480, 500, 509, 510, 511)))):
            meth = b"GET" if rng.random() < .8 else rng.choice((b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS", b"get"))
            s.x(gen.split(rng, gen.finish(rng, meth, t, with_body=False if meth == b"GET" else None, logish=False)))
        # some files exist and can't be opened, as when the process is out of descriptors
        s.unread(["/www" + p for p in clean if rng.random() < .4])
        for p in [p for p in clean if rng.random() < .5] + ["/", "/favicon.ico", "/nope"]:
            s.x(b"GET " + p.encode("latin-1") + b" HTTP/1.1\r\n\r\n")
        s.unread()
        for p in rng.sample(sorted(clean), min(3, len(clean))):
            s.x(b"GET " + p.encode("latin-1") + b" HTTP/1.1\r\n\r\n")
        done(env, s)


TREE = {"/index.html": b"INDEX", "/a": b"file a", "/d/index.html": b"d index", "/d/a": b"file d/a", "/d/e/x.txt": b"deep", "/..a": b"dots a", "/a..": b"a dots",
        "/d/...": b"three", "/.h": b"hidden", "/favicon.ico": b"icon", "/d/favicon.ico": b"d icon"}


@suite("target")
def target(env):
    """all targets over an alphabet of path pieces, enumerated by TLC (MC_Target), in pieces of env.n"""
    s = session(env, files=TREE)
    for l in open(os.path.join(env.p["dir"], "targets.txt")).read().splitlines()[env.k::env.p["of"]]:
        t = bytes.fromhex(l)
        s.x(b"GET " + t + b" HTTP/1.1\r\n\r\n")
    rng = env.rng
    pieces = [b"..", b"..", b".", b"", b"a", b"d", b"e", b"...", b"hidden.txt", b"secret.txt", b"www", b"etc", b"allow", b"..a", b"a..", b"%2e%2e", b"..%2f", b"..\\", b"\\..",
              b"..;", b"etc/passwd", b"root", b"proc/self/environ", b"index.html", b"favicon.ico", b"..?", b"?/..", b"?", b".. ", b"\x00", b"..\x00", b"\xc0\xae\xc0\xae"]
    for _ in range(env.n):
        k = rng.randrange(1, 9)
        t = b"/" + b"/".join(rng.choice(pieces) for _ in range(k))
        if rng.random() < .2:
            t = t[1:] or b"x"
        if rng.random() < .15:
            t = b"/" * rng.randrange(1, 5) + t
        if rng.random() < .1:
            t = t + b"/" * rng.randrange(1, 500)
        if rng.random() < .1:
            t = b"/./" * rng.randrange(100, 166) + t
        if rng.random() < .1:
            t = b"/d/" + b"../d/" * rng.randrange(1, 98) + t
        if rng.random() < .1:
            t = b"/api" + t
        if rng.random() < .05:
            t = (env.d + "/w/root/hidden.txt").encode()
        s.x(gen.split(rng, gen.finish(rng, b"GET", t.replace(b" ", b"+"), with_body=False, logish=False)), mode="s")
    done(env, s)


# ---- routes and filters -------------------------------------------------------------------------------------------
def table(rng, filters):
    segs = [b"a", b"b", b"ab", b"A", b"api", b"a.b", b"x-y"]

    def path(k):
        return b"".join(b"/" + rng.choice(segs) for _ in range(k))
    out = []
    for i in range(rng.choice((1, 2, 3, 5, 8, 20, 60, 100)) if rng.random() < .5 else rng.randrange(2, 8)):
        p = path(rng.randrange(1, 4)) if rng.random() < .95 else b"/" + gen.pick(rng, gen.ALNUM, rng.choice((100, 150, 200)))
        if rng.random() < .4:
            p += b"/{" + rng.choice((b"id", b"name", b"a", gen.pick(rng, gen.ALNUM, rng.randrange(1, 30)))) + b"}"
        elif rng.random() < .1:
            p += b"/"
        fk = rng.choice((0, 1, 2, 3, 4, 5)) if filters and rng.random() < .7 else 0
        out.append((rng.choice((b"GET", b"POST", b"PUT", b"DELETE")) + b":" + p, 17, fk, 200, b"r%d" % i))
    return out, path


def aimed(rng, routes, path):
    """a request meant for one of the routes, or nearly"""
    t, hk, fk = rng.choice(routes)[:3]
    m, p = t.split(b":", 1)
    if b"{" in p:
        p = p[:p.index(b"{")]
        x = rng.random()
        if x < .6:
            p += gen.urlpath(rng, rng.randrange(1, 10)) if rng.random() < .8 else rng.choice((b"a/b", b"1&a=2", b"a=b", b"{id}", b"%41", b"a/", b"/", b"//"))
        elif x < .7:
            p += gen.pick(rng, gen.ALNUM, rng.choice((100, 300, 400)))
        elif x < .8:
            p = p[:-1]
    y = rng.random()
    if y < .1:
        p = p[:-1] or b"/"
    elif y < .2:
        p += rng.choice((b"/", b"x", b"/a", b"/b"))
    elif y < .3:
        p = path(rng.randrange(1, 4))
    elif y < .35:
        p = p.upper()
    if rng.random() < .15:
        m = rng.choice((b"GET", b"POST", b"PUT", b"DELETE"))
    elif rng.random() < .05:
        m = rng.choice((b"PATCH", b"get", b"GETT", b"GE", b"OPTIONS", b"HEAD", b"POS", b"gEt"))
    api = b"/api" if rng.random() < .95 else b"/API"
    return m, api + p


@suite("router")
def router(env):
    rng = env.rng
    for _ in range(max(1, env.n // 50)):
        routes, path = table(rng, env.p.get("filters", rng.random() < .3))
        s = session(env, routes=routes, ask=[b"X-Token"])
        for _ in range(50):
            m, u = aimed(rng, routes, path)
            q = b"?" + gen.query(rng, rng.randrange(8)) if rng.random() < .3 else b""
            pl = None
            if rng.random() < .5:
                pl = rng.choice((b"ok", b"no", b"", b"a=1&ok=2", b"x", gen.body(rng)))
            hs = rng.random() < .3
            r = gen.finish(rng, m, u + q, with_body=False if pl is None else True, payload=pl, with_session=hs, logish=False)
            if rng.random() < .1:
                ct, b = gen.multipart(rng, parts=1)
                r = gen.finish(rng, m, u + q, ctype=ct, payload=b, logish=False)
            s.x(gen.split(rng, r) if rng.random() < .3 else r)
        done(env, s)


@suite("routercases")
def routercases(env):
    """tables and requests enumerated by TLC (MC_Router)"""
    for l in open(os.path.join(env.p["dir"], "routes.txt")).read().splitlines()[env.k::env.p["of"]]:
        c = json.loads(l)
        routes = [(bytes(t), 17, f, 200, b"") for t, f in c["table"]]
        s = session(env, routes=routes)
        for m, p in c["reqs"]:
            for b in c.get("forms", [[]]):
                b = bytes(b)
                s.x(bytes(m) + b" /api" + bytes(p) + b" HTTP/1.1\r\n" + (b"Content-Length: %d\r\n" % len(b) if b else b"") + b"\r\n" + b)
        done(env, s)


# ---- multipart ----------------------------------------------------------------------------------------------------
@suite("multipart")
def mpart(env):
    rng = env.rng
    s = session(env, routes=[("POST:/u", 17), ("POST:/u/{id}", 17), ("POST:/f", 17, 1), ("PUT:/u", 17)])
    for i in range(env.n):
        big = rng.choice((0, 0, 0, 0, 0, 5000, 10000, 20000)) if rng.random() < .3 else 0
        ct, b = gen.multipart(rng, big=big)
        path = rng.choice((b"/api/u", b"/api/u/7", b"/api/f"))
        hs = rng.random() < .3
        if hs:
            r = gen.finish(rng, b"POST", path, ctype=ct, payload=b)
        else:
            h = [b"Content-Type: " + ct, b"Content-Length: %d" % len(b)]
            rng.shuffle(h)
            r = b"POST " + path + b" HTTP/1.1\r\n" + b"\r\n".join(h) + b"\r\n\r\n" + b
        s.x(gen.split(rng, r), to=8000)
        if i % 40 == 39:
            s.dir()
    s.dir()
    done(env, s)


@suite("mpartcases")
def mpartcases(env):
    """forms enumerated by TLC (MC_Multipart)"""
    s = session(env, routes=[("POST:/u", 17), ("POST:/u/{id}", 17), ("POST:/f", 17, 1)])
    for i, c in enumerate(cases(env, "forms.txt")):
        b = bytes(c["b"])
        h = [b"Content-Type: " + bytes(c["t"]), b"Content-Length: %d" % len(b)][:: 1 - 2 * (i & 1)]
        r = b"POST /api/" + (b"u", b"u/7", b"f")[i % 3] + b" HTTP/1.1\r\n" + b"\r\n".join(h) + b"\r\n\r\n" + b
        s.x(gen.split(env.rng, r) if i & 2 else [r])
        if i % 60 == 59:
            s.dir()
    s.dir()
    done(env, s)


# ---- replies ------------------------------------------------------------------------------------------------------
@suite("reply")
def reply(env):
    """every response helper with payloads of every size and content"""
    rng = env.rng
    JSONS = (b"{}", b'{"a":"b"}', b"[]")
    for _ in range(max(1, env.n // 45)):
        routes = []
        for hk in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 13, 14, 15, 0, 3, 7, 9, 11, 7):
            n = gen.near(rng, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4096, 10000, small=60)
            pl = gen.pick(rng, gen.PRINT + b" ", n)
            st = 200
            if hk in (7, 9, 11):
                pl = rng.choice((pl, bytes(rng.randrange(1, 256) for _ in range(min(n, 600))), b'he said "x"\\ \n\t\r\x01', b"", b"%s%d%n", b"\\", b'"'))[:1023]
            elif hk in (13, 14, 15):
                st = rng.choice((200, 201, 400, 401, 403, 404, 429, 500, 500, 302, 999, 0, -1, 418))
                pl = rng.choice((pl, b'{"x":"' + pl.replace(b'"', b"").replace(b"\\", b"") + b'"}', b"%s%s%s%n", b"a\r\nX: y"))
            elif hk == 12:
                st = rng.randrange(0, 6)
                pl = gen.pick(rng, gen.ALNUM, min(n, 3000))
            elif hk == 19:
                pl = (env.d + "/w/root/www/f.txt").encode()
            elif hk == 20:
                pl = rng.choice((b"text/html", b"image/png", b"text/csv", b"a/b"))
            elif hk in (0, 3):
                pl = rng.choice((pl, b'{"x":"%s%d"}', b'{"k":"' + gen.pick(rng, gen.ALNUM, n) + b'"}', b"{}", b'{"u":"\xc3\xa9"}'))
            routes.append((b"GET:/r%d" % len(routes), hk, 0, st, pl))
        routes += [(b"GET:/flt2", 0, 2, 200, b"{}"), (b"GET:/flt3", 0, 3, 200, b"{}")]
        s = session(env, routes=routes, files={"/index.html": b"I", "/f.txt": bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 5, 1024, 5000))))})
        for r in routes:
            u = b"/api" + r[0].split(b":")[1]
            s.x(gen.split(rng, gen.finish(rng, b"GET", u, with_body=False)) if rng.random() < .5 else b"GET " + u + b" HTTP/1.1\r\n\r\n", mode=rng.choice("nnnna"), lazy=rng.random() < .25)
        for t in (b"/", b"/f.txt", b"/none", b"/api/none", b"/api"):
            s.x(gen.finish(rng, rng.choice((b"GET", b"GET", b"POST", b"BREW")), t, with_session=True))
        done(env, s)


@suite("replycases")
def replycases(env):
    """answers enumerated by TLC (MC_Reply)"""
    cs = cases(env, "replies.txt")
    for k in range(0, len(cs), 90):
        part = cs[k:k + 90]
        s = session(env, routes=[(b"GET:/r%d" % i, c["hk"], c["fk"], c["st"], bytes(c["pl"])) for i, c in enumerate(part)])
        for i in range(len(part)):
            s.x(b"GET /api/r%d HTTP/1.1\r\nHost: h\r\n\r\n" % i)
        done(env, s)


# ---- addresses ----------------------------------------------------------------------------------------------------
def ip(rng):
    return ".".join(str(rng.choice((0, 1, 2, 10, 11, 100, 101, 110, 192, 254, 255, 12, 21))) for _ in range(4))


def ipfile(rng, pool, big):
    out = []
    for _ in range(rng.choice((0, 1, 2, 3, 5)) if not big else rng.randrange(200, 3000)):
        a = rng.choice(pool) if not big or rng.random() < .01 else ip(rng)
        x = rng.random()
        if x < .5:
            l = a
        elif x < .6:
            l = a + rng.choice("0123456789")
        elif x < .7:
            l = a[:-1]
        elif x < .75:
            l = "1" + a
        elif x < .8:
            l = a[1:]
        elif x < .85:
            l = a + ":80"
        elif x < .9:
            l = rng.choice(("# " + a, a + " #", a + "," + a, a + "x", "x" + a, a + "/32", ""))
        elif x < .95:
            l = rng.choice((" ", "\t", "")) + a + rng.choice((" ", "\t", "", "  "))
        else:
            l = a.replace(".", rng.choice((",", "..", " .", "-")), 1)
        out.append(l)
    nl = rng.choice(("\n", "\n", "\n", "\r\n"))
    t = nl.join(out)
    if out and rng.random() < .7:
        t += nl
    if rng.random() < .1:
        t += nl * rng.randrange(1, 4)
    return t.encode()


@suite("ip")
def ips(env):
    rng = env.rng
    s = session(env, routes=[("GET:/e", 17), ("GET:/f", 17, 1)])
    for _ in range(max(1, env.n // 8)):
        pool = [ip(rng) for _ in range(3)]
        pool.append(pool[0][:-1] if pool[0][-2] != "." else pool[0] if int(pool[0].split(".")[-1]) > 24 else pool[0] + "1")
        pool = [p for p in pool if all(x != "" and int(x) < 256 and str(int(x)) == x for x in p.split(".")) and len(p.split(".")) == 4]
        big = rng.random() < .06
        for f in ("allow", "deny"):
            s.w.etc(f, None if rng.random() < .4 else ipfile(rng, pool, big))
        s.cfg()
        a = pool[0]
        for i in range(8 if not big else 3):
            if i in (3, 6) and not big:     # the address that was decided last is decided again, by other lists
                f = rng.choice(("allow", "deny"))
                s.w.etc(f, None if rng.random() < .2 else (a + "\n").encode() if rng.random() < .5 else ipfile(rng, pool, big))
                s.cfg()
            else:
                a = rng.choice(pool) if rng.random() < .9 else ip(rng)
            if rng.random() < .1:
                s.unread(["/etc/" + f for f in ("allow", "deny") if rng.random() < .5])
            r = rng.choice((b"GET /api/e HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET /api/f HTTP/1.1\r\nX-Real-IP: %s\r\n\r\n" % rng.choice(pool).encode(), b"", b"GE"))
            s.x([r] if r else [], ip=a, mode="n" if r.endswith(b"\n") else "s")
    done(env, s)


@suite("ipcases")
def ipcases(env):
    """file contents enumerated by TLC (MC_IpFilter)"""
    s = session(env, routes=[("GET:/e", 17)])
    for i, l in enumerate(open(os.path.join(env.p["dir"], "ips.txt")).read().splitlines()[env.k::env.p["of"]]):
        c = json.loads(l)
        if i & 1:       # the last address of one content is the first one of the next
            c["ips"].reverse()
        for f in ("allow", "deny"):
            s.w.etc(f, None if c[f] == [-1] else b"" if c[f] == [-2] else bytes(c[f]))
        s.unread(["/etc/" + f for f in ("allow", "deny") if c[f] == [-2]])
        for a in c["ips"]:
            s.x(b"GET /api/e HTTP/1.1\r\n\r\n", ip=bytes(a).decode())
    done(env, s)


# ---- TLS ----------------------------------------------------------------------------------------------------------
class Pair:
    """the same server without and with TLS"""

    def __init__(self, env, routes, files):
        self.plain = session(env, routes, files, ask=ASK)
        self.out = self.plain.out
        self.tls = Session(env.exes["free"], self.plain.w, routes, ask=ASK, tls=True)

    def on(self, s):
        s.logoff, s.updir = s._logsize(), s._ups()
        return s

    def x(self, rng, segs, **kw):
        r = self.on(self.plain).x(segs, **kw)
        r["k"], r["c"] = "plain", 1
        t = self.on(self.tls).x(segs, note=rng.choice(("tls", "tls2", "tls3")), **kw)
        t["k"], t["c"] = "tls", 1
        self.out.append(t)

    def hs(self, segs, mode, ip="10.0.0.1"):
        t = self.on(self.tls).x(segs, mode=mode, ip=ip, tls=False)
        t["k"] = "hs"
        self.out.append(t)
        return t

    def good(self, rng):
        self.x(rng, [rng.choice((b"GET /api/j HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n"))])

    def rest(self):
        try:
            e = next(e for e in self.tls.h.cmd("settle 3000") if e["e"] == "settled")
        except Dead:
            return
        self.out.append({"k": "rest", "id": next(ids), "ssl": e["ssl"], "fds": e["fds"], "ok": e["ok"]})

    def close(self, env):
        self.rest()
        self.tls.close()
        done(env, self.plain)
        env.deaths += self.tls.deaths


REPLIES = [("*:/r%d" % hk, hk, 0, 200, b'{"a":"b"}' if hk in (0, 3, 12, 13, 15) else b"some text") for hk in range(19)]
REPLIES = [(t.replace("*", m),) + r for t, *r in REPLIES for r in [tuple(r)] for m in ("GET", "POST")] + [("GET:/g", 17, 2), ("POST:/g", 17, 3)]
TLSFILES = {"/index.html": b"<html>index</html>", "/a.css": b"body{}", "/big.bin": bytes(range(256)) * 400, "/d/index.html": b"D", "/e.txt": b"", "/r.bin": b"\x16\x03\x03\0\x10" * 3300}


@suite("tls")
def tls(env):
    """every kind of request, without and with TLS"""
    rng = env.rng
    p = Pair(env, ECHO + REPLIES, TLSFILES)
    p.plain.w.etc("deny", b"10.9.9.9\n")
    p.plain.w.etc("limits", b"/api/zero,0,0,1\n")
    p.plain.out.clear()
    p.plain.cfg()
    for s in (p.plain, p.tls):      # limits are read at launch
        s.h.close()
        s.start()
    for i in range(env.n):
        x = rng.random()
        mode = rng.choice("nnns")
        if x < .2:
            ct, b = gen.multipart(rng)
            r = gen.finish(rng, b"POST", rng.choice((b"/api/e", b"/api/p/x", b"/api/f")), ctype=ct, payload=b)
        elif x < .45:
            r = gen.request(rng, rng.choice((b"/", b"/index.html", b"/a.css", b"/big.bin", b"/d/", b"/e.txt", b"/r.bin", b"/none", b"/../secret.txt", b"/x/../../hidden.txt")), methods=[b"GET", b"GET", b"POST"], with_body=False)
        elif x < .6:
            r = gen.request(rng, rng.choice((b"/api/r%d" % rng.randrange(19), b"/api/zero", b"/api/none", b"/api/g")))
        else:
            r = gen.request(rng, rng.choice((b"/api/e", b"/api/p/" + gen.urlpath(rng, 9), b"/api/f", b"/api/j")), big=rng.random() < .2)
        if rng.random() < .12:
            e = r.find(b"\r\n\r\n")
            r, mode = r[:rng.choice((rng.randrange(len(r)), max(0, e + rng.randrange(-2, 5)), len(r) - 1))], rng.choice("sa")
        elif rng.random() < .06:
            r, mode = mutate(rng, r), "s"
        p.x(rng, gen.split(rng, r)[:40] if mode == "a" else gen.split(rng, r), mode=mode, to=6000, ip="10.9.9.9" if rng.random() < .05 else "10.0.0.1", lazy=rng.random() < .2)
    p.close(env)


@suite("handshake")
def handshake(env):
    """connections that never complete a handshake, between others"""
    rng = env.rng
    p = Pair(env, ECHO, TLSFILES)
    stuck = []
    for i in range(env.n):
        hello = client_hello(rng)
        x = rng.random()
        get = rng.choice((b"GET / HTTP/1.1\r\n\r\n", b"GET /api/j HTTP/1.1\r\n\r\n", b"POST /api/e HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"))
        rec = lambda ty, b: bytes([ty, 3, rng.choice((1, 3, 3))]) + len(b).to_bytes(2, "big") + b
        if x < .15:
            segs = [get]
        elif x < .3:
            segs = [hello[:rng.randrange(len(hello) + 1)]]
        elif x < .4:
            segs = [hello, get]
        elif x < .5:
            segs = [hello, rec(23, get), get]
        elif x < .6:
            segs = [mutate(rng, hello)]
        elif x < .7:
            segs = [hello, rec(20, b"\1"), rec(22, bytes(rng.randrange(256) for _ in range(40))), rec(23, get)]
        elif x < .78:
            segs = [rng.choice((hello, b"")), rec(21, rng.choice((b"\2\x28", b"\1\0", b"\2\x46")))]
        elif x < .85:
            segs = [rec(rng.choice((22, 23, 24, 128)), get)]
        elif x < .92:
            segs = [bytes(rng.randrange(256) for _ in range(rng.choice((1, 5, 11, 50, 500, 5000))))]
        else:
            segs = [hello, hello, get]
        segs = [s for s in segs if s]
        p.hs(segs, rng.choice("sssaaA"))
        if rng.random() < .04 and len(stuck) < 5:
            cid = next(ids)
            h = p.tls.h
            h.cmd("stuck %d" % (len(stuck) + 1))
            h.cmd("open %d 10.0.0.7 0" % cid)
            if rng.random() < .7:
                h.cmd("send %d %s" % (cid, hx(hello[:rng.randrange(1, len(hello) - 1)])))
            stuck.append(cid)
        if i % 8 == 7:
            p.good(rng)
        if i % 50 == 49 and p.tls.deaths == []:
            free_stuck(p, rng, stuck)
            p.rest()
    free_stuck(p, rng, stuck)
    p.good(rng)
    p.close(env)


def free_stuck(p, rng, stuck):
    try:
        for cid in stuck:
            p.tls.h.cmd("%s %d" % (rng.choice(("shut", "abort")), cid))
            p.tls.h.cmd("wait %d 3000 nosettle" % cid)
        p.tls.h.cmd("stuck 0")
    except Dead:
        pass
    del stuck[:]


# ---- several at once ------------------------------------------------------------------------------------------------
ISOROUTES = ECHO + [("GET:/lA", 12, 0, 3, b"AAAAA"), ("GET:/lB", 7, 0, 200, b"BB\"B"), ("GET:/lC", 15, 0, 404, b'{"C":"CCCCC"}')]


@suite("isocases")
def isocases(env):
    """orders of what several clients do, enumerated by TLC (Isolation); each as when it is alone"""
    s = session(env, routes=ISOROUTES, ask=ASK, files=dict({"/index.html": b"I"}, **{"/f%s.txt" % c: c.encode() * n for c, n in zip("ABC", (50, 700, 4000))}))
    base = [r for r in s.out]
    cs = cases(env, env.p["file"])
    cs.sort(key=lambda c: c["kinds"])
    alone = set()

    def run(ms, order, steps, numbers, k):
        core.tick()
        cid = {i: next(ids) for i in set(order)}
        evs, at, rs = [], {i: 0 for i in cid}, {}
        for i in order:
            c, m = cid[i], [bytes(x) for x in ms[i]]
            todo = (["open"], [0], [1], ["end"])[at[i]] if steps == 4 else (["open", 0], [1, "end"])[at[i]]
            at[i] += 1
            for t in todo:
                if t == "open":
                    evs += s.h.cmd("open %d 10.0.%d.1 1" % (c, i))
                elif t == "end":
                    evs += s.h.cmd("unhold %d" % c)
                    evs += s.h.cmd("wait %d 3000 nosettle" % c)
                else:
                    evs += s.h.cmd("send %d %s" % (c, hx(m[t])))
                    s.h.cmd("rest %d 60" % c)
        ok = [e for e in s.h.cmd("settle 3000") if e["e"] == "settled"][0]["ok"]
        log, ups, xs = s.newlog(), s.newups(), []
        for i, c in sorted(cid.items()):
            r = next((e for e in evs if e["e"] == "resp" and e["c"] == c), {})
            x = s.record(c, "10.0.%d.1" % i, [bytes(b) for b in ms[i]], "n", evs, dict(r, settled=ok))
            x.update(k=k, c=numbers[i], log=[], up=ups)
            xs.append(x)
            s.out.append(x)
        s.out.append({"k": "group", "id": next(ids), "alone": 1 if k == "solo" else 0, "crash": 0, "log": log,
                      "xs": [{"ip": x["ip"], "req": x["req"], "mode": x["mode"], "resp": x["resp"]} for x in xs]})

    for c in cs:
        ms = {i + 1: m for i, m in enumerate(c["msgs"])}
        num = {i: i * 100 + k for i, k in zip(ms, c["kinds"])}
        try:
            for i in ms:
                if num[i] not in alone:
                    run(ms, [i] * c["steps"], c["steps"], num, "solo")
                    alone.add(num[i])
            run(ms, c["order"], c["steps"], num, "with")
        except Dead:
            s.deaths.append({"id": 0, "stderr": s.h.stderr()[-3000:]})
            s.out.append({"k": "group", "id": next(ids), "alone": 0, "crash": 1, "xs": [], "log": []})
            s.h.kill()
            s.start()
    done(env, s)


# ---- time ---------------------------------------------------------------------------------------------------------
SLOWRULES = b"/api/r4,900,900,4\n/api/R9,900,900,9\n/s4.html,900,900,4\n/api/p/,900,900\n/api/t,900,900,30\n/api/t/u,900,900,12\n"
SLOW = {"api4": b"/api/r4", "held4": b"/api/r4", "static4": b"/s4.html", "held9": b"/api/r9", "free": b"/api/f", "held0": b"/api/f"}


class Slow:
    """connections that take their time, and a clock that the driver moves"""

    def __init__(self, env):
        self.env, self.rng = env, env.rng
        routes = [(m + ":" + p, 17) for p in ("/r4", "/r9", "/f", "/p/{id}", "/t", "/t/u") for m in ("GET", "POST")]
        self.s = session(env, routes=routes, files={"/index.html": b"I", "/s4.html": b"static " * 500, "/o.css": b"o"})
        self.s.w.etc("limits", SLOWRULES)
        self.s.out.clear()
        self.s.cfg()
        self.s.h.close()
        self.s.start()
        self.clock, self.open = 0, {}

    def cmd(self, line):
        core.tick()
        ev = self.s.h.cmd(line)
        for e in ev:
            c = self.open.get(e.get("c"))
            if c:
                c["ev"].append(e)
        return ev

    def begin(self, whole, hold, cut, ip="10.0.0.1"):
        cid = next(ids)
        c = self.open[cid] = dict(cid=cid, whole=whole, sent=0, born=self.clock, ev=[], held=hold, ip=ip)
        self.cmd("open %d %s %d" % (cid, ip, hold))
        self.send(c, cut)
        return c

    def send(self, c, upto):
        if upto > c["sent"]:
            self.cmd("send %d %s" % (c["cid"], hx(c["whole"][c["sent"]:upto])))
            c["sent"] = upto

    def look(self, c, ms=30):
        """how the connection stands"""
        whole = c["sent"] == len(c["whole"])
        r = next((e for e in self.cmd("wait %d %d nosettle" % (c["cid"], 4000 if whole and not c["held"] else ms)) if e["e"] == "resp"), {})
        x = self.s.record(c["cid"], c["ip"], [c["whole"][:c["sent"]]], "n", c["ev"], r)
        x.update(k="slow", whole=bl(c["whole"]), age=self.clock - c["born"], held=c["held"], settled=1, log=[], up=[])
        self.s.out.append(x)
        if x["closed"]:
            del self.open[c["cid"]]
        return x["closed"]

    def finish(self, c):
        self.send(c, len(c["whole"]))
        if c["held"]:
            self.cmd("unhold %d" % c["cid"])
            c["held"] = 0
        self.look(c)

    def tick(self, ms):
        self.cmd("skip %d" % ms)
        self.clock += ms
        for c in list(self.open.values()):
            self.look(c)

    def died(self, d):
        """the process ended: note it for the first connection that is open"""
        for c in list(self.open.values())[:1]:
            x = self.s.record(c["cid"], c["ip"], [c["whole"][:c["sent"]]], "n", c["ev"], {}, alive=0)
            x.update(k="slow", whole=bl(c["whole"]), age=self.clock - c["born"], held=c["held"], log=[], up=[])
            self.s.out.append(x)
            self.s.deaths.append({"id": x["id"], "stderr": self.s.h.stderr()[-3000:]})
        self.open = {}
        self.s.h.kill()
        self.s.start()

    def over(self):
        for c in list(self.open.values()):
            self.finish(c)
        for c in list(self.open.values()):      # kept for good
            self.cmd("abort %d" % c["cid"])
            del self.open[c["cid"]]


def slow_request(rng, path, held):
    if path.startswith(b"/api") and rng.random() < .6:
        return gen.finish(rng, b"POST", path, payload=b"a=" + gen.pick(rng, gen.ALNUM, rng.randrange(1, 40)), ctype=b"application/x-www-form-urlencoded")
    return gen.request(rng, path, methods=[b"GET"], with_body=False)


def cutpoint(rng, r):
    e = r.find(b"\r\n\r\n") + 4
    return rng.choice((0, 1, r.find(b"\n"), r.find(b"\n") + 1, rng.randrange(len(r)), rng.randrange(len(r)), e - 1, min(e, len(r) - 1), len(r) - 1))


@suite("slowcases")
def slowcases(env):
    """histories of time that TLC enumerated (Timed)"""
    s, rng = Slow(env), env.rng
    for l in open(os.path.join(env.p["dir"], "slow.txt")).read().splitlines()[env.k::env.p["of"]]:
        at = {}
        try:
            for st in json.loads(l):
                if st["a"] == "open":
                    r = slow_request(rng, SLOW[st["k"]], 0)
                    at[st["c"]] = s.begin(r, 1 if st["k"].startswith("held") else 0, cutpoint(rng, r))
                elif st["a"] == "tick":
                    s.tick(1000 * st["n"])
                else:
                    c = at[st["c"]]
                    if c["cid"] in s.open:
                        if st["a"] == "free":
                            s.finish(c)
                        else:
                            s.send(c, len(c["whole"]))
                            if c["held"]:
                                s.cmd("waitany %d 1 3000" % c["cid"])
                            else:
                                s.look(c)
            s.over()
        except Dead as d:
            s.died(d)
    done(env, s.s)


@suite("slow")
def slow(env):
    """connections whose bytes come one by one over long times, among others"""
    s, rng = Slow(env), env.rng
    for _ in range(env.n):
        try:
            for _ in range(rng.randrange(1, 6)):
                path = rng.choice((b"/api/r4", b"/API/r4", b"/api/r9", b"/s4.html", b"/o.css", b"/", b"/api/f", b"/api/p/3", b"/api/t", b"/api/t/u", b"/api/none", b"/api/r4?x=/api/t"))
                r = slow_request(rng, path, 0)
                s.begin(r, 1 if rng.random() < .4 else 0, cutpoint(rng, r))
            for _ in range(rng.randrange(1, 8)):
                for c in list(s.open.values()):
                    x = rng.random()
                    if x < .15:
                        s.finish(c)
                    elif x < .7 and c["sent"] < len(c["whole"]):
                        s.send(c, min(len(c["whole"]), c["sent"] + rng.choice((1, 1, 2, 10, 50))))
                        if c["sent"] == len(c["whole"]) and not c["held"]:
                            s.look(c)
                    elif x < .75:
                        s.look(c, 0)
                s.tick(rng.choice((1, 300, 900, 1000, 1400, 2500, 2500, 6000, 11000, 20000, 40000, 400000)))
            s.over()
        except Dead as d:
            s.died(d)
    done(env, s.s)


# ---- bytes from anywhere ------------------------------------------------------------------------------------------
def mutate(rng, r):
    r = bytearray(r)
    for _ in range(rng.choice((1, 1, 2, 3, 8))):
        x = rng.random()
        i = rng.randrange(len(r) + 1)
        if x < .2 and r:
            r[i % len(r)] = rng.randrange(256)
        elif x < .35:
            r[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 10, 100))))
        elif x < .5:
            del r[i:i + rng.choice((1, 2, 5, 20))]
        elif x < .65:
            r[i:i] = rng.choice((b"\r", b"\n", b"\r\n", b"\r\n\r\n", b" ", b":", b"?", b"\0", b"&", b"=", b";", b'"', b"%", b"--", b"%s%n", b"../"))
        elif x < .8:
            r[i:i] = bytes([rng.choice(b"A0 /.-:?\r\n\0=&%\"")]) * rng.choice((1, 60, 64, 70, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2048, 9999, 10000))
        else:
            j = rng.randrange(len(r) + 1)
            r[i:i] = r[j:j + rng.choice((5, 30, 200))]
    return bytes(r)


WILD = [
    b"", b"\r\n", b"\r\n\r\n", b"\n\n", b" \r\n\r\n", b"GET\r\n\r\n", b"GET \r\n\r\n", b"GET /\r\n\r\n", b"GET / \r\n\r\n", b"GET  / HTTP/1.1\r\n\r\n", b"?\r\n\r\n", b"GET ? HTTP/1.1\r\n\r\n",
    b"GET /api HTTP/1.1\r\n\r\n", b"GET /api? HTTP/1.1\r\n\r\n", b"GET /api/ HTTP/1.1\r\n\r\n", b":\r\n\r\n", b"GET / HTTP/1.1\r\n:\r\n\r\n", b"GET / HTTP/1.1\r\n: v\r\n\r\n", b"GET / HTTP/1.1\r\nn\r\n\r\n",
    b"GET / HTTP/1.1\r\nContent-Length:\r\n\r\n", b"POST /api/e HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabc",
    b"POST /api/e HTTP/1.1\r\nContent-Length: 2147483647\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Length: 4294967297\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Length: 2147483648\r\n\r\nabc",
    b"POST /api/e HTTP/1.1\r\nContent-Length: 0x10\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Length: abc\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 5\r\n\r\nabc",
    b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc", b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=\r\nContent-Length: 3\r\n\r\nabc",
    b'POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary="\r\nContent-Length: 3\r\n\r\nabc', b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + b"b" * 500 + b"\r\nContent-Length: 3\r\n\r\nabc",
    b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 3\r\n\r\n--x", b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 5\r\n\r\n--x--",
    b"POST /api/e HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 8\r\n\r\n--x\r\n--x", b"A" * 5000, b"GET /" + b"a" * 5000 + b" HTTP/1.1\r\n\r\n", b"G" * 300 + b" / HTTP/1.1\r\n\r\n",
    b"GET / HTTP/1.1\r\n" + b"X: y\r\n" * 500 + b"\r\n", b"GET / HTTP/1.1\r\n" + b"X" * 3000 + b": y\r\n\r\n", b"GET / HTTP/1.1\r\nCookie: " + b"WSSESSION=" * 90 + b"\r\n\r\n",
    b"GET / HTTP/1.1\r\nX-Session: " + b"s" * 900 + b"\r\n\r\n", b"GET / HTTP/1.1\r\nX-Real-IP: " + b"1" * 900 + b"\r\n\r\n", b"GET / HTTP/1.1\r\nContent-Type: " + b"t" * 900 + b"\r\n\r\n",
    b"GET / HTTP/1.1\r\nContent-Length: " + b"0" * 900 + b"\r\n\r\n", b"GET / HTTP/1.1\r\nAuthorization:\r\n\r\n", b"GET / HTTP/1.1\r\nCookie: WSSESSION\r\n\r\n", b"GET / HTTP/1.1\r\nCookie:WSSESSION=\r\n\r\n",
]


@suite("wildcases")
def wildcases(env):
    """sequences of pieces enumerated by TLC (MC_Wild)"""
    s = session(env, files={"/index.html": b"<html>index</html>"})
    for i, c in enumerate(cases(env, "wilds.txt")):
        b = bytes(c["s"])
        s.x(b if i % 3 else gen.split(env.rng, b), mode="sssa"[i % 4])
        if i % 25 == 24:
            s.x(b"GET /api/j HTTP/1.1\r\n\r\n")
    s.dir()
    done(env, s)


@suite("wild")
def wild(env):
    """bytes that no well behaved client sends; every now and then a well formed request must still be answered"""
    rng = env.rng
    s = session(env, ask=[b"X-Token"], files={"/index.html": b"I", "/a.txt": b"x" * 3000})
    s.w.etc("deny", b"10.66.6.6\n")
    s.cfg()
    for i in range(env.n):
        x = rng.random()
        if x < .25:
            r = rng.choice(WILD)
            if rng.random() < .3 and r:
                r = mutate(rng, r)
        elif x < .75:
            if rng.random() < .35:
                ct, b = gen.multipart(rng)
                r = gen.finish(rng, b"POST", rng.choice((b"/api/e", b"/api/p/8", b"/api/f", b"/")), ctype=ct, payload=mutate(rng, b) if rng.random() < .6 else b)
                if rng.random() < .4:
                    r = mutate(rng, r)
            else:
                r = mutate(rng, gen.request(rng, rng.choice((b"/api/e", b"/api/p/1", b"/", b"/a.txt", b"/api/f", b"/api/j", b"/api"))))
        elif x < .79:    # request lines about as long as the room for one
            m = rng.choice((b"GET", b"POST", b"GETX", b"G", b"GET" + b"X" * rng.choice((250, 251, 252, 253, 300, 600))))
            n = rng.choice((0, 1, 2, 509, 510, 511, 512, 513, rng.randrange(1020)))
            total = rng.choice((1021, 1022, 1023, 1024, 1025, rng.randrange(400, 1200)))
            k = max(1, total - len(m) - n - rng.choice((0, 0, 1, 9)))
            r = m + rng.choice((b" ", b" ", b"\t", b"\r")) * k + (rng.choice((b"/", b"/api/", b"x")) + b"a" * n)[:n] + rng.choice((b"", b" ", b" HTTP/1.1", b"\0")) + rng.choice((b"", b"\r\n\r\n", b"\n"))
        elif x < .85:
            r = bytes(rng.randrange(256) for _ in range(rng.choice((1, 10, 100, 1023, 1024, 1025, 3000))))
        else:
            r = gen.request(rng, rng.choice((b"/api/e", b"/", b"/a.txt", b"/api/p/" + gen.urlpath(rng, 500))))
        s.x(gen.split(rng, r) if r else [], mode=rng.choice("sssaA"), fails=[(rng.choice(TRANSIENT), rng.choice((1, 3)))] if rng.random() < .03 else (),
            ip="10.66.6.6" if rng.random() < .05 else "10.0.0.1")
        if i % 10 == 0:
            s.x(rng.choice((b"GET /api/j HTTP/1.1\r\n\r\n", b"GET /a.txt HTTP/1.1\r\n\r\n")))
    s.dir()
    done(env, s)


TRANSIENT = (103, 4, 24, 23, 12, 105, 71, 11)


@suite("accfails")
def accfails(env):
    """failures of accept, few or many in a row, again and again in the life of one server"""
    s = session(env, files={"/index.html": b"I"})
    rng = env.rng
    for i in range(env.n):
        fails = [(rng.choice(TRANSIENT), rng.choice((1, 1, 1, 2, 3, 10))) for _ in range(rng.choice((0, 1, 1, 2, 5)))]
        if i % 40 == 5:
            fails = [(rng.choice((103, 4, 71, 11)), 400)]
        if i % 40 == 25:
            fails = [(rng.choice((24, 23, 12, 105)), 30)]
        r = rng.choice((b"GET /api/j HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET /api/e?%d HTTP/1.1\r\nX-A: b\r\n\r\n" % i))
        s.x(r, fails=fails, ip="10.0.0.%d" % rng.randrange(1, 9))
    done(env, s)


MP = b"Content-Type: multipart/form-data; boundary=BB\r\n"
MPB = b'--BB\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--BB\r\nContent-Disposition: form-data; name="f"; filename="x.bin"\r\n\r\nDATA\r\n--BB--\r\n'
AGAIN = {
    "json": dict(segs=b"GET /api/j HTTP/1.1\r\nHost: a\r\n\r\n"),
    "echo": dict(segs=b"POST /api/e?a=1 HTTP/1.1\r\nX-Token: a\r\nReferer: r\r\nUser-Agent: u\r\nContent-Type: t\r\nX-Session: s\r\nContent-Length: 3\r\n\r\na=1"),
    "twice": dict(segs=b"POST /api/e HTTP/1.1\r\nContent-Type: t\r\nContent-Type: u\r\nX-Real-IP: 1.1.1.1\r\nX-Real-IP: 1.1.1.2\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\na=1"),
    "param": dict(segs=b"GET /api/p/7 HTTP/1.1\r\n\r\n"),
    "param form": dict(segs=b"POST /api/p/7 HTTP/1.1\r\nContent-Length: 3\r\n\r\na=1"),
    "multipart": dict(segs=b"POST /api/e HTTP/1.1\r\n" + MP + b"Content-Length: %d\r\n\r\n" % len(MPB) + MPB),
    "empty multipart": dict(segs=b"POST /api/p/1 HTTP/1.1\r\n" + MP + b"Content-Length: 4\r\n\r\nnone"),
    "no route": dict(segs=b"GET /api/none HTTP/1.1\r\nX-A: b\r\n\r\n"),
    "index": dict(segs=b"GET / HTTP/1.1\r\nX-Session: s\r\n\r\n"),
    "folder": dict(segs=b"GET /d/ HTTP/1.1\r\n\r\n"),
    "empty file": dict(segs=b"GET /empty HTTP/1.1\r\n\r\n"),
    "not there": dict(segs=b"GET /x/y HTTP/1.1\r\n\r\n"),
    "favicon": dict(segs=b"GET /favicon.ico HTTP/1.1\r\n\r\n"),
    "parent": dict(segs=b"GET /../hidden.txt HTTP/1.1\r\n\r\n"),
    "static post": dict(segs=b"POST /a.txt HTTP/1.1\r\n\r\n"),
    "method": dict(segs=b"GOT / HTTP/1.1\r\n\r\n"),
    "long URL": dict(segs=b"GET /" + b"a" * 600 + b" HTTP/1.1\r\n\r\n"),
    "long header": dict(segs=b"GET /api/e HTTP/1.1\r\nX-A: " + b"a" * 5000 + b"\r\n\r\n"),
    "many headers": dict(segs=b"GET /api/e HTTP/1.1\r\n" + b"X-A: b\r\n" * 150 + b"\r\n"),
    "nothing": dict(segs=[], mode="s"),
    "cut line": dict(segs=b"GET /api", mode="s"),
    "cut headers": dict(segs=b"GET /api/e HTTP/1.1\r\nX-Session: a\r\nContent-Type: b\r\n", mode="s"),
    "cut body": dict(segs=b"POST /api/e HTTP/1.1\r\nContent-Length: 99\r\n\r\na=1", mode="s"),
    "gone": dict(segs=b"GET /api/e HTTP/1.1\r\nX-Session: a\r\n\r\n", mode="A"),
    "gone early": dict(segs=b"POST /api/e HTTP/1.1\r\nContent-Length: 9\r\n\r\na", mode="a"),
    "denied": dict(segs=b"GET /api/e HTTP/1.1\r\n\r\n", ip="10.66.6.6"),
    "limited": dict(segs=b"GET /api/zero HTTP/1.1\r\n\r\n"),
    "refused": dict(segs=b"GET /api/no HTTP/1.1\r\nX-Session: s\r\n\r\n"),
    "accept": dict(segs=b"GET /api/j HTTP/1.1\r\n\r\n", fails=[(103, 1)]),
    "error": dict(segs=b"GET /api/r9 HTTP/1.1\r\n\r\n"),
    "list": dict(segs=b"GET /api/r12 HTTP/1.1\r\n\r\n"),
    "stream": dict(segs=b"GET /api/r13 HTTP/1.1\r\n\r\n"),
    "message": dict(segs=b"GET /api/r14 HTTP/1.1\r\n\r\n"),
    "created": dict(segs=b"GET /api/r3 HTTP/1.1\r\n\r\n"),
    "handshake": dict(segs=b"GET / HTTP/1.1\r\n\r\n", mode="s", tls=False),
    "one header": dict(segs=lambda rng, i: some_headers([AGAIN_H[i % len(AGAIN_H)]], b"/api/e")),
    "some headers": dict(segs=lambda rng, i: some_headers([h for h in AGAIN_H if rng.random() < .5], b"/api/e")),
    "some headers of a file": dict(segs=lambda rng, i: some_headers([h for h in AGAIN_H if rng.random() < .5], b"/a.txt")),
    "some headers and a body": dict(segs=lambda rng, i: some_headers([h for h in AGAIN_H if rng.random() < .5], b"/api/p/a", b"a=1&b=" + b"c" * rng.randrange(40))),
}
AGAIN_H = (b"Referer", b"User-Agent", b"X-Session", b"X-Real-IP", b"Content-Type", b"X-Token", b"X-Forwarded-For", b"Host")


def some_headers(names, path, body=b""):
    v = {b"X-Real-IP": b"192.168.100.200"}
    h = b"".join(n + b": " + v.get(n, n.lower() * 4) + b"\r\n" for n in names)
    if body:
        return b"POST " + path + b" HTTP/1.1\r\n" + h + b"Content-Length: %d\r\n\r\n" % len(body) + body
    return b"GET " + path + b" HTTP/1.1\r\n" + h + b"\r\n"


@suite("endure")
def endure(env):
    """each kind of request again and again: what the server holds does not grow"""
    rng = env.rng
    for tls in (False, True):
        w = session(env, ECHO + REPLIES + [("GET:/no", 17, 2), ("GET:/zero", 17)], {"/index.html": b"I", "/a.txt": b"A" * 3000, "/d/index.html": b"D", "/empty": b"", "/favicon.ico": b"F"}, pool=4, tls=tls)
        s = w
        s.w.etc("allow", b"10.0.0.1\n10.0.0.2\n")
        s.w.etc("deny", b"10.1.1.1\n10.66.6.6\n10.1.1.2\n")
        s.w.etc("limits", b"/api/zero, 0, 0, 10\n")
        s.h.kill()
        s.start()
        s.cfg()
        todo = [k for k in sorted(AGAIN) if tls or k != "handshake"]
        for k in todo[env.k % 2::2] if env.n > 20 else rng.sample(todo, 4):
            kw = dict(AGAIN[k])
            segs = kw.pop("segs")
            turn = itertools.count()
            def one():
                r = s.x(segs(rng, next(turn)) if callable(segs) else segs, **kw)
                if k == "handshake":
                    r["k"] = "hs"
            s.endure(k, env.n, one)
        done(env, s)


# ---- limits file --------------------------------------------------------------------------------------------------
def limits_file(rng):
    lines = []
    for _ in range(rng.choice((0, 1, 2, 3, 5, 10, 30, 63, 64, 65, 70, 200)) if rng.random() < .4 else rng.randrange(0, 8)):
        x = rng.random()
        p = b"/" + gen.pick(rng, gen.ALNUM + b"/._-", rng.randrange(0, 20))
        if rng.random() < .05:
            p = b"/" + gen.pick(rng, gen.ALNUM, rng.choice((254, 255, 256, 300, 500, 509, 510, 511, 512, 600, 1500)))
        n = [b"%d" % rng.choice((0, 1, 2, 5, 10, 100, 999, 65536, rng.randrange(100000))) for _ in range(3)]
        sp = lambda: rng.choice((b"", b"", b" ", b"  ", b"\t"))
        f = [p] + n[:rng.choice((3, 3, 3, 2))]
        l = b",".join(sp() + v + sp() if i else v + sp() for i, v in enumerate(f))
        if x < .1:
            l = b",".join(f[:rng.choice((1, 2))])
        elif x < .2:
            l = rng.choice((b"#", b" ", b"x", b"//"[:0] + b"api")) + l
        elif x < .25:
            l = rng.choice((b"", b"#", b"# comment, with, commas, 1", b"no rule", b"/", b"/only", b"/two,1"))
        elif x < .3:
            l += rng.choice((b", comment", b",7,8", b" "))
        lines.append(l)
    nl = rng.choice((b"\n", b"\n", b"\r\n"))
    return nl.join(lines) + (nl if lines and rng.random() < .7 else b"")


@suite("limcases")
def limcases(env):
    """limits files enumerated by TLC (MC_Limits)"""
    read_limits(env, [bytes(c["f"]) for c in cases(env, "limfiles.txt")])


@suite("limfile")
def limfile(env):
    read_limits(env, (None if env.rng.random() < .03 else limits_file(env.rng) for _ in range(env.n)))


def read_limits(env, files):
    w = World(env.sub("w"))
    s = Session(env.exes["free"], w, [("GET:/e", 17)], launch=False)
    out = s.out
    for f in files:
        core.tick()
        w.etc("limits", f)
        rec = {"k": "limits", "id": next(ids), "file": [] if f is None else bl(f), "rules": [], "alive": 1}
        try:
            ev = s.h.cmd("limits")
            rec["rules"] = [{"path": by(e["p"]), "max": e["m"], "per": e["i"], "secs": e["s"]} for e in ev if e["e"] == "rule"]
        except Dead:
            rec["alive"] = 0
            s.deaths.append({"id": rec["id"], "stderr": s.h.stderr()[-3000:]})
            s.start()
        out.append(rec)
    done(env, s)
