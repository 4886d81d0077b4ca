"""Random requests. Everything comes from the random generator that is passed in."""
TOKEN = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~"
PRINT = bytes(range(33, 127))
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
METHODS = [b"GET", b"POST", b"PUT", b"DELETE"]


def pick(rng, alphabet, n):
    return bytes(rng.choice(alphabet) for _ in range(n))


def near(rng, *marks, small=40):
    """a size: mostly small, often next to one of the marks"""
    if marks and rng.random() < 0.45:
        return max(0, rng.choice(marks) + rng.choice((-2, -1, -1, 0, 0, 1, 1, 2)))
    return rng.randrange(small)


def value(rng, n):
    """a header value of n bytes without outer space"""
    if n == 0:
        return b""
    m = rng.random()
    if m < 0.5:
        return pick(rng, PRINT, n)
    v = bytearray(rng.choice(PRINT) if rng.random() < .85 else rng.choice(b" \t") for _ in range(n))
    if m > 0.9:
        for _ in range(max(1, n // 8)):
            v[rng.randrange(n)] = rng.choice(b":;=\",?&/")
    if m > 0.95:
        for _ in range(max(1, n // 8)):
            v[rng.randrange(n)] = rng.randrange(128, 256)
    v[0] = v[0] if v[0] > 32 else 65
    v[-1] = v[-1] if v[-1] > 32 else 90
    return bytes(v)


def sep(rng):
    return rng.choice((b": ", b": ", b": ", b":", b":  ", b":\t", b": \t "))


def tail(rng):
    return rng.choice((b"", b"", b"", b"", b" ", b"\t", b"  "))


def case(rng, name):
    m = rng.random()
    if m < .5:
        return name
    if m < .7:
        return name.lower()
    if m < .8:
        return name.upper()
    return bytes(c ^ 32 if 65 <= (c & ~32) <= 90 and rng.random() < .5 else c for c in name)


def name(rng, marks=(63,)):
    n = max(1, near(rng, *marks, small=20) if rng.random() < .3 else rng.randrange(1, 15))
    return pick(rng, TOKEN, n)


SPECIAL = (b"content-type", b"content-length", b"x-real-ip", b"x-session", b"authorization", b"cookie", b"x-token")


def header(rng, marks=(255,)):
    nm = name(rng)
    while nm.lower() in SPECIAL:
        nm = name(rng)
    return nm, value(rng, near(rng, *marks, small=30))


def decoy(rng):
    """headers whose name or value resembles one that matters"""
    n = rng.choice((b"X-Sessions", b"X-Sess", b"My-X-Session", b"Cookies", b"Set-Cookie", b"Content-Types", b"X-Content-Length",
                    b"Content-Lengths", b"Authorizations", b"X-Real-IPs", b"Content", b"X-Real", b"Referer2", b"X-Referer", b"User-Agents",
                    b"C", b"X", b"Accept", b"Host", b"Origin"))
    v = rng.choice((b"WSSESSION=evil", b"X-Session: evil", b"Content-Length: 7", b"10", b"multipart/form-data; boundary=zz", b"9.9.9.9",
                    b"Authorization", b"a\tb", b"GET / HTTP/1.1", b"text/plain", b"::", b":", b"Cookie: WSSESSION=evil"))
    return n, v


def line(rng, n, v):
    return n + sep(rng) + v + tail(rng) + b"\r\n"


def urlpath(rng, n):
    return pick(rng, bytes(c for c in PRINT if c not in b"?"), n)


def query(rng, n):
    m = rng.random()
    if m < .5:
        return b"&".join(pick(rng, ALNUM, rng.randrange(1, 5)) + b"=" + pick(rng, ALNUM, rng.randrange(0, 6)) for _ in range(max(1, n // 8)))[:n]
    return pick(rng, PRINT + b"????&&==//", n)


def session_headers(rng):
    m = rng.random()
    out = []
    ident = value(rng, near(rng, 63, small=33)).replace(b";", b"x") if rng.random() < .5 else pick(rng, ALNUM + b"-_.", near(rng, 63, small=40))
    if m < .3:
        out.append((rng.choice((b"X-Session", b"Authorization")), ident))
    elif m < .55:
        cs = [pick(rng, ALNUM, rng.randrange(1, 8)) + b"=" + pick(rng, ALNUM, rng.randrange(0, 9)) for _ in range(rng.randrange(0, 4))]
        if rng.random() < .2:
            cs.append(rng.choice((b"XWSSESSION=evil", b"WSSESSIONX=evil", b"wssession=evil", b"a=WSSESSION=evil")))
        rng.shuffle(cs)
        if rng.random() < .8:
            cs.insert(rng.randrange(len(cs) + 1), b"WSSESSION=" + pick(rng, ALNUM + b"-_.=", near(rng, 63, small=40)))
        out.append((b"Cookie", b"; ".join(cs) if rng.random() < .8 else b";".join(cs)))
    elif m < .65:
        out.append((b"Cookie", b"WSSESSION=" + pick(rng, ALNUM, rng.randrange(1, 40))))
        out.append((rng.choice((b"X-Session", b"Authorization")), ident))
        rng.shuffle(out)
    return out


def split(rng, data, mode=None):
    """the segments in which the bytes are sent"""
    m = rng.random() if mode is None else mode
    if m < .35 or len(data) < 2:
        return [data]
    if m < .6:
        cuts = sorted({rng.randrange(1, len(data)) for _ in range(rng.randrange(1, 6))})
    elif m < .75:                                       # around line ends
        marks = [i + d for i in range(len(data)) if data[i:i + 1] in (b"\r", b"\n") for d in (0, 1)]
        cuts = sorted({x for x in marks if 0 < x < len(data) and rng.random() < .5})
    elif m < .9 and len(data) < 400:
        cuts = list(range(1, len(data)))
    else:
        k = rng.choice((1, 2, 3, 7, 16, 64, 255, 256, 511, 512, 1023, 1024))
        cuts = list(range(k, len(data), k))[:600]
    out, at = [], 0
    for c in cuts:
        out.append(data[at:c])
        at = c
    out.append(data[at:])
    return [s for s in out if s]


def body(rng, marks=()):
    n = near(rng, *marks, small=60)
    m = rng.random()
    if m < .6:
        return pick(rng, PRINT + b" \r\n", n)
    if m < .8:
        return bytes(rng.randrange(256) for _ in range(n))
    return (b"\r\n\r\nGET /api/e HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc" * (n // 40 + 1))[:n]


def request(rng, path, methods=METHODS, qmax=True, with_body=None, with_session=None, logish=True, big=False):
    """a well formed request"""
    method = rng.choice(methods)
    url = path
    m = rng.random()
    if qmax and m < .55:
        q = query(rng, near(rng, small=40))
        url += b"?" + q
    elif qmax and m < .6:
        url += b"?" + query(rng, max(0, rng.choice((500, 505, 510, 511, 512, 513, 600)) - len(url) - 1))
    return finish(rng, method, url, with_body, with_session, logish, big)


def finish(rng, method, url, with_body=None, with_session=None, logish=True, big=False, ctype=None, payload=None):
    hs = []
    for _ in range(rng.choice((0, 0, 1, 2, 3, 5, 8, 13, 17, 18, 19, 20, 21, 25)) if rng.random() < .6 else rng.randrange(4)):
        hs.append(header(rng) if rng.random() < .8 else decoy(rng))
    if rng.random() < .1:
        hs.append((name(rng), value(rng, rng.choice((900, 1000, 1015, 1020, 1024, 1500, 3000)))))
        hs = [h for h in hs if h[0].lower() not in SPECIAL]
    if with_session is not False and (with_session or rng.random() < .4):
        hs += session_headers(rng)
    if rng.random() < .3:
        hs.append((b"X-Real-IP", value(rng, near(rng, 24, small=16))))
    if logish and rng.random() < .5:
        hs.append((b"Referer", value(rng, near(rng, 255, small=40))))
    if logish and rng.random() < .5:
        hs.append((b"User-Agent", value(rng, near(rng, 255, small=40))))
    if rng.random() < .2:
        hs.append((b"X-Token", rng.choice((b"yes", b"no", b"yes ", b""))))
    rng.shuffle(hs)
    b = b""
    if payload is not None or with_body or (with_body is None and rng.random() < .5):
        b = payload if payload is not None else body(rng, (1023, 1024, 1025, 4096, 9999, 10000) if big else (255, 256, 512, 1023, 1024))
        n = b"%d" % len(b)
        if rng.random() < .1:
            n = b"0" * rng.randrange(1, 3) + n
        hs.insert(rng.randrange(len(hs) + 1), (b"Content-Length", n))
    if ctype is None and rng.random() < .5:
        t = rng.choice((b"application/json", b"text/plain", b"application/x-www-form-urlencoded", b"text/html; charset=utf-8",
                        b"application/json;charset=utf-8", b"x", b"a/b ; c", value(rng, rng.randrange(1, 60)).replace(b"multipart", b"m")))
        hs.insert(rng.randrange(len(hs) + 1), (b"Content-Type", t))
    elif ctype:
        hs.insert(rng.randrange(len(hs) + 1), (b"Content-Type", ctype))
    head = method + b" " + url + b" " + rng.choice((b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0")) + b"\r\n"
    head += b"".join(line(rng, case(rng, n) if n.lower() in SPECIAL + (b"referer", b"user-agent") else n, v) for n, v in hs)
    after = b""
    if rng.random() < .12:
        after = rng.choice((b"\r\n", b"x", b"GET / HTTP/1.1\r\n\r\n", bytes(rng.randrange(256) for _ in range(30))))
    return head + b"\r\n" + b + after


def multipart(rng, boundary=None, big=0, parts=None):
    """(content type, body)"""
    b = boundary or pick(rng, ALNUM + b"'()+_,-./:=?" if rng.random() < .3 else ALNUM + b"-", rng.choice((1, 2, 3, 8, 20, 40, 60, 68, 69, 70)))
    plain = all(c in ALNUM + b"-_.'" for c in b)
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 6)) if parts is None else parts
    out = b""
    for i in range(n):
        isf = rng.random() < .55
        nm = pick(rng, ALNUM + b"_-[] .", rng.choice((1, 3, 8, 20, 60, 120, 300)) if rng.random() < .3 else rng.randrange(1, 9))
        disp = b'Content-Disposition: form-data; name="' + nm + b'"'
        extra = []
        if isf:
            fn = pick(rng, ALNUM + b"._- ()", rng.choice((0, 1, 5, 12, 60, 200, 254, 255)) if rng.random() < .4 else rng.randrange(1, 20))
            disp += b'; filename="' + fn + b'"'
        if rng.random() < (.8 if isf else .1):
            extra.append(b"Content-Type: " + rng.choice((b"text/plain", b"application/octet-stream", b"image/png")))
        if rng.random() < .1:
            extra.append(b"X-Part: " + value(rng, rng.randrange(1, 40)).replace(b"form-data", b"fd"))
        hs = [disp] + extra
        if rng.random() < .2:
            rng.shuffle(hs)
        c = part_content(rng, isf, b, big if isf else 0)
        out += b"--" + b + b"\r\n" + b"\r\n".join(hs) + b"\r\n\r\n" + c + b"\r\n"
    out += b"--" + b + b"--" + (b"\r\n" if rng.random() < .8 else b"")
    bp = b'"' + b + b'"' if not plain or rng.random() < .25 else b
    ct = rng.choice((b"multipart/form-data", b"multipart/form-data", b"Multipart/Form-Data")) + rng.choice((b"; ", b"; ", b";", b"; charset=utf-8; ")) + \
        rng.choice((b"boundary=", b"boundary=", b"Boundary=")) + bp + (b"; charset=utf-8" if rng.random() < .1 else b"")
    return ct, out


def part_content(rng, isf, b, big):
    m = rng.random()
    n = near(rng, 255, 256, 1023, 1024, small=50) if not big else rng.choice((big, big + 1, big - 1))
    if m < .25:
        c = pick(rng, PRINT + b" ", n)
    elif m < .5:
        c = bytes(rng.randrange(256) for _ in range(n))
    elif m < .6:
        c = pick(rng, b"\r\n-", n)
    elif m < .8:
        frag = [b"\r\n\r\n", b"\r\n", b"\n\n", b"--", b"--" + b[:-1], b"\r\n--" + b[:len(b) // 2], b"-" + b, b'Content-Disposition: form-data; name="q"; filename="w"',
                b"Content-Type: text/plain", b"&tmpfile=", b"=", b"&", b'form-data; name="', b"\0", b"boundary=" + b, b"\r", b"\r\r\n"]
        c = b"".join(rng.choice(frag) for _ in range(rng.randrange(1, 8)))
    else:
        c = b"" if rng.random() < .3 else bytes([rng.randrange(256)]) * n
    c = c.replace(b"--" + b, b"--")
    if not isf:
        c = c.replace(b"\0", b"")
    # the delimiter must not appear at the end of the content either
    while b"--" + b in c + b"\r\n":
        c = c.replace(b"--" + b, b"")
    return c
