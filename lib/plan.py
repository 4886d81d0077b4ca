"""Which models and suites decide which property, and how a check runs them."""
import os, json, re, time, sys, concurrent.futures
from collections import Counter
import core, build, tlc
import suites, sched, libs, cli  # noqa: register

HERE = core.HERE


def hexline(c):
    return bytes(c).hex()


def jsonline(c):
    return json.dumps(c, separators=(",", ":"))


# A model: (module, cfg quick, cfg thorough, file for the emitted cases, how a case is written)
def M(module, quick, thorough=None, emit=None, conv=jsonline, expect=None, workers=4, heap="4g"):
    return dict(module=module, quick=quick, thorough=thorough or quick, emit=emit, conv=conv, expect=expect, workers=workers, heap=heap)


# A suite: (name, quick jobs, quick n, thorough jobs, thorough n, parameters)
def S(name, qj, qn, tj=None, tn=None, **p):
    return dict(name=name, quick=(qj, qn), thorough=(tj or qj * 8, tn or qn), p=p)


TARGETS = M("MC_Target", "MC_Target", "MC_Target_deep", "targets.txt", hexline)
ROUTES = M("MC_Router", "MC_Router", "MC_Router_deep", "routes.txt")
ROUTESF = M("MC_Router", "MC_Router_filters", "MC_Router_filters", "routes.txt")
CONNS = M("MC_Conn", "MC_Conn", "MC_Conn_deep", "conns.txt")
WILDS = [M("MC_Wild", "MC_Wild_" + k, "MC_Wild_%s_deep" % k, "wilds.txt") for k in ("all", "core")]
ISO2 = M("Isolation", "Isolation_two", None, "iso2.txt")
ISO3 = M("Isolation", None, "Isolation_three", "iso3.txt")
ISOBUG = M("Isolation", "Isolation_shared", None, expect="violated")
FORMS = [M("MC_Multipart", "MC_Multipart", "MC_Multipart", "forms.txt"), M("MC_Multipart", None, "MC_Multipart_deep", "forms.txt")]
SESS = [M("MC_Session", "MC_Session", "MC_Session_deep", "sessions.txt"), M("MC_Session", None, "MC_Session_three", "sessions.txt")]
LIMS = [M("MC_Limits", "MC_Limits", "MC_Limits_deep", "limfiles.txt"), M("MC_Limits", "MC_Limits_many", "MC_Limits_many_deep", "limfiles.txt")]
REPLIES = [M("MC_Reply", "MC_Reply_" + k, None, "replies.txt") for k in ("plain", "bare", "errors", "status", "lists")] + [M("MC_Reply", None, "MC_Reply_manystatus", "replies.txt")]
IPS = M("MC_IpFilter", "MC_IpFilter", "MC_IpFilter", "ips.txt")

TIMED = M("Timed", "Timed", "Timed_deep", "slow.txt")
CLI = M("MC_CmdLine", "MC_CmdLine", "MC_CmdLine_deep", "cli.txt")
TEXTS = M("MC_Text", "MC_Text", "MC_Text_deep", "texts.txt")
CONFS = M("MC_Conf", "MC_Conf", "MC_Conf_deep", "confs.txt")
JSONS = M("MC_Json", "MC_Json", "MC_Json_deep", "jsons.txt")
FILES = M("MC_Files", "MC_Files", None, "files.txt", workers=1)
LOGS = M("MC_Log", "MC_Log", "MC_Log_deep", "logs.txt")

SERVER = M("MC_Server", "MC_Server", "MC_Server_deep", workers=2)
IMPL = M("ServerImpl", "SI_quick", "SI_none", workers=2)
IMPL2 = M("ServerImpl", None, "SI_none")
DEEP = M("ServerImpl", None, "SI_deep", heap="12g")
HIST = [M("Histories", "Histories_" + k, "Histories_%s_deep" % k, "histories.txt") for k in "abc"]
LIVE = M("ServerImpl", None, "SI_live")


def BUGS(*names):
    """what the mechanisms are needed for: the model with one of them broken must show the violation"""
    return [M("ServerImpl", None, "SI_" + n, expect="violated", heap="8g") for n in names]


PLAN = {
    "C01": dict(models=[SERVER, IMPL, LIVE, DEEP] + BUGS("if", "signal_empty", "no_wrap", "fatal"), suites=[S("sched-dispatch", 16, 50), S("sched-queue", 2, 1, 16, 4), S("pool", 1, 2, 4, 6)]),
    "C02": dict(models=[SERVER, IMPL2] + BUGS("keep_full"), suites=[S("sched-dispatch", 12, 50), S("sched-limits", 6, 50), S("sched-queue", 1, 1, 8, 4), S("stop", 4, 150), S("endure", 2, 60)]),
    "C03": dict(models=[SERVER, IMPL] + BUGS("split", "off_by_one", "late_del") + HIST, suites=[S("sched-limits", 16, 50), S("sched-reuse", 8, 120), S("histories", 8, 0, stride=4)]),
    "C04": dict(models=[SERVER, IMPL2] + BUGS("leak") + HIST, suites=[S("sched-limits", 16, 50), S("sched-reuse", 8, 120), S("histories", 8, 0, stride=4)]),
    "C23": dict(models=[SERVER] + BUGS("fatal"), suites=[S("sched-dispatch", 20, 40, fails=True), S("accfails", 4, 120)]),
    "C05": dict(models=[IPS], suites=[S("ipcases", 8, 0, stride=8), S("ip", 8, 300)]),
    "C06": dict(models=[TARGETS], suites=[S("target", 8, 400)]),
    "C07": dict(models=[TARGETS], suites=[S("static", 16, 160), S("target", 8, 60)]),
    "C08": dict(models=[ROUTES], suites=[S("routercases", 8, 0), S("router", 8, 500), S("sched-iso", 8, 40)]),
    "C09": dict(models=[ROUTESF], suites=[S("routercases", 8, 0, stride=4), S("router", 8, 500, filters=True), S("sched-iso", 8, 40)]),
    "C10": dict(models=[CONNS], suites=[S("conncases", 4, 0, ends="n", stride=2), S("request", 8, 500), S("segments", 4, 2), S("body", 4, 10)]),
    "C11": dict(models=[CONNS] + WILDS, suites=[S("wildcases", 4, 0, stride=6), S("conncases", 8, 0, ends="sa", stride=4), S("stop", 8, 400), S("stopall", 4, 3)]),
    "C12": dict(models=FORMS, suites=[S("mpartcases", 8, 0, stride=3), S("multipart", 16, 250), S("sched-iso", 8, 40)]),
    "C13": dict(models=REPLIES, suites=[S("replycases", 8, 0, stride=8), S("reply", 12, 200), S("request", 4, 300), S("sched-iso", 8, 40)]),
    "C14": dict(models=REPLIES, suites=[S("replycases", 6, 0, stride=12), S("reply", 4, 200), S("request", 8, 400), S("static", 4, 100), S("stamp", 2, 200), S("sched-iso", 8, 40)]),
    "C15": dict(strict=True, models=[ISO2, ISO3, ISOBUG], suites=[S("isocases", 8, 0, file="iso2.txt", stride=6), S("isocases", 0, 0, 64, 0, file="iso3.txt"), S("sched-iso", 20, 40), S("sched-limits", 4, 40, exchanges=4)]),
    "C16": dict(models=[CONNS] + WILDS, suites=[S("wildcases", 8, 0, stride=3), S("conncases", 4, 0, ends="sa", stride=4), S("wild", 12, 400), S("stop", 4, 200), S("endure", 2, 60)]),
    "C17": dict(models=[CONFS], suites=[S("confcases", 4, 0), S("conf", 8, 150)]),
    "C18": dict(models=[JSONS], suites=[S("jsoncases", 4, 0), S("json", 8, 120)]),
    "C24": dict(models=[LOGS], suites=[S("logcases", 8, 0, stride=3), S("log", 8, 100)]),
    "C25": dict(models=[FILES], suites=[S("filecases", 8, 0, stride=4), S("files", 8, 40)]),
    "C26": dict(models=[TEXTS], suites=[S("textcases", 4, 0), S("text", 8, 200), S("md5", 2, 60), S("textpar", 3, 12)]),
    "C19": dict(models=LIMS, suites=[S("limcases", 8, 0), S("limfile", 8, 250)]),
    "C21": dict(strict=True, models=[CLI], suites=[S("clicases", 8, 0), S("cli", 8, 60, 64, 200)]),
    "C20": dict(strict=True, models=[CONNS], suites=[S("conncases", 8, 0, tls=1, stride=6), S("tls", 12, 150), S("handshake", 8, 150), S("endure", 2, 60)]),
    "C27": dict(strict=True, models=[TIMED], suites=[S("slowcases", 8, 0, stride=1), S("slow", 8, 60, 64, 300)]),
    "C22": dict(models=SESS, suites=[S("sessioncases", 8, 0), S("session", 12, 400), S("sched-iso", 8, 40)]),
}


TECHNIQUE = "TLA+ specification checked with TLC; recorded behaviour of the real code validated against it by TLC"
NOTE = ("Every behaviour recorded from the real code is judged by TLC against the TLA+ specification; what is driven is generated "
        "from the specification's models and from seeded random generators, so the assurance for the code is for what was driven, "
        "for the specification exhaustive within the stated bounds. Trusted: TLC, the recording harness, gcc.")
NOT = {}


def run_models(pl, tier, base, log, emitting):
    """emitting: the models that emit cases for the suites; the others can run beside the suites"""
    st = {"states": 0, "transitions": 0, "models": []}
    for m in pl["models"]:
        if bool(m["emit"]) != emitting or (tier == "quick" and m["quick"] is None):
            continue
        t = time.time()
        cfg = m[tier] if tier in m else m["quick"]
        rc, out = tlc.tlc(m["module"], cfg + ".cfg", base, workers=m["workers"], timeout=850 if tier == "quick" else 10000, heap=m["heap"])
        g = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct", out.replace(",", ",")) or [("0", "0")]
        if m["expect"]:
            if m["expect"] not in out:
                raise core.Broken("the model %s %s no longer shows %s\n%s" % (m["module"], cfg, m["expect"], out[-2000:]))
        elif rc != 0:
            raise core.Broken("model checking %s %s failed (%d)\n%s" % (m["module"], cfg, rc, out[-4000:]))
        cases = 0
        if m["emit"]:
            with open(os.path.join(base, m["emit"]), "a") as f:
                for c in tlc.prints(out):
                    f.write(m["conv"](c) + "\n")
                    cases += 1
        st["states"] += int(g[-1][1])
        st["transitions"] += int(g[-1][0])
        st["models"].append({"model": cfg, "generated": int(g[-1][0]), "distinct": int(g[-1][1]), "cases": cases, "s": round(time.time() - t, 1)})
        log("model %s: %s distinct, %d cases, %.1fs" % (cfg, g[-1][1], cases, time.time() - t))
    return st


def make_jobs(prop, pl, tier, seed, base):
    jobs = []
    for s in pl["suites"]:
        j, n = s[tier] if tier in s else s["quick"]
        for k in range(j):
            stride = s["p"].get("stride", 1) if tier == "quick" else 1
            jobs.append(dict(suite=s["name"], seed="%s" % (seed,), k=k, n=n, tier=tier, p=dict(s["p"], dir=base, of=j * stride)))
    # long jobs first, mixed
    return jobs


def accept(prop, job):
    return {prop} | (set() if PLAN[prop].get("strict") else {"ANY"}) | set(job["p"].get("accept", []))


def hits(res, prop):
    out = []
    ok = accept(prop, res["job"])
    for m in res.get("mm", []):
        what = [w for p, w in m["mm"] if p in ok or "*" in ok]
        if what:
            out.append({"module": m["module"], "what": what, "rec": m["rec"], "all": m["mm"]})
    return out


def check(prop, tier, seed, base, verbose=False):
    t0 = time.time()
    log = (lambda s: print(s, flush=True))
    if prop not in PLAN:
        print("unknown property " + prop)
        return 2
    pl = PLAN[prop]
    kinds = sorted({k for s in pl["suites"] for k in core.SUITES[s["name"]][1]})
    exes = {k: build.build(base + "/bin", k) for k in kinds}
    tlc.overrides(base)
    log("built %s in %.1fs" % (",".join(kinds), time.time() - t0))
    st = run_models(pl, tier, base, log, True)
    jobs = make_jobs(prop, pl, tier, seed, base)
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        beside = ex.submit(run_models, pl, tier, base, log, False)
        results = core.run_jobs(jobs, exes, base)
        st2 = beside.result()
    for k in st:
        st[k] += st2[k]
    broken = [r for r in results if "broken" in r]
    if broken:
        raise core.Broken("%d of %d jobs failed, the first:\n%s" % (len(broken), len(results), broken[0]["broken"]))
    known = load_known(prop)
    viol, unconfirmed, knownhits, other = [], 0, Counter(), Counter()
    for r in results:
        for m in r["mm"]:
            for p, w in m["mm"]:
                other[(p, w)] += 1
    bad = [(r, hits(r, prop)) for r in results]
    bad = [(r, h) for r, h in bad if h]
    bad.sort(key=lambda x: (-len(x[1])))
    tries, t1 = 0, time.time()
    for r, h in bad:
        h2 = []
        for x in h:
            k = known_match(known, x)
            if k:
                knownhits[k] += 1
            else:
                h2.append(x)
        if not h2:
            continue
        if tries >= 6 or tries and tier == "quick" and time.time() - t1 > 180:
            continue
        tries += 1
        # the same job once more: only what happens again is reported
        again = []
        for _ in range(3):
            r2 = core.run_job((r["job"], exes, base))
            if "broken" in r2:
                raise core.Broken(r2["broken"])
            again = [x for x in hits(r2, prop) if not known_match(known, x)]
            if again:
                break
        if again:
            viol.append((r, again))
            break
        unconfirmed += 1
        log("not repeatable: %s" % json.dumps(h2[0])[:1500])
    cov = {"states": st["states"], "transitions": st["transitions"], "models": st["models"],
           "traces_validated_against_impl": sum(r.get("traces", 0) for r in results),
           "evaluations": sum(r.get("records", 0) for r in results),
           "distinct_nontrivial": sum(r.get("distinct", 0) for r in results),
           "rule": "every record is one exchange, call or schedule of the real code judged by TLC against the specification; distinct ones are counted per job",
           "jobs": len(results), "suites": dict(Counter(r["job"]["suite"] for r in results)),
           "counts": dict(sum((Counter(r.get("count", {})) for r in results), Counter())),
           "samples": [s for r in results[:3] for s in r["samples"][:1]] or st["models"],
           "other_properties": {"%s: %s" % k: v for k, v in other.items() if k[0] not in (prop, "ANY")},
           "unrepeatable": unconfirmed}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": pl.get("level", "model_checking"),
          "coverage": cov, "assumptions": pl.get("assume", []) + COMMON, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["kind"] == "finding" and k["match"] == "always" or knownhits[k["text"]]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    log("%s: %d records in %d jobs, %.1fs (slowest: %s)" % (prop, cov["evaluations"], len(results), time.time() - t0,
        sorted(((sum(r["t"]), r["t"], r["job"]["suite"]) for r in results), reverse=True)[:2]))
    if verbose or other:
        for k, v in other.most_common(12):
            log("  mismatch %s x%d" % (k, v))
    if viol:
        r, h = viol[0]
        os.makedirs(HERE + "/replays", exist_ok=True)
        path = HERE + "/replays/%s-%s-%s-%d.json" % (prop, tier, r["job"]["suite"], r["job"]["k"])
        job = dict(r["job"], p={k: v for k, v in r["job"]["p"].items() if k != "dir"})
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "job": job, "violations": h[:20], "deaths": r["deaths"][:3]}, f, indent=1)
        for x in h[:3]:
            log("  %s: %s" % (prop, "; ".join(x["what"])))
            log("    " + json.dumps(x["rec"])[:1500])
        for d in r["deaths"][:1]:
            log("    " + d["stderr"][:1200])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


COMMON = ["TLC evaluates the specification correctly", "the harness records what the server received, sent and called (link-time interposition of libc calls)",
          "gcc builds of the same sources with -O1 behave like the shipped build"]


def load_known(prop):
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m[1] == prop:
                out.append({"kind": "finding", "match": m[2], "text": m[3].strip()})
    except OSError:
        pass
    return out


def known_match(known, hit):
    """a known finding is identified by the text of its mismatch and its suite: match=<what, with _ for blanks>"""
    for k in known:
        if k["match"] != "always" and any(w.replace(" ", "_") == k["match"] for w in hit["what"]) and len(hit["what"]) == 1:
            return k["text"]
    return None


def replay(r, base):
    prop, job = r["property"], r["job"]
    pl = PLAN[prop]
    job["p"]["dir"] = base
    kinds = sorted({k for s in pl["suites"] for k in core.SUITES[s["name"]][1]})
    exes = {k: build.build(base + "/bin", k) for k in kinds}
    tlc.overrides(base)
    run_models(pl, r["tier"], base, lambda s: None, True)
    res = core.run_job((job, exes, base))
    if "broken" in res:
        raise core.Broken(res["broken"])
    h = hits(res, prop)
    for x in h:
        print(json.dumps({"what": x["what"], "rec": x["rec"]}))
    for d in res["deaths"]:
        print(d["stderr"])
    print("%d violations of %s" % (len(h), prop))
    return 1 if h else 0
