"""Runs the suites of a property: drives the real code, lets TLC judge what was recorded."""
import os, sys, json, time, random, shutil, tempfile, traceback, multiprocessing as mp, resource
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, tlc

SUITES = {}


class Broken(Exception):
    """The machinery failed: neither a violation nor a pass."""


def why(out):
    """the part of TLC's output that tells what went wrong"""
    i = out.find("Error:")
    return out[-3000:] if i < 0 else out[i:i + 1500] + "\n ...\n" + out[-1500:]


class Enough(Exception):
    """A job has used its time: what was recorded so far is judged."""


DEADLINE = [None]
OPEN = []       # recorders of this job that have not been judged: they have .module, .finish() -> records


def tick():
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Enough()


def suite(name, kinds=("free",)):
    def deco(f):
        SUITES[name] = (f, kinds)
        return f
    return deco


class Env:
    """What a suite gets: binaries, a private scratch directory, randomness, its parameters."""

    def __init__(self, job, exes, scratch):
        self.job, self.exes, self.d = job, exes, scratch
        self.rng = random.Random("%s/%s/%s" % (job["seed"], job["suite"], job["k"]))
        self.k, self.n, self.tier = job["k"], job.get("n", 0), job["tier"]
        self.p = job.get("p", {})
        self.streams = []      # (module, records)
        self.deaths = []
        self.notes = {}
        self.count = {}

    def judge(self, module, records):
        for m, r in self.streams:
            if m == module:
                r.extend(records)
                return
        self.streams.append((module, list(records)))

    def sub(self, name):
        p = self.d + "/" + name
        os.makedirs(p, exist_ok=True)
        return p

    def add(self, key, n=1):
        self.count[key] = self.count.get(key, 0) + n


def judge(module, records, d, timeout=int(os.environ.get('JUDGE_TIMEOUT', '800'))):
    """-> list of (record, [[property, what], ..]); raises Broken when TLC could not finish"""
    p = os.path.join(d, "trace-%s.nd" % module)
    with open(p, "w") as f:
        at = {r["id"]: i + 1 for i, r in enumerate(records) if r["k"] == "scn"}
        for r in records:
            f.write(json.dumps(dict(r, scn=at[r["scn"]]) if r["k"] == "run" else r, separators=(",", ":")) + "\n")
    try:
        rc, out = tlc.tlc(module, module + ".cfg", d, {"TRACE": p}, timeout=timeout, heap="3g")
    except tlc.TlcError:
        if os.environ.get("VERIF_KEEP"):
            shutil.copy(p, os.environ["VERIF_KEEP"])
        raise
    if rc != 0:
        keep = os.environ.get("VERIF_KEEP")
        if keep:
            shutil.copy(p, keep)
        raise Broken("TLC failed on %s (%d)\n%s" % (module, rc, why(out)))
    by = {r["id"]: r for r in records if "id" in r}
    if module == "TraceServer":
        return judge_runs(records, by, tlc.prints(out), p, d, timeout)
    return [(by[m["id"]], m["mm"]) for m in tlc.prints(out)]


def judge_runs(records, by, explained, p, d, timeout, most=40):
    """The schedules that could not be explained once more, to learn what is wrong with them"""
    good = {m["id"] for m in explained}
    wrong = [r for r in records if r["k"] == "run" and r["id"] not in good]
    if not wrong:
        return []
    scns = {r["scn"] for r in wrong[:most]}
    with open(p, "w") as f:
        n = 0
        at = {}
        for r in records:
            if r["k"] == "scn" and r["id"] in scns or r in wrong[:most]:
                n += 1
                at[r["id"]] = n
                f.write(json.dumps(dict(r, scn=at[r["scn"]]) if r["k"] == "run" else r) + "\n")
    rc, out = tlc.tlc("TraceServer", "TraceServerSoft.cfg", d, {"TRACE": p}, timeout=timeout, heap="3g")
    if rc != 0:
        raise Broken("TLC failed on TraceServerSoft (%d)\n%s" % (rc, why(out)))
    found = {}
    for m in tlc.prints(out):
        found.setdefault(m["id"], []).append(frozenset(tuple(x) for x in m["bad"]))
    res = []
    for r in wrong[:most]:
        bads = found.get(r["id"])
        if not bads or frozenset() in bads:
            raise Broken("schedule %s neither explained nor at fault: %s" % (r["id"], bads))
        least = [b for b in bads if not any(o < b for o in bads)]
        res.append((r, sorted({x for b in least for x in b})))
    return res


def slim(r, lim=600):
    """a record, shortened for a report"""
    def s(v):
        if isinstance(v, list) and v and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            t = bytes(v).decode("latin-1")
            return t if len(t) <= lim else t[:lim] + "...(%d bytes)" % len(v)
        if isinstance(v, list):
            return [s(x) for x in v[:40]]
        if isinstance(v, dict):
            return {k: s(x) for k, x in v.items()}
        return v
    return s(r)


def run_job(a):
    job, exes, base = a
    d = tempfile.mkdtemp(prefix="job", dir=base)
    t0 = time.time()
    try:
        env = Env(job, exes, d)
        del OPEN[:]
        DEADLINE[0] = t0 + (50 if job["tier"] == "quick" else 2500)
        try:
            SUITES[job["suite"]][0](env)
        except Enough:
            env.add("jobs cut short")
            DEADLINE[0] = None
            for r in list(OPEN):
                env.judge(r.module, r.finish())
        t1 = time.time()
        res = {"job": job, "mm": [], "records": 0, "traces": 0, "count": env.count, "samples": [], "deaths": env.deaths, "notes": env.notes}
        distinct = set()
        for i, (module, recs) in enumerate(env.streams):
            if not recs:
                continue
            jd = env.sub("judge%d" % i)
            for r, mm in judge(module, recs, jd):
                res["mm"].append({"module": module, "rec": slim(r), "mm": mm})
            res["records"] += len(recs)
            ev = [r for r in recs if r.get("k") not in ("cfg",)]
            for r in ev:
                distinct.add(hash(json.dumps({k: v for k, v in r.items() if k not in ("id", "log")}, sort_keys=True)))
            if ev:
                res["samples"].append(slim(ev[len(ev) // 2], 200))
                res["traces"] += 1
            shutil.rmtree(jd, ignore_errors=True)
        res["distinct"] = len(distinct)
        res["t"] = [round(t1 - t0, 2), round(time.time() - t1, 2)]
        return res
    except Exception:
        return {"job": job, "broken": traceback.format_exc()}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_jobs(jobs, exes, base, procs=8):
    if len(jobs) == 1:
        return [run_job((jobs[0], exes, base))]
    with mp.get_context("fork").Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(run_job, [(j, exes, base) for j in jobs], 1))


def hits(res, prop):
    """mismatches of a job result that concern the property"""
    out = []
    for m in res.get("mm", []):
        what = [w for p, w in m["mm"] if p == prop]
        if what:
            out.append({"module": m["module"], "what": what, "rec": m["rec"], "all": m["mm"]})
    return out
