"""C01, C02, C03: the program's threads, its reports, and the independence of tasks."""
import json, os, select, subprocess, time
from . import cli, models, run, schema as S
from .run import log

# ------------------------------------------------------------------ C01
GATED = {"rules": [{"All": [
    {"SetPart": {"part": "Fragment", "value": {"CommandOutput": {"program": "head", "args": ["-c4", {"Var": {"type": "TaskContext", "name": "gate"}}]}}}},
    {"If": {"condition": {"StringContains": {"value": {"Part": "Path"}, "substring": "/err", "where": "Start"}}, "mapper": {"Error": "x"}}}]}]}
GATED["rules"] = [{"Mapper": m} for m in GATED["rules"]]
def line(kind, t, d):
    if kind == "bad": return b"no url %d\n" % t
    return (json.dumps({"url": "https://t.example/%s%d" % (kind, t), "context": {"vars": {"gate": "%s/g%d" % (d, t)}}}) + "\n").encode()
def shown(kind, t): return b"https://t.example/ok%d#%04d\n" % (t, t) if kind == "ok" else b"\n"

class Feeder:
    """one run of the program with every line and every end of a task under control"""
    def __init__(self, binary, cfg, kinds, nargs, threads, d):
        self.kinds, self.d, self.out = kinds, d, b""
        self.fifos = {}
        for t, k in enumerate(kinds, 1):
            if k != "bad":
                os.mkfifo("%s/g%d" % (d, t)); self.fifos[t] = os.open("%s/g%d" % (d, t), os.O_RDWR)
        args = [line(k, t, d).decode().rstrip("\n") for t, k in enumerate(kinds[:nargs], 1)]
        self.p = subprocess.Popen([binary, "-c", cfg, "--cache-path", ":memory:", "--threads", str(threads), *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(d + "/err", "wb"), cwd=d, env=run.case_env())
    def act(self, a, t):
        if a == "feed":
            try: self.p.stdin.write(line(self.kinds[t - 1], t, self.d)); self.p.stdin.flush()
            except BrokenPipeError: pass
        elif a == "end": os.write(self.fifos[t], b"%04d" % t)
        elif a == "close":
            try: self.p.stdin.close()
            except BrokenPipeError: pass
    def wait(self, want, secs):
        """reads until there is at least as much as wanted, or something else"""
        end = time.time() + secs
        while len(self.out) < len(want) and want.startswith(self.out) and time.time() < end:
            if select.select([self.p.stdout], [], [], 0.2)[0]:
                b = os.read(self.p.stdout.fileno(), 65536)
                if not b: break
                self.out += b
        return self.out
    def finish(self, secs):
        end = time.time() + secs
        while time.time() < end:
            if select.select([self.p.stdout], [], [], 0.2)[0]:
                b = os.read(self.p.stdout.fileno(), 65536)
                if not b: break
                self.out += b
        try: self.p.wait(max(0.1, end - time.time())); return True
        except subprocess.TimeoutExpired: return False
    def trouble(self):
        e = open(self.d + "/err", "rb").read()
        return "(it ended with status %s: %r)" % (self.p.returncode, e[-300:]) if self.p.poll() is not None else ""
    def close(self):
        self.p.kill(); self.p.wait()
        for f in self.fifos.values(): os.close(f)
        for x in (self.p.stdin, self.p.stdout):
            try: x.close()
            except OSError: pass

def drive(binary, kinds, acts, threads, pauses=(), secs=25):
    """-> None, or what went wrong; pauses: (before which act, seconds) in which nothing may happen"""
    with cli.Scratch() as sc:
        cfg = sc.file("config.json", GATED)
        f = Feeder(binary, cfg, kinds, acts[0][1], threads, sc.d)
        try:
            for n, (a, t, k) in enumerate(acts):
                for at, s in pauses:
                    if at == n and n > 0:
                        end = time.time() + s
                        while time.time() < end and f.out == want: f.wait(want + b"?", min(0.3, end - time.time()))
                        if f.out != want: return "%s s after %s the program shows %r, not %r %s" % (s, acts[:n], f.out[-300:], want[-300:], f.trouble())
                want = b"".join(shown(kinds[i], i + 1) for i in range(k))
                f.act(a, t)
                got = f.wait(want, secs)
                if got != want: return "after %s the program shows %r, not %r %s" % (acts[:n + 1], got[-300:], want[-300:], f.trouble())
            if not f.finish(secs): return "the program does not end"
            if f.out != want: return "at the end the program has shown %r, not %r" % (f.out[-300:], want[-300:])
        finally: f.close()
    return None

def replay_schedule(ck, rep):
    bad = drive(ck.cli, rep["kinds"], rep["acts"], rep["threads"], rep.get("pauses", ()))
    if bad: ck.violation(bad, rep)

def schedules(ck, label, runs):
    t0 = time.time()
    binary = ck.cli
    bads = cli.bads(lambda r: drive(binary, *r), runs, 12)
    for r, bad in zip(runs, bads):
        if bad: ck.violation("%s: %d threads, tasks %s: %s" % (label, r[2], r[0], bad), {"type": "schedule", "property": ck.pid, "kinds": r[0], "acts": r[1], "threads": r[2], "pauses": list(r[3:] and r[3])})
    ck.traces += len(runs); ck.evaluations += sum(len(r[1]) for r in runs)
    ck.sample({"threads": runs[0][2], "kinds": runs[0][0], "acts": runs[0][1]})
    ck.part(label, schedules=len(runs), acts=sum(len(r[1]) for r in runs), violations=len([b for b in bads if b]), total_s=round(time.time() - t0, 1))

def pick(rng, xs, n): return xs if len(xs) <= n else rng.sample(xs, n)

def big(rng, n, threads):
    """a long random schedule: how much is shown after each act is what Pipeline calls Shown"""
    kinds = [rng.choice(["ok", "ok", "err", "bad"]) for _ in range(n)]
    fed = rng.choice([0, 0, rng.randrange(n + 1)])
    ended = {t for t, k in enumerate(kinds, 1) if k == "bad"}
    def show():
        k = 0
        while k < fed and k + 1 in ended: k += 1
        return k
    acts = [["args", fed, show()]]
    closed = False
    while not closed or len(ended) < n:
        can = [t for t in range(1, fed + 1) if t not in ended]
        late = [t for t in can if t != min(can)] or can
        o = rng.random()
        if fed < n and (o < .5 or not can): fed += 1; acts.append(["feed", fed, show()])
        elif fed == n and not closed and (o < .1 or not can): closed = True; acts.append(["close", 0, show()])
        elif can: t = rng.choice(late); ended.add(t); acts.append(["end", t, show()])
    return kinds, acts, threads

def c01(ck):
    q = ck.quick
    for t in ((1, 2, 3) if q else (1, 2, 3, 4)):
        ck.model("Pipeline", consts={"T": t, "N": 4 if q else 6, "KINDS": '{"ok"}'}, workers=4)
        ck.model("Pipeline", cfg="PipelineLive", consts={"T": t, "N": 3 if q else 4})
    runs = []
    rng = ck.rng("sched")
    for t, n, kinds, limit in ((1, 3, '{"ok"}', 999), (2, 3, '{"ok"}', 999), (3, 3, '{"ok"}', 999), (2, 3, '{"ok","err","bad"}', 250), (2, 4, '{"ok"}', 250), (4, 3, '{"ok","err"}', 100)) if q else \
                              ((1, 4, '{"ok"}', 9999), (2, 4, '{"ok"}', 9999), (3, 4, '{"ok"}', 9999), (2, 3, '{"ok","err","bad"}', 9999), (3, 5, '{"ok"}', 6000), (4, 4, '{"ok","err"}', 6000)):
        docs = ck.model("Pipeline", consts={"T": t, "N": n, "KINDS": kinds, "CALM": "TRUE"}, workers=4)
        runs += [(d["kinds"], d["acts"], t) for d in pick(rng, docs, limit)]
    schedules(ck, "schedules of the model replayed", runs)
    slow = [r for r in runs if len(r[1]) > 3]
    slow = [(*r, [(rng.randrange(1, len(r[1])), s)]) for r, s in zip(pick(rng, slow, 999), [2.5] * 36 + [7] * 12 if q else [2.5] * 200 + [8] * 100 + [35] * 36 + [70] * 12)]
    schedules(ck, "schedules in which nothing happens for a while", slow)
    schedules(ck, "long schedules", [big(rng, rng.randrange(5, 40), rng.choice([1, 2, 3, 5, 8, 16, 0])) for _ in range(60 if q else 1500)])

# ------------------------------------------------------------------ C02
REPORTING = {"rules": [{"Mapper": m} for m in [
    {"SetPart": {"part": "Scheme", "value": {"IfStringMatches": {"value": {"Part": "Scheme"}, "matcher": {"Is": "http"}, "then": "https", "else": {"Part": "Scheme"}}}}},
    {"RemoveQueryParam": "drop"},
    {"If": {"condition": {"VarIs": {"type": "TaskContext", "name": "v", "value": "w"}}, "mapper": {"SetPart": {"part": "Fragment", "value": "w"}}}},
    {"If": {"condition": {"PathIs": "/fail"}, "mapper": {"Error": "say \"no\" \\ é\n\tin two lines"}}},
    {"If": {"condition": {"PathIs": "/late"}, "mapper": {"All": [{"SetPart": {"part": "Path", "value": "/half"}}, {"SetPart": {"part": "Port", "value": "99999"}}]}}}]]}
BYTES = b"http://t.example/\xff\xfe"

def report(binary, cfg, table, c, json_mode, threads, cwd):
    """one run of the program -> None, or what it reported wrongly"""
    texts = [BYTES if table[k - 1]["text"] == "BYTES" else table[k - 1]["text"].encode() for k in c["kinds"]]
    n = c["nargs"]
    args = ["-c", cfg, "--cache-path", ":memory:", "--threads", str(threads)] + (["--json"] if json_mode else []) + ["--"] + [t.decode() for t in texts[:n]]
    code, out, err = cli.call(binary, args, b"\n".join(texts[n:]) + (b"\n" if c.get("final", True) and texts[n:] else b""), cwd)
    if code == "hang": return "the program does not end"
    if code != c["code"]: return "the exit code is %s, not %d (%r)" % (code, c["code"], err[-200:])
    if not json_mode:
        want = "".join(l + "\n" for l in c["lines"]).encode()
        if out != want: return "the output is %r, not %r" % (out[:400], want[:400])
        got = [l.split(b"\t", 1)[0] for l in err.split(b"\n") if l.split(b"\t", 1)[0] in (b"DoTaskError", b"MakeTaskError")]
        should = [b"DoTaskError" if t == "task" else b"MakeTaskError" for t in c["tags"] if t != "ok"]
        if got != should: return "STDERR reports %s, not %s: %r" % (got, should, err[:400])
        return None
    try: doc = json.loads(out)
    except ValueError as e: return "the output is not JSON (%s): %r" % (e, out[:400])
    if not isinstance(doc, dict) or list(doc) != ["Ok"] or list(doc["Ok"]) != ["urls"]: return "the JSON document is not {\"Ok\":{\"urls\":[..]}}: %r" % out[:400]
    es = doc["Ok"]["urls"]
    if len(es) != len(c["tags"]): return "%d entries for %d tasks: %r" % (len(es), len(c["tags"]), out[:400])
    failed = lambda e: isinstance(e, dict) and set(e) == {"Err"} and isinstance(e["Err"], dict) and {"message", "variant"} <= set(e["Err"]) and all(isinstance(x, str) for x in e["Err"].values())
    for i, (e, t, l) in enumerate(zip(es, c["tags"], c["lines"])):
        good = e == {"Ok": {"Ok": l}} if t == "ok" else isinstance(e, dict) and set(e) == {"Ok"} and failed(e["Ok"]) if t == "task" else failed(e)
        if not good: return "entry %d is %s" % (i + 1, json.dumps(e)[:300])
        if t == "task" and "/fail" in texts[i].decode("latin1") and "say \"no\" \\ é\n\tin two lines" not in e["Ok"]["Err"]["message"]: return "entry %d does not carry its error: %s" % (i + 1, json.dumps(e)[:300])
    return None

def run_reports(ck, label, table, runs):
    t0 = time.time()
    binary = ck.cli
    with cli.Scratch() as sc:
        cfg = sc.file("config.json", REPORTING)
        bads = cli.bads(lambda r: report(binary, cfg, table, *r, sc.d), runs, 10)
    for (c, j, t), bad in zip(runs, bads):
        if bad: ck.violation("%s: tasks %s (%d as arguments), %s, %d threads: %s" % (label, [table[k - 1]["name"] for k in c["kinds"]][:12], c["nargs"], "JSON" if j else "text", t, bad),
                             {"type": "report", "property": ck.pid, "table": table, "case": c, "json": j, "threads": t})
    ck.traces += len(runs); ck.evaluations += sum(len(r[0]["kinds"]) for r in runs)
    c = runs[-1][0]; ck.sample({"tasks": [table[k - 1]["text"] for k in c["kinds"]], "lines": c["lines"], "code": c["code"]})
    ck.part(label, runs=len(runs), tasks=sum(len(r[0]["kinds"]) for r in runs), violations=len([b for b in bads if b]), total_s=round(time.time() - t0, 1))
def replay_report(ck, rep): run_reports(ck, "replay", rep["table"], [(rep["case"], rep["json"], rep["threads"])])

def c02(ck):
    q = ck.quick
    docs = ck.model("Report", consts={"N": 3 if q else 4}, workers=4, heap="8g")
    table = [d for d in docs if "table" in d][0]["table"]
    cs = [d for d in docs if "kinds" in d]
    rng = ck.rng("reports")
    short = [c for c in cs if len(c["kinds"]) <= 2]
    longer = [c for c in cs if len(c["kinds"]) > 2]
    runs = [(c, j, t) for c in short for j in (False, True) for t in (1, 2)] + [(c, j, rng.choice([1, 2, 3, 0])) for c in pick(rng, longer, 1500 if q else 40000) for j in (False, True)]
    run_reports(ck, "reports of the model replayed", table, runs)
    many = []
    for _ in range(40 if q else 600):
        ks = [rng.randrange(len(table)) + 1 for _ in range(rng.randrange(4, 200))]
        if rng.random() < .3: ks = [k for k in ks if table[k - 1]["tag"] != "ok"] or [6]
        elif rng.random() < .3: ks = [k for k in ks if table[k - 1]["tag"] == "ok"] or [1]
        n = 0
        while n < len(ks) and table[ks[n] - 1]["arg"] and rng.random() < .7: n += 1
        tags = [table[k - 1]["tag"] for k in ks]
        many.append(({"nargs": n, "kinds": ks, "lines": [table[k - 1]["line"] for k in ks], "tags": tags, "final": rng.random() < .8 or n == len(ks) or not table[ks[-1] - 1]["text"], "code": 0 if set(tags) == {"ok"} else 2 if "ok" in tags else 1}, rng.random() < .5, rng.choice([1, 2, 3, 8, 16, 0])))
    run_reports(ck, "long reports", table, many)
