"""C03: whatever runs before, after or beside a task, it gives what it gives alone."""
import json, os, queue, subprocess, time
from . import cli, gen, models, net, profiles, run, schema as S
from .gen import bias, CLOSED
from .models import var, nte, setvar, setflag

def show(tag, s): return {"SetPart": {"part": "Fragment", "value": {"Join": {"sources": [nte({"Part": "Fragment"}), tag, nte(s)], "join": "."}}}}
def flag(t, n): return {"IfFlag": {"type": t, "name": n, "then": "set", "else": "unset"}}
# every place in which one task could leave something for another is written by some tasks and shown by all
RULES = [
    {"Mapper": show("f", flag("Scratchpad", "n1"))}, {"Mapper": show("v", var("Scratchpad", "v"))}, {"Mapper": show("c", var("TaskContext", "c"))},
    {"Mapper": show("j", var("JobContext", "j"))}, {"Mapper": show("jc", var("JobContext", "c"))},
    {"condition": {"PathIs": "/write"}, "mapper": {"All": [setflag("n1"), setvar("v", {"Part": "Host"}), setvar("w", "left"), show("w", var("Scratchpad", "v"))]}, "else_mapper": show("w", var("Scratchpad", "w"))},
    {"Mapper": {"Common": {"name": "mark", "args": {"vars": {"x": nte({"Part": {"QueryParam": "q"}})}}}}},
    {"condition": {"PathIs": "/fail"}, "mapper": {"All": [setflag("n1"), setvar("v", "failed"), setvar("w", "failed"), {"SetPart": {"part": "Host", "value": "broken.example"}}, {"Error": "x"}]}},
    {"condition": {"PathIs": "/caught"}, "mapper": {"IgnoreError": {"All": [setflag("n1"), setvar("v", "caught"), {"Error": "x"}]}}},
    {"Repeat": {"rules": [{"condition": {"Not": {"VarIs": {"type": "Scratchpad", "name": "r", "value": "xxx"}}}, "mapper": setvar("r", {"Join": {"sources": [nte(var("Scratchpad", "r")), "x"]}})}], "limit": 5}},
    {"Mapper": show("r", var("Scratchpad", "r"))}, {"Mapper": show("p", var("Params", "p"))},
    {"condition": {"FlagIsSet": {"type": "Params", "name": "keep"}}, "mapper": show("k", flag("Params", "other"))},
]
CONFIG = {"params": {"flags": ["keep"], "vars": {"p": "pv"}},
          "commons": {"mappers": {"mark": {"All": [setvar("last", nte(var("Common", "x"))), show("m", var("Scratchpad", "last")), {"If": {"condition": {"StringIs": {"left": nte(var("Common", "x")), "right": "a"}}, "mapper": setflag("a")}}, show("a", flag("Scratchpad", "a"))]}}},
          "rules": RULES}
TASKS = [("https://one.example/write?q=a", {}), ("https://two.example/write?q=b", {"c": "2"}), ("https://one.example/", {"c": "3"}), ("https://one.example/", {}),
         ("https://one.example/fail?q=a", {"c": "4"}), ("https://two.example/caught", {}), ("https://one.example/?q=a", {"c": ""}), ("https://one.example/write?q=a", {"c": "8"})]

def text(url, ctx): return json.dumps({"url": url, "context": {"vars": ctx}}) if ctx else url
def job(binary, cfg, d, texts, nargs, threads, jctx, want):
    """-> None, or how the output of a job differs from what each of its tasks gives alone"""
    args = ["-c", cfg, "--cache-path", ":memory:", "--threads", str(threads)] + (["--job-context", json.dumps({"vars": jctx})] if jctx else []) + texts[:nargs]
    code, out, err = cli.call(binary, args, "".join(t + "\n" for t in texts[nargs:]).encode(), d)
    got = out.decode("utf8", "replace").split("\n")[:-1]
    if code == "hang": return "the program does not end"
    if got == want: return None
    if len(got) != len(want): return "%d lines for %d tasks (%r)" % (len(got), len(want), err[-300:])
    i = next(i for i in range(len(want)) if got[i] != want[i])
    return "task %d (%s) gives %r, alone it gives %r" % (i + 1, texts[i], got[i], want[i])

def jobs(ck, label, groups):
    """groups: (config, job context, [(texts, wanted lines, nargs, threads)])"""
    t0 = time.time(); n = lines = 0
    binary = ck.cli
    with cli.Scratch() as sc:
        runs = []
        for k, (config, jctx, js) in enumerate(groups):
            cfg = sc.file("c%d.json" % k, config)
            runs += [(k, cfg, jctx, j) for j in js]
        bads = cli.bads(lambda r: job(binary, r[1], sc.d, r[3][0], r[3][2], r[3][3], r[2], r[3][1]), runs, 10)
        for (k, cfg, jctx, j), bad in zip(runs, bads):
            n += 1; lines += len(j[0])
            if bad: ck.violation("%s: %d threads: %s" % (label, j[3], bad), {"type": "job", "property": ck.pid, "config": groups[k][0], "jctx": jctx, "job": j})
    ck.traces += n; ck.evaluations += lines
    ck.sample({"tasks": runs[0][3][0][:4], "lines": runs[0][3][1][:4]})
    ck.part(label, jobs=n, tasks=lines, violations=sum(bool(b) for b in bads), total_s=round(time.time() - t0, 1))
def replay_job(ck, rep): jobs(ck, "replay", [(rep["config"], rep["jctx"], [rep["job"]])])

# ------------------------------------------------------------- tasks that use the network
class Servers:
    """the harness's two scripted servers, for the program"""
    def __init__(self, binary):
        self.p = subprocess.Popen([binary, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=run.case_env())
        self.at = self.p.stdout.readline().split()
    def subst(self, text): return text.replace("127.0.0.1:50001", self.at[0]).replace("127.0.0.1:50002", self.at[1])
    def start(self, table): self.p.stdin.write(json.dumps(table) + "\n"); self.p.stdin.flush()
    def log(self): self.p.stdin.write("log\n"); self.p.stdin.flush(); return json.loads(self.p.stdout.readline())
    def close(self): self.p.kill(); self.p.wait()
def sent(log): return sorted(json.dumps(e, sort_keys=True) for e in log)
def netjob(binary, servers, d, n, config, jctx, table, j):
    """one job over the network -> None, or what is wrong with its lines or its requests"""
    texts, want, nargs, threads, reqs = j
    sv = servers.get()
    try:
        cfg = os.path.join(d, "n%d.json" % n)
        with open(cfg, "w") as f: f.write(sv.subst(json.dumps(config)))
        sv.start(table)
        bad = job(binary, cfg, d, texts, nargs, threads, jctx, want)
        if bad: return bad
        got, should = sent(sv.log()), sorted(x for r in reqs for x in r)
        if got != should: return "the tasks together send %s; alone they send %s" % ([x for x in got if got.count(x) > should.count(x)][:2], [x for x in should if should.count(x) > got.count(x)][:2])
    finally: servers.put(sv)
def netjobs(ck, label, groups):
    """groups: (config, job context, table, [(texts, wanted lines, nargs, threads, requests of each)])"""
    t0 = time.time(); binary = ck.cli
    servers = queue.Queue(); all_ = [Servers(ck.harness) for _ in range(8)]
    for s in all_: servers.put(s)
    runs = [(k, j) for k, g in enumerate(groups) for j in g[3]]
    try:
        with cli.Scratch() as sc:
            bads = cli.bads(lambda x: netjob(binary, servers, sc.d, x[0], *groups[x[1][0]][:3], x[1][1]), list(enumerate(runs)), 8)
    finally:
        for s in all_: s.close()
    for (k, j), bad in zip(runs, bads):
        if bad: ck.violation("%s: %d threads: %s" % (label, j[3], bad), {"type": "netjob", "property": ck.pid, "config": groups[k][0], "jctx": groups[k][1], "table": groups[k][2], "job": j})
    ck.traces += len(runs); ck.evaluations += sum(len(j[0]) for _, j in runs)
    ck.part(label, jobs=len(runs), tasks=sum(len(j[0]) for _, j in runs), requests=sum(len(r) for _, j in runs for r in j[4]), violations=sum(bool(b) for b in bads), total_s=round(time.time() - t0, 1))
def replay_netjob(ck, rep): netjobs(ck, "replay", [(rep["config"], rep["jctx"], rep["table"], [rep["job"]])])
def network(ck, nc, nt, njobs):
    """tasks whose clients differ; what each sends and gives alone is compared with Interp"""
    rng = ck.rng("net jobs"); cases, configs, groups = [], [], []
    bare = lambda u: u.split("#")[0]
    for k in range(nc):
        g = net.NetGen(rng, net.BIAS, 2); us = rng.sample(net.POOL, 5); g.use_url(us[0]); g.net = net.POOL
        h = dict(net.client(rng)); h.setdefault("proxies", ["http://127.0.0.1:50001"])
        redirect = lambda: {"k": "ExpandRedirect", "headers": net.headers(rng), "http_client_config_diff": net.opt(rng, .8, lambda: net.diff(rng))}
        ask = lambda: {"k": "SetPart", "part": {"k": "Fragment"}, "value": {"k": "HttpRequest", "x": g.req(2)}}
        # every task meets some of these clients, by its own choice
        pick = lambda n, m: S.compile("Mapper", {"If": {"condition": {"VarIs": {"type": "TaskContext", "name": "c", "value": n}}, "mapper": S.native("Mapper", m)}})
        rules = [pick(c, {"k": "IgnoreError", "x": rng.choice([redirect, redirect, ask])()}) for c in "abcd" for _ in range(2)]
        configs.append({"params": {"read_cache": False, "write_cache": False, "http_client_config": h}, "rules": [{"Mapper": S.native("Mapper", m)} for m in rules]})
        table = {x: [net.reply(rng)] for x in net.POOL if rng.random() < .9}
        mine = {}
        for _ in range(nt):
            u = rng.choice(us); c = {"url": u, "ctx": {"c": rng.choice("abcd")}, "jctx": {}, "ca": None, "flags": [], "vars": {}, "cache": [], "facts": False, "cfg": k, "net": table, "steps": [{"kind": "task"}]}
            if text(u, c["ctx"]) not in mine: mine[text(u, c["ctx"])] = c; cases.append(c)
        groups.append((table, mine))
    res = ck.conform("each task on the network alone, compared with Rules", cases, configs)
    out = []
    for k, (table, mine) in enumerate(groups):
        ts = []
        for t, c in mine.items():
            r = res[c["id"]]
            if r.get("died") or r.get("panic") or r.get("bad") or r.get("unrun") or isinstance(r["init"], str) or not r["obs"]: continue
            ts.append((t, r["obs"][0]["url"] if r["obs"][0]["k"] == "ok" else "", sent(r["obs"][0]["log"])))
        if not ts: continue
        js = []
        for _ in range(njobs):
            xs = [rng.choice(ts) for _ in range(rng.choice([2, 4, 8] if ck.quick else [2, 5, 12, 30]))]
            js.append(([x[0] for x in xs], [x[1] for x in xs], rng.randrange(min(len(xs), 4)), rng.choice([1, 1, 2, 3, 8]), [x[2] for x in xs]))
        out.append((configs[k], {}, table, js))
    netjobs(ck, "the same tasks on the network in jobs", out)

def c03(ck):
    q = ck.quick
    rng = ck.rng("jobs")
    inp = models.inputs(CONFIG, {}, {"j": "job", "c": "of the job"}, tasks=[{"url": u, "ctx": list(map(list, c.items()))} for u, c in TASKS], rules=S.compile("Rules", RULES))
    js = []
    seen = set()
    for w, l in ((1, 3), (2, 2)) if q else ((1, 4), (2, 3), (3, 3)):
        for d in ck.model("Iso", consts={"NW": w, "L": l}, inputs=inp, workers=4, timeout=3000):
            if (w, tuple(d["seq"])) in seen: continue
            seen.add((w, tuple(d["seq"])))
            ts = [text(*TASKS[k - 1]) for k in d["seq"]]
            js.append((ts, d["lines"], rng.randrange(len(ts) + 1), w))
    jobs(ck, "Iso replayed", [(CONFIG, {"j": "job", "c": "of the job"}, js)])
    # long jobs: the lines of a task are those TLC confirmed for the task alone
    alone = {t[0]: l for ts, ls, _, w in js for t, l in [((ts[0],), ls[0])] if len(ts) == 1}
    texts = [text(*t) for t in TASKS]
    def shuffled(texts, lines, n, threads):
        ix = [rng.randrange(len(texts)) for _ in range(n)]
        return ([texts[i] for i in ix], [lines[i] for i in ix], rng.randrange(min(n, 5)), threads)
    jobs(ck, "long jobs of the same tasks", [(CONFIG, {"j": "job", "c": "of the job"}, [shuffled(texts, [alone[t] for t in texts], rng.choice([20, 100, 400]), rng.choice([1, 2, 3, 8, 0])) for _ in range(20 if q else 300)])])
    # random configurations and tasks
    for part in range(1 if q else 8):
        cases, configs, groups = [], [], []
        nc, nt = (100, 10) if q else (120, 14)
        for k in range(nc):
            g = gen.Gen(rng, bias(CLOSED, {"Mapper": {"SetScratchpadVar": 3, "SetScratchpadFlag": 3, "Error": .3}, "Cond": {"Error": .2}, "Src": {"Var": 3, "Error": .2}}), 3); us = [gen.rand_url(rng) for _ in range(4)]
            g.use_url(us[0])
            rules = [g.gen("Rule") if rng.random() < .15 else {"k": "Mapper", "x": {"k": "IgnoreError", "x": g.gen("Mapper")}} for _ in range(6)]
            configs.append({"params": gen.params(g), "commons": gen.commons(g, 2), "rules": [S.native("Rule", r) for r in rules]})
            jctx = gen.state(g, us[0])["jctx"]
            mine = {}
            for _ in range(nt):
                u = rng.choice(us)
                c = dict(gen.state(g, u), flags=[], vars={}, ca=None, jctx=jctx, cfg=k, steps=[{"kind": "task"}])
                if not mine.get(text(u, c["ctx"])): mine[text(u, c["ctx"])] = c; cases.append(c)
            groups.append((jctx, mine))
        res = ck.conform("each task alone, compared with Rules", cases, configs)
        out = []
        for k, (jctx, mine) in enumerate(groups):
            ts, ls = [], []
            for t, c in mine.items():
                r = res[c["id"]]
                if r.get("died") or r.get("panic") or r.get("bad") or r.get("unrun"): continue
                ts.append(t)
                ls.append("" if isinstance(r["init"], str) or not r["obs"] or r["obs"][0]["k"] != "ok" else r["obs"][0]["url"])
            if ts: out.append((configs[k], jctx, [shuffled(ts, ls, rng.choice([5, 20, 60]), th) for th in (1, 2, rng.choice([3, 4, 8, 0]))]))
        jobs(ck, "the same tasks in jobs", out)
    network(ck, 36 if q else 1200, 8, 2 if q else 8)
