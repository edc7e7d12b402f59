"""C07 and C08: the cache in memory, on disk, across processes, and when the program is killed."""
import json, os, shutil, sqlite3, subprocess, tempfile, time
from . import cli, gen, models, run, schema as S
from .run import log
from .models import var, nte, setvar, setflag

SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
class Dir:
    """a directory for cache files"""
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ucv-cache-", dir=SHM); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

U0 = "http://www.example.com/"
NET = {U0: {"status": 302, "headers": [["Location", "http://n.example/p1"]]}, "http://n.example/p1": {"status": 200, "body": "x"},
       "http://www.example.com/p1": {"status": 301, "headers": [["Location", "http://n.example/hit"]]}, "http://n.example/hit": {"status": 200}, "http://www.example.com/p2": {"status": 500, "body": "", "fault": "close"}}
def flagged(cfg, rc, wc): return dict(cfg, params=dict(cfg["params"], read_cache=rc, write_cache=wc))
CONFIGS = [flagged(models.CONFIG, r, w) for w in (True, False) for r in (True, False)]      # index: 1 not reading, 2 not writing
# what the tokens of the model stand for
PALETTES = [{}, {"c1": "redirect"}, {"c1": "", "c2": " "}, {"k1": "", "k2": " ", "x": ""}, {"c1": "a", "c2": "A", "k1": "k", "k2": "K"}, {"c1": "é", "c2": "e\u0301", "k1": "日", "y": "日本"},
            {"k1": "k", "k2": "k ", "x": "x ", "y": " x"}, {"k1": "%", "k2": "_", "c1": "%", "c2": "%%"}, {"k1": "a'b", "k2": "a''b", "c1": "'; drop table cache; --", "x": "\"", "y": "\\"},
            {"k1": "1", "k2": "01", "c1": "1", "c2": "1.0", "x": "1", "y": "1.0"}, {"k1": "k" * 3000, "k2": "k" * 3001, "x": "v" * 5000}, {"c1": "c", "k1": "dk", "c2": "cd", "k2": "k"},
            {"k1": "NULL", "k2": "null", "x": "NULL", "y": "null"}, {"k1": "\n", "k2": "\r\n", "x": "\t", "y": "a\nb"}, {"k1": "k\x00a", "k2": "k\x00b", "x": "x\x00", "y": "x"}]
def subst(x, p):
    if isinstance(x, str): return p.get(x, x)
    if isinstance(x, list): return [subst(v, p) for v in x]
    if isinstance(x, dict): return {k: v if k == "k" or k == "kind" else subst(v, p) for k, v in x.items()}
    return x

def c07(ck):
    q = ck.quick; rng = ck.rng("cache")
    docs = ck.model("MC_Cache", consts={"L": 2 if q else 3}, inputs=models.inputs(net=run.tlc_net(NET)), workers=4, timeout=3000)
    if not q: docs = rng.sample(docs, min(len(docs), 120000))
    cs = []
    with Dir() as d:
        def add(steps, cfg, n):
            p = rng.choice(PALETTES)
            steps = [dict(subst(s, p), to=(subst(s["to"], p) or [None])[0]) for s in steps]
            reads = [{"kind": "cread", "node": "", "s": p.get(a, a), "d": p.get(b, b), "to": None} for a in ("c1", "c2") for b in ("k1", "k2")]
            path = None if rng.random() < .15 else ("file://" if rng.random() < .2 else "") + "%s/%d.sqlite" % (d, n)
            return {"url": U0, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False, "cfg": cfg, "net": NET, "cache_path": path, "steps": steps + reads}
        batch = 12000
        for k in range(0, len(docs), batch):
            ck.conform("MC_Cache replayed" + (" (%d)" % (k // batch + 1) if len(docs) > batch else ""), [add(x["steps"], x["cfg"], k + i) for i, x in enumerate(docs[k:k + batch])], CONFIGS)
            for f in os.listdir(d): os.remove(os.path.join(d, f))
        # longer histories of the same operations
        ops = {}
        for x in docs:
            for s in x["steps"]: ops.setdefault(json.dumps(s), s)
        ops = list(ops.values())
        cs = [add([rng.choice(ops) for _ in range(rng.choice([5, 8, 12, 20]))], rng.choice([0, 0, 1, 2, 3]), i) for i in range(500 if q else 8000)]
        ck.conform("longer histories", cs, CONFIGS)
        for f in os.listdir(d): os.remove(os.path.join(d, f))

# ------------------------------------------------------------- programs that share a cache file
def seg(n): return {"Part": {"PathSegment": n}}
RULES = [{"condition": {"HostIs": "s.example"}, "mapper": {"SetPart": {"part": "Fragment", "value": {"Cache": {"category": nte(seg(0)), "key": nte(seg(1)),
             "value": {"Map": {"value": seg(2), "map": {"x": "X", "f": {"Error": "no"}, "n": {"None": None}, "e": ""}, "else": {"Join": {"sources": ["<", nte(seg(2)), ">"]}}}}}}}}},
         {"condition": {"HostIs": "u.example"}, "mapper": {"CacheUrl": {"category": nte(seg(0)), "mapper": {"All": [{"SetPart": {"part": "Query", "value": seg(2)}},
             {"If": {"condition": {"StringIs": {"left": nte(seg(2)), "right": "f"}}, "mapper": {"Error": "no"}}}]}}}},
         {"condition": {"HostIs": "i.example"}, "mapper": {"SetPart": {"part": "Fragment", "value": {"ErrorToNone": {"Cache": {"category": nte(seg(0)), "key": nte(seg(1)), "value": {"Error": "only if there"}}}}}}}]
RUNCONFIG = {"rules": RULES}
def tasks_of(rng):
    k = rng.random(); c, key, v = rng.choice(["c1", "c2", "redirect"]), rng.choice(["k1", "k2", "K1"]), rng.choice("xyynef")
    return "https://%s.example/%s/%s/%s" % ("s" if k < .6 else "u" if k < .8 else "i", c, key, v)
def rand_history(rng): return [{"rc": rng.random() < .75, "wc": rng.random() < .75, "tasks": [tasks_of(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]} for _ in range(rng.choice([2, 3, 4, 5]))]

def database(path):
    con = sqlite3.connect(path)
    con.text_factory = lambda b: b.decode("utf8", "replace")
    try: return {(c, k): v for c, k, v in con.execute("select category, key, value from cache order by id")}
    finally: con.close()
def play(binary, cfg, d, n, history, want, style):
    db = os.path.join(d, "h%d.sqlite" % n)
    try:
        for i, (run_, w) in enumerate(zip(history, want)):
            args = ["-c", cfg, "--cache-path", ("file://" if style % 3 == 2 else "") + db, "--threads", "1"]
            for o, b in (("--read-cache", run_["rc"]), ("--write-cache", run_["wc"])):
                if not b or style % 2: args += ["%s=%s" % (o, "true" if b else "false")]
            code, so, se = cli.call(binary, args, "".join(t + "\n" for t in run_["tasks"]).encode(), d)
            got = so.decode("utf8", "replace").split("\n")[:-1]
            if got != w["lines"]: return "run %d prints %r; specification %r (%r)" % (i + 1, got, w["lines"], se[-300:])
            have = database(db) if os.path.exists(db) and os.path.getsize(db) else {}
            cached = {(k[0], k[1]): v[0] if v else None for k, v in w["cache"]}
            if have != cached: return "after run %d the cache holds %r; specification %r" % (i + 1, have, cached)
    finally:
        if os.path.exists(db): os.remove(db)
def runs(ck, label, histories, styles):
    t0 = time.time(); binary = ck.cli
    docs = ck.model("MC_Runs", inputs=models.inputs(RUNCONFIG, {}, {}, rules=S.compile("Rules", RULES), histories=histories))
    want = {x["h"]: x["runs"] for x in docs}
    with cli.Scratch() as sc, Dir() as d:
        cfg = sc.file("config.json", RUNCONFIG)
        bads = cli.bads(lambda n: play(binary, cfg, d, n, histories[n], want[n + 1], styles[n]), range(len(histories)), 8)
    for n, bad in enumerate(bads):
        if bad: ck.violation("%s: %s; history %s" % (label, bad, json.dumps(histories[n])), {"type": "runs", "property": ck.pid, "history": histories[n], "style": styles[n]})
    ck.traces += len(histories); ck.evaluations += sum(len(r["tasks"]) for h in histories for r in h)
    ck.sample({"history": histories[0], "specification": want[1]})
    ck.part(label, histories=len(histories), runs=sum(map(len, histories)), violations=sum(bool(b) for b in bads), total_s=round(time.time() - t0, 1))
def replay_runs(ck, rep): runs(ck, "replay", [rep["history"]], [rep["style"]])
def c07_all(ck):
    c07(ck)
    rng = ck.rng("runs"); n = 150 if ck.quick else 4000
    runs(ck, "programs sharing a cache file", [rand_history(rng) for _ in range(n)], [rng.randrange(6) for _ in range(n)])
