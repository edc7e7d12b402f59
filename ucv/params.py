"""C13: parameters after diffs and command-line options."""
import http.server, json, os, random, socketserver, sqlite3, threading, time
from . import cli, models, run, schema as S
from .run import log
from .models import var, nte

BASE = {"flags": ["a"], "vars": {"v": "0"}, "sets": {"s": ["x"]}, "lists": {"l": ["x", "y"]}, "maps": {"m": {"map": {"k": "0"}, "else": "e"}, "q": {"map": {"k": "7"}, "if_null": "n"}},
        "named_partitionings": {"n": {"p": ["x"]}}, "http_client_config": {"default_headers": {"x-a": "0"}}}
A, B = "http://a.example/", "http://b.example/"
CERT = ["c1", "c2"]
def H(**kw): return {"http_client_config_diff": kw}
ATOMS = [{"flags": ["a"]}, {"flags": ["b"]}, {"unflags": ["a"]}, {"unflags": ["b"]}, {"vars": {"v": "1"}}, {"vars": {"v": ""}}, {"vars": {"w": "2"}}, {"unvars": ["v"]}, {"unvars": ["w"]},
         {"init_sets": ["s"]}, {"init_sets": ["t"]}, {"insert_into_sets": {"s": ["x"]}}, {"insert_into_sets": {"s": ["y", "z"]}}, {"insert_into_sets": {"t": ["x"]}}, {"insert_into_sets": {"t": []}},
         {"remove_from_sets": {"s": ["x"]}}, {"remove_from_sets": {"s": ["x", "y"]}}, {"remove_from_sets": {"t": ["x"]}}, {"delete_sets": ["s"]}, {"delete_sets": ["t"]},
         {"init_maps": ["m"]}, {"init_maps": ["o"]}, {"map_diffs": {"m": {"insert_into_map": {"k": "1"}}}}, {"map_diffs": {"m": {"insert_into_map": {"j": "2"}, "remove_from_map": ["k"]}}},
         {"map_diffs": {"m": {"insert_into_map": {"k": "3"}, "remove_from_map": ["k"]}}}, {"map_diffs": {"o": {"insert_into_map": {"k": "1"}}}}, {"map_diffs": {"o": {"remove_from_map": ["k"]}}},
         {"map_diffs": {"q": {"remove_from_map": ["k", "z"]}}}, {"delete_maps": ["m"]}, {"delete_maps": ["o"]},
         {"read_cache": False}, {"read_cache": True}, {"write_cache": False}, {"write_cache": True},
         H(redirect_policy="None"), H(redirect_policy={"Limited": 3}), H(add_default_headers={"x-a": "1"}), H(add_default_headers={"x-b": "2", "X-C": "3"}), H(https_only=True), H(https_only=False),
         H(set_proxies=[A]), H(set_proxies=[]), H(add_proxies=[B]), H(set_proxies=[{"url": B, "mode": "Https"}], add_proxies=[A, B]), H(no_proxy=True), H(no_proxy=False), H(referer=True), H(referer=False),
         H(add_extra_certificates=[CERT[0]]), H(remove_extra_certificates=[CERT[0]]), H(add_extra_certificates=CERT, remove_extra_certificates=[CERT[1]]), {}]
def family(d): return {"flags": 0, "unflags": 0, "vars": 1, "unvars": 1, "read_cache": 4, "write_cache": 4, "http_client_config_diff": 5}.get(next(iter(d), None), 3 if "map" in json.dumps(list(d)) else 2)
def merge(a, b):
    """both diffs in one; None when they say different things about the same value"""
    o = json.loads(json.dumps(a))
    for k, v in b.items():
        if k not in o: o[k] = v
        elif isinstance(v, list): o[k] = o[k] + [x for x in v if x not in o[k]] if not k.startswith(("set_pr",)) else v
        elif isinstance(v, dict):
            if k == "redirect_policy": o[k] = v; continue
            for x, y in v.items():
                if x in o[k]:
                    if isinstance(y, list): o[k][x] = o[k][x] + [e for e in y if e not in o[k][x]]
                    elif isinstance(y, dict) and isinstance(o[k][x], dict) and x != "redirect_policy": o[k][x] = merge(o[k][x], y)
                    else: o[k][x] = y
                else: o[k][x] = y
        else: o[k] = v
    return o
def pairs():
    out = []
    for i, a in enumerate(ATOMS):
        for b in ATOMS[i + 1:]:
            if a and b and family(a) == family(b):
                m = merge(a, b)
                if m not in ATOMS and m not in out: out.append(m)
    return out
def rand_diff(rng, k=None):
    d = {}
    for _ in range(k or rng.choice([1, 2, 3, 5])): d = merge(d, rng.choice(ATOMS))
    return d

def canon(x, sets=False):
    """parameters in the form of params_ast + http_ast, without order where there is none"""
    p, h = x
    m = lambda al: {k: v for k, v in al}
    return {"flags": sorted(p["flags"]), "vars": m(p["vars"]), "sets": {k: sorted(v) for k, v in p["sets"]}, "lists": m(p["lists"]),
            "maps": {k: {"map": m(v["map"]), "if_null": v["if_null"], "else": v["else"]} for k, v in p["maps"]}, "np": {k: {n: sorted(e) for n, e in v} for k, v in p["np"]},
            "cache": [p["read_cache"], p["write_cache"]],
            "http": dict(h, headers=m(h["headers"]), certs=sorted(h["certs"]))}
def canon_native(p): return canon((S.params_ast(p), S.http_ast(p.get("http_client_config", {}))))
def canon_spec(p): return canon((p, p["http"]))

def histories(ck, label, docs, diffs, config):
    """docs: [{hist, p}] of the specification; the harness applies the same diffs"""
    t0 = time.time()
    items = [{"ds": [diffs[i - 1] for i in d["hist"]], "want": canon_spec(d["p"])} for d in docs]
    cs = []
    for k in range(0, len(items), 40):
        cs.append({"id": len(cs), "cfg": 0, "url": models.URL0, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False,
                   "steps": [{"kind": "params", "s": "", "d": "", "node": it["ds"], "to": None} for it in items[k:k + 40]]})
    res = run.run_cases(ck.harness, cs, [config])
    bad = 0
    for c in cs:
        r = res[c["id"]]
        if r.get("died") or r.get("panic") or r.get("bad"):
            bad += 1; ck.violation("%s: the program: %s" % (label, r.get("died") or r.get("panic") or r.get("bad")), {"type": "params", "property": ck.pid, "config": config, "ds": c["steps"][0]["node"], "want": None}); continue
        for it, o in zip(items[c["id"] * 40:], r["obs"]):
            got = canon_native(o["v"]) if o["k"] == "ok" else {"error": o}
            if got != it["want"]:
                bad += 1
                k = next((k for k in it["want"] if got.get(k) != it["want"][k]), "?")
                ck.violation("%s: after %s the %s are %s; specification %s" % (label, json.dumps(it["ds"]), k, json.dumps(got.get(k, got)), json.dumps(it["want"].get(k))),
                             {"type": "params", "property": ck.pid, "config": config, "ds": it["ds"], "want": it["want"]})
    ck.traces += len(items); ck.evaluations += sum(len(i["ds"]) for i in items)
    for it in items[:1]: ck.sample({"diffs": it["ds"], "parameters": it["want"]})
    ck.part(label, histories=len(items), violations=bad, total_s=round(time.time() - t0, 1))
def replay_params(ck, rep):
    ds = rep["ds"]
    d = ck.model("MC_Params", consts={"L": len(ds)}, inputs=models.inputs(rep["config"], bare=True, diffs=[S.diff_ast(x) for x in ds]))
    histories(ck, "replay", [x for x in d if x["hist"] == list(range(1, len(ds) + 1))], ds, rep["config"])

# ------------------------------------------------------------- the command line
def PM(name, key): return {"TryElse": {"try": {"IfStringIsNone": {"value": {"ParamsMap": {"name": name, "key": key}}, "then": "~", "else": nte({"ParamsMap": {"name": name, "key": key}})}}, "else": "!"}}
def flagsrc(n): return {"IfFlag": {"type": "Params", "name": n, "then": "1", "else": "0"}}
def varsrc(n): return {"IfStringIsNone": {"value": var("Params", n), "then": "~", "else": {"Join": {"sources": ["=", nte(var("Params", n))]}}}}
def insrc(s, x): return {"IfStringMatches": {"value": x, "matcher": {"InSet": s}, "then": "1", "else": "0"}}
def cachesrc(k, v): return nte({"Cache": {"category": "c", "key": k, "value": v}})
SHOW = {"SetPart": {"part": "Fragment", "value": {"Join": {"join": ".", "sources":
    [flagsrc(f) for f in "abz"] + [varsrc(v) for v in "vw"] + [insrc(s, x) for s in "st" for x in "xyz"]
    + [PM(m, k) for m in "moq" for k in ("k", "j", "zz", None)] + [cachesrc("k", "new"), cachesrc("w", "fresh")]}}}}
RULE_SHOW = {"condition": {"HostIs": "probe.example"}, "mapper": SHOW}
def rule_via(direct): return {"condition": {"HostIs": "via.example"}, "mapper": {"SetPart": {"part": "Fragment", "value": {"TryElse": {"try": {"HttpRequest": {"url": direct}}, "else": "failed"}}}}}
OPTS = [("flag", ["a"]), ("flag", ["b"]), ("unflag", ["a"]), ("unflag", ["b"]), ("var", ["v", "1"]), ("var", ["v", "2"]), ("var", ["w", ""]), ("unvar", ["v"]), ("unvar", ["w"]),
        ("insert-into-set", ["s", "y"]), ("insert-into-set", ["s", "x", "z"]), ("insert-into-set", ["t"]), ("insert-into-set", ["t", "x"]), ("remove-from-set", ["s", "x"]), ("remove-from-set", ["s", "y", "x"]), ("remove-from-set", ["t", "x"]), ("remove-from-set", ["s"]),
        ("insert-into-map", ["m", "k", "1"]), ("insert-into-map", ["m", "j", "2", "zz", "3"]), ("insert-into-map", ["o", "k", "4"]), ("insert-into-map", ["m", "k"]), ("insert-into-map", ["o", "k", "5", "j"]),
        ("remove-from-map", ["m", "k"]), ("remove-from-map", ["m", "j", "k"]), ("remove-from-map", ["o", "k"]), ("remove-from-map", ["q"]),
        ("read-cache", []), ("read-cache", ["false"]), ("read-cache", ["true"]), ("write-cache", []), ("write-cache", ["false"]), ("proxy", [A]), ("proxy", [B]), ("no-proxy", []), ("no-proxy", ["false"]), ("no-proxy", ["true"]),
        ("var", ["v"]), ("insert-into-set", []), ("read-cache", ["maybe"])]
SHORT = {"flag": "-f", "unflag": "-F", "unvar": "-V", "var": "-v"}
def option_args(o, a, rng):
    if len(a) == 1 and o in ("read-cache", "write-cache", "no-proxy") or len(a) == 1 and o in ("flag", "unflag", "unvar", "proxy") and rng.random() < .3: return ["--%s=%s" % (o, a[0])]
    return [SHORT[o] if o in SHORT and rng.random() < .5 else "--" + o] + list(a)

class Proxies:
    """three servers on the loopback interface that answer everything with their name"""
    def __enter__(self):
        self.s = {}
        for name in ("direct", A, B):
            class Hd(http.server.BaseHTTPRequestHandler):
                body = name.encode()
                def do_GET(self):
                    self.send_response(200); self.send_header("Content-Length", str(len(self.body))); self.send_header("Connection", "close"); self.end_headers(); self.wfile.write(self.body)
                def log_message(self, *a): pass
            class Srv(socketserver.ThreadingMixIn, http.server.HTTPServer): daemon_threads = True; request_queue_size = 128
            srv = Srv(("127.0.0.1", 0), Hd)
            threading.Thread(target=srv.serve_forever, daemon=True).start()
            self.s[name] = srv
        return self
    def __exit__(self, *a):
        for s in self.s.values(): s.shutdown(); s.server_close()
    def url(self, name): return "http://127.0.0.1:%d/" % self.s[name].server_address[1]
    def subst(self, x):
        if isinstance(x, str): return self.url(x) if x in (A, B) else x
        if isinstance(x, list): return [self.subst(y) for y in x]
        if isinstance(x, dict): return {k: self.subst(v) for k, v in x.items()}
        return x

def database(path):
    con = sqlite3.connect(path)
    try: return {(c, k): v for c, k, v in con.execute("select category, key, value from cache")}
    finally: con.close()
def cli_run(binary, d, cfg, seeddb, px, files, opts, out, n, seed):
    """-> what is wrong, or None"""
    rng = random.Random(seed)
    db = os.path.join(d, "db%d.sqlite" % n)
    with open(seeddb, "rb") as f, open(db, "wb") as g: g.write(f.read())
    args = ["-c", cfg, "--cache-path", db]
    blocks = [["--params-diff", f] for f in files]
    pos = [option_args(o, px.subst(a), rng) for o, a in opts]
    for b in blocks: pos.insert(rng.randrange(len(pos) + 1), b) if len(blocks) == 1 else None
    if len(blocks) > 1: pos = blocks + pos if rng.random() < .5 else pos + blocks
    args += [x for b in pos for x in b]
    urls = ["https://probe.example/", "http://via.example/"]
    code, so, se = cli.call(binary, args, "".join(u + "\n" for u in urls).encode(), d)
    try:
        if not out: return None if code == 2 and so == b"" else "exit code %r and %r where the command line is an error" % (code, so[:300])
        if code != 0: return "exit code %r, %r" % (code, (so + se)[-400:])
        got = so.decode("utf8", "replace").split("\n")
        want = [out[0]["line"], "http://via.example/#" + out[0]["via"], ""]
        got = [g.replace(px.url(A), A).replace(px.url(B), B) for g in got]
        if got != want: return "prints %r; specification %r" % (got, want)
        have = {k: v for k, v in database(db).items() if k[0] == "c"}
        cached = {(k[0], k[1]): v[0] if v else None for k, v in out[0]["cache"]}
        if have != cached: return "the cache holds %r; specification %r" % (have, cached)
    finally: os.path.exists(db) and os.remove(db)
def cli_runs(ck, label, docs, diffs, opts, config):
    t0 = time.time(); binary = ck.cli
    with cli.Scratch() as sc, Proxies() as px:
        conf = dict(config, rules=[RULE_SHOW, rule_via(px.url("direct"))])
        cfg = sc.file("config.json", conf)
        # the program itself makes the cache file that every run starts from
        seeddb = os.path.join(sc.d, "seed.sqlite")
        mk = sc.file("mk.json", {"rules": [{"Mapper": {"SetScratchpadVar": {"name": "x", "value": {"Cache": {"category": "c", "key": "k", "value": "old"}}}}}], "cache_path": seeddb})
        code, so, se = cli.call(binary, ["-c", mk], b"https://x.example/\n", sc.d)
        if code != 0 or not os.path.exists(seeddb): ck.violation("%s: making a cache file fails: %r" % (label, (so + se)[-300:]), {"type": "args", "property": ck.pid, "files": [], "opts": [], "seed": 0}); return
        paths = [sc.file("d%d.json" % i, px.subst(d)) for i, d in enumerate(diffs)]
        def one(x):
            n, d = x
            return cli_run(binary, sc.d, cfg, seeddb, px, [paths[i - 1] for i in d["files"]], [opts[i - 1] for i in d["opts"]], d["out"], n, "%s/%s" % (ck.seed, n))
        bads = cli.bads(one, list(enumerate(docs)), 10)
    for n, (d, bad) in enumerate(zip(docs, bads)):
        fs, os_ = [diffs[i - 1] for i in d["files"]], [opts[i - 1] for i in d["opts"]]
        if bad: ck.violation("%s: files %s, options %s: %s" % (label, json.dumps(fs), json.dumps(os_), bad), {"type": "args", "property": ck.pid, "files": fs, "opts": os_, "seed": "%s/%s" % (ck.seed, n)})
    ck.traces += len(docs); ck.evaluations += sum(len(d["files"]) + len(d["opts"]) for d in docs)
    for d in docs[-2:]: ck.sample({"files": [diffs[i - 1] for i in d["files"]], "options": [opts[i - 1] for i in d["opts"]], "output": d["out"]})
    ck.part(label, command_lines=len(docs), errors=sum(not d["out"] for d in docs), violations=sum(bool(b) for b in bads), total_s=round(time.time() - t0, 1))
CONFIG = {"params": BASE, "rules": []}
def args_model(ck, lines, diffs, consts=None):
    inp = models.inputs(CONFIG, {}, {}, bare=True, diffs=[S.diff_ast(x) for x in diffs], opts=[{"o": o, "a": a} for o, a in OPTS], rules=S.compile("Rules", [RULE_SHOW]), cache=[[["c", "k"], ["old"]]], lines=lines)
    return ck.model("MC_Args", consts=consts or {"NF": 0, "NO": 0}, inputs=inp, workers=4 if consts else 1)
def replay_args(ck, rep):
    global OPTS
    OPTS = [(o, a) for o, a in rep["opts"]] or OPTS
    docs = args_model(ck, [{"files": list(range(1, len(rep["files"]) + 1)), "opts": list(range(1, len(rep["opts"]) + 1))}], rep["files"] or [{}])
    for k in range(6): cli_runs(ck, "replay", docs, rep["files"], OPTS, CONFIG)

def c13(ck):
    q = ck.quick; rng = ck.rng("params")
    config = dict(CONFIG, params=dict(BASE))
    ds = ATOMS + pairs()
    singles = models.inputs(config, {}, {}, bare=True, diffs=[S.diff_ast(x) for x in ds])
    histories(ck, "every diff alone and after every other", ck.model("MC_Params", inputs=singles, workers=4, consts={"L": 2 if not q else 1}), ds, config)
    atoms = models.inputs(config, {}, {}, bare=True, diffs=[S.diff_ast(x) for x in ATOMS])
    histories(ck, "histories of single changes", ck.model("MC_Params", inputs=atoms, workers=6, consts={"L": 2 if q else 3}, heap="10g"), ATOMS, config)
    for k in range(1 if q else 10):
        rs = [rand_diff(rng) for _ in range(12)]
        histories(ck, "random diffs, two after one another", ck.model("MC_Params", inputs=models.inputs(config, {}, {}, bare=True, diffs=[S.diff_ast(x) for x in rs]), workers=4, consts={"L": 2 if q else 3}), rs, config)
    # command lines
    docs = args_model(ck, [], [{}], {"NF": 0, "NO": 2})
    fs = [{}] + [ATOMS[i] for i in (1, 2, 4, 7, 12, 15, 18, 22, 28, 30, 32, 40, 42, 44)] + [rand_diff(rng) for _ in range(4 if q else 20)]
    lines = [{"files": [i], "opts": [j]} for i in range(1, len(fs) + 1) for j in range(1, len(OPTS) + 1)]
    # an option may not be an error most of the time
    good = [i + 1 for i, (o, a) in enumerate(OPTS) if i + 1 <= len(OPTS) - 3 and not (o == "insert-into-map" and len(a) % 2 == 0)]
    for _ in range(600 if q else 6000):
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6, 8])):
            i = rng.choice(good)
            if OPTS[i - 1][0] in ("read-cache", "write-cache", "proxy", "no-proxy") and any(OPTS[j - 1][0] == OPTS[i - 1][0] for j in ops): continue
            ops.append(i)
        lines.append({"files": [rng.randrange(1, len(fs) + 1) for _ in range(rng.choice([0, 1, 2, 3]))], "opts": ops})
    more = args_model(ck, lines, fs)
    if q: docs = rng.sample(docs, 500); more = rng.sample(more[:len(more) - 600], 300) + more[-600:]
    cli_runs(ck, "command lines of up to two options", docs, [{}], OPTS, CONFIG)
    cli_runs(ck, "files and options together", more, fs, OPTS, CONFIG)
