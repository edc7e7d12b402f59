"""C21: commands run for their output."""
import json, time
from . import cli, gen, iso, models, run, schema as S
from .gen import bias, CLOSED, only

CHUNK = 65536
def src(script): return {"k": "CommandOutput", "x": {"program": "/ucv/probe", "args": [{"k": "String", "x": a} for a in script], "current_dir": [], "envs": [], "stdin": []}}
def native(script, size):
    n = S.native("Src", src(script)); text = "".join(chr(97 + i) * CHUNK for i in range(size))
    n["CommandOutput"]["stdin"] = text
    return n
def written(script, size):
    """what the script writes, for the number of chunks Pipes says is had"""
    out, at = [], 0
    for a in script:
        if a == "w": out.append("w")
        elif a == "r": at += 1
        elif a == "i": out += [chr(97 + i) for i in range(at, size)]; at = size
        if at > size: break
    return out
def pipes(ck, label, groups):
    """groups: (script, chunks of STDIN, outcomes of Pipes)"""
    t0 = time.time()
    cs = [{"id": n, "cfg": 0, "url": models.URL0, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False, "steps": [{"kind": "src", "node": native(s, z)}]} for n, (s, z, _) in enumerate(groups)]
    res = run.run_cases(ck.harness, cs, [{"rules": []}], 40)
    bads = 0
    for (script, size, outs), c in zip(groups, cs):
        r = res[c["id"]]
        if r.get("unrun"): continue
        bad = r.get("died") or r.get("panic") or r.get("bad")
        if not bad:
            o = r["obs"][0]
            if o["k"] != "ok": bad = None if ["err"] in outs else "an error: %s" % o["e"]
            else:
                v = (o["v"] or [""])[0]; chunks = [v[i:i + CHUNK] for i in range(0, len(v), CHUNK)]
                got = [x[0] if x == x[0] * CHUNK else "?" for x in chunks]
                if ["ok", len(got)] not in outs: bad = "%d chunks of output where Pipes has %s" % (len(got), outs)
                elif got != written(script, size)[:len(got)]: bad = "output %s, the command writes %s" % (got, written(script, size))
        if bad: bads += 1; ck.violation("%s: a command that does %s given %d chunks: %s" % (label, script, size, bad), {"type": "pipes", "property": ck.pid, "script": script, "size": size, "outcomes": outs})
    ck.traces += len(groups); ck.evaluations += len(groups)
    ck.sample({"script": groups[-1][0], "chunks": groups[-1][1], "outcomes": groups[-1][2]})
    ck.part(label, commands=len(groups), violations=bads, total_s=round(time.time() - t0, 1))
def replay_pipes(ck, rep): pipes(ck, "replay", [(rep["script"], rep["size"], rep["outcomes"])])

BIAS = bias(CLOSED, {"Src": {"CommandOutput": 12, "HttpRequest": 0, "Var": 2}, "Mapper": {"SetPart": 4, "SetScratchpadVar": 3, "ModifyPart": 2}})
def randoms(ck, n):
    rng = ck.rng("commands"); done = 0
    while done < n:
        m = min(4000, n - done); cs, configs = [], []
        for i in range(m):
            u = gen.rand_url(rng); g = gen.Gen(rng, BIAS, 2); g.use_url(u)
            if i % 25 == 0: configs.append({"params": gen.params(g), "commons": gen.commons(g, 2), "rules": []})
            steps = []
            for _ in range(3):
                kind = rng.choice(["src", "src", "src", "mapper"])
                steps.append({"kind": kind, "node": {"k": "CommandOutput", "x": g.cmd(2)} if kind == "src" and rng.random() < .7 else g.gen(S.ROOT[kind])})
            cs.append(dict(gen.state(g, u), cfg=i // 25, steps=steps))
        ck.conform("random commands", cs, configs); done += m
def jobs(ck, nc, nt):
    """commands in jobs: what they are given does not come out of the job's own input"""
    rng = ck.rng("command jobs"); cases, configs, groups = [], [], []
    for k in range(nc):
        g = gen.Gen(rng, BIAS, 2); us = ["https://h%d.example/%s" % (i, "p" * rng.choice([1, 40, 160])) for i in range(4)]; g.use_url(us[0])
        def cmd():
            c = g.cmd(1, "/ucv/probe")
            if rng.random() < .7: c["stdin"] = []
            if rng.random() < .7: c["args"] = c["args"] + [{"k": "String", "x": "i"}]
            c["current_dir"] = c["current_dir"] or ["/"]
            c["args"] = [a for a in c["args"] if a.get("x") != "e:UCV_BAD" and a["k"] != "Error"]
            return c
        rules = [{"k": "Mapper", "x": {"k": "IgnoreError", "x": {"k": "SetPart", "part": {"k": "Fragment"}, "value": {"k": "Join", "sources": [{"k": "NoneToEmptyString", "x": {"k": "Part", "x": {"k": "Fragment"}}}, {"k": "CommandOutput", "x": cmd()}], "join": "."}}}} for _ in range(2)]
        configs.append({"rules": [S.native("Rule", r) for r in rules]})
        mine = {}
        for _ in range(nt):
            u, x = rng.choice(us), {n: g.text() for n in ("n1", "n2") if rng.random() < .4}
            c = {"url": u, "ctx": x, "jctx": {}, "ca": None, "flags": [], "vars": {}, "facts": False, "cfg": k, "steps": [{"kind": "task"}]}
            if iso.text(u, x) not in mine: mine[iso.text(u, x)] = c; cases.append(c)
        groups.append(mine)
    res = ck.conform("each task with commands alone, compared with Rules", cases, configs)
    probe = run.TARGET + "/debug/uc-probe"; out = []
    for k, mine in enumerate(groups):
        ts = []
        for t, c in mine.items():
            r = res[c["id"]]
            if r.get("died") or r.get("panic") or r.get("bad") or r.get("unrun") or isinstance(r["init"], str) or not r["obs"]: continue
            ts.append((t, r["obs"][0]["url"] if r["obs"][0]["k"] == "ok" else ""))
        if not ts: continue
        js = []
        for th in (1, 2, rng.choice([3, 8, 0])):
            xs = [rng.choice(ts) for _ in range(rng.choice([3, 20, 120]))]
            js.append(([x[0] for x in xs], [x[1] for x in xs], rng.randrange(3), th))
        out.append((json.loads(json.dumps(configs[k]).replace("/ucv/probe", probe)), {}, js))
    iso.jobs(ck, "the same tasks in jobs", out)

def c21(ck):
    q = ck.quick
    models.mc(ck, "MC_Command", {"NA": 2} if q else {"NA": 3}, timeout=3000)
    want = {}
    for d in ck.model("Pipes", consts={"L": 2 if q else 4, "SMAX": 3 if q else 4}, workers=4):
        w = want.setdefault((tuple(d["script"]), d["size"]), [])
        if d["outcome"] not in w: w.append(d["outcome"])
    ks = sorted(want)
    pipes(ck, "commands of Pipes run", [(list(s), z, want[s, z]) for s, z in ks])
    randoms(ck, 1500 if q else 40000)
    jobs(ck, 24 if q else 500, 8)
