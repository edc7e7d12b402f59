"""Building, running cases on the implementation, validating the recordings with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import schema as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
TLA = "/opt/veriftools/tla"
JOBS = 8
ENV = {"UCV_A": "env a", "UCV_EMPTY": ""}          # and UCV_BAD, which is not UTF-8

class ToolError(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def build_env():
    out = subprocess.run(["bash", "-c", ". %s/build.env; env -0" % VERIF], capture_output=True, check=True).stdout
    env = dict(kv.split(b"=", 1) for kv in out.split(b"\0") if b"=" in kv)
    return {k.decode(): os.fsdecode(v) for k, v in env.items()}

def seed_target(target):
    """reuse the dependency builds of /repo's own target folder, but nothing of the code under test"""
    dst = os.path.join(target, "debug")
    if os.path.exists(dst) or not os.path.isdir(REPO + "/target/debug/deps"): return
    os.makedirs(dst)
    for d in ("deps", "build", ".fingerprint"):
        subprocess.run(["cp", "-a", "%s/target/debug/%s" % (REPO, d), dst], check=True)
    for d in ("deps", "build", ".fingerprint"):
        for f in os.listdir(os.path.join(dst, d)):
            if re.search(r"url[_-]cleaner", f) and "macros" not in f:
                p = os.path.join(dst, d, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

def cargo(target, args, cwd):
    seed_target(target)
    env = build_env()
    env["CARGO_TARGET_DIR"] = target
    r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(target, ignore_errors=True)      # perhaps unusable copied artefacts: once more from nothing
        os.makedirs(target)
        r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode: raise ToolError("build failed: " + r.stderr[-3000:])

def build_harness():
    cargo(TARGET, [], VERIF + "/harness")
    return TARGET + "/debug/uc-harness"
def build_cli():
    cargo(TARGET + "-cli", ["--manifest-path", REPO + "/Cargo.toml", "--workspace", "--locked", "--features", "commands,custom"], REPO)
    return TARGET + "-cli/debug/url-cleaner"

# ------------------------------------------------------------- the implementation
def case_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    e = {os.fsencode(k): os.fsencode(v) for k, v in {**e, **ENV}.items()}
    e[b"UCV_BAD"] = b"\xff\xfe"
    return e

def run_shard(binary, cases, configs, timeout):
    """results by id; a case on which the process dies or hangs gets {"died": how}"""
    res, todo, deadline = {}, list(cases), time.time() + timeout
    while todo:
        # the cases do not come on its STDIN, where a command that is run could take them
        rd, wr = os.pipe()
        with open(VERIF + "/ucv/stdin.txt", "rb") as own: p = subprocess.Popen([binary, "/dev/fd/%d" % rd], stdin=own, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=case_env(), pass_fds=(rd,))
        os.close(rd)
        data = b"CONFIGS " + json.dumps(configs).encode() + b"\n" + b"".join(json.dumps(c).encode() + b"\n" for c in todo)
        err = []
        t1 = threading.Thread(target=lambda: err.append(p.stderr.read())); t1.start()
        def feed():
            try:
                with os.fdopen(wr, "wb") as f: f.write(data)
            except OSError: pass
        t2 = threading.Thread(target=feed); t2.start()
        hung = []
        timer = threading.Timer(max(1, min(timeout, deadline - time.time())), lambda: (hung.append(1), p.kill())); timer.start()
        for line in p.stdout:
            try: r = json.loads(line)
            except ValueError: continue
            res[r["id"]] = r
        p.wait(); timer.cancel(); t1.join(); t2.join()
        left = [c for c in todo if c["id"] not in res]
        if left:
            if hung and not any(c["id"] in res for c in todo): how = "no answer in %ds" % timeout
            elif hung: how = "no answer"
            else: how = "the process ended with status %s: %s" % (p.returncode, (err[0] if err else b"")[-300:].decode("utf8", "replace"))
            res[left[0]["id"]] = {"id": left[0]["id"], "died": how, "obs": []}
            left = left[1:]
            if hung and time.time() > deadline - 1:
                for c in left: res[c["id"]] = {"id": c["id"], "unrun": True, "obs": []}
                left = []
        todo = left
    return res

def run_cases(binary, cases, configs, timeout=240):
    shards = [cases[k::JOBS] for k in range(JOBS)]
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda s: run_shard(binary, s, configs, timeout), [s for s in shards if s]))
    return {k: v for r in rs for k, v in r.items()}

# ------------------------------------------------------------- TLC
def enc(x):
    """strings as byte strings (one latin-1 character per byte)"""
    if isinstance(x, str): return x.encode("utf8", "surrogateescape").decode("latin1")
    if isinstance(x, dict): return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [enc(v) for v in x]
    if x is None: return ""
    return x

def tlc(module, workdir, timeout=600, cfg=None, args=()):
    return tlc_raw(module, workdir, timeout, cfg, args)
def tlc_raw(module, workdir, timeout=600, cfg=None, args=(), workers=1, heap="3g", consts=None):
    cfg = cfg or module
    if consts:
        with open(workdir + "/" + cfg + ".cfg") as f: text = f.read()
        for k, v in consts.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m[1] + str(v), text)
            if not n: raise ToolError("no constant %s in %s.cfg" % (k, cfg))
        cfg += "_run"
        with open(workdir + "/" + cfg + ".cfg", "w") as f: f.write(text)
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"] + (["-XX:TieredStopAtLevel=1"] if workers == 1 else []) + [
           "-Dfile.encoding=ISO-8859-1", "-Dstdout.encoding=ISO-8859-1", "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA),
           "tlc2.TLC", "-workers", str(workers), "-deadlock", "-metadir", workdir + "/states", "-config", cfg + ".cfg", *args, module + ".tla"]
    try: r = subprocess.run(cmd, cwd=workdir, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise ToolError("TLC timed out on " + module)
    return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")

def printed(out):
    """the JSON documents a model printed with PrintT(ToJson(..)), decoded from byte strings"""
    docs = []
    for m in re.finditer(r'(?m)^"((?:[^"\\]|\\.)*)"$', out):
        t = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m[1], m[1]), m[1], flags=re.S)
        if t[:1] in "{[": docs.append(dec(json.loads(t)))
    return docs
def dec(x):
    if isinstance(x, str): return x.encode("latin1").decode("utf8", "surrogateescape")
    if isinstance(x, list): return [dec(v) for v in x]
    if isinstance(x, dict): return {dec(k): dec(v) for k, v in x.items()}
    return x

def spec_dir():
    d = tempfile.mkdtemp(prefix="ucv-")
    for f in os.listdir(VERIF + "/spec"): shutil.copy(VERIF + "/spec/" + f, d)
    return d

def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return (int(m[2]), int(m[1]), int(m[3])) if m else (0, 0, -1)

def tlc_net(net):
    """the answers of the servers: per URL the sequence of answers to its first, second, .. request"""
    out = []
    for u, rs in net.items():
        seq = []
        for r in rs if isinstance(rs, list) else [rs]:
            hs = [[k.lower(), v] for k, v in r.get("headers", [])]
            seq.append({"status": r.get("status", 200), "loc": [v for k, v in hs if k == "location"][:1], "fault": r.get("fault", ""),
                        "hdrs": [h for h in hs if h[0] not in ("location", "set-cookie")],
                        "cookie": [v.split(";")[0].split("=", 1) for k, v in hs if k == "set-cookie"], "body": r.get("body", "")})
        out.append([u, seq])
    return out

def tlc_case(c, r):
    """c: the abstract case (with syntax trees); r: what the implementation reported"""
    init = r.get("init")
    n = len(r["obs"])
    obs = []
    for s, o in zip(c["steps"], r["obs"]):
        v = o.get("v")
        if s["kind"] not in ("cond", "src", "mat", "mod", "loc", "charm", "pget", "cread") or v is None or o["k"] == "err" and s["kind"] != "mod": v = ""
        obs.append({"k": o["k"], "v": v, "e": o.get("e", []), "url": o["url"], "same": o["same"], "facts": o.get("facts", []), "fresh": o.get("fresh", []),
                    "flags": o["flags"], "vars": o["vars"], "cache": [[[a, b], x] for a, b, x in o["cache"]], "log": o["log"]})
    ok = isinstance(init, list) and isinstance(r.get("facts"), list)
    ca = c.get("ca")
    return enc({"id": c["id"], "cfg": c["cfg"] + 1, "url": c["url"], "flags": c.get("flags", []), "vars": sorted(map(list, c.get("vars", {}).items())),
        "cache": [[[a, b], [] if x is None else [x]] for a, b, x in c.get("cache", [])], "ctx": list(map(list, c.get("ctx", {}).items())),
        "jctx": list(map(list, c.get("jctx", {}).items())), "ca": [] if ca is None else [{"flags": ca["flags"], "vars": list(map(list, ca["vars"].items()))}],
        "net": tlc_net(c.get("net", {})), "mem": not c.get("cache_path"),
        "init": {"k": "ok", "v": init[0]} if ok else {"k": "err", "v": ""}, "facts": r.get("facts", []) if ok else [],
        "steps": [{"kind": s["kind"], "node": "" if s["kind"] == "task" else s.get("node", ""), "s": s.get("s", ""), "d": s.get("d", ""), "to": [] if s.get("to") is None else [s["to"]]}
                  for s in c["steps"][:n]], "obs": obs})

def parse_tuple(text):
    return text

def validate(cases, results, configs, jobs=JOBS, timeout=600, psl=None):
    """-> (divergences {id: (step, text)}, skipped {(id, step)}, states, transitions)"""
    cases = [c for c in cases if "obs" in results[c["id"]]]
    cases.sort(key=lambda c: c["url"])          # cases that start from the same URL together: the specification parses it once
    n = max(1, -(-len(cases) // jobs))
    chunks = [cases[k:k + n] for k in range(0, len(cases), n)]
    acfg = [enc({"commons": S.commons_ast(g.get("commons", {})), "params": S.params_ast(g.get("params", {})),
                 "http": S.client_ast(g.get("params", {}).get("http_client_config", {})), "rules": S.compile("Rules", g.get("rules", []))}) for g in configs]
    def one(chunk):
        d = spec_dir()
        try:
            if psl:
                with open(d + "/psl.json", "w") as f: json.dump(psl, f)
            used = sorted({c["cfg"] for c in chunk}); idx = {g: n for n, g in enumerate(used)}
            tc = []
            for c in chunk:
                t = tlc_case(c, results[c["id"]]); t["cfg"] = idx[c["cfg"]] + 1; tc.append(t)
            with open(d + "/cases.json", "w") as f:
                json.dump({"cases": tc, "configs": [acfg[g] for g in used], "env": enc([[k, v] for k, v in ENV.items()])}, f)
            rc, out, err = tlc("Trace", d, timeout)
            st = stats(out)
            if rc or st[2] != 0:
                keep = tempfile.mkdtemp(prefix="ucv-fail-")
                shutil.copy(d + "/cases.json", keep)
                raise ToolError("TLC failed (%s) on the recorded cases, kept in %s: %s" % (rc, keep, out[-3000:] + err[-500:]))
            div, skip = {}, set()
            for m in re.finditer(r"<<\s*\"DIVERGE\",\s*(\d+),\s*(\d+),\s*(.*?)(?=\n<<|\n\d+ states|\nModel|\nProgress|\nFinished|\Z)", out, re.S):
                div.setdefault(int(m[1]), (int(m[2]), re.sub(r"\s+", " ", m[3])))
            for m in re.finditer(r"<<\s*\"SKIP\",\s*(\d+),\s*(\d+)", out): skip.add((int(m[1]), int(m[2])))
            for word, got in (("DIVERGE", div), ("SKIP", skip)):
                if len(re.findall(r'(?m)^<<\s*"%s",' % word, out)) != len(got): raise ToolError("not all %s reports of TLC were understood" % word)
            return div, skip, st
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, chunks))
    div, skip = {}, set()
    for a, b, _ in rs: div.update(a); skip |= b
    return div, skip, sum(r[2][0] for r in rs), sum(r[2][1] for r in rs)
