"""C08: programs sharing a cache file, killed or held at every call they make on it."""
import json, os, random, shutil, sqlite3, subprocess, threading, time
from . import cli, core, run
from .caching import Dir, database

HERE = os.path.dirname(os.path.abspath(__file__))
CONFIG = {"rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"Cache": {"category": "c", "key": {"Part": {"PathSegment": 0}}, "value": {"Part": {"PathSegment": 1}}}}}}}]}

def op(o): k, v = o.split("="); return {"k": k, "v": v}
def grp(ops, threads=1, rc=True, wc=True, after=(), mortal=False):
    return {"ops": [op(o) for o in ops.split()], "threads": threads, "rc": rc, "wc": wc, "after": list(after), "mortal": mortal}
def scen(file, rows, *groups): return {"file": file, "rows": [op(o) for o in rows.split()], "groups": list(groups)}

# one program that is killed, then another
ONE = [scen("none", "", grp("a=x b=y", mortal=True), grp("a=z b=z c=z", after=[1])),
       scen("empty", "", grp("a=x", mortal=True), grp("b=z a=z", after=[1])),
       scen("table", "a=o b=o", grp("a=n b=n a=m", rc=False, mortal=True), grp("a=z b=z c=z", after=[1])),
       scen("table", "a=o b=p c=q", grp("a=n d=n c=n", rc=False, mortal=True), grp("a=z b=z c=z d=z", after=[1])),
       scen("table", "a=o b=p", grp("a=x c=y d=w", mortal=True), grp("d=z c=z b=z a=z", after=[1])),
       scen("none", "", grp("a=x b=y c=w", threads=2, mortal=True), grp("a=z b=z c=z", after=[1]))]
# both killed, one after the other
TWO = [scen("none", "", grp("a=x", mortal=True), grp("a=y b=y", mortal=True, after=[1]), grp("a=z b=z", after=[1, 2])),
       scen("table", "a=o", grp("a=n b=n", rc=False, mortal=True), grp("b=m a=m", rc=False, mortal=True, after=[1]), grp("a=z b=z", after=[1, 2]))]
# two at once
PAIR = [scen("none", "", grp("a=x b=y"), grp("a=z b=w"), grp("a=l b=l", after=[1, 2])),
        scen("table", "a=o b=o", grp("a=n b=n", rc=False), grp("b=m a=m", rc=False), grp("a=l b=l c=l", after=[1, 2])),
        scen("empty", "", grp("a=x"), grp("b=w a=z", rc=False), grp("a=l b=l", after=[1, 2])),
        scen("table", "a=o", grp("a=n b=n", rc=False), grp("a=m b=m"), grp("a=l b=l", after=[1, 2]))]
# two at once, one of them killed
BOTH = [scen("none", "", grp("a=x b=y", mortal=True), grp("a=z b=w"), grp("a=l b=l", after=[1, 2])),
        scen("table", "a=o b=o", grp("a=n b=n", rc=False, mortal=True), grp("a=m b=m", rc=False), grp("a=l b=l", after=[1, 2]))]
# many at once; nobody is in anybody's way, so what can be observed is what one after the other gives
def crowd(n, m, threads, rng):
    ks = ["k%dx%d" % (i, j) for i in range(n) for j in range(m)]; f = rng.choice(["none", "none", "empty", "table"])
    return scen(f, "seed=s" if f == "table" else "", *[grp(" ".join("k%dx%d=v%d" % (i, j, rng.randrange(9)) for j in range(m)), threads=threads) for i in range(n)])
def chained(sc): return dict(sc, groups=[dict(g, threads=1, after=[i] if i else []) for i, g in enumerate(sc["groups"])])

def shim():
    so = os.path.join(run.TARGET, "shim.so"); src = os.path.join(HERE, "shim.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(run.TARGET, exist_ok=True); tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True); os.replace(tmp, so)
    return so

class Texts:
    """what the tokens of a scenario stand for"""
    def __init__(self, seed):
        r = random.Random(seed); self.r = r; self.t = {}; self.size = r.choice([1, 1, 20, 900, 3000, 9000])
    def __call__(self, tok):
        if tok not in self.t: self.t[tok] = tok + "_" * self.r.randrange(self.size)
        return self.t[tok]

class Run:
    """one scenario played: inject = {group number from 0: {"at", "do"}}"""
    def __init__(self, binary, cfg, d, sc, seed=0, inject=None, jitter=0):
        self.__dict__.update(binary=binary, cfg=cfg, sc=sc, tx=Texts(seed), inject=inject or {}, jitter=jitter, seed=seed)
        self.d = os.path.join(d, "r%d-%d" % (threading.get_ident(), time.monotonic_ns())); os.mkdir(self.d); self.db = self.d + "/cache.sqlite"
        self.bad = None; self.calls = {}
        try:
            self.prepare()
            self.out = self.play(); self.rows = self.look()
        finally: shutil.rmtree(self.d, ignore_errors=True)
    def prepare(self):
        if self.sc["file"] == "empty": open(self.db, "w").close()
        elif self.sc["file"] == "table":
            p, i = self.start(None, {"ops": self.sc["rows"] or [{"k": "gone", "v": "gone"}], "threads": 1, "rc": False, "wc": True})
            p.communicate(i, 60)
    def start(self, g, group):
        env = run.case_env()
        if g is not None:
            env.update(LD_PRELOAD=shim(), UCV_SHIM_DIR=os.path.realpath(self.d), UCV_SHIM_LOG=self.d + ".log%d" % g)
            j = self.inject.get(g)
            if j: env.update(UCV_SHIM_AT=str(j["at"]), UCV_SHIM_DO=j["do"], UCV_SHIM_MARK=self.d + ".mark", UCV_SHIM_GO=self.d + ".go", UCV_SHIM_MAX="250")
            if self.jitter: env["UCV_SHIM_JITTER"] = str(self.jitter * 100 + g)
        b = lambda x: "true" if x else "false"
        args = [self.binary, "-c", self.cfg, "--cache-path", self.db, "--threads", str(group["threads"]), "--read-cache=" + b(group["rc"]), "--write-cache=" + b(group["wc"])]
        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(self.d), env=env)
        return p, "".join("https://h/%s/%s\n" % (self.tx(o["k"]), self.tx(o["v"])) for o in group["ops"]).encode()
    def play(self):
        groups = self.sc["groups"]; out = [None] * len(groups); over = set(); left = list(range(len(groups)))
        def finish(g, p, i):
            try: so, se = p.communicate(i, 90)
            except subprocess.TimeoutExpired: p.kill(); so, se = p.communicate(); self.bad = self.bad or "program %d does not end; prints %r, %r" % (g + 1, so[-300:], se[-300:])
            except BrokenPipeError: so, se = p.stdout.read(), p.stderr.read(); p.wait()
            lines = so.decode("utf8", "replace").split("\n")[:-1]; vals = []
            for l, o in zip(lines, groups[g]["ops"]):
                a, _, v = l.partition("#")
                if a != "https://h/%s/%s" % (self.tx(o["k"]), self.tx(o["v"])): self.bad = self.bad or "program %d prints %r for %r" % (g + 1, l, o)
                vals.append(self.token(v))
            killed = p.returncode == -9 and "kill" in self.inject.get(g, {}).get("do", "")
            if not killed and (p.returncode or len(lines) != len(groups[g]["ops"])):
                self.bad = self.bad or "program %d exits with %s and prints %r, %r" % (g + 1, p.returncode, lines, se[-500:])
            out[g] = vals
        try:
            while left:
                wave = [g for g in left if all(a - 1 in over for a in groups[g]["after"])]; ts = []
                for f in (self.d + ".mark", self.d + ".go"):
                    if os.path.exists(f): os.remove(f)
                first = [g for g in wave if "hold" in self.inject.get(g, {}).get("do", "")]
                for g in first + [g for g in wave if g not in first]:
                    p, i = self.start(g, groups[g])
                    t = threading.Thread(target=finish, args=(g, p, i)); t.start(); ts.append((g, t))
                    if g in first:      # the others come when this one is held
                        while t.is_alive() and not os.path.exists(self.d + ".mark"): time.sleep(.001)
                others = [t for g, t in ts if g not in first]
                end = time.time() + .25
                for t in others: t.join(max(0, end - time.time()) if first else None)
                open(self.d + ".go", "w").close()
                for _, t in ts: t.join()
                over |= set(wave); left = [g for g in left if g not in wave]
            return out
        finally:
            for g in range(len(groups)):
                f = self.d + ".log%d" % g
                if os.path.exists(f): self.calls[g] = open(f).read().split(); os.remove(f)
            for f in (self.d + ".mark", self.d + ".go"):
                if os.path.exists(f): os.remove(f)
    def token(self, text):
        for k, v in self.tx.t.items():
            if v == text: return k
        return "?" + str(text)[:60]
    def look(self):
        try:
            con = sqlite3.connect(self.db); ok = con.execute("pragma integrity_check").fetchall(); con.close()
            if ok != [("ok",)]: self.bad = self.bad or "the database is damaged: %r" % ok[:3]
            return {self.token(k): self.token(v) for (c, k), v in database(self.db).items() if (c, k) != ("c", self.tx.t.get("gone"))}
        except (sqlite3.Error, UnicodeError, OverflowError) as e:
            self.bad = self.bad or "the database cannot be read: %s" % e; return {}
    def seen(self): return json.dumps([self.out, self.rows], sort_keys=True)

def allowed(ck, label, scs, fine=True):
    """the observations the specification has for each scenario"""
    docs = ck.model("Store", consts={"Fine": "TRUE" if fine else "FALSE"}, inputs={"inputs.json": scs}, workers=8)
    res = [set() for _ in scs]
    for d in docs: res[d["sc"] - 1].add(json.dumps([d["printed"], {k: v for k, v in d["rows"].items() if v != "-"}], sort_keys=True))
    return res

def judge(ck, r, want, how):
    rep = {"type": "store", "property": ck.pid, "scenario": r.sc, "inject": {str(k): v for k, v in r.inject.items()}, "seed": r.seed, "jitter": r.jitter}
    if r.bad: ck.violation("%s: %s; scenario %s" % (how, r.bad[:900], json.dumps(r.sc)), rep)
    elif r.seen() not in want: ck.violation("%s: printed %s, then the cache has %s: not a behaviour of the specification; scenario %s" % (how, json.dumps(r.out), json.dumps(r.rows), json.dumps(r.sc)), rep)

def c08(ck):
    q = ck.quick; binary = ck.cli; rng = ck.rng("store"); shim()
    scs = ONE + TWO + PAIR + BOTH
    fine = allowed(ck, "programs", scs); coarse = allowed(ck, "programs, whole steps", scs, False)
    if fine != coarse: raise core.ToolError("the two grains of Store differ")
    if not q: ck.model("Store", "StoreLive", inputs={"inputs.json": ONE[:2] + PAIR[2:3]}, workers=8)
    crowds = [crowd(*rng.choice([(8, 2, 1), (6, 3, 2), (4, 6, 4), (10, 1, 1)]), rng) for _ in range(8 if q else 200)]
    crowd_want = allowed(ck, "crowds", [chained(c) for c in crowds], False)
    with cli.Scratch() as s, Dir() as d:
        d = os.path.realpath(d); cfg = s.file("config.json", CONFIG)
        def R(sc, **kw): return Run(binary, cfg, d, sc, **kw)
        def stage(label, jobs):
            t = time.time(); n = len(jobs)
            def one(j):
                if len(ck.violations) >= 8: return None
                sc, want, kw, how = j; r = R(sc, **kw); judge(ck, r, want, how); return r
            rs = [r for r in cli.pmap(one, jobs, 10) if r]
            ck.traces += len(rs); ck.evaluations += sum(len(o or ()) for r in rs for o in r.out)
            kinds = sorted({c for r in rs for g in r.calls for c in r.calls[g]})
            if rs: ck.sample({"scenario": rs[-1].sc, "inject": str(rs[-1].inject), "printed": rs[-1].out, "cache": rs[-1].rows})
            ck.part(label, runs=len(rs), distinct_observations=len({r.seen() + json.dumps(r.sc) for r in rs}), calls=kinds, total_s=round(time.time() - t, 1))
            return rs
        idx = {id(sc): i for i, sc in enumerate(scs)}
        W = lambda sc: fine[idx[id(sc)]]
        # undisturbed: how many calls there are
        seeds = {id(sc): [rng.randrange(10**6) for _ in range(1 if q else 6)] for sc in scs}
        plain = stage("undisturbed", [(sc, W(sc), {"seed": sd}, "undisturbed") for sc in scs for sd in seeds[id(sc)]])
        N = {}
        for r in plain: N[id(r.sc), r.seed] = {g: len(c) for g, c in r.calls.items()}
        def points(sc, sd, g): return range(1, N.get((id(sc), sd), {}).get(g, 0) + 2)
        jobs = [(sc, W(sc), {"seed": sd, "inject": {0: {"at": n, "do": do}}}, "program 1 killed at call %d%s" % (n, " half way" if "half" in do else ""))
                for sc in ONE for sd in seeds[id(sc)] for n in points(sc, sd, 0) for do in ("kill", "killhalf")]
        stage("killed at every call", jobs)
        jobs = []
        for sc in TWO:
            for sd in seeds[id(sc)]:
                ps = [(i, j, do) for i in points(sc, sd, 0) for j in range(1, 70) for do in ("kill", "killhalf")]
                jobs += [(sc, W(sc), {"seed": sd, "inject": {0: {"at": i, "do": do}, 1: {"at": j, "do": rng.choice(["kill", "killhalf"])}}}, "killed at call %d, the next at call %d" % (i, j))
                         for i, j, do in rng.sample(ps, min(len(ps), 150 if q else 3000))]
        stage("killed twice", jobs)
        jobs = [(sc, W(sc), {"seed": sd, "inject": {g: {"at": n, "do": "hold"}}}, "program %d held at call %d" % (g + 1, n))
                for sc in PAIR for sd in seeds[id(sc)] for g in (0, 1) for n in points(sc, sd, g) if not q or g == 0 or n % 3 == 0]
        stage("held at every call while another runs", jobs)
        jobs = [(sc, W(sc), {"seed": sd, "inject": {0: {"at": n, "do": do}}}, "program 1 held at call %d, then killed" % n)
                for sc in BOTH for sd in seeds[id(sc)] for n in points(sc, sd, 0) for do in ("hold kill", "hold killhalf") if not q or n % 2 or do == "hold kill"]
        stage("held, then killed, while another runs", jobs)
        jobs = [(sc, crowd_want[i], {"seed": rng.randrange(10**6), "jitter": 1 + i}, "started at once") for i, sc in enumerate(crowds)]
        jobs += [(sc, W(sc), {"seed": rng.randrange(10**6), "jitter": 1000 + i}, "started at once, delayed at random") for sc in PAIR for i in range(4 if q else 300)]
        stage("many at once", jobs)

def replay(ck, rep):
    sc = rep["scenario"]; big = len(sc["groups"]) > 3
    want = allowed(ck, "replay", [chained(sc) if big else sc], not big)[0]
    with cli.Scratch() as s, Dir() as d:
        for _ in range(5):
            r = Run(ck.cli, s.file("config.json", CONFIG), os.path.realpath(d), sc, seed=rep["seed"], inject={int(k): v for k, v in rep["inject"].items()}, jitter=rep["jitter"])
            judge(ck, r, want, "replay")
            if ck.violations: break
