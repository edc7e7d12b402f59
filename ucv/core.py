"""A check run: what it explored, what it found, and the evidence it leaves."""
import hashlib, json, os, random, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import run, schema as S
from .run import VERIF, REPO, log, ToolError

def native_case(c, alt=None):
    c = {k: v for k, v in c.items() if k not in ("x", "expect")}
    c["steps"] = [dict({k: v for k, v in s.items() if k != "expect"}, **({"node": S.native(S.ROOT[s["kind"]], s["node"], alt)} if s["kind"] in S.ROOT else {})) for s in c["steps"]]
    return c

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations, self.parts, self.samples, self.assumptions, self.known_hits = [], [], [], [], []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.known = [k for k in load_known() if k.get("property") == pid and not k.get("fixed")]
        self._h = self._c = None
    def rng(self, *salt): return random.Random("%s/%s/%s" % (self.seed, self.pid, "/".join(map(str, salt))))
    @property
    def harness(self):
        if not self._h: self._h = run.build_harness(); log("built the harness at %.1fs" % (time.time() - self.t0))
        return self._h
    @property
    def cli(self):
        if not self._c: self._c = run.build_cli(); log("built the program at %.1fs" % (time.time() - self.t0))
        return self._c

    # ------------------------------------------------------------------ findings
    def violation(self, what, replay):
        for k in self.known:
            if known_matches(k, what, replay):
                if k["text"] not in self.known_hits: self.known_hits.append(k["text"])
                return
        d = "%s/replays/%s" % (VERIF, self.pid)
        os.makedirs(d, exist_ok=True)
        text = json.dumps(dict(replay, what=what), indent=1, default=str)
        p = "%s/%s.json" % (d, hashlib.sha1(text.encode()).hexdigest()[:12])
        with open(p, "w") as f: f.write(text)
        self.violations.append((what, p))
        if len(self.violations) <= 8: log("  ! %s" % what[:600])
    def part(self, name, **kw):
        self.parts.append(dict(name=name, **kw)); log("%6.1fs %s: %s" % (time.time() - self.t0, name, kw))
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    # ------------------------------------------------------------------ conformance
    def conform(self, label, cases, configs, alt=None, timeout=240, tlc_timeout=800, crash_only=False, psl=None):
        """run abstract cases on the implementation and have TLC compare every step with Interp"""
        for n, c in enumerate(cases): c["id"] = n; c.setdefault("cfg", 0)
        arng = random.Random("%s/alt" % self.seed) if alt else None
        nat = [native_case(c, arng) for c in cases]
        t = time.time()
        res = run.run_cases(self.harness, nat, configs, timeout)
        t1 = time.time() - t
        kept = []
        for c in cases:
            r = res[c["id"]]
            crash = r.get("died") or r.get("panic") and "panic: %s" % r["panic"] or r.get("bad") and "rejected: %s" % r["bad"]
            if crash:
                self.violation("%s: %s" % (label, crash), self.replay_of(label, c, nat, configs)); continue
            if r.get("unrun"): continue
            for j, o in enumerate(r["obs"]):
                if o["k"] in ("panic", "bad"):
                    self.violation("%s: step %d %s: %s" % (label, j + 1, "panics" if o["k"] == "panic" else "is rejected", str(o.get("v"))[:300]), self.replay_of(label, c, nat, configs))
                    r["obs"] = r["obs"][:j]; break
            kept.append(c)
        div, skip, st, tr = ({}, set(), 0, 0) if crash_only else run.validate(kept, res, configs, timeout=tlc_timeout, psl=psl)
        for i, (j, text) in sorted(div.items()):
            o = res[i]["obs"][j - 1] if j else {"init": res[i].get("init"), "facts": res[i].get("facts")}
            self.violation("%s: %s; specification %s; implementation %s" % (label, describe(nat[i], j), text[:400], json.dumps({k: o[k] for k in ("k", "v", "e", "url", "init", "facts") if k in o})[:400]),
                           self.replay_of(label, cases[i], nat, configs))
        steps = sum(len(res[c["id"]]["obs"]) for c in kept)
        self.states += st; self.transitions += tr; self.traces += 0 if crash_only else len(kept); self.evaluations += steps
        ks = {}
        for c in kept:
            for o in res[c["id"]]["obs"]: ks[o["k"]] = ks.get(o["k"], 0) + 1
        for c in kept[:2]:
            self.sample({"url": c["url"], "steps": nat[c["id"]]["steps"][:2], "reports": [{k: o.get(k) for k in ("k", "v", "e", "url")} for o in res[c["id"]]["obs"][:2]]})
        self.part(label, traces=len(kept), steps=steps, not_described=len(skip), outcomes=ks, divergences=len(div), run_s=round(t1, 1), total_s=round(time.time() - t, 1))
        return res
    def replay_of(self, label, c, nat, configs):
        return {"type": "conform", "property": self.pid, "label": label, "case": c, "native": nat[c["id"]], "config": configs[c["cfg"]]}

    # ------------------------------------------------------------------ model checking
    def model(self, module, cfg=None, consts=None, timeout=800, args=(), workers=1, inputs=None, heap="4g"):
        """model-check a module; returns the JSON lines it printed. An invariant broken in the model is a tool error: the
        model is part of the machinery, the implementation is judged by the replays."""
        d = run.spec_dir()
        t = time.time()
        try:
            for name, data in (inputs or {}).items():
                with open(d + "/" + name, "w") as f: json.dump(run.enc(data), f)
            rc, out, err = run.tlc_raw(module, d, timeout, cfg, args, workers, heap, consts)
            st = run.stats(out)
            if rc or st[2] != 0: raise ToolError("model %s: TLC says %s\n%s%s" % (module, rc, "\n".join(l[:2000] for l in out.splitlines() if not l.startswith('"{'))[-4000:], err[-500:]))
            lines = run.printed(out)
            self.states += st[0]; self.transitions += st[1]
            self.part("model " + module + (" " + json.dumps(consts) if consts else ""), states=st[0], transitions=st[1], emitted=len(lines), total_s=round(time.time() - t, 1))
            return lines
        finally: shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------------ the end
    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "steps_compared": self.evaluations,
               "samples": self.samples or ["no case was recorded"], "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f: json.dump(ev, f, indent=1, default=str); f.write("\n")
        for t in self.known_hits: print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        seen = set()
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p)); print("  " + what[:700])
        if len(self.violations) > 5: print("  ... and %d more" % (len(self.violations) - 5))
        if not self.violations: print("%s held: %d model states, %d transitions, %d traces of the implementation, %.0fs" % (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0

def describe(nat, j):
    if not j: return "parsing %r" % nat["url"]
    s = nat["steps"][j - 1]
    return "step %d %s %s on %r" % (j, s["kind"], json.dumps({k: s[k] for k in ("node", "s", "d", "to") if k in s})[:500], nat["url"])

def load_known():
    p = VERIF + "/known_findings.jsonl"
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []
def known_matches(k, what, replay):
    m = k.get("match")
    return bool(m) and all(replay.get(f) == v for f, v in m.items())
