"""The bounded models (spec/MC_*.tla): their inputs, and the replay of everything they enumerate on the implementation."""
import json
from . import schema as S
from . import run
from .run import log, ENV

CTX = {"n1": "task", "n2": ""}
JCTX = {"n1": "job", "n2": "", "é": "ü"}

def var(t, n): return {"Var": {"type": t, "name": n}}
def nte(s): return {"NoneToEmptyString": s}
def setvar(n, v): return {"SetScratchpadVar": {"name": n, "value": v}}
def setflag(n, b=True): return {"SetScratchpadFlag": {"name": n, "value": b}}
SHOW = {"All": [setvar("seen", nte(var("Common", "x"))), {"If": {"condition": {"FlagIsSet": {"type": "Common", "name": "a"}}, "mapper": setflag("saw"), "else_mapper": setflag("notsaw")}}]}
OUTER = {"All": [{"Common": {"name": "show", "args": {"vars": {"x": "inner"}}}}, setvar("outer", nte(var("Common", "x"))),
                 {"If": {"condition": {"FlagIsSet": {"type": "Common", "name": "a"}}, "mapper": setflag("outa")}}]}
LEAK = {"All": [{"Common": {"name": "show", "args": {"flags": ["a"]}}}, {"Common": "show"}, setvar("leak", nte(var("Common", "x")))]}
MAPPERS = {"show": SHOW, "fails": {"All": [setflag("f1"), {"SetPart": {"part": "Fragment", "value": "bad"}}, {"Error": "x"}]}, "outer": OUTER, "leak": LEAK, "fr": setvar("seen", "fr")}
CONFIG = {"params": {"flags": ["n1"], "vars": {"n1": "pv", "n2": ""}, "sets": {"n1": ["a", "b", ""], "n2": []}, "lists": {"n1": ["a", "b"], "n2": [], "n3": ["zz", "é"]},
                     "maps": {"n1": {"map": {"a": "A", "": "empty"}, "if_null": "null", "else": "else"}, "n2": {"map": {"a": "A"}}, "n3": {"map": {}, "if_null": "null"}, "n4": {"map": {"a": ""}, "else": "else"}},
                     "named_partitionings": {"n1": {"p1": ["a", "b"], "p2": ["", "c"]}, "n2": {"p1": []}}},
          "commons": {"mappers": MAPPERS, "rules": {k: {"Mapper": v} for k, v in MAPPERS.items()},
                      "conditions": {"yes": "Always", "no": "Never", "err": {"Error": "x"}, "arg": {"VarIs": {"type": "Common", "name": "x", "value": "1"}}, "flag": {"FlagIsSet": {"type": "Common", "name": "a"}}},
                      "string_sources": {"lit": "lit", "none": None, "err": {"Error": "x"}, "arg": var("Common", "x"), "nest": {"Common": {"name": "arg", "args": {"vars": {"x": "inner"}}}},
                                         "flag": {"IfFlag": {"type": "Common", "name": "a", "then": "set", "else": "unset"}}},
                      "string_modifications": {"app": {"Append": nte(var("Common", "x"))}, "err": {"All": [{"Append": "z"}, {"Error": "x"}]}},
                      "string_matchers": {"yes": "Always", "err": {"Error": "x"}, "is": {"Is": nte(var("Common", "x"))}}},
          "rules": []}

def inputs(config=CONFIG, ctx=CTX, jctx=JCTX, bare=False, **extra):
    cfg = {"commons": S.commons_ast(config.get("commons", {})), "params": S.params_ast(config.get("params", {})), "http": (S.http_ast if bare else S.client_ast)(config.get("params", {}).get("http_client_config", {}))}
    return {"inputs.json": dict(config=cfg, env=[[k, v] for k, v in ENV.items()], ctx=list(map(list, ctx.items())), jctx=list(map(list, jctx.items())), **extra)}

PURE = {"cond", "src", "mat", "mod", "loc", "charm", "pget"}
def packed(docs, size=24):
    """evaluations that change nothing, on the same state, become one history"""
    groups, out = {}, []
    for d in docs:
        if all(s["kind"] in PURE for s in d["steps"]): groups.setdefault(json.dumps([d["url"], d["flags"], d["vars"], d["ca"]]), []).extend(d["steps"])
        else: out.append(d)
    for k, steps in groups.items():
        u, f, v, ca = json.loads(k)
        out += [{"url": u, "flags": f, "vars": v, "ca": ca, "steps": steps[i:i + size]} for i in range(0, len(steps), size)]
    return out
def cases(docs, ctx=CTX, jctx=JCTX):
    out = []
    for d in packed(docs):
        steps = []
        for s in d["steps"]:
            s = dict(s); s["to"] = s["to"][0] if s["to"] else None
            steps.append(s)
        ca = d["ca"][0] if d["ca"] else None
        out.append({"url": d["url"], "flags": d["flags"], "vars": dict(map(tuple, d["vars"])), "ctx": ctx, "jctx": jctx,
                    "ca": ca and {"flags": ca["flags"], "vars": dict(map(tuple, ca["vars"]))}, "facts": True, "cfg": 0, "steps": steps})
    return out

def mc(ck, module, consts=None, config=CONFIG, label=None, batch=12000, timeout=800, **extra):
    """explore a bounded model completely and replay what it enumerated"""
    cs = cases(ck.model(module, consts=consts, inputs=inputs(config, **{"rx": RX, "glob": GLOB, **extra}), timeout=timeout))
    for k in range(0, len(cs), batch):
        ck.conform((label or module) + " replayed" + (" (%d)" % (k // batch + 1) if len(cs) > batch else ""), cs[k:k + batch], [config])

RXS = ["a", "b+", "a|ab", "(a)(b)?", "(?:ab)+", "(?P<n>a+)1", "^a", "a$", "^$", "", "[ab]1", "[^a]", ".", "a.b", r"\d", r"\w+", r"(a*)(b*)", "a{2}", "(a|b)*1", "a*?", "(", r"\bab\b", "(b)|(a)", "^[a-b]+$"]
RX = [S.compile("Rx", p) for p in RXS] + [S.compile("Rx", {"pattern": "a.B", "case_insensitive": True, "dot_matches_new_line": True}), S.compile("Rx", {"pattern": "^b|a$", "multi_line": True})]
RXFLAG = ["case_insensitive", "crlf", "dot_matches_new_line", "ignore_whitespace", "multi_line", "octal", "swap_greed"]
def rx_variants():
    """every set of flags on patterns that each flag matters to"""
    out = []
    for m in range(128):
        fl = {f: True for i, f in enumerate(RXFLAG) if m >> i & 1}
        for p in ("^a.*$", "(A+?)(b*)", "a b #1\nB", "\\141.|^$"):
            out.append(S.compile("Rx", dict({"pattern": p}, **fl)))
    for lt in (97, 0, 13):
        for fl in ({}, {"multi_line": True}, {"crlf": True}, {"dot_matches_new_line": True}):
            out += [S.compile("Rx", dict({"pattern": p, "line_terminator": lt}, **fl)) for p in ("^.+$", "^b", "$")]
    out += [S.compile("Rx", {"pattern": p, "unicode": False}) for p in ("a", ".", "[^a]", "[ab]+", "^b*$")]
    return out
GLOBS = ["", "*", "?", "a*", "*a", "a?b", "[ab]", "[!a]*", "**", "a/*", "*/b", "**/b", ".*", "*.b", "[a-b]?", "A", "[]]", "/", "?a*"]
GLOB = [S.compile("Glob", g) for g in GLOBS] + [S.compile("Glob", dict({"pattern": g}, **o)) for g in ("a*", "?b", "*", "A?", "**/b") for o in
        ({"case_sensitive": False}, {"require_literal_separator": True}, {"require_literal_leading_dot": False}, {"case_sensitive": False, "require_literal_separator": True, "require_literal_leading_dot": False})]

# ------------------------------------------------------------- outcomes foretold by a model, compared directly
URL0 = "https://www.example.com/"
def expect(ck, label, items, configs):
    """items: (steps, what each step must report {k[, v]})"""
    cs = [{"id": n, "cfg": it.get("cfg", 0), "url": it.get("url", URL0), "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False, "steps": it["steps"]} for n, it in enumerate(items)]
    res = run.run_cases(ck.harness, cs, configs)
    n = 0
    for it, c in zip(items, cs):
        r = res[c["id"]]
        bad = None
        if r.get("died") or r.get("panic") or r.get("bad"): bad = "the program: %s" % (r.get("died") or r.get("panic") or r.get("bad"))
        for s, want, o in zip(it["steps"], it["want"], r["obs"]):
            n += 1
            got = {k: o.get(k) for k in want}
            if got != want and not bad: bad = "%s %s%s gives %s, the specification says %s" % (s["kind"], json.dumps(s["node"]) if s.get("node") is not None else " | ".join(x for x in (s.get("s"), s.get("d")) if x), " on " + it["url"] if "url" in it else "", json.dumps({k: o.get(k) for k in ("k", "v", "e", *want)})[:400], json.dumps(want)[:400])
        if bad: ck.violation("%s: %s" % (label, bad), {"type": "expect", "property": ck.pid, "label": label, "item": dict(it, cfg=0), "config": configs[it.get("cfg", 0)]})
    ck.evaluations += n; ck.traces += len(items)
    ck.sample({"steps": items[len(items) // 2]["steps"][:2], "want": items[len(items) // 2]["want"][:2]})
    ck.part(label, cases=len(items), steps=n, violations=len(ck.violations))
def replay_expect(ck, rep): expect(ck, "replay", [rep["item"]], [rep["config"]])

def jobj(pairs): return "{" + ",".join(json.dumps(k) + ":" + v for k, v in pairs) + "}"
def load_step(text): return {"kind": "load", "node": None, "s": text, "d": "", "to": None}
def partitionings(ck, np):
    docs = ck.model("MC_Load", consts={"NP": np})
    items, configs = [], [{"rules": []}]
    for d in docs:
        np_text = jobj([(k, json.dumps(v)) for k, v in d["parts"]])
        text = '{"params":{"named_partitionings":{"x":%s}},"rules":[]}' % np_text
        items.append({"steps": [load_step(text)], "want": [{"k": "ok" if d["ok"] else "err"}]})
        if d["ok"]:
            configs.append({"params": {"named_partitionings": {"x": dict(map(tuple, d["parts"]))}}, "rules": []})
            src = lambda e: {"kind": "src", "node": {"ParamsNamedPartitioning": {"name": "x", "element": e}}, "s": "", "d": "", "to": None}
            items.append({"cfg": len(configs) - 1, "steps": [src(e) for e, _ in d["find"]], "want": [{"k": "ok", "v": f} for _, f in d["find"]]})
    expect(ck, "named partitionings replayed", items, configs)
