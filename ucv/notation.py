"""C20: what a configuration's notations mean, and what is no configuration."""
import json, os
from . import schema as S, models, gen, profiles, run

# ------------------------------------------------------------- JSON values as the specification writes them
def tag(x):
    if x is None: return ["null"]
    if isinstance(x, bool): return ["bool", x]
    if isinstance(x, (int, float)): return ["num", x]
    if isinstance(x, str): return ["str", x]
    if isinstance(x, (list, tuple)): return ["arr", [tag(y) for y in x]]
    return ["obj", [[k, tag(v)] for k, v in x.items()]]
def text(d):
    """a document as JSON text; repeated keys stay repeated"""
    if d[0] == "null": return "null"
    if d[0] == "arr": return "[" + ",".join(map(text, d[1])) + "]"
    if d[0] == "obj": return "{" + ",".join(json.dumps(k) + ":" + text(v) for k, v in d[1]) + "}"
    return json.dumps(d[1])

# ------------------------------------------------------------- the language, as the specification reads it
def ref(n): return {"t": "ref", "n": n}
OPT = lambda t: {"t": "opt", "of": t}
INT = lambda lo, hi: {"t": "int", "lo": lo, "hi": hi}
TEXT = {"t": "text"}
ONCE = {("Mapper", "RemoveQueryParams"), ("Mapper", "AllowQueryParams")}     # sets that must not repeat an element
LIMITS = {("Mapper", "Retry", "limit"): 255}
def desc(t, at=()):
    b = S.base(t)
    if b in S.ENUMS and b != "Method" or b in S.SCHEMA or b in S.STRUCTS or b in ("Call", "Rx", "Glob"): return ref(b)
    if b.startswith("Opt:"): return OPT(desc(b[4:]))
    if b.startswith("List:"): return {"t": "list", "of": desc(b[5:])}
    if b.startswith(("Pairs:", "Form:")): return {"t": "dict", "of": desc(b.split(":", 1)[1]), "once": False}
    if b.startswith("Map:"): return ref(b.replace(":", "_"))
    return {"Text": TEXT, "OptText": OPT(TEXT), "Int": INT(-1000, 1000), "OptInt": OPT(INT(-1000, 1000)), "Nat": INT(0, LIMITS.get(at, 1000)), "Bool": {"t": "bool"}, "OptBool": OPT({"t": "bool"}),
            "Char": {"t": "char"}, "Chars": {"t": "list", "of": {"t": "char"}}, "Set": {"t": "set", "once": at[:2] in ONCE}, "Filter": OPT({"t": "list", "of": ref("CondErr")}),
            "Raw": {"t": "open", "like": [tag([])]}, "Delay": {"t": "num", "lo": 0}, "Headers": {"t": "headers"}, "Method": {"t": "method"},
            "Rules": {"t": "list", "of": ref("Rule")}}[b]
def field(n, t, at=()):
    f = {"n": n.lstrip("*"), "flat": n[0] == "*", "of": desc(t, at + (n,)), "omit": "no", "dflt": ["null"]}
    if f["flat"] and f["n"] == "map": f["n"] = "(map)"
    try:
        d = S.default(t)
        f["omit"] = "none" if t.endswith("!") else "dflt"
        empty = {"list": [], "set": [], "dict": {}, "headers": {}, "opt": None, "open": None}
        f["dflt"] = tag(empty[f["of"]["t"]] if d == [] else S.native(t, d))
    except KeyError: pass
    return f
def struct(fs, seq=True, bare="", to="", **kw):
    fs = [f if isinstance(f, dict) else field(*f) for f in fs]
    return dict({"kind": "struct", "fields": fs, "seq": seq and not any(f["flat"] for f in fs), "bare": bare, "to": to, "nul": "", "numb": "", "words": [], "variants": [], "loose": []}, **kw)
def dflt(n, of, d): return {"n": n, "flat": False, "of": of, "omit": "dflt", "dflt": tag(d)}
def need(n, of): return {"n": n, "flat": False, "of": of, "omit": "no", "dflt": tag(None)}
def flat(n, of): return dict(need(n, of), flat=True)
def enum(t, variants):
    vs, loose = [], []
    for v, spec in variants.items():
        if t == "Rule" and v == "Normal": loose = [field(f, x) for f, x in spec.items()]; continue
        e = {"n": v, "form": "unit", "of": TEXT, "fields": [], "seq": False}
        if isinstance(spec, str): e.update(form="new", of=desc(spec, (t, v)))
        elif spec is not None:
            fs = [field(f, x, (t, v)) for f, x in spec.items()]
            e.update(form="fields", fields=fs, seq=t not in ("Src", "Mod", "Json") and not any(f["flat"] for f in fs))
        vs.append(e)
    return {"kind": "enum", "variants": vs, "fields": [], "loose": loose, "seq": False, "bare": "", "to": "", "nul": "", "numb": "", "words": []}
def language():
    L = {t: enum(t, vs) for t, vs in S.SCHEMA.items()}
    L.update({t: enum(t, {v: None for v in vs}) for t, vs in S.ENUMS.items() if t != "Method"})
    BARE = {"Flag": "name", "Var": "name", "Selector": "name", "Cmd": "program", "Proxy": "url"}
    for t, fs in S.STRUCTS.items():
        L[t] = struct(fs.items(), seq=t not in BARE, bare="field" if t in BARE else "", to=BARE.get(t, ""))
    for t in {m for d in S.SCHEMA.values() for fs in d.values() if isinstance(fs, dict) for m in fs.values() if m.startswith("Map:")}:
        L[t.replace(":", "_")] = struct([need("map", {"t": "dict", "of": desc(t[4:]), "once": True}), dflt("if_null", OPT(desc(t[4:])), None), dflt("else", OPT(desc(t[4:])), None)])
    L["Map_Text"] = struct([need("map", {"t": "dict", "of": TEXT, "once": True}), dflt("if_null", OPT(TEXT), None), dflt("else", OPT(TEXT), None)])
    L["Src"].update(bare="variant", to="String", nul="None")
    L["Json"].update(bare="variant", to="String", numb="Number")
    next(v for v in L["Json"]["variants"] if v["n"] == "Number")["of"] = {"t": "num", "lo": -1000000}
    L["Mod"].update(bare="words", words=[[w, tag({w: {}} if w.startswith("Base64") else {w: "JsEncodeUriComponent"} if w == "UrlEncode" else {w: None})] for w in sorted(S.MODSTR)])
    L["CondErr"] = enum("CondErr", {v: None for v in "ExplicitError PartIsNone StringSourceIsNone StringMatcherError StringLocationError StringSourceError TryElseError UrlDoesNotHavePathSegments CommonConditionNotFound CommonCallArgsError Custom GetFlagError GetVarError".split()})
    B = {"t": "bool"}
    L["Call"] = struct([need("name", ref("Src")), dflt("args", ref("Args"), {})], seq=False, bare="field", to="name")
    L["Args"] = struct([dflt("flags", {"t": "set", "once": False}, []), dflt("vars", {"t": "dict", "of": ref("Src"), "once": False}, {})])
    L["RxOpts"] = struct([dflt(n, B, False) for n in ("case_insensitive", "crlf", "dot_matches_new_line", "ignore_whitespace")] + [dflt("line_terminator", INT(0, 255), 10)]
                         + [dflt(n, B, False) for n in ("multi_line", "octal", "swap_greed")] + [dflt("unicode", B, True)])
    L["Rx"] = struct([need("pattern", TEXT), flat("(opts)", ref("RxOpts"))], bare="field", to="pattern")
    L["GlobOpts"] = struct([dflt("case_sensitive", B, True), dflt("require_literal_separator", B, False), dflt("require_literal_leading_dot", B, True)])
    L["Glob"] = struct([need("pattern", TEXT), flat("(opts)", ref("GlobOpts"))], bare="field", to="pattern")
    L["Proxy"]["fields"][0]["of"] = {"t": "url"}
    L["Proxy"]["leasts"] = "http://127.0.0.1:9/"
    L["CachePath"] = dict(enum("CachePath", {"Memory": None, "Path": "Text"}), bare="path", to="Path")
    once = lambda of: {"t": "dict", "of": of, "once": True}
    L["Client"] = struct([dflt("default_headers", {"t": "headers"}, {}), dflt("redirect_policy", ref("Redir"), {"Limited": 10}), dflt("https_only", B, False), dflt("proxies", {"t": "list", "of": ref("Proxy")}, []),
                          dflt("no_proxy", B, False), dflt("referer", B, False), dflt("extra_certificates", {"t": "set", "once": False}, [])])
    L["Params"] = struct([dflt("flags", {"t": "set", "once": True}, []), dflt("vars", once(TEXT), {}), dflt("sets", once({"t": "set", "once": False}), {}), dflt("lists", once({"t": "list", "of": TEXT}), {}),
                          dflt("maps", once(ref("Map_Text")), {}), dflt("named_partitionings", once({"t": "parts"}), {}), dflt("read_cache", B, True), dflt("write_cache", B, True),
                          dflt("http_client_config", ref("Client"), {})])
    L["CtxDocs"] = struct([dflt("vars", once(TEXT), {})])
    L["Docs"] = struct([dflt("title", OPT(TEXT), None), dflt("description", OPT({"t": "list", "of": TEXT}), None)] + [dflt(n, once(TEXT), {}) for n in ("flags", "vars", "environment_vars", "sets", "lists", "maps", "named_partitionings")]
                       + [dflt("job_context", ref("CtxDocs"), {}), dflt("task_context", ref("CtxDocs"), {})])
    L["Commons"] = struct([dflt(n, {"t": "dict", "of": ref(t), "once": False}, {}) for n, t in S.COMMONS.items()])
    L["Config"] = struct([dflt("docs", ref("Docs"), {}), dflt("cache_path", ref("CachePath"), {"Memory": None}), dflt("params", ref("Params"), {}), dflt("commons", ref("Commons"), {}), need("rules", {"t": "list", "of": ref("Rule")})])
    return L

# ------------------------------------------------------------- where a document of a type stands in a configuration
def common(kind): return lambda d: '{"commons":{"%s":{"it":%s}},"rules":[]}' % (kind, d)
def mapper(t): return lambda d: '{"rules":[{"Mapper":%s}]}' % (t % d)
def source(t): return lambda d: '{"commons":{"string_sources":{"it":%s}},"rules":[]}' % (t % d)
def modif(t): return lambda d: '{"commons":{"string_modifications":{"it":%s}},"rules":[]}' % (t % d)
def matcher(t): return lambda d: '{"commons":{"string_matchers":{"it":%s}},"rules":[]}' % (t % d)
def condition(t): return lambda d: '{"commons":{"conditions":{"it":%s}},"rules":[]}' % (t % d)
CLIENT = '{"params":{"http_client_config":%s},"rules":[]}'
PLACES = {
 "Config": [lambda d: d], "Params": [lambda d: '{"params":%s,"rules":[]}' % d], "Docs": [lambda d: '{"docs":%s,"rules":[]}' % d], "Commons": [lambda d: '{"commons":%s,"rules":[]}' % d],
 "Client": [lambda d: CLIENT % d], "CachePath": [lambda d: '{"cache_path":%s,"rules":[]}' % d], "Map_Text": [lambda d: '{"params":{"maps":{"m":%s}},"rules":[]}' % d],
 "Rule": [common("rules"), lambda d: '{"rules":[%s]}' % d], "Mapper": [common("mappers"), mapper("%s")], "Cond": [common("conditions"), mapper('{"If":{"condition":%s,"mapper":"None"}}')],
 "Src": [common("string_sources"), mapper('{"Join":%s}')], "Mod": [common("string_modifications"), mapper('{"ModifyPart":{"part":"Path","modification":%s}}')],
 "Mat": [common("string_matchers"), mapper('{"RemoveQueryParamsMatching":%s}')], "Loc": [matcher('{"Contains":{"value":"x","where":%s}}')], "CharM": [matcher('{"AllCharsMatch":%s}')],
 "Part": [source('{"Part":%s}'), mapper('{"CopyPart":{"from":%s,"to":"Path"}}')], "Selector": [source('{"Part":{"QueryParam":%s}}')], "Flag": [condition('{"FlagIsSet":%s}')], "Var": [source('{"Var":%s}')],
 "Call": [common("mappers").__call__ and mapper('{"Common":%s}'), source('{"Common":%s}')], "Args": [source('{"Common":{"name":"x","args":%s}}')], "Rx": [matcher('{"Regex":%s}'), modif('{"RegexFind":%s}')], "Glob": [matcher('{"Glob":%s}')],
 "B64": [modif('{"Base64Encode":%s}'), modif('{"Base64Decode":%s}')], "Cmd": [source('{"CommandOutput":%s}')], "Req": [source('{"HttpRequest":%s}')], "Body": [source('{"HttpRequest":{"body":%s}}')],
 "Json": [source('{"HttpRequest":{"body":{"Json":%s}}}')], "Handler": [source('{"HttpRequest":{"response_handler":%s}}')], "HDiff": [mapper('{"ExpandRedirect":{"http_client_config_diff":%s}}')],
 "CondErr": [condition('{"TreatErrorAsFail":{"Error":"x","filter":[%s]}}')],
 "Redir": [lambda d: CLIENT % ('{"redirect_policy":%s}' % d)], "Proxy": [lambda d: CLIENT % ('{"proxies":[%s]}' % d)], "ProxyMode": [lambda d: CLIENT % ('{"proxies":[{"url":"http://a/","mode":%s}]}' % d)],
 "ProxyAuth": [lambda d: CLIENT % ('{"proxies":[{"url":"http://a/","auth":%s}]}' % d)], "Link": [mapper('{"ConditionChain":[%s]}')], "Enc": [modif('{"UrlEncode":%s}')], "VarType": [source('{"Var":{"type":%s,"name":"x"}}')],
 "FlagType": [condition('{"FlagIsSet":{"type":%s,"name":"x"}}')], "B64A": [modif('{"Base64Encode":{"alphabet":%s}}')], "B64P": [modif('{"Base64Encode":{"decode_padding":%s}}')],
}
MAYNULL = {"Body", "HDiff", "ProxyAuth"}       # where they stand, null is nothing

def inputs(types):
    return {"inputs.json": {"schema": language(), "types": list(types), "urls": ["http://127.0.0.1:9/"], "methods": S.ENUMS["Method"], "config": {"commons": S.commons_ast({}), "params": S.params_ast({}), "http": S.http_ast({})}, "env": [], "ctx": [], "jctx": []}}
def same_step(a, b): return {"kind": "same", "node": None, "s": a, "d": b, "to": None}
def notations(ck, consts=None, types=None, timeout=800):
    docs = ck.model("MC_Notation", consts=consts, inputs=inputs(types or PLACES), workers=8, timeout=timeout, heap="8g")
    items = {}
    for x in docs:
        if x["t"] in MAYNULL and x["d"] == ["null"]: continue
        for place in PLACES[x["t"]]:
            a = place(text(x["d"]))
            b = place(text(x["w"])) if x["v"] == "ok" else ""
            items[a, b] = {"steps": [same_step(a, b)], "want": [{"k": "ok", "v": [True, True, True]} if b else {"k": "err"}]}
    models.expect(ck, "notations replayed", list(items.values()), [{"rules": []}])

# ------------------------------------------------------------- whole configurations
def configs(ck, n, salt, bias=None, size=3, rules=3):
    """-> [(the configuration as a tree's canonical notation, the same in another notation)]"""
    rng = ck.rng("configs", salt); out = []
    for _ in range(n):
        g = gen.Gen(rng, bias or gen.bias(), size); g.use_url(gen.rand_url(rng))
        com, rs, ps = gen.commons(g, 2, ast=True), [g.gen("Rule") for _ in range(rng.randrange(rules + 1))], gen.params(g)
        alt = dict(ps)
        for k, v in (("read_cache", True), ("write_cache", True), ("http_client_config", {}), ("flags", []), ("vars", {})):
            if rng.random() < .3: alt.setdefault(k, v)
        a = {"params": ps, "commons": S.commons_native(com), "rules": S.native("Rules", rs)}
        b = {"params": alt, "commons": S.commons_native(com, rng), "rules": S.native("Rules", rs, rng)}
        for k, v in (("docs", {}), ("cache_path", rng.choice([":memory:", {"Memory": None}, "Memory" if False else {"Memory": None}]))):
            if rng.random() < .3: b[k] = v
        keys = list(b); rng.shuffle(keys)
        out.append((a, {k: b[k] for k in keys}))
    return out
def spelled(ck, docs, timeout=800):
    """what the specification makes of whole documents"""
    ins = inputs([]); ins["inputs.json"]["docs"] = [{"t": t, "d": tag(x)} for t, x in docs]
    got = ck.model("MC_Spell", inputs=ins, workers=8, timeout=timeout, heap="8g")
    return {x["i"]: x for x in got}
# values that TLC's integers and strings do not reach: they only must survive being written out
VALUES = [(CLIENT % ('{"default_headers":{"x":%s}}' % v)) for v in ('"é"', '"a\\tb"', '" y "', '""', '"\U0001f600"', '"~!@"')] + [CLIENT % '{"default_headers":{"X-Y":"1","accept":"é, *"}}']
VALUES += [CLIENT % ('{"proxies":[{"url":"http://a/","auth":{"Custom":%s}}]}' % v) for v in ('"é"', '"a b"', '""')]
VALUES += [CLIENT % ('{"proxies":["%s"]}' % v) for v in ("http://u:p@a:81/x?y#z", "socks5://h", "https://é/")]
VALUES += [mapper('{"Retry":{"mapper":"None","delay":%s}}')(v) for v in ("0", "2.5", "0.1", "1e-9", "1e3", "1e9", "0.3333333333333333", "86400.000000001")]
VALUES += [PLACES["Json"][0]('{"Number":%s}' % v) for v in ("0", "-1", "1.5", "0.1", "1E2", "-0.0", "9007199254740993", "18446744073709551615", "-9223372036854775808", "123456789012345678901234567890", "1e-300")]
VALUES += [mapper('{"SetPart":{"part":{"PathSegment":%s},"value":"x"}}')(v) for v in ("9223372036854775807", "-9223372036854775808")]
VALUES += [mapper('{"ModifyPart":{"part":"Path","modification":{"Replacen":{"find":"a","replace":"b","count":%s}}}}')(v) for v in ("18446744073709551615", "0")]
VALUES += [source('{"String":%s}')(v) for v in ('"\\u0000"', '"\\ud83d\\ude00"', '"\U0001f600\\u2028é\\u007f"', '"\\"\\\\\\/\\b\\f\\n\\r\\t"')]
NEVER = [mapper('{"SetPart":{"part":{"PathSegment":%s},"value":"x"}}')(v) for v in ("9223372036854775808", "-9223372036854775809", "1.0", "1e0", '"1"', "01", "+1", "0x1")]
NEVER += [mapper('{"Retry":{"mapper":"None","delay":%s}}')(v) for v in ("-1", "-0.5", '"2"', "1e30", "null")] + [mapper('{"Retry":{"mapper":"None","delay":0,"limit":%s}}')(v) for v in ("256", "-1", "1.5")]
NEVER += [source('{"String":%s}')(v) for v in ('"\\ud83d"', '"\\x"', '"\n"', "'x'")] + [CLIENT % ('{"default_headers":{"%s":"%s"}}' % x) for x in (("a b", "x"), ("", "x"), ("x", "a\\nb"), ("é", "x"))] + [CLIENT % '{"proxies":["not a url"]}']
def values(ck):
    models.expect(ck, "values at the edges of their types", [{"steps": [same_step(v, v)], "want": [{"k": "ok", "v": [True] * 3}]} for v in VALUES] + [{"steps": [models.load_step(v)], "want": [{"k": "err"}]} for v in NEVER], [{"rules": []}])
def whole(ck, n):
    pairs = configs(ck, n, "text")
    shipped = [json.load(open(run.REPO + "/" + f)) for f in ("default-config.json", "example-configs/utm.json", "example-configs/recursion.json") if os.path.exists(run.REPO + "/" + f)]
    pairs += [(x, x) for x in shipped]
    sp = spelled(ck, [("Config", b) for _, b in pairs])
    items = []
    for k, (a, b) in enumerate(pairs):
        s = sp[k + 1]
        A, B = json.dumps(a), json.dumps(b)
        if a is b and s["v"] == "no": items.append({"steps": [models.load_step(A)], "want": [{"k": "err"}]}); continue      # an example written for another version
        items.append({"steps": [same_step(A, B), same_step(B, A)], "want": [{"k": "ok", "v": [True, True, True]}] * 2})
        if s["v"] == "ok": items.append({"steps": [same_step(B, text(s["w"]))], "want": [{"k": "ok", "v": [True, True, True]}]})
        elif s["v"] == "no": ck.violation("the specification reads no configuration in %s" % B[:300], {"type": "none"})
    models.expect(ck, "whole configurations in other notations", items, [{"rules": []}])
    return pairs
def pieces(ck, n):
    """no beginning of a configuration is a configuration, nor is one followed by something"""
    items = []
    for a, b in configs(ck, n, "cut", size=2, rules=2):
        t = json.dumps(b)
        for k in range(0, len(t), max(1, len(t) // 120)): items.append({"steps": [models.load_step(t[:k])], "want": [{"k": "err"}]})
        for j in ("x", "}", ",", "{}", "null", "]", "/**/", "// x", "\u00a0"): items.append({"steps": [models.load_step(t + j)], "want": [{"k": "err"}]})
        for j in (" ", "\n\t\r"): items.append({"steps": [models.load_step(j + t + j)], "want": [{"k": "ok"}]})
        for j in ("\ufeff", "[", "x"): items.append({"steps": [models.load_step(j + t)], "want": [{"k": "err"}]})
        for bad in (t.replace("{", "{,", 1), t[:-1] + ",}", t.replace('"', "'"), "[%s]" % t, json.dumps(t)): items.append({"steps": [models.load_step(bad)], "want": [{"k": "err"}]})
    models.expect(ck, "texts that are no configuration", items, [{"rules": []}])

def rewritten(ck, cfgs):
    """configurations as the implementation writes them out"""
    cs = [{"id": n, "cfg": 0, "url": models.URL0, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False, "steps": [{"kind": "roundtrip", "node": c, "s": "", "d": "", "to": None}]} for n, c in enumerate(cfgs)]
    res = run.run_cases(ck.harness, cs, [{"rules": []}])
    out = []
    for n, c in enumerate(cfgs):
        o = (res[n].get("obs") or [{}])[0]
        if o.get("k") != "ok": ck.violation("a configuration cannot be written out and read again: %s" % str(o)[:300], {"type": "expect", "property": ck.pid, "label": "rewritten", "config": {"rules": []}, "item": {"steps": [same_step(json.dumps(c), json.dumps(c))], "want": [{"k": "ok", "v": [True, True, True]}]}}); out.append(c)
        else: out.append(json.loads(o["v"][1]))
    return out
KINDS = {"mapper": 4, "rule": 2, "rules": 1, "cond": 2, "src": 3, "mod": 2, "mat": 2, "loc": 1, "charm": 1, "pget": 1, "pset": 1}
def behaviour(ck, n, salt, again):
    """the same programs in other notations, and out of configurations that were written out and loaded again"""
    prof = dict(kinds=KINDS, size=3, steps=4, n=n, bias=gen.bias(gen.CLOSED))
    rng = ck.rng("behaviour", salt)
    cs, _ = profiles.cases(prof, rng, n)
    cfgs = [b for _, b in configs(ck, (n + 24) // 25, salt, bias=gen.CLOSED, size=2)]
    for b in cfgs: b.pop("cache_path", None)
    if again: cfgs = rewritten(ck, cfgs)
    ck.conform("programs %s" % ("after writing the configuration out" if again else "in other notations"), cs, cfgs, alt=True)

def program(ck, n, timeout=120):
    """the program with its built-in configuration, and with the same configuration read from a file, spelled out, and written out"""
    from . import default, cli
    c = default.load()
    s = spelled(ck, [("Config", c)])[1]
    texts = [("from its file", json.dumps(c)), ("written out", json.dumps(rewritten(ck, [c])[0]))] + ([("spelled out", text(s["w"]))] if s["v"] == "ok" else [])
    rng = ck.rng("program"); st = default.Sites(c)
    urls = [st.url(rng) for _ in range(n)]
    stdin = "".join(u + "\n" for u in urls if "\n" not in u).encode()
    with cli.Scratch() as sc:
        files = {name: sc.file("c%d.json" % k, t) for k, (name, t) in enumerate(texts)}
        bad = {}
        for k, t in enumerate(([texts[0][1][:-1], texts[0][1] + "x", "", "null", "[]", "{}", '{"rules":null}', '{"rules":[{"Mapper":"Nonsense"}]}', '{"rules":[],"rules":[]}', '{"params":{"flags":["a","a"]},"rules":[]}'])): bad[t[-40:]] = sc.file("b%d.json" % k, t)
        base = ["--cache-path", ":memory:", "-j", "--flag", "no-network"]
        runs = [("built in", base)] + [(k, ["--config", f] + base) for k, f in files.items()]
        got = cli.pmap(lambda r: cli.call(ck.cli, r[1], stdin, sc.d, timeout), runs)
        first = json.loads(got[0][1]) if got[0][0] in (0, 1, 2) and got[0][1] else None
        for (name, args), (code, so, se) in zip(runs, got):
            try: same = first is not None and code == got[0][0] and json.loads(so) == first
            except ValueError: same = False
            if not same: ck.violation("the default configuration %s does not do what the built-in one does: exit %s, %s" % (name, code, (so[:200] + se[-300:]).decode("utf8", "replace")), {"type": "c20", "property": ck.pid})
        for (t, f), (code, so, se) in zip(bad.items(), cli.pmap(lambda f: cli.call(ck.cli, ["--config", f, "https://example.com/"], b"", sc.d, timeout), bad.values())):
            if code in (0, "hang") or so: ck.violation("the program accepts a file ending in %r as configuration: exit %s, %s" % (t, code, so[:200]), {"type": "c20", "property": ck.pid})
    ck.evaluations += len(urls) * len(runs); ck.traces += len(runs) + len(bad)
    ck.part("the program and its configuration's notations", urls=len(urls), runs=len(runs), refused=len(bad))

def c20(ck):
    notations(ck, None if ck.quick else {"CHANGES": 1, "DEEP": 4})
    if not ck.quick: notations(ck, {"CHANGES": 2, "DEEP": 1}, timeout=3000)
    values(ck)
    whole(ck, 250 if ck.quick else 3000)
    pieces(ck, 12 if ck.quick else 100)
    program(ck, 1500 if ck.quick else 20000)
    for k in range(1 if ck.quick else 8):
        behaviour(ck, 1500, "alt%d" % k, False)
        behaviour(ck, 800, "again%d" % k, True)
def replay(ck, rep): program(ck, 1500)
