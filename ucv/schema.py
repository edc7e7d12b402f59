"""The configuration language as data: every type, its variants and their fields.

From this table come the translation between configuration files ("native" JSON) and the syntax
trees the specification interprets, the alternative notations, and the random generator."""
import urllib.parse
from .rx import compile_rx, compile_glob

TE = {"try": 0, "else": 0}
def same(t):
    """the combinators shared by matchers, locations and character matchers"""
    return {"Always": None, "Never": None, "Debug": t, "If": {"if": t, "then": t, "else": t}, "All": "List:" + t, "Any": "List:" + t,
            "Not": t, "TreatErrorAsPass": t, "TreatErrorAsFail": t, "TryElse": {"try": t, "else": t}, "FirstNotError": "List:" + t}

RX = {"regex": "Rx"}
SCHEMA = {
 "Rule": {
    "PartMap": {"part": "Part", "*map": "Map:Mapper"}, "PartRuleMap": {"part": "Part", "*map": "Map:Rule"},
    "PartRulesMap": {"part": "Part", "*map": "Map:Rules"}, "StringMap": {"value": "Src", "*map": "Map:Mapper"},
    "StringRuleMap": {"value": "Src", "*map": "Map:Rule"}, "StringRulesMap": {"value": "Src", "*map": "Map:Rules"},
    "Repeat": {"rules": "Rules", "limit": "Nat=10"}, "SharedCondition": {"condition": "Cond", "rules": "Rules"},
    "Rules": "Rules", "Mapper": "Mapper", "Common": "Call",
    "Normal": {"condition": "Cond", "mapper": "Mapper", "else_mapper": "Opt:Mapper"}},
 "Mapper": {
    "None": None, "Error": "Text", "Debug": "Mapper", "If": {"condition": "Cond", "mapper": "Mapper", "else_mapper": "Opt:Mapper"},
    "ConditionChain": "List:Link", "All": "List:Mapper", "PartMap": {"part": "Part", "*map": "Map:Mapper"},
    "StringMap": {"value": "Src", "*map": "Map:Mapper"}, "IgnoreError": "Mapper", "RevertOnError": "Mapper",
    "TryElse": {"try": "Mapper", "else": "Mapper"}, "FirstNotError": "List:Mapper", "RemoveQuery": None,
    "RemoveQueryParam": "Src", "RemoveQueryParams": "Set", "AllowQueryParams": "Set",
    "RemoveQueryParamsMatching": "Mat", "AllowQueryParamsMatching": "Mat", "GetUrlFromQueryParam": "Src",
    "SetHost": "OptText", "Join": "Src", "SetPart": {"part": "Part", "value": "Src"},
    "ModifyPart": {"part": "Part", "modification": "Mod"}, "CopyPart": {"from": "Part", "to": "Part"},
    "MovePart": {"from": "Part", "to": "Part"}, "ExpandRedirect": {"headers": "Headers", "http_client_config_diff": "Opt:HDiff"},
    "SetScratchpadFlag": {"name": "Src", "value": "Bool"}, "SetScratchpadVar": {"name": "Src", "value": "Src"},
    "ModifyScratchpadVar": {"name": "Src", "modification": "Mod"}, "Rule": "Rule", "Rules": "Rules",
    "CacheUrl": {"category": "Src", "mapper": "Mapper"}, "Retry": {"mapper": "Mapper", "delay": "Delay", "limit": "Nat=10"}, "Common": "Call"},
 "Cond": {
    "Always": None, "Never": None, "Error": "Text", "Debug": "Cond", "If": {"if": "Cond", "then": "Cond", "else": "Cond"}, "Not": "Cond",
    "All": "List:Cond", "Any": "List:Cond", "PartMap": {"part": "Part", "*map": "Map:Cond"}, "StringMap": {"value": "Src", "*map": "Map:Cond"},
    "TreatErrorAsPass": {"*condition": "Cond", "filter": "Filter"}, "TreatErrorAsFail": {"*condition": "Cond", "filter": "Filter"},
    "TryElse": {"try": "Cond", "else": "Cond", "filter": "Filter"},
    "HostIs": "OptText", "SubdomainIs": "OptText", "RegDomainIs": "OptText", "DomainIs": "OptText", "DomainMiddleIs": "OptText",
    "NotDomainSuffixIs": "OptText", "DomainSuffixIs": "OptText", "HostIsOneOf": "Set", "UrlHasHost": None, "HostIsFqdn": None,
    "HostIsDomain": None, "HostIsIp": None, "HostIsIpv4": None, "HostIsIpv6": None, "QueryHasParam": "Text", "PathIs": "Text",
    "PartIs": {"part": "Part", "value": "Src"}, "PartContains": {"part": "Part", "value": "Src", "where": "Loc=Anywhere"},
    "PartMatches": {"part": "Part", "matcher": "Mat"}, "PartIsOneOf": {"part": "Part", "values": "Set"}, "FlagIsSet": "Flag",
    "VarIs": {"*var": "Var", "value": "Src"}, "StringIs": {"left": "Src", "right": "Src"},
    "StringContains": {"value": "Src", "substring": "Src", "where": "Loc=Anywhere"}, "StringMatches": {"value": "Src", "matcher": "Mat"}, "Common": "Call"},
 "Mod": {
    "None": None, "Debug": "Mod", "Error": "Text", "IgnoreError": "Mod", "RevertOnError": "Mod", "TryElse": {"try": "Mod", "else": "Mod"},
    "All": "List:Mod", "FirstNotError": "List:Mod", "If": {"condition": "Cond", "then": "Mod", "else": "Opt:Mod"},
    "IfMatches": {"matcher": "Mat", "then": "Mod", "else": "Opt:Mod"}, "Set": "Src", "Append": "Src", "Prepend": "Src",
    "Replace": {"find": "Src", "replace": "Src"}, "ReplaceRange": {"start": "Int", "end": "OptInt!", "replace": "Src"},
    "Lowercase": None, "Uppercase": None, "StripPrefix": "Src", "StripSuffix": "Src", "StripMaybePrefix": "Src", "StripMaybeSuffix": "Src",
    "Replacen": {"find": "Src", "replace": "Src", "count": "Nat"}, "Insert": {"value": "Src", "index": "Int"}, "RemoveChar": "Int",
    "KeepRange": {"start": "Int", "end": "OptInt!"}, "RegexCaptures": {"regex": "Rx", "replace": "Src"},
    "JoinAllRegexCaptures": {"regex": "Rx", "replace": "Src", "join": "Src"}, "RegexFind": "Rx", "RegexReplace": {"regex": "Rx", "replace": "Src"},
    "RegexReplaceAll": {"regex": "Rx", "replace": "Src"}, "RegexReplacen": {"regex": "Rx", "n": "Nat", "replace": "Src"},
    "UrlEncode": "Enc", "UrlDecode": None, "Base64Encode": "B64", "Base64Decode": "B64", "GetJsStringLiteralPrefix": None,
    "UnescapeHtmlText": None, "GetHtmlAttribute": "Src", "JsonPointer": "Src", "RemoveQueryParamsMatching": "Mat", "AllowQueryParamsMatching": "Mat",
    "ExtractBetween": {"start": "Src", "end": "Src"}, "KeepNthSegment": {"split": "Src", "index": "Int"},
    "KeepSegmentRange": {"split": "Src", "start": "Int=0", "end": "OptInt"}, "SetSegment": {"split": "Src", "index": "Int", "value": "Src"},
    "InsertSegment": {"split": "Src", "index": "Int", "value": "Src"}, "StringMap": {"value": "Src", "*map": "Map:Mod"}, "Common": "Call"},
 "Src": {
    "None": None, "Error": "Text", "ErrorToNone": "Src", "ErrorToEmptyString": "Src", "TryElse": {"try": "Src", "else": "Src"}, "Debug": "Src",
    "NoneToEmptyString": "Src", "NoneTo": {"value": "Src", "if_none": "Src"}, "Join": {"sources": "List:Src", "join": "Text="},
    "IfFlag": {"*flag": "Flag", "then": "Src", "else": "Src"}, "IfStringMatches": {"value": "Src", "matcher": "Mat", "then": "Src", "else": "Src"},
    "IfStringIsNone": {"value": "Src", "then": "Src", "else": "Src"}, "Map": {"value": "Src", "*map": "Map:Src"}, "String": "Text", "Part": "Part",
    "ExtractPart": {"value": "Src", "part": "Part"}, "Var": "Var", "ParamsMap": {"name": "Src", "key": "Src"},
    "ParamsNamedPartitioning": {"name": "Src", "element": "Src"}, "Modified": {"value": "Src", "modification": "Mod"},
    "HttpRequest": "Req", "CommandOutput": "Cmd", "Cache": {"category": "Src", "key": "Src", "value": "Src"},
    "ExtractBetween": {"value": "Src", "start": "Src", "end": "Src"}, "RegexFind": {"value": "Src", "regex": "Rx"}, "Common": "Call"},
 "Mat": dict(same("Mat"), **{"Error": "Text",
    "Contains": {"value": "Src", "where": "Loc=Anywhere"}, "ContainsAny": {"values": "List:Src", "where": "Loc"},
    "ContainsAnyInList": {"where": "Loc", "list": "Src"}, "Is": "Src", "IsOneOf": "Set", "InSet": "Src", "Regex": "Rx", "Glob": "Glob",
    "Modified": {"modification": "Mod", "matcher": "Mat"}, "OnlyTheseChars": "Chars", "AllCharsMatch": "CharM", "AnyCharMatches": "CharM",
    "IsAscii": None, "NthSegmentMatches": {"split": "Src", "n": "Int", "matcher": "Mat"}, "AnySegmentMatches": {"split": "Src", "matcher": "Mat"},
    "LengthIs": "Nat", "SegmentsStartWith": {"split": "Src", "value": "Src"}, "SegmentsEndWith": {"split": "Src", "value": "Src"}, "Common": "Call"}),
 "Loc": dict(same("Loc"), **{"Error": "Text", "Anywhere": None, "Start": None, "End": None, "StartsAt": "Int", "EndsAt": "Int", "After": "Int", "Before": "Int",
    "Equals": None, "Range": {"start": "Int", "end": "OptInt!", "location": "Loc"}, "AnySegment": {"split": "Text", "location": "Loc"},
    "NthSegment": {"split": "Text", "n": "Int", "location": "Loc"}}),
 "CharM": dict(same("CharM"), **{"Error": None, "Equals": "Char", "Between": {"min": "Char", "max": "Char"}, "IsOneOf": "Chars", "IsDigitRadix": "Nat"},
    **{x: None for x in "IsAlphabetic IsAlphanumeric IsAscii IsAsciiAlphabetic IsAsciiAlphanumeric IsAsciiControl IsAsciiDigit IsAsciiGraphic IsAsciiHexdigit IsAsciiLowercase IsAsciiPunctuation IsAsciiUppercase IsAsciiWhitespace IsControl IsDigit IsLowercase IsNumeric IsUppercase IsWhitespace".split()}),
 "Part": dict({x: None for x in "Whole Scheme Username Password Host HostWithoutWWWDotPrefixAndFqdnPeriod NextDomainSegment NextSubdomainSegment NextDomainSuffixSegment Domain Subdomain RegDomain NotDomainSuffix DomainMiddle DomainSuffix FqdnPeriod Port Path NextPathSegment Query Fragment".split()},
    **{x: "Int" for x in "DomainSegment BeforeDomainSegment AfterDomainSegment SubdomainSegment BeforeSubdomainSegment AfterSubdomainSegment DomainSuffixSegment BeforeDomainSuffixSegment AfterDomainSuffixSegment PathSegment BeforePathSegment AfterPathSegment".split()},
    **{"QueryParam": "Selector"}),
 "Json": {"Null": None, "Bool": "Bool", "Number": "Int", "String": "Src", "Array": "List:Json", "Object": "Pairs:Json"},
 "Body": {"Text": "Src", "Form": "Form:Src", "Json": "Json"},
 "Handler": {"Body": None, "Header": "Src", "Url": None, "Cookie": "Src"},
 "Redir": {"Limited": "Nat", "None": None},
 "ProxyAuth": {"Basic": {"username": "Text", "password": "Text"}, "Custom": "Text"},
}
# plain structs
STRUCTS = {
 "Link": {"condition": "Cond", "mapper": "Mapper"},
 "Flag": {"type": "FlagType", "name": "Src"},
 "Var": {"type": "VarType", "name": "Src"},
 "Selector": {"name": "Text", "index": "Nat=0"},
 "B64": {"alphabet": "B64A", "encode_padding": "Bool=T", "decode_padding": "B64P"},
 "Cmd": {"program": "Text", "args": "List:Src=", "current_dir": "OptText", "envs": "Pairs:Src=", "stdin": "Opt:Src"},
 "Req": {"url": "Src=Whole", "method": "Method", "headers": "Pairs:Src=", "body": "Opt:Body", "response_handler": "Handler=Body", "client_config_diff": "Opt:HDiff"},
 "HDiff": {"redirect_policy": "Opt:Redir", "add_default_headers": "Headers", "https_only": "OptBool", "set_proxies": "Opt:List:Proxy", "add_proxies": "List:Proxy=",
           "no_proxy": "OptBool", "referer": "OptBool", "add_extra_certificates": "Set=", "remove_extra_certificates": "Set="},
 "Proxy": {"url": "Text", "mode": "ProxyMode", "auth": "Opt:ProxyAuth"},
}
ENUMS = {"ProxyMode": ["All", "Http", "Https"], "FlagType": ["Params", "Common", "Scratchpad"], "VarType": ["Params", "JobContext", "TaskContext", "Common", "Scratchpad", "Env"],
         "B64A": ["UrlSafe", "Standard"], "B64P": ["Indifferent", "RequireCanonical", "RequireNone"],
         "Enc": ["JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric"], "Method": ["GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"]}
# types that may be written as a bare string standing for the given struct
MODSTR = {"Base64Decode", "Base64Encode", "UrlDecode", "UrlEncode", "None", "Lowercase", "Uppercase", "GetJsStringLiteralPrefix", "UnescapeHtmlText"}
RXFLAGS = ["case_insensitive", "dot_matches_new_line", "multi_line", "crlf", "ignore_whitespace", "octal", "swap_greed"]

def base(t): return t.split("=")[0].rstrip("!")
def default(t):
    """the AST an omitted field stands for, or raise KeyError"""
    b = base(t)
    if t == "Loc=Anywhere": return {"k": "Anywhere"}
    if t == "Src=Whole": return {"k": "Part", "x": {"k": "Whole"}}
    if t == "Handler=Body": return {"k": "Body"}
    if t.endswith("!"): return []      # Option fields without a serde default still accept omission
    if "=" in t:
        d = t.split("=")[1]
        if b in ("Nat", "Int"): return int(d)
        if b == "Bool": return d == "T"
        if b == "Text": return d
        return []
    if b.startswith("Opt") or b in ("Headers", "Filter", "Raw"): return []
    if b in ENUMS: return ENUMS[b][0]
    raise KeyError(t)

def is_enum(t): return t in SCHEMA

# ------------------------------------------------------------- AST -> native
def native(t, a, alt=None):
    """alt: a random.Random choosing among equivalent notations (None: a fixed canonical one)"""
    pick = (lambda n: alt.randrange(n)) if alt else (lambda n: 0)
    t = base(t)
    if t in ("Text", "Bool", "Char", "Int", "Nat", "Set", "Chars", "Raw", "Delay"): return a
    if t in ENUMS: return a
    if t in ("OptText", "OptInt", "OptBool"): return a[0] if a else None
    if t == "Filter": return a[0] if a else None
    if t == "Headers": return dict(map(tuple, a))
    if t == "Rx":
        p = a["parts"]
        return p["pattern"] if len(p) == 1 and not (alt and pick(2)) else p
    if t == "Glob": return a["native"]
    if t.startswith("Opt:"): return nonnull(t[4:], a[0], alt) if a else None
    if t.startswith("List:"): return [native(t[5:], x, alt) for x in a]
    if t == "Rules": return [native("Rule", x, alt) for x in a]
    if t.startswith("Pairs:"): return {k: native(t[6:], v, alt) for k, v in a}
    if t.startswith("Form:"): return {k: native(t[5:], v, alt) for k, v in a}
    if t.startswith("Map:"):
        o = {"map": {k: native(t[4:], v, alt) for k, v in a["map"]}}
        for f in ("if_null", "else"):
            if a[f]: o[f] = nonnull(t[4:], a[f][0], alt)
            elif alt and pick(3) == 2: o[f] = None
        return o
    if t == "Call":
        if not a["args"]["flags"] and not a["args"]["vars"] and a["name"]["k"] == "String" and pick(3) != 1: return a["name"]["x"]
        o = {"name": native("Src", a["name"], alt)}
        args = {}
        if a["args"]["flags"]: args["flags"] = a["args"]["flags"]
        if a["args"]["vars"]: args["vars"] = {k: native("Src", v, alt) for k, v in a["args"]["vars"]}
        if args or pick(3) == 1: o["args"] = args
        return o
    if t in STRUCTS:
        if t in ("Flag", "Var") and a["type"] == "Params" and a["name"]["k"] == "String" and pick(3) != 1: return a["name"]["x"]
        if t == "Selector" and a["index"] == 0 and pick(3) != 1: return a["name"]
        if t == "Cmd" and not a["args"] and not a["envs"] and not a["stdin"] and not a["current_dir"] and pick(2) == 1: return a["program"]
        if t == "Proxy" and a["mode"] == "All" and not a["auth"] and pick(2) == 1: return a["url"]
        return fields(STRUCTS[t], a, alt)
    if t == "Src":
        if a["k"] == "String" and pick(3) != 1: return a["x"]
        if a["k"] == "None": return None if pick(3) != 1 else {"None": None}
    if t == "Json":
        if a["k"] == "String" and a["x"]["k"] == "String" and pick(2): return a["x"]["x"]
        if a["k"] == "Number" and pick(2): return a["x"]
        if a["k"] in ("Null",): return {"Null": None}
    v = a["k"]
    if t == "Rule" and v == "Normal": return fields(SCHEMA[t][v], a, alt)
    spec = SCHEMA[t][v]
    if spec is None:
        if t in ("Mod",) and v not in MODSTR: return {v: None}
        return v if pick(3) != 1 else {v: None}
    if t == "Mod" and v in ("Base64Encode", "Base64Decode") and a["x"] == {"alphabet": "UrlSafe", "encode_padding": True, "decode_padding": "Indifferent"} and pick(2): return v
    if t == "Mod" and v == "UrlEncode" and a["x"] == "JsEncodeUriComponent" and pick(2): return v
    if isinstance(spec, str): return {v: native(spec, a["x"], alt)}
    return {v: fields(spec, a, alt)}

def nonnull(t, a, alt):
    """where null already means that there is nothing"""
    x = native(t, a, alt)
    return {"None": None} if x is None else x

def fields(spec, a, alt):
    o = {}
    for f, t in spec.items():
        if f[0] == "*":                       # flattened
            x = native(t, a[f[1:]], None if base(t) in ("Flag", "Var") else alt)
            if base(t) in ("Flag", "Var"): x = fields(STRUCTS[base(t)], a[f[1:]], alt)
            elif isinstance(x, str): x = {x: None}
            o.update(x)
            continue
        x = a[f]
        try:
            d = default(t)
            if d == x:
                if t.endswith("!"): o[f] = None
                elif alt and alt.randrange(3) == 0 and x != []: o[f] = native(t, x, alt)
                elif alt and alt.randrange(3) == 0 and x == [] and base(t).startswith("Opt"): o[f] = None
                continue
        except KeyError: pass
        o[f] = native(t, x, alt)
    return o

# ------------------------------------------------------------- native -> AST
def compile(t, n):
    b = base(t)
    if b in ("Text", "Bool", "Char", "Int", "Nat", "Chars", "Delay"): return n
    if b == "Set": return sorted(n)
    if b in ENUMS: return n
    if b in ("OptText", "OptInt", "OptBool", "Filter"): return [] if n is None else [n]
    if b == "Raw": return n or []
    if b == "Headers": return [[k, v] for k, v in (n or {}).items()]
    if b == "Rx":
        parts = {"pattern": n} if isinstance(n, str) else n
        return dict(compile_rx(parts), parts=parts)
    if b == "Glob": return glob_ast(n)
    if b.startswith("Opt:"): return [] if n is None else [compile(b[4:], n)]
    if b.startswith("List:"): return [compile(b[5:], x) for x in n]
    if b == "Rules": return [compile("Rule", x) for x in n]
    if b.startswith("Form:"): return form_order([k, compile(b[5:], v)] for k, v in n.items())
    if b.startswith("Pairs:"): return [[k, compile(b[6:], v)] for k, v in n.items()]
    if b.startswith("Map:"):
        o = {"map": [[k, compile(b[4:], v)] for k, v in n["map"].items()]}
        for f in ("if_null", "else"): o[f] = [] if n.get(f) is None else [compile(b[4:], n[f])]
        return o
    if b == "Call":
        if isinstance(n, str): n = {"name": n}
        a = n.get("args", {})
        return {"name": compile("Src", n["name"]), "args": {"flags": a.get("flags", []), "vars": [[k, compile("Src", v)] for k, v in a.get("vars", {}).items()]}}
    if b in STRUCTS:
        if isinstance(n, str): n = {{"Cmd": "program", "Proxy": "url"}.get(b, "name"): n}
        return cfields(STRUCTS[b], n)
    if b == "Src":
        if n is None: return {"k": "None"}
        if isinstance(n, str): return {"k": "String", "x": n}
    if b == "Json" and not isinstance(n, dict):
        if isinstance(n, str): return {"k": "String", "x": {"k": "String", "x": n}}
        return {"k": "Number", "x": n}
    if b == "Rule" and isinstance(n, dict) and "condition" in n and "mapper" in n: return dict(cfields(SCHEMA[b]["Normal"], n), k="Normal")
    if isinstance(n, str): v, p = n, None
    else: (v, p), = n.items()
    spec = SCHEMA[b][v]
    if spec is None: return {"k": v}
    if isinstance(spec, str):
        if p is None and isinstance(n, str): p = {} if spec == "B64" else ENUMS["Enc"][0] if spec == "Enc" else p
        return {"k": v, "x": compile(spec, p)}
    return dict(cfields(spec, p), k=v)

def cfields(spec, n):
    o = {}
    for f, t in spec.items():
        if f[0] == "*":
            rest = {k: v for k, v in n.items() if k not in spec}
            if t.startswith("Map:"): o["map"] = compile(t, rest)
            else: o[f[1:]] = compile(t, rest)
        elif f in n and not (n[f] is None and base(t) != "Src" and not base(t).startswith("Opt") and base(t) != "Filter"): o[f] = compile(t, n[f])
        else: o[f] = default(t)
    return o

def glob_ast(n):
    # the documented meaning of a bare pattern: the defaults of the struct form
    d = {"pattern": n} if isinstance(n, str) else n
    toks = compile_glob(d["pattern"])
    return {"toks": [] if toks is None else [toks], "native": n,
            "opts": {"cs": d.get("case_sensitive", True), "sep": d.get("require_literal_separator", False), "dot": d.get("require_literal_leading_dot", True)}}

# ------------------------------------------------------------- parameters, commons
def smap(m):       # Map<String>
    return {"map": [[k, v] for k, v in m["map"].items()], "if_null": [] if m.get("if_null") is None else [m["if_null"]],
            "else": [] if m.get("else") is None else [m["else"]]}
def params_ast(p):
    return {"flags": list(p.get("flags", [])), "vars": list(map(list, p.get("vars", {}).items())),
            "sets": [[k, list(v)] for k, v in p.get("sets", {}).items()], "lists": [[k, list(v)] for k, v in p.get("lists", {}).items()],
            "maps": [[k, smap(v)] for k, v in p.get("maps", {}).items()],
            "np": [[k, [[n, list(e)] for n, e in v.items()]] for k, v in p.get("named_partitionings", {}).items()],
            "read_cache": p.get("read_cache", True), "write_cache": p.get("write_cache", True)}
def form_order(ps):
    """the fields of a form come in no particular order: put them in the one the harness sorts to"""
    return sorted(ps, key=lambda x: urllib.parse.quote_plus(x[0], safe="*-._").replace("~", "%7E") + "=")
def http_ast(h):
    r = h.get("redirect_policy", {"Limited": 10})
    return {"redir": -1 if r == "None" else r["Limited"], "https_only": h.get("https_only", False), "no_proxy": h.get("no_proxy", False),
            "referer": h.get("referer", False), "proxies": compile("List:Proxy", h.get("proxies", [])), "certs": sorted(h.get("extra_certificates", [])), "headers": [[k.lower(), v] for k, v in h.get("default_headers", {}).items()]}
def client_ast(h):
    """the client's settings as the harness completes them: without proxies, its own"""
    a = http_ast(h)
    if not a["proxies"]: a["proxies"] = [{"url": "http://127.0.0.1:50001", "mode": "All", "auth": []}]
    return a
def diff_ast(d):
    h = d.get("http_client_config_diff")
    return {"flags": d.get("flags", []), "unflags": d.get("unflags", []), "vars": list(map(list, d.get("vars", {}).items())), "unvars": d.get("unvars", []),
            "init_sets": d.get("init_sets", []), "ins": list(map(list, d.get("insert_into_sets", {}).items())), "rem": list(map(list, d.get("remove_from_sets", {}).items())), "del": d.get("delete_sets", []),
            "init_maps": d.get("init_maps", []), "mapdiffs": [[k, {"ins": list(map(list, m.get("insert_into_map", {}).items())), "rem": m.get("remove_from_map", [])}] for k, m in d.get("map_diffs", {}).items()],
            "delmaps": d.get("delete_maps", []), "rc": [d["read_cache"]] if d.get("read_cache") is not None else [], "wc": [d["write_cache"]] if d.get("write_cache") is not None else [],
            "http": [] if h is None else [compile("HDiff", h)]}
COMMONS = {"rules": "Rule", "conditions": "Cond", "mappers": "Mapper", "string_sources": "Src", "string_modifications": "Mod", "string_matchers": "Mat"}
def commons_ast(c): return {f: [[k, compile(t, v)] for k, v in c.get(f, {}).items()] for f, t in COMMONS.items()}
def commons_native(c, alt=None): return {f: {k: native(t, v, alt) for k, v in c.get(f, [])} for f, t in COMMONS.items() if c.get(f)}

ROOT = {"mapper": "Mapper", "rule": "Rule", "rules": "Rules", "cond": "Cond", "src": "Src", "mod": "Mod", "mat": "Mat", "loc": "Loc", "charm": "CharM", "pget": "Part", "pset": "Part"}
