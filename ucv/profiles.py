"""What each property's random histories are made of."""
from . import gen, schema as S
from .gen import bias, only, CLOSED

# small leaf vocabularies, so that a check about one thing does not depend on the details of another
MODS = only("Mod", "None", "Error", "Set", "Append", "Prepend", "IgnoreError", "RevertOnError", "TryElse", "All")
MATS = only("Mat", "Always", "Never", "Error", "Is", "IsOneOf", "Not", "TreatErrorAsPass")
PARTS = only("Part", "Whole", "Scheme", "Host", "Port", "Path", "Query", "Fragment", "Username")
SRCS = only("Src", "String", "None", "Error", "Part", "Var", "NoneToEmptyString")
CONDS = only("Cond", "Always", "Never", "Error", "Not", "All", "Any", "PathIs", "FlagIsSet", "VarIs", "PartIs", "StringIs", "HostIs")
LOCS = only("Loc", "Anywhere", "Start", "End", "Equals", "Always", "Never")
FLOW = {"Mapper": {"RemoveQueryParamsMatching": 0, "AllowQueryParamsMatching": 0, "Join": 0, "RemoveQueryParam": 0, "RemoveQueryParams": 0, "AllowQueryParams": 0, "GetUrlFromQueryParam": 0, "SetHost": 0,
                   "RemoveQuery": .3, "SetPart": 3, "ModifyPart": 1.5, "SetScratchpadFlag": 2, "SetScratchpadVar": 2}}
QUERY_MAPPERS = ("RemoveQuery", "RemoveQueryParam", "RemoveQueryParams", "AllowQueryParams", "RemoveQueryParamsMatching", "AllowQueryParamsMatching", "SetPart", "ModifyPart", "CopyPart", "MovePart", "GetUrlFromQueryParam")
SEG_PARTS = [p for p in S.SCHEMA["Part"] if "Segment" in p]
HOST_PARTS = [p for p in S.SCHEMA["Part"] if any(x in p for x in ("Domain", "Host", "Fqdn", "Whole", "Scheme"))]

PROFILES = {
 "C04": [dict(kinds={"mapper": 3, "rule": 1, "rules": 1}, size=4, steps=3, n=1500,
              bias=bias(CLOSED, MODS, MATS, PARTS, SRCS, CONDS, FLOW, {"Mapper": {"Error": 2, "IgnoreError": 4, "RevertOnError": 5, "TryElse": 4, "FirstNotError": 4, "All": 5, "MovePart": 3, "CopyPart": 2, "Retry": 1}})),
         dict(kinds={"mapper": 4, "rule": 1, "rules": 1, "mod": 1, "cond": 1, "src": 1, "mat": 1}, size=4, steps=2, n=2500, bias=bias(CLOSED), crash=True),
         dict(kinds={"pset": 1}, size=1, steps=4, n=600, bias=CLOSED, failing=True)],
 "C05": [dict(kinds={"rule": 2, "rules": 2, "mapper": 3}, size=4, steps=2, n=2500, bias=bias(CLOSED, MODS, MATS, PARTS, SRCS, CONDS, FLOW, {"Rule": {"Repeat": 3}, "Mapper": {"ConditionChain": 3, "Retry": 2, "Common": 2}}))],
 "C06": [dict(kinds={"cond": 1}, size=3, steps=3, n=3000, bias=bias(CLOSED, MODS, MATS, only("Src", "String", "None", "Error", "Part", "Var", "NoneToEmptyString"), {"Loc": {"Debug": 0}}, LOCS))],
 "C09": [dict(kinds={"pset": 6, "pget": 1}, size=1, steps=6, n=900, bias=bias(CLOSED, only("Part", *HOST_PARTS), {"Part": {"Whole": .3, "Scheme": .4}})),
         dict(kinds={"mapper": 1}, size=2, steps=4, n=500, bias=bias(CLOSED, MODS, SRCS, only("Part", *HOST_PARTS), only("Mapper", "SetHost", "SetPart", "CopyPart", "MovePart", "Join", "RevertOnError", "ModifyPart", "IgnoreError")))],
 "C10": [dict(kinds={"pset": 4, "pget": 2}, size=1, steps=4, n=2000, bias=CLOSED)],
 "C11": [dict(kinds={"pset": 3, "pget": 2}, size=1, steps=4, n=900, bias=bias(CLOSED, only("Part", *SEG_PARTS))),
         dict(kinds={"mod": 1}, size=1, steps=3, n=1200, bias=bias(CLOSED, only("Mod", "KeepNthSegment", "KeepSegmentRange", "SetSegment", "InsertSegment"), only("Src", "String", "None"))),
         dict(kinds={"mat": 1, "loc": 1}, size=2, steps=3, n=700, bias=bias(CLOSED, only("Mat", "NthSegmentMatches", "AnySegmentMatches", "SegmentsStartWith", "SegmentsEndWith", "Is"), only("Loc", "AnySegment", "NthSegment", "Start", "End", "Equals", "Anywhere"), only("Src", "String", "None")))],
 "C12": [dict(kinds={"mapper": 4, "pset": 2, "pget": 1, "cond": 1}, size=2, steps=3, n=2200, query=True,
              bias=bias(CLOSED, MODS, only("Mat", "Is", "IsOneOf", "Not", "Always", "Never", "Error", "Contains"), LOCS, only("Src", "String", "Part", "None"), only("Mapper", *QUERY_MAPPERS), only("Part", "QueryParam", "Query"), only("Cond", "QueryHasParam", "PartIs"), {"Part": {"QueryParam": 4}})),
         dict(kinds={"mod": 1}, size=2, steps=3, n=500, query=True, bias=bias(CLOSED, only("Mod", "RemoveQueryParamsMatching", "AllowQueryParamsMatching"), only("Mat", "Is", "IsOneOf", "Not", "Always", "Never", "Error"), only("Src", "String")))],
 "C14": [dict(kinds={"mod": 1}, size=3, steps=3, n=3000, bias=bias(CLOSED, CONDS, MATS, only("Src", "String", "None", "Error", "Part", "Var"), {"Mod": {"GetHtmlAttribute": 0, "UnescapeHtmlText": 0, "GetJsStringLiteralPrefix": 0}}))],
 "C15": [dict(kinds={"src": 1}, size=3, steps=3, n=3000, bias=bias(CLOSED, MODS, MATS, {"Src": {"ParamsMap": 2, "ParamsNamedPartitioning": 2, "Map": 2, "Var": 2}}))],
 "C16": [dict(kinds={"mat": 3, "loc": 2, "charm": 1}, size=3, steps=4, n=3000, bias=bias(CLOSED, MODS, only("Src", "String", "None", "Error", "Part", "Var")))],
 "C19": [dict(kinds={"mod": 1}, size=2, steps=4, n=1500, html=True, bias=bias(CLOSED, only("Src", "String"), only("Mod", "GetHtmlAttribute", "UnescapeHtmlText", "GetJsStringLiteralPrefix")))],
}

def cases(prof, rng, n):
    """-> (cases, configs): each configuration is shared by a few cases"""
    configs, out = [], []
    per = 25
    kinds, weights = zip(*prof["kinds"].items())
    for k in range((n + per - 1) // per):
        g = gen.Gen(rng, prof["bias"], prof["size"]); g.use_url(gen.rand_url(rng))
        configs.append({"params": gen.params(g), "commons": gen.commons(g, min(2, prof["size"])), "rules": []})
    for i in range(n):
        u = gen.rand_url(rng)
        if prof.get("query") and "?" not in u and rng.random() < .8: u = u.split("#")[0] + "?" + gen.rand_query(rng)
        g = gen.Gen(rng, prof["bias"], prof["size"]); g.use_url(u)
        c = gen.state(g, u)
        c.update(cfg=i // per, steps=[])
        for _ in range(prof["steps"]):
            k = rng.choices(kinds, weights)[0]
            s = {"kind": k, "node": g.gen(S.ROOT[k])}
            if k in ("mat", "mod", "loc"): s["s"], s["d"] = g.text(), g.text()
            if prof.get("query") and k == "mod": s["s"] = gen.rand_query(rng)
            if prof.get("html") and k == "mod": s["s"] = markup(rng, g, s["node"])
            if k == "charm": s["s"] = g.gen("Char")
            if k == "pset":
                v = g.part_value(s["node"]); s["to"] = None if v["k"] == "None" else v["x"]
            c["steps"].append(s)
        out.append(c)
    return out, configs

# ------------------------------------------------------------- markup texts
def markup(r, g, node):
    k = node["k"]
    ws = lambda: r.choice(["", " ", " ", "\n", "\t ", "  "])
    ent = lambda: r.choice(["&amp;", "&lt;", "&quot;", "&#65;", "&#x41;", "&#X4a;", "&#128512;", "&eacute;", "&NotEqualTilde;", "&notin;", "&;", "&amp", "&", "&#;", "&#x;", "&#xD800;", "&#1114112;", "&#99999999999;", "&nosuch;", "&AMP;", "&Amp;"])
    word = lambda: r.choice(["", "a", "b c", "é", "日本", "x=1", "/p?q=1&amp;r", "u", "'", "😀"])
    if k == "UnescapeHtmlText": return "".join(r.choice([ent, word])() for _ in range(r.randrange(5)))
    if k == "GetJsStringLiteralPrefix":
        q = r.choice("\"'")
        esc = lambda: "\\" + r.choice(["n", "r", "t", "b", "f", "v", "0", "'", "\"", "\\", "x41", "x8f", "xZ1", "x4", "u0041", "u00e9", "ud83d\\ude00", "ud83d", "ude00", "u{41}", "u{1F600}", "u{110000}", "u{}", "u{0041",
                                       "101", "7", "08", "47", "400", "377", "\n", "\r\n", "\r", "\u2028", "a", "g", "é", "/"])
        return q + "".join(r.choice([esc, word])() for _ in range(r.randrange(5))) + r.choice([q, q, q, q + "x", "", "\\"]) if r.random() < .93 else word()
    name = node["x"]["x"] if node.get("x", {}).get("k") == "String" else "x"
    def attr():
        n = r.choice([name, name, "href", "x", "é", "data-x", name.upper(), "a\"b", "b"])
        v = word() + r.choice(["", ent()])
        return n + r.choice(["", "", " "]) + r.choice(["", "=" + ws() + "\"%s\"" % v.replace('"', ""), "=" + ws() + "'%s'" % v.replace("'", ""), "=" + v.replace(" ", "").replace("'", ""), "="])
    t = "<" + r.choice(["a", "A", "div", "h1", "é", "1", "?", "aé", ""]) + "".join(r.choice([" ", " ", " ", "\n", "", "/"]) + attr() for _ in range(r.randrange(4))) + ws() + r.choice([">", ">", ">", ">", "/>", "", "/ >", "x>", "> y='z'>"])
    return t
