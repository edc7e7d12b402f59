"""Random task states and configuration terms, typed by the schema.

Values are drawn from small pools tied to the URL at hand, so that comparisons succeed about as
often as they fail."""
import random
from urllib.parse import urlsplit, parse_qsl
from . import schema as S
from .rx import compile_rx

HOSTS = ["example.com", "www.example.com", "www.example.co.uk", "sub.www.example.co.jp.", "example.com.", "com", "co.uk", "localhost", "127.0.0.1",
         "[::1]", "a.b.c.example.org", "example.github.io", "x.test", "www.com", "example.com..", "1.2.3.4"]
URLS = ["https://example.com/", "http://www.example.com/a/b?x=1&y=2#f", "https://sub.www.example.co.uk./a//b/?x=1&x=2&y&=z#", "https://user:pw@example.com:8080/p?",
        "https://example.com", "http://127.0.0.1/a/", "http://[::1]:81/?a=b", "mailto:user@example.com", "data:text/plain,x?q", "file:///a/b", "foo://host.x/a?b=c#d",
        "foo:/a/b", "https://co.uk/a", "https://localhost/a%20b/c?utm_source=x&q=a%26b+c&utm_medium=", "ws://example.org/c/d/e/", "https://example.com//b//",
        "https://a.b.c.example.org/?%61=1&a=2&A=3&a", "http://example.com./.?x", "https://www.example.co.jp/%E6%97%A5?j=%E6%97%A5", "foo://example.com./z", "https://com/",
        "https://example.github.io/x;y=1,2/z", "http://www.com./"]
SCHEMES = ["http", "https", "ws", "ftp", "foo", "file", "mailto", ""]
PATHS = ["/", "", "/a", "a", "/a/b", "//b", "/a/", "/a//b", "/./b", "a/../b", "/%2e%2e/c", "/é", "/a b", "..", "/a?b", "\\x"]
QUERIES = ["", "x=1", "x=1&y=2", "x", "=", "&", "x=1&&y", "x=%26&x=+", "a=b=c", "é=ü", "x#y", "?", "utm_source=1&x=2", "x=1&x=2&x=3"]
PORTS = ["80", "443", "0", "65535", "65536", "8080", "", "x", "00080", "+1", "-1", " 1"]
LABELS = ["a", "www", "sub", "foo", "example", "com", "co.uk", "a.b", "", ".", "..", "A", "x y", "test", "b.", ".c", "127.0.0.1", "[::1]", "é"]
TEXTS = ["", "a", "b", "ab", "abc", "abcabc", "a.b.c", "a/b//c", ".", "/", "&", "=", "x=1&y=2", " a ", "é", "aéb", "日本", "😀x", "a%20b", "%41", "%", "%zz", "%ff", "YQ==", "YWI",
         "YWJj-_", "A", "aBc", "\"x\"", "'it'", "http://www.example.com/a?x=1", "not a url", "{\"a\":\"x\",\"b\":[1,\"y\"]}", "[\"p\"]", "null", "<a href=\"u\" x=1>", "&amp;&lt;", "&#65;",
         "\\u0041'", "1", "10", "-1", "aaa", "a\nb", "0", "www.", "a+b"]
SPLITS = [".", "/", "&", "", "a", "=", "//", "é", ","]
RXS = ["a", "^a", "b$", "a|b", "(a)(b)?", "[a-c]+", "x*", "(?P<n>\\d+)", "\\d", "^$", "\\.", "(", "a{2,3}", "(a|ab)(c|bcd)?", "\\bb", "[^/]+", ".", "a.c", "^.*?(\\w)$", "www\\.(.*)"]
RXREP = ["", "x", "$0", "${1}x", "$1", "[$2]", "$n", "${n}!", "$$", "$", "$9"]
GLOBS = ["*", "a*", "*.example.com", "?", "[ab]*", "[!a]*", "a?c", "", "*a*", "/*", "[a-c]", "www.*.*", ".*"]
JPTRS = ["", "/a", "/b/0", "/b/1", "/c", "a", "/b/2", "/0", "/b/01", "/~1"]
NAMES = ["n1", "n2", "zz"]
PNAMES = ["x", "y", "a", "utm_source", "q", "", "A", "z", "j"]

class Gen:
    """bias: {type: {variant: weight}}; bias 0 removes a variant"""
    def __init__(self, rng, bias=None, size=3):
        self.r, self.bias, self.size = rng, bias or {}, size
        self.pool, self.net = list(TEXTS), []
        self.alt = None
    def one(self, xs): return xs[self.r.randrange(len(xs))]
    def chance(self, p): return self.r.random() < p
    def use_url(self, url):
        u = urlsplit(url)
        mine = [url, u.scheme, u.netloc, u.hostname or "", u.path, u.query, u.fragment] + u.path.split("/") + u.query.split("&") + (u.hostname or "").split(".")
        try: mine += [x for kv in parse_qsl(u.query, True) for x in kv]
        except ValueError: pass
        self.mine = [x for x in mine if not any(0xd800 <= ord(c) < 0xe000 or c == "\ufffd" for c in x)]
    def text(self):
        k = self.r.random()
        if k < .45: return self.one(self.mine)
        if k < .55: return self.cut(self.one(self.mine))
        if k < .95: return self.one(self.pool)
        return self.one(self.mine) + self.one(self.pool)
    def cut(self, s):
        if not s: return s
        a = self.r.randrange(len(s) + 1); b = self.r.randrange(a, len(s) + 1)
        return s[a:b]
    def int(self): return self.r.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, -3, 4, 7, -8])

    def variants(self, t, d):
        b = self.bias.get(t, {})
        out = []
        for v, spec in S.SCHEMA[t].items():
            w = b.get(v, b.get("*", 1))
            if d <= 0 and self.recursive(t, v, spec): w = 0
            if w: out.append((v, w))
        if not out: out = [(v, 1) for v, spec in S.SCHEMA[t].items() if not self.recursive(t, v, spec) and b.get(v, 1)]
        return out
    def recursive(self, t, v, spec):
        if t in ("Src", "Part") and v in ("String", "Part", "Var", "None", "Error", "QueryParam") or t == "Rule" and v in ("Mapper", "Normal"): return False
        fs = [spec] if isinstance(spec, str) else list((spec or {}).values())
        return any(S.base(f).split(":")[-1] in ("Rule", "Rules", "Mapper", "Cond", "Mod", "Mat", "Loc", "CharM", "Call", "Link", "Req", "Cmd", "Json") or
                   (t == "Src" and S.base(f).split(":")[-1] in ("Src", "Flag", "Var")) for f in fs)

    def gen(self, t, d=None, hint=None):
        d = self.size if d is None else d
        b = S.base(t)
        if b == "Text": return self.hinted(hint) if hint else self.text()
        if b == "OptText": return [] if self.chance(.2) else [self.hinted(hint) if hint else self.text()]
        if b == "Int": return self.int()
        if b == "Nat": return self.r.choice([0, 1, 1, 2, 3]) if hint != "radix" else self.r.choice([2, 8, 10, 16, 36, 0, 1, 37])
        if b == "OptInt": return [] if self.chance(.35) else [self.int()]
        if b == "Bool": return self.chance(.6)
        if b == "OptBool": return [] if self.chance(.5) else [self.chance(.5)]
        if b == "Char": return self.one("aAzZ09._-éß日 \n/&=")
        if b == "Chars": return sorted({self.gen("Char") for _ in range(self.r.randrange(4))} | ({"a", "b", "c"} if self.chance(.4) else set()))
        if b == "Set": return sorted({self.hinted(hint) if hint else self.text() for _ in range(self.r.randrange(4))})
        if b == "Raw": return []
        if b == "HDiff": return {f: [] if "Proxy" in t or "Set" in t else self.gen(t, d) for f, t in S.STRUCTS[b].items()}
        if b == "Delay": return 0.0
        if b == "Filter": return [] if self.chance(.5) else [sorted(self.r.sample(FILTERS, self.r.randrange(3)))]
        if b == "Headers": return [] if self.chance(.6) else [["x-h" + str(k), self.one(["1", "two"])] for k in range(self.r.randrange(1, 3))]
        if b == "Rx":
            p = {"pattern": self.one(RXS)}
            for f in ("case_insensitive", "multi_line", "dot_matches_new_line", "crlf", "swap_greed", "octal", "ignore_whitespace"):
                if self.chance(.06): p[f] = True
            return dict(compile_rx(p), parts=p)
        if b == "Glob":
            g = self.one(GLOBS)
            if self.chance(.4): return S.glob_ast(g)
            n = {"pattern": g}
            for f in ("case_sensitive", "require_literal_separator", "require_literal_leading_dot"):
                if self.chance(.5): n[f] = self.chance(.5)
            return S.glob_ast(n)
        if b in S.ENUMS: return self.one(S.ENUMS[b])
        if b.startswith("Opt:"): return [] if self.chance(.4) else [self.gen(b[4:], d, hint)]
        if b.startswith("List:"): return [self.gen(b[5:], d - 1, hint) for _ in range(self.r.choice([0, 1, 2, 2, 3]))]
        if b == "Rules": return [self.gen("Rule", d - 1) for _ in range(self.r.choice([0, 1, 2, 2, 3]))]
        if b.startswith("Pairs:"): return [[k, self.gen(b[6:], d - 1)] for k in self.r.sample(["k1", "k2", "x-k3"], self.r.choice([0, 1, 1]))]
        if b.startswith("Form:"): return S.form_order([k, self.gen(b[5:], d - 1)] for k in self.r.sample(["k1", "k2", "a b", "é", ""], self.r.choice([0, 1, 2, 2])))
        if b.startswith("Map:"):
            ks = {self.hinted(hint) if hint else self.text() for _ in range(self.r.choice([0, 1, 2, 3]))}
            return {"map": [[k, self.gen(b[4:], d - 1)] for k in sorted(ks)], "if_null": [self.gen(b[4:], d - 1)] if self.chance(.4) else [],
                    "else": [self.gen(b[4:], d - 1)] if self.chance(.4) else []}
        if b == "Call":
            return {"name": self.name(d), "args": {"flags": self.r.sample(NAMES, self.r.randrange(3)),
                    "vars": [[k, self.gen("Src", min(d - 1, 1))] for k in self.r.sample(NAMES, self.r.choice([0, 0, 1, 1, 2]))]}}
        if b == "Flag": return {"type": self.r.choices(S.ENUMS["FlagType"], [2, 2, 3])[0], "name": self.name(d)}
        if b == "Var": return {"type": self.one(S.ENUMS["VarType"]), "name": self.name(d)}
        if b == "Selector": return {"name": self.hinted("pname"), "index": self.r.choice([0, 0, 0, 1, 2])}
        if b == "Cmd": return self.cmd(d)
        if b == "Req": return self.req(d)
        if b in S.STRUCTS: return {f: self.gen(ft, d - 1) for f, ft in S.STRUCTS[b].items()}
        vs = self.variants(b, d)
        if b == "Src" and hint and self.chance(.7): return {"k": "String", "x": self.hinted(hint)}
        if b == "Src" and "*" not in self.bias.get("Src", {}) and self.chance(.45): return {"k": "String", "x": self.hinted(hint) if hint else self.text()}
        v = self.r.choices([x for x, _ in vs], [w for _, w in vs])[0]
        spec = S.SCHEMA[b][v]
        if spec is None: return {"k": v}
        h = HINTS.get((b, v))
        if isinstance(spec, str): return {"k": v, "x": self.gen(spec, d - 1, h)}
        o = {"k": v}
        for f, ft in spec.items(): o[f.lstrip("*")] = self.gen(ft, d - 1, HINTS.get((b, v, f.lstrip("*"))))
        for f in ("map",):
            # maps over a part or string: keys that can match
            if f in o and "part" in o and isinstance(o["part"], dict): o["map"]["map"] = self.keyed(o["part"], o["map"]["map"])
        if b == "Mapper" and v == "SetPart" or b == "Cond" and v == "PartIs":
            if self.chance(.8): o["value"] = self.part_value(o["part"])
        if b == "Mapper" and v == "SetHost": o["x"] = [] if self.chance(.15) else [self.hinted("host")]
        return o
    def keyed(self, part, items):
        out = {}
        for k, v in items:
            x = self.part_value(part)
            out[x["x"] if x["k"] == "String" else k] = v
        return [[k, out[k]] for k in sorted(out)]
    def name(self, d): return {"k": "String", "x": self.one(NAMES)} if self.chance(.9) else self.gen("Src", min(d - 1, 1))
    def hinted(self, h):
        if h == "name": return self.one(NAMES)
        if self.chance(.35): return self.one(self.mine)
        return self.one({"host": HOSTS, "pname": PNAMES, "path": PATHS, "split": SPLITS, "rep": RXREP, "jptr": JPTRS, "label": LABELS, "url": URLS, "attr": ["href", "x", "y", ""]}[h])
    def value_for(self, part):
        k = part["k"]
        pools = {"Whole": URLS + ["x", ""], "Scheme": SCHEMES, "Username": ["u", "", "a b", "ü", "a:b"], "Password": ["p", "", "a@b"], "Host": HOSTS + LABELS,
                 "HostWithoutWWWDotPrefixAndFqdnPeriod": HOSTS, "Port": PORTS, "Path": PATHS, "Query": QUERIES, "Fragment": ["", "f", "a b", "é", "x=1&y=2", "#"],
                 "FqdnPeriod": [".", "", "x"], "QueryParam": ["", "1", "a b", "&=", "é", "+", "%41"]}
        if k in pools: return self.one(pools[k])
        if "Path" in k: return self.one(["a", "b", "", "x/y", "..", ".", "a b", "é", "%2f", "?", "new"])
        return self.one(LABELS)
    def part_value(self, part):
        if self.chance(.12): return {"k": "None"}
        return {"k": "String", "x": self.one(self.mine) if self.chance(.25) else self.value_for(part)}
    def cmd(self, d, program=None):
        k = self.r.choice([0, 1, 2, 3, 3, 3, 3]) if program is None else 3
        if k == 3:
            arg = lambda: self.gen("Src", 1) if self.chance(.4) else {"k": "String", "x": self.one(["i", "d", "e:UCV_A", "e:UCV_N1", "e:UCV_N2", "e:UCV_EMPTY", "e:UCV_BAD", "o:text", "s:noise", "x:0", "x:2", "k", "b", "", "-h", "*", "$UCV_A", "a b"])}
            return {"program": "/ucv/probe", "args": [arg() for _ in range(self.r.choice([0, 1, 2, 2, 3, 5]))], "current_dir": [self.one(["/", "/usr", "/usr/bin", "/nonexistent"])] if self.chance(.4) else [],
                    "envs": [[n, self.gen("Src", 1)] for n in ("UCV_N1", "UCV_N2", "UCV_A") if self.chance(.25)], "stdin": [self.gen("Src", 1)] if self.chance(.5) else []}
        if k == 0: return {"program": "printf", "args": [{"k": "String", "x": "%s|"}] + [self.gen("Src", 1) for _ in range(self.r.randrange(3))], "current_dir": [], "envs": [], "stdin": []}
        if k == 1: return {"program": "cat", "args": [], "current_dir": [], "envs": [], "stdin": [self.gen("Src", 1)]}
        return {"program": "/nonexistent/program", "args": [], "current_dir": [], "envs": [], "stdin": []}
    def req(self, d):
        m = self.r.choices(S.ENUMS["Method"], [4, 3, 1, 1, 1, 1])[0]
        return {"url": {"k": "Part", "x": {"k": "Whole"}} if self.chance(.4) else {"k": "String", "x": self.one(self.net or URLS)}, "method": m,
                "headers": [] if self.chance(.5) else [["X-K", self.gen("Src", 1)]], "body": [] if m in ("GET", "HEAD") or self.chance(.3) else [self.gen("Body", 2)],
                "response_handler": self.gen("Handler", 2), "client_config_diff": [] if self.chance(.7) else [self.gen("HDiff", 2)]}

FILTERS = ["ExplicitError", "PartIsNone", "StringSourceError", "StringSourceIsNone", "StringLocationError", "StringMatcherError", "GetFlagError", "GetVarError", "CommonConditionNotFound"]
HINTS = {
 ("Cond", "HostIs"): "host", ("Cond", "HostIsOneOf"): "host", ("Cond", "DomainIs"): "host", ("Cond", "RegDomainIs"): "host", ("Cond", "SubdomainIs"): "label",
 ("Cond", "DomainMiddleIs"): "label", ("Cond", "NotDomainSuffixIs"): "label", ("Cond", "DomainSuffixIs"): "label", ("Cond", "QueryHasParam"): "pname", ("Cond", "PathIs"): "path",
 ("Mapper", "RemoveQueryParam"): "pname", ("Mapper", "RemoveQueryParams"): "pname", ("Mapper", "AllowQueryParams"): "pname", ("Mapper", "GetUrlFromQueryParam"): "pname",
 ("Mapper", "Join"): "path", ("Mapper", "SetScratchpadFlag", "name"): "name", ("Mapper", "SetScratchpadVar", "name"): "name", ("Mapper", "ModifyScratchpadVar", "name"): "name",
 ("Mapper", "CacheUrl", "category"): "name", ("Src", "Cache", "category"): "name", ("Src", "Cache", "key"): "name", ("Src", "ParamsMap", "name"): "name", ("Src", "ParamsNamedPartitioning", "name"): "name",
 ("Mat", "ContainsAnyInList", "list"): "name", ("Mat", "InSet"): "name", ("Mod", "JsonPointer"): "jptr", ("Mod", "GetHtmlAttribute"): "attr", ("CharM", "IsDigitRadix"): "radix",
 **{("Mod", v, "split"): "split" for v in ("KeepNthSegment", "KeepSegmentRange", "SetSegment", "InsertSegment")},
 **{("Mat", v, "split"): "split" for v in ("NthSegmentMatches", "AnySegmentMatches", "SegmentsStartWith", "SegmentsEndWith")},
 **{("Loc", v, "split"): "split" for v in ("AnySegment", "NthSegment")},
 **{("Mod", v, "replace"): "rep" for v in ("RegexCaptures", "JoinAllRegexCaptures", "RegexReplace", "RegexReplaceAll", "RegexReplacen")},
}
# nothing that reaches outside the task
CLOSED = {"Mapper": {"ExpandRedirect": 0, "CacheUrl": 0, "Debug": 0}, "Src": {"HttpRequest": 0, "CommandOutput": 0, "Cache": 0, "Debug": 0}, "Cond": {"Debug": 0}, "Mod": {"Debug": 0},
          "Mat": {"Debug": 0}, "Loc": {"Debug": 0}, "CharM": {"Debug": 0}}
def bias(*bs):
    out = {}
    for b in bs:
        for t, m in b.items(): out.setdefault(t, {}).update(m)
    return out
def only(t, *vs): return {t: {"*": 0, **{v: 1 for v in vs}}}

def params(g):
    """parameters over the small name pools"""
    r = g.r
    al = lambda f: {k: f() for k in NAMES[:2] if g.chance(.75)}
    strs = lambda: sorted({g.text() for _ in range(r.randrange(4))})
    def smap():
        m = {"map": {g.text(): g.text() for _ in range(r.randrange(3))}}
        if g.chance(.4): m["if_null"] = g.text()
        if g.chance(.3): m["else"] = g.text()
        return m
    def npart():
        xs = sorted({g.text() for _ in range(4)}); r.shuffle(xs)
        out = {"p" + str(k): [] for k in range(3)}
        for x in xs: out["p" + str(r.randrange(3))].append(x)
        return out
    return {"flags": [n for n in NAMES if g.chance(.5)], "vars": al(g.text), "sets": al(strs), "lists": al(strs), "maps": al(smap), "named_partitionings": al(npart)}
def commons(g, d=2, ast=False):
    """commons may call one another only downwards, so that calls end"""
    c = {}
    for f, t in S.COMMONS.items():
        c[f] = []
        for n in NAMES[:2]:
            if g.chance(.8):
                h = type(g)(g.r, bias(g.bias, {x: {"Common": 0} for x in ("Rule", "Cond", "Mapper", "Src", "Mod", "Mat")}), d); h.mine, h.pool, h.net = g.mine, g.pool, g.net
                c[f].append([n, h.gen(t)])
    return c if ast else S.commons_native(c)
def state(g, url):
    r = g.r
    return {"url": url, "flags": [n for n in NAMES if g.chance(.4)], "vars": {n: g.text() for n in NAMES if g.chance(.5)},
            "ctx": {n: g.text() for n in NAMES if g.chance(.5)}, "jctx": {n: g.text() for n in NAMES if g.chance(.5)},
            "ca": None if g.chance(.5) else {"flags": [n for n in NAMES if g.chance(.4)], "vars": {n: g.text() for n in NAMES if g.chance(.5)}}, "facts": True}

QPIECES = ["x=1", "x=2", "x", "x=", "y=2", "a=b=c", "%61=1", "a=1", "A=3", "", "=", "=v", "utm_source=x", "utm_medium=", "q=a%26b+c", "j=%E6%97%A5", "z=%FF", "n=a+b", "n=%20", "p=&", "%=1", "a%3Db=1", "é=ü"]
def rand_query(r): return "&".join(r.choice(QPIECES) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 6])))
def rand_url(r):
    """URLs composed part by part"""
    k = r.random()
    if k < .3: return r.choice(URLS)
    s = r.choice(["https", "https", "https", "http", "http", "ws", "ftp", "foo"])
    ui = r.choice(["", "", "", "", "user@", "user:pw@", ":pw@", "a%20b:c@"])
    h = r.choice([h for h in HOSTS if s != "foo" or not h.endswith("..")])
    po = r.choice(["", "", "", ":80", ":443", ":8080", ":0"])
    pa = r.choice(["", "/", "/a", "/a/b", "/a/b/", "//a", "/a//b", "/a%20b/c", "/%E6%97%A5", "/x;y=1,2/z", "/a/../b", "/é/b", "/.hidden", "/a.b.c", "///", "/index.html"])
    q = r.choice(["", "", "?"]) if r.random() < .45 else "?" + rand_query(r)
    f = r.choice(["", "", "", "#", "#f", "#x=1&y=2", "#é"])
    return s + "://" + ui + h + po + pa + q + f
