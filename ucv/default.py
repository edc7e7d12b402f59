"""C17: the default configuration, against Clean (spec/MC_Default.tla) on URLs no site rule claims, and against Interp on all others."""
import json, os, random, re
from . import cli, models, run, schema as S
from .run import log

PATH = os.path.join(run.REPO if hasattr(run, "REPO") else "/repo", "default-config.json")
FLAGS = [[], ["no-https-upgrade"], ["keep-lang"], ["unmobile"], ["tor2web2tor"], ["no-https-upgrade", "keep-lang", "unmobile", "tor2web2tor"]]
def load():
    with open(PATH) as f: return json.load(f)
def documented(c): return sorted(c.get("docs", {}).get("flags", {}))
def lists(c):
    p = c["params"]; s = p.get("sets", {}); m = p.get("maps", {}).get("hwwwwdpafqdnp_lang_query_params", {})
    g = lambda n: sorted(s.get(n, []))
    return {"utps": g("utps"), "prefixes": p.get("lists", {}).get("utp-prefixes", []), "notracking": g("utps-reg-domain-whitelist"), "nohttps": g("https-upgrade-host-blacklist"),
            "nowww": g("remove-www-subdomain-reg-domain-blacklist"), "nomobile": g("unmobile-reg-domain-blacklist"),
            "lang": {"map": sorted(map(list, m.get("map", {}).items())), "else": [m["else"]] if m.get("else") is not None else []}}
HOSTS = ["example.com", "www.example.com", "www.example.com.", "a.b.example.org", "WWW.Test.CO.UK", "www.test.co.uk.", "m.example.com", "mobile.example.com.", "m.mobile.example.com", "www.m.example.com", "a.m.test.co.jp",
         "m.com", "www.com", "m.www.example.net", "example.github.io", "www.example.github.io", "m.example.github.io.", "1.2.3.4", "[::1]", "co.uk", "www.www.example.com", "wwwexample.com", "www-1.example.com", "www.sub.example.com",
         "abc.onion.com", "www.abc.onion.com.", "m.abc.onion.co.uk", "abc.onion", "onion.com", "localhost", "www.localhost", "localhost.", "orteil.dashnet.org", "www.orteil.dashnet.org", "dashnet.org", "www.bambulab.com", "bambulab.com.", "m.bambulab.com",
         "www.proozy.com"]
def strings(x):
    if isinstance(x, str): yield x
    elif isinstance(x, list):
        for v in x: yield from strings(v)
    elif isinstance(x, dict):
        for k, v in x.items(): yield k; yield from strings(v)
def named(c):
    """the hosts and labels that rules name, but for the lists of the universal rules"""
    own = ("utps-reg-domain-whitelist", "https-upgrade-host-blacklist", "remove-www-subdomain-reg-domain-blacklist", "unmobile-reg-domain-blacklist")
    uni = {x for k, v in c["params"].get("sets", {}).items() if k in own for x in v}
    rest = set(strings([c["rules"], c["commons"], {k: v for k, v in c["params"].get("sets", {}).items() if k not in own}, c["params"].get("named_partitionings", {}), c["params"].get("maps", {})]))
    return rest, uni
def unclaimed(c):
    rest, _ = named(c)
    out = []
    for h in HOSTS:
        b = h.lower().strip("[]").rstrip(".")
        ls = b.split(".")
        claims = {".".join(ls[i:]) for i in range(len(ls))} - {"localhost"}
        if not (claims & {r for r in rest if "." in r or r in ("example", "test", "bambulab", "proozy")}): out.append(h)
    return out
def pieces(c, rng, n):
    l = lists(c)
    u = l["utps"]
    vals = lambda: rng.choice(["=1", "=", "", "=a%20b", "=x+y", "=http://a.b/?c=d", "=%26%3D", "=é", "=a=b"])
    out = ["", "a", "a=1&utm_source=x&a=2", "lang=en", "LANG=en&lang", "hl=en", "x%20y=a%20b&z=%C3%A9+", "UTM_source=1", "xutm_a=1&utm=2", "utm%5Fsource=1&q=%2B", "a&&b=&=c", "%61=1;utm_x=2"]
    for p in l["prefixes"]: out += ["k=1&%s=1&%sx&%s" % (p, p, p[:-1])]
    sel = list(u); rng.shuffle(sel)
    esc = lambda s: s.replace("%", "%25").replace("&", "%26").replace("+", "%2B").replace("#", "%23")
    for k in range(0, len(sel), 14): out.append("&".join(["q=1"] + [esc(x) + vals() for x in sel[k:k + 14]] + ["lang" if k % 3 else "z=1"]))
    for x in sel[:n]: out += [esc(x) + vals(), esc(x) + "x=1&" + x.swapcase() + "=2&x" + x]
    return out
def configs(c, fl): return [dict(c, params=dict(c["params"], flags=f)) for f in fl]
def frags(c, rng):
    u = rng.sample(lists(c)["utps"] or ["x"], 3)
    return ["", "#", "#a", "#utm_source=x", "#a=1&utm_x=2&b=%C3%A9", "#%s&x=%%20y" % u[0], "#lang=en", "#/p?utm_x=1&%s=2" % u[1], "#utm%5Fa&&c"]

def universal(ck, step, np, extra):
    c = load(); rng = ck.rng("universal")
    docf = [f for f in documented(c) if f not in {x for y in FLAGS for x in y}]
    # flags that are about sites only: single ones, and all of them together, must make no difference
    fl = FLAGS + [[f] for f in rng.sample(docf, min(extra, len(docf)))] + [docf]
    hs = unclaimed(c)
    inp = models.inputs(bare=True, lists=lists(c), hosts=hs, frags=frags(c, rng), flags=fl, pieces=pieces(c, rng, 6 if ck.quick else 40))
    docs = ck.model("MC_Default", consts={"Step": step, "NP": np, "Offset": rng.randrange(step)}, inputs=inp, timeout=900 if ck.quick else 7200, workers=8)
    task = {"kind": "task", "node": None, "s": "", "d": "", "to": None}
    cfgs = configs(c, fl)
    items = [{"cfg": d["flags"] - 1, "url": d["url"], "steps": [task, task], "want": [{"k": "ok", "url": d["want"]}, {"k": "ok", "url": d["again"]}]} for d in docs]
    models.expect(ck, "URLs without a rule of their own", items, cfgs)
    return docs, fl

# ------------------------------------------------------------- URLs of the sites the rules are about
class Sites:
    def __init__(self, c):
        strs = set(strings([c["rules"], c["params"], c["commons"]]))
        self.hosts = sorted(s for s in strs if re.fullmatch(r"[a-z0-9-]+(\.[a-z0-9-]+)+", s))
        self.mids = ["amazon", "google", "ebay", "etsy", "bing"] + sorted(s for s in strs if re.fullmatch("[a-z]{3,12}", s))[:60]
        self.tlds = [".com", ".co.uk", ".org"]
        self.paths = sorted(s for s in strs if s.startswith("/") and not any(c in s for c in " \\(?#"))
        self.names = sorted(s for s in strs if re.fullmatch(r"[A-Za-z_0-9-]{1,24}", s))
    def url(self, r, nest=0):
        h = r.choice(self.hosts) if r.random() < .85 else r.choice(self.mids) + r.choice(self.tlds)
        h = r.choice(["", "", "www.", "m.", "a.", "old.", "mobile.", "a.m.", "www.www."]) + h + r.choice(["", "", "", "."])
        p = r.choice(self.paths) if r.random() < .5 else ""
        if r.random() < .6: p = p.rstrip("/") + "/" + "/".join(r.choice(self.names + ["abc", "1", "@user", "", "x-y", "123", "ref=1", "a.b", "-1"]) for _ in range(r.choice([1, 1, 2, 3])))
        q = ""
        if r.random() < .7:
            v = lambda: r.choice(["1", "", "x", "https%3A%2F%2Fwww.example.com%2Fa%3Fb%3D1", "http://a.b/", "//x.y", "a%20b", "utm_x"] + ([re.sub(r"[^A-Za-z0-9._-]", lambda m: "%%%02X" % ord(m[0]), self.url(r, nest - 1))] * 3 if nest else []))
            q = "?" + "&".join(r.choice(self.names) + r.choice(["=" + v(), "=" + v(), ""]) for _ in range(r.choice([1, 2, 3]))) if r.random() < .9 else "?"
        f = r.choice(["", "", "#", "#a", "#utm_source=x", "#x=1&utm_x=2", "#INT=1"])
        return r.choice(["http", "https", "https"]) + "://" + h + (p or r.choice(["", "/"])) + q + f
def suffixes(ck, hosts):
    """registrable domain -> labels of its suffix, for every host on which the library's list says nothing deeper"""
    hs = sorted({h.rstrip(".") for h in hosts})
    q = [p + h for h in hs for p in ("", "www.", "b.a.")]
    res = run.run_cases(ck.harness, [{"id": 0, "cfg": 0, "url": models.URL0, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": False,
                                      "steps": [{"kind": "psl", "node": None, "s": x, "d": "", "to": None} for x in q]}], [{"rules": []}])
    v = [o.get("v") for o in res[0]["obs"]]
    out = {"": 1}
    for k, h in enumerate(hs):
        s = v[3 * k: 3 * k + 3]
        if s[0] and s[0] == s[1] == s[2] != h: out[".".join(h.split(".")[-len(s[0].split(".")) - 1:])] = len(s[0].split("."))
    return out
def case(n, cfg, url, steps=1, **kw):
    t = {"kind": "task", "node": None, "s": "", "d": "", "to": None}
    return dict({"id": n, "cfg": cfg, "url": url, "flags": [], "vars": {}, "ctx": {}, "jctx": {}, "ca": None, "facts": True, "steps": [t] * steps}, **kw)
def sites(ck, n, extra=6):
    """the implementation runs the default configuration; Interp runs the same one"""
    c = load(); rng = ck.rng("sites"); s = Sites(c); docf = documented(c)
    fl = [["no-network"], sorted(set(docf))] + [sorted({"no-network", *rng.sample(docf, rng.choice([1, 2, 3, 5]))}) for _ in range(extra)]
    cs = [case(k, rng.randrange(len(fl)), s.url(rng)) for k in range(n)]
    return ck.conform("URLs of the sites named by rules", cs, configs(c, fl), psl=suffixes(ck, s.hosts + [m + x for m in s.mids for x in s.tlds]))
def settles(ck, n):
    """cleaning what was cleaned changes nothing, on URLs of the sites named by rules"""
    c = load(); rng = ck.rng("settles"); s = Sites(c)
    settles_run(ck, [s.url(rng, 1) for k in range(n)], ["no-network"])
    settles_run(ck, [s.url(rng, 1) for k in range(n // 10)], [])
def settles_run(ck, urls, flags):
    cs = [case(k, 0, u, 2, facts=False) for k, u in enumerate(urls)]
    res = run.run_cases(ck.harness, cs, configs(load(), [list(flags)]))
    bad = errs = used = 0
    for x in cs:
        r = res[x["id"]]
        rep = {"type": "settles", "property": ck.pid, "url": x["url"], "flags": list(flags)}
        if r.get("died") or r.get("panic") or r.get("bad"): ck.violation("cleaning %s: the program: %s" % (x["url"], r.get("died") or r.get("panic") or r.get("bad")), rep); continue
        a, b = r["obs"]
        if a["k"] == "panic" or b["k"] == "panic": ck.violation("cleaning %s panics" % x["url"], rep); continue
        if a["log"] or b["log"]: used += 1; continue
        if a["k"] != "ok": errs += 1; continue
        if b["k"] != "ok" or b["url"] != a["url"]: bad += 1; ck.violation("cleaning %s gives %s, cleaning that gives %s" % (x["url"], a["url"], b["url"] if b["k"] == "ok" else b.get("e")), rep)
    ck.evaluations += 2 * len(urls); ck.traces += len(urls)
    ck.part("cleaning twice, URLs of the sites named by rules, flags %s" % list(flags), cases=len(urls), with_error=errs, using_the_network=used, violations=bad)
def replay_settles(ck, rep): settles_run(ck, [rep["url"]], rep["flags"])

def program(ck, docs, fl, n):
    """the program itself, without a configuration of its own: the built-in one is the default configuration"""
    rng = ck.rng("program"); by = {}
    for d in rng.sample(docs, min(n, len(docs))): by.setdefault(d["flags"] - 1, []).append(d)
    with cli.Scratch() as sc:
        def one(kv):
            k, ds = kv
            args = ["--cache-path", ":memory:", "-j"] + [a for f in fl[k] for a in ("--flag", f)]
            code, so, se = cli.call(ck.cli, args, "".join(d["url"] + "\n" for d in ds).encode(), sc.d)
            try: got = [x["Ok"]["Ok"] for x in json.loads(so)["Ok"]["urls"]]
            except Exception: got = "exit %s: %s" % (code, (so[-300:] + se[-300:]).decode("utf8", "replace"))
            return k, ds, got
        for k, ds, got in cli.pmap(one, list(by.items())):
            want = [d["want"] for d in ds]
            if got != want:
                w = next(((d["url"], a, b) for d, a, b in zip(ds, want, got) if a != b), None) if isinstance(got, list) else None
                ck.violation("url-cleaner %s: %s" % (" ".join("--flag " + f for f in fl[k]), "%s becomes %s, the specification says %s" % (w[0], w[2], w[1]) if w else str(got)[:500]),
                             {"type": "program", "property": ck.pid, "flags": fl[k], "docs": ds[:400]})
    ck.evaluations += sum(map(len, by.values())); ck.traces += sum(map(len, by.values()))
    ck.part("the program with its built-in configuration", urls=sum(map(len, by.values())), runs=len(by))
def replay_program(ck, rep): program(ck, [dict(d, flags=1) for d in rep["docs"]], [rep["flags"]], 10 ** 6)

def c17(ck):
    q = ck.quick
    docs, fl = universal(ck, 701 if q else 61, 1, 3 if q else 12)
    program(ck, docs, fl, 3000)
    flags(ck)
    if not q: universal(ck, 20011, 2, 6)
    sites(ck, 700 if q else 20000, 6 if q else 30)
    settles(ck, 60000 if q else 400000)

# ------------------------------------------------------------- the documented flags about particular sites
def families(c):
    cat = c["params"].get("named_partitionings", {}).get("hwwwwdpafqdnp_categories", {})
    def some(n, k=3): return [h for h in cat.get(n, []) if not h.endswith((".onion", ".i2p"))][:k]
    yt = ["invidious", "uninvidious", "youtube-unshort", "youtube-unlive", "youtube-unembed", "youtube-unplaylist", "youtube-keep-sub-confirmation"]
    q = lambda *ps: [list(p) for p in ps]
    fams = [
        {"name": "yt", "hosts": ["youtube.com", "www.youtube.com", "m.youtube.com"] + some("invidious"), "segs": [["watch"], ["shorts", "abc"], ["live", "a-1"], ["embed", "abc"], ["@chan"], [""], ["playlist"]],
         "query": [q(), q(("v", "x")), q(("list", "L"), ("v", "x"), ("t", "1")), q(("sub_confirmation", "1"), ("list", "L"))], "flags": yt},
        {"name": "tw", "hosts": ["x.com", "www.x.com"] + some("nitter") + some("fixvx"), "segs": [["user"], ["user", "status", "1"], ["intent", "status"], [""], ["search"]],
         "query": [q(), q(("q", "a"), ("z", "b"), ("f", "c"))], "flags": ["nitter", "unnitter", "embed-compatibility", "no-network"]},
        {"name": "bs", "hosts": ["bsky.app", "www.bsky.app"] + some("fxbsky"), "segs": [[""], ["profile", "a.com"], ["profile", "a.com", "post", "1"], ["about"]], "query": [q(), q(("a", "b"))], "flags": ["embed-compatibility", "nitter"]},
        {"name": "bw", "hosts": some("breezewiki", 4), "segs": [["tardis", "wiki", "Genocide"], ["a", "wiki", "B", "c"]], "query": [q(), q(("a", "b"))], "flags": ["breezewiki", "unbreezewiki", "invidious"]},
        {"name": "bw", "hosts": ["tardis.fandom.com", "a.b.fandom.com"], "segs": [["wiki", "Genocide"], ["wiki", "x", "y"], [""]], "query": [q(), q(("a", "b"))], "flags": ["breezewiki", "unbreezewiki", "nitter"]},
        {"name": "di", "hosts": some("discord-external"), "segs": [["external", "tok", "https", "example.com", "a.png"], ["external", "t", "https", "sub.example.org", "d", "e.png"]], "query": [q()], "flags": ["discord-unexternal", "no-network"]},
        {"name": "fa", "hosts": ["furaffinity.net", "www.furaffinity.net", "sfw.furaffinity.net", "d.furaffinity.net"], "segs": [["view", "1"], [""]], "query": [q(), q(("a", "b"))], "flags": ["furaffinity-sfw", "furaffinity-unsfw", "unmobile"]},
        {"name": "ig", "hosts": ["instagram.com", "www.instagram.com"], "segs": [["user", "profilecard"], ["user"], ["p", "profilecard", "x"], ["profilecard"]], "query": [q(), q(("a", "b"))], "flags": ["instagram-unprofilecard", "nitter"]},
        {"name": "ru", "hosts": ["rule34.xxx"], "segs": [["index.php"]], "query": [q(("page", "post"), ("s", "view"), ("id", "1"), ("tags", "x")), q(("page", "post"), ("s", "list"), ("tags", "x"))], "flags": ["remove-unused-search-query"]},
        {"name": "tu", "hosts": ["tumblr.com", "www.tumblr.com", "blog.tumblr.com", "a.b.tumblr.com"], "segs": [[""], ["post", "1"], ["post", "1", "title"], ["x", "post"]], "query": [q(), q(("a", "b"))], "flags": ["tumblr-unsubdomain-blog", "unmobile"]},
    ]
    return [f for f in fams if f["hosts"]], {"invidious": cat.get("invidious", []), "nitter": cat.get("nitter", []), "breezewiki": cat.get("breezewiki", []), "x": cat.get("fixvx", [])}
def flags(ck):
    c = load(); fams, hosts = families(c)
    vs = [dict(c["params"]["vars"]), dict(c["params"]["vars"], **{"invidious-host": "inv.example.org", "nitter-host": "nit.example.org", "breezewiki-host": "bw.example.org", "twitter-embed-host": "tw.example.org", "bluesky-embed-host": "bs.example.org"})]
    docs = ck.model("MC_Flags", inputs=models.inputs(bare=True, families=fams, hosts=hosts, vars=[sorted(map(list, v.items())) for v in vs]), workers=8)
    cfgs, idx, items = [], {}, []
    task = {"kind": "task", "node": None, "s": "", "d": "", "to": None}
    for d in docs:
        k = (tuple(sorted(d["flags"])), d["vars"] - 1)
        if k not in idx: idx[k] = len(cfgs); cfgs.append(dict(c, params=dict(c["params"], flags=list(k[0]), vars=vs[k[1]])))
        items.append({"cfg": idx[k], "url": d["url"], "steps": [task], "want": [{"k": "ok", "url": d["want"]}]})
    models.expect(ck, "documented flags about particular sites", items, cfgs)
