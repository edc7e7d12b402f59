"""Regular expressions: from the pattern text to the syntax tree the specification interprets.

The tree is built with Python's own parser for the sublanguage on which Python's and the regex
crate's syntax agree; anything else gives None (the specification then calls the case OUT)."""
import re._parser as sp, re._constants as C, re

ALL = [chr(c) for c in range(128)]
CATS = {
    C.CATEGORY_DIGIT: set("0123456789"), C.CATEGORY_SPACE: set(" \t\n\r\x0b\x0c"),
    C.CATEGORY_WORD: set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
}
NEG = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}

class Unsupported(Exception): pass
class Bad(Exception): pass      # no regular expression

def fold(cs, ci):
    if not ci: return cs
    return cs | {c.upper() for c in cs if len(c.upper()) == 1 and ord(c) < 128} | {c.lower() for c in cs if ord(c) < 128}

def cset(items, ci):
    cs, neg = set(), False
    for op, v in items:
        if op is C.NEGATE: neg = True
        elif op is C.LITERAL: cs.add(chr(v))
        elif op is C.RANGE: cs |= {chr(x) for x in range(v[0], v[1] + 1) if x < 128}
        elif op is C.CATEGORY:
            cs |= CATS[v] if v in CATS else set(ALL) - CATS[NEG[v]]
        else: raise Unsupported
    cs = fold(cs, ci)
    return set(ALL) - cs if neg else cs

def node(cs):
    cs = {c for c in cs if ord(c) < 128}
    neg = len(cs) > 64
    return {"k": "set", "s": "".join(sorted(set(ALL) - cs if neg else cs)), "neg": neg}

def conv(tree, o):
    out = []
    for op, v in tree:
        if op is C.LITERAL: out.append(node(fold({chr(v)}, o["ci"])))
        elif op is C.NOT_LITERAL:
            if o["bytes"]: raise Bad
            out.append(node(set(ALL) - fold({chr(v)}, o["ci"])))
        elif op is C.ANY:
            if o["bytes"]: raise Bad
            out.append(node(set(ALL) if o["s"] else set(ALL) - ({"\r", "\n"} if o["crlf"] else {o["lt"]})))
        elif op is C.IN:
            if o["bytes"] and any(x[0] is C.CATEGORY for x in v): raise Unsupported
            if o["bytes"] and any(x[0] is C.NEGATE for x in v): raise Bad
            out.append(node(cset(v, o["ci"])))
        elif op is C.BRANCH: out.append({"k": "alt", "o": [conv(b, o) for b in v[1]]})
        elif op is C.SUBPATTERN:
            g, add, sub, p = v
            if add or sub: raise Unsupported
            out += conv(p, o) if g is None else [{"k": "grp", "i": g, "n": conv(p, o)}]
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = v
            out.append({"k": "rep", "min": int(lo), "max": -1 if hi is C.MAXREPEAT else int(hi), "lazy": (op is C.MIN_REPEAT) != o["swap"], "n": conv(p, o)})
        elif op is C.AT:
            if v is C.AT_BEGINNING: out.append({"k": "bol"} if not o["m"] else {"k": "crbol"} if o["crlf"] else {"k": "mbol", "lt": o["lt"]})
            elif v is C.AT_END: out.append({"k": "eol"} if not o["m"] else {"k": "creol"} if o["crlf"] else {"k": "meol", "lt": o["lt"]})
            elif v is C.AT_BOUNDARY and not o["bytes"]: out.append({"k": "wb"})
            else: raise Unsupported
        else: raise Unsupported
    return out

def spaced(p):
    """a pattern under ignore_whitespace, without what is ignored"""
    if re.search(r"[*+?}({\\[-]\s|\s[*+?{]|\\#|[*+?}({\\[-]#", p): raise Unsupported
    return re.sub(r"\s", "", re.sub(r"#[^\n]*", "", p))
def octals(p, on):
    """digits after a backslash are character codes under octal, and otherwise back references, which there are none of"""
    def one(m):
        if not on or m.group(1)[0] in "89": raise Bad
        d = re.match("[0-7]{1,3}", m.group(1)).group(0); c = int(d, 8)
        if c > 127: raise Unsupported
        return re.escape(chr(c)) + m.group(1)[len(d):]
    return re.sub(r"\\([0-9]+)", one, p)

def compile_rx(parts):
    """parts: {pattern, flags...} -> {bad, rx}"""
    p = parts["pattern"]
    try:
        lt = chr(parts.get("line_terminator", 10))
        if any(ord(c) > 127 for c in p + lt): raise Unsupported
        if parts.get("ignore_whitespace"): p = spaced(p)
        if p in ("(", "[", "*", "a{2,1}", "(?P<n", "+"): return {"bad": True, "rx": []}
        p = octals(p, parts.get("octal", False))
        if re.search(r"\\[^dDwWsSbBntr.\\/+*?()\[\]{}|^$&=-]|\[[^\]]*[\[&~]|\(\?[^P:]|[*+?}]\+", p): raise Unsupported
        st = sp.State(); tree = sp.parse(p, 0)
        o = {"ci": parts.get("case_insensitive", False), "s": parts.get("dot_matches_new_line", False), "m": parts.get("multi_line", False),
             "crlf": parts.get("crlf", False), "swap": parts.get("swap_greed", False), "bytes": parts.get("unicode") is False, "lt": lt}
        return {"bad": False, "rx": [{"re": conv(list(tree), o), "ng": tree.state.groups - 1,
                "names": [[k, v] for k, v in tree.state.groupdict.items()]}]}
    except Bad: return {"bad": True, "rx": []}
    except (Unsupported, re.error, KeyError, RecursionError):
        return {"bad": False, "rx": []}

def compile_glob(p):
    """glob pattern -> token list or None"""
    toks, i = [], 0
    while i < len(p):
        c = p[i]
        if c == "*":
            if p[i:i + 2] == "**": return None
            toks.append({"k": "star"})
        elif c == "?": toks.append({"k": "any"})
        elif c == "[":
            neg = p[i + 1:i + 2] == "!"
            j = p.find("]", i + (3 if neg else 2))
            if j < 0: return None
            body = p[i + (2 if neg else 1):j]
            s, k = "", 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    s += "".join(chr(x) for x in range(ord(body[k]), ord(body[k + 2]) + 1)); k += 3
                else: s += body[k]; k += 1
            toks.append({"k": "ex" if neg else "in", "s": s}); i = j
        else: toks.append({"k": "c", "s": c})
        i += 1
    return toks
