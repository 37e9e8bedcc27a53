"""Census of MIR constructs: who produces, moves, inspects and drops values of a type."""
import re

LIFE = re.compile(r"'[a-z_]\w*\s?")


def strip_ref(t):
    t = str(t or "")
    while True:
        u = LIFE.sub("", t).strip()
        for p in ("&mut ", "&", "std::pin::Pin<"):
            if u.startswith(p):
                u = u[len(p):]
        if u == t:
            return u
        t = u


def head(t):
    return strip_ref(t).split("<")[0]


def targs(t):
    """generic arguments of a type string"""
    t = strip_ref(t)
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}" and not cur.endswith("-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def is_result(t):
    return head(t) in ("std::result::Result", "core::result::Result", "Result", "std::io::Result", "std::fmt::Result")


def operands(x):
    """operands and places inside an rvalue or argument list"""
    if isinstance(x, list):
        if len(x) >= 2 and x[0] in ("c", "m") and isinstance(x[1], list):
            yield (x[0], x[1])
            return
        if len(x) >= 3 and x[0] in ("ref", "addr") and isinstance(x[2], list):
            yield ("ref", x[2])
            return
        if len(x) >= 2 and x[0] in ("discr", "len") and isinstance(x[1], list):
            yield (x[0], x[1])
            return
        if len(x) == 2 and x[0] == "k":
            return
        for y in x:
            yield from operands(y)


def consts(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
            yield x[1]
            return
        for y in x:
            yield from consts(y)


class Use:
    def __init__(self, kind, block, stmt=None, term=None, arg=None, place=None, dest=None, rv=None):
        self.kind, self.block, self.stmt, self.term, self.arg, self.place, self.dest, self.rv = kind, block, stmt, term, arg, place, dest, rv


def uses(f):
    """local -> uses (moves, copies, references, discriminants, call arguments, drops)"""
    out = {}
    for bi, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=":
                for k, p in operands(s[2]):
                    out.setdefault(p[0], []).append(Use(k, bi, stmt=s, place=p, dest=s[1], rv=s[2]))
                if len(s[1]) > 1:
                    out.setdefault(s[1][0], []).append(Use("write", bi, stmt=s, place=s[1]))
        t = b["t"]
        if t["k"] == "call":
            for i, a in enumerate(t["args"]):
                for k, p in operands(a):
                    out.setdefault(p[0], []).append(Use("arg", bi, term=t, arg=i, place=p, dest=t.get("dest")))
            for k, p in operands(t["f"]):
                out.setdefault(p[0], []).append(Use("callee", bi, term=t, place=p))
        elif t["k"] == "switch":
            for k, p in operands(t["on"]):
                out.setdefault(p[0], []).append(Use("switch", bi, term=t, place=p))
        elif t["k"] == "drop":
            out.setdefault(t["place"][0], []).append(Use("drop", bi, term=t, place=t["place"]))
    return out


def callee(t):
    """(path, fn dict) of a call terminator"""
    f = t["f"]
    if isinstance(f, list) and len(f) == 2 and f[0] == "k" and isinstance(f[1], dict) and "fn" in f[1]:
        d = f[1]["fn"]
        return d["path"], d
    return None, None


def short(path):
    """Type::method of a path"""
    p = re.sub(r"::<[^:]*>", "", str(path))
    p = re.sub(r"<[^<>]*>", "", p)
    p = re.sub(r"<[^<>]*>", "", p)
    q = [x for x in p.split("::") if x]
    return "::".join(q[-2:])


def calls(f):
    for bi, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        t = b["t"]
        if t["k"] == "call":
            p, d = callee(t)
            yield bi, t, p, d


def workspace_fns(w, tests=False):
    for k, f in sorted(w.fns.items()):
        if "promoted" in k:
            continue
        yield k, f
